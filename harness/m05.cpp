#include "faults.hpp"
int main(int argc, char** argv) { Main m("M05"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); }; fault_scenarios(m, false, true); return m.run(); }
