#include "faults.hpp"
int main(int argc, char** argv) { Main m("M04"); m.parse(argc, argv); m.cleanup_after = [] { shim::reset_all(); }; fault_scenarios(m, true, false); return m.run(); }
