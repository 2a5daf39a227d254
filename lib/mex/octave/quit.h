#pragma once
inline int mc_signals_handled = 0;
inline void octave_handle_signal(void) { mc_signals_handled++; }
