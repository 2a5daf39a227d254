#pragma once
namespace octave { typedef void handler_function(int); struct interrupt_handler { handler_function* int_handler; handler_function* brk_handler; }; inline interrupt_handler mc_current; inline interrupt_handler set_interrupt_handler(const volatile interrupt_handler& h, bool = true) { interrupt_handler o = mc_current; mc_current.int_handler = h.int_handler; mc_current.brk_handler = h.brk_handler; return o; } }
