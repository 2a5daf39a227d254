// Counts live blocks of operator new, so that objects the C++ classes allocate with new are
// covered by the balance check as well. Include in exactly one file of a harness.
#pragma once
#include <cstdlib>
#include <new>
static long mc_new_live = 0; static unsigned long mc_new_errors = 0;
static void* mc_new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); mc_new_live++; return p; }
void* operator new(size_t n) { return mc_new(n); }
void* operator new[](size_t n) { return mc_new(n); }
void operator delete(void* p) noexcept { if (p) mc_new_live--; free(p); }
void operator delete[](void* p) noexcept { if (p) mc_new_live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) mc_new_live--; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) mc_new_live--; free(p); }
