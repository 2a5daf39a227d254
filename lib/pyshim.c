// Allocation count for the library that is loaded into a Python interpreter.
#include <stdlib.h>
#include <string.h>
static long live;
void* mc_malloc(size_t n) { void* p = malloc(n); if (p) __atomic_add_fetch(&live, 1, __ATOMIC_SEQ_CST); return p; }
void* mc_calloc(size_t n, size_t s) { void* p = calloc(n, s); if (p) __atomic_add_fetch(&live, 1, __ATOMIC_SEQ_CST); return p; }
void* mc_realloc(void* q, size_t n) { void* p = realloc(q, n); if (!q && p) __atomic_add_fetch(&live, 1, __ATOMIC_SEQ_CST); return p; }
char* mc_strdup(const char* s) { char* p = strdup(s); if (p) __atomic_add_fetch(&live, 1, __ATOMIC_SEQ_CST); return p; }
char* mc_strndup(const char* s, size_t n) { char* p = strndup(s, n); if (p) __atomic_add_fetch(&live, 1, __ATOMIC_SEQ_CST); return p; }
void mc_free(void* p) { if (p) __atomic_sub_fetch(&live, 1, __ATOMIC_SEQ_CST); free(p); }
long mc_live(void) { return __atomic_load_n(&live, __ATOMIC_SEQ_CST); }
