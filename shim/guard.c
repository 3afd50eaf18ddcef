#include "mem.h"
#define PAGE_SIZE 4096
#include "guard_alloc.c"
void* w_guard_alloc(size_t n) { return guard_alloc(n); }
void w_guard_free(void* p, size_t n) { guard_free(p, n); }
