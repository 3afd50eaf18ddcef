/* one instance of the pool allocator; M and E are its slot count and slot size, U makes the slot size unsigned */
#include "mem.h"
#define SSA_MAXELEM M
#ifdef U
#define SSA_ELEMSIZE ((size_t)E)
#else
#define SSA_ELEMSIZE E
#endif
#include "ssalloc.c"
#define CAT_(a, b, c, d) a##b##c##d
#define CAT(a, b, c, d) CAT_(a, b, c, d)
static void w_init(void* p) { ssa_init(p); }
static void* w_alloc(void* p, size_t n) { return ssa_alloc(p, n); }
static void w_free(void* p, void* b) { ssa_free(p, b); }
static void* w_salloc(size_t n) { return SSALLOC(n); }
static void w_sfree(void* b) { SSNULL(b); }
static void w_sinit(void) { SSINIT; }
const struct ssa_ops CAT(ssa_, M, _, E) = { M, E, sizeof(ssa_pool), w_init, w_alloc, w_free, w_salloc, w_sfree, w_sinit };
