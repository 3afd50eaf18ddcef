/* tables through which the scenarios drive the two include-as-source allocators */
#ifndef MEM_H
#define MEM_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
struct ssa_ops { size_t maxelem, elemsize, pool_size; void (*init)(void*); void* (*alloc)(void*, size_t); void (*free_)(void*, void*); void* (*salloc)(size_t); void (*sfree)(void*); void (*sinit)(void); };
extern const struct ssa_ops ssa_2_16, ssa_4_1, ssa_8_8, ssa_16_3, ssa_64_32, ssa_128_100, ssa_256_6, ssa_1024_1, ssa_4_4096, ssa_2048_2, ssa_131072_2;
void* w_guard_alloc(size_t); void w_guard_free(void*, size_t);
#ifdef __cplusplus
}
#endif
#endif
