/* tables through which the scenarios drive the header-only containers */
#ifndef OPS_H
#define OPS_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
/* an item is represented by a number; "mask" tells which bits the item type can hold */
struct list_ops {
	const char* name; uint64_t mask; size_t itemsize; int is_ptr;
	void* (*make)(int is_dynamic, void* storage); size_t storage_size;
	int (*add)(void*, uint64_t); int (*insert)(void*, uint64_t, size_t); void (*del)(void*, size_t);
	uint64_t (*get)(void*, size_t); int (*set)(void*, uint64_t, size_t); size_t (*size)(void*); int (*empty)(void*);
	void (*sort)(void*); size_t (*insert_sorted)(void*, uint64_t);
	void (*free_values)(void*); void (*destroy)(void*, int is_dynamic); size_t (*foreach_)(void*, uint64_t*, size_t);
	size_t (*count2)(void*); size_t (*isz)(void*);
};
extern const struct list_ops* const tg_ops[]; extern const struct list_ops* const tgi_ops[];
/* maps */
struct map_ops {
	const char* name; uint64_t kmask, vmask; int key_ptr, val_ptr, keeps_deleted; size_t buckets; size_t storage_size;
	void* (*make)(int is_dynamic, void* storage);
	int64_t (*insert)(void*, uint64_t, uint64_t); int64_t (*insert_nocheck)(void*, uint64_t, uint64_t);
	int64_t (*find)(void*, uint64_t); int (*contains)(void*, uint64_t); int (*get)(void*, uint64_t, uint64_t*);
	void (*del)(void*, int64_t); size_t (*size)(void*);
	uint64_t (*getkey)(void*, int64_t); uint64_t (*getval)(void*, int64_t); int (*setvalue)(void*, uint64_t, int64_t);
	void (*fini)(void*, int flags, int is_dynamic);
	size_t (*foreach_)(void*, int64_t* its, size_t max); /* iteration order of the map */
	size_t (*drain)(void*); /* delete everything using the documented loop */
	int (*valid)(void*, int64_t);
};
extern const struct map_ops* const map_ops_tg[]; extern const struct map_ops* const map_ops_tgi[];
int sim_key_cmp(uint64_t a, uint64_t b);        /* order used by every container, supplied by the scenario */
unsigned sim_key_hash(uint64_t k);
extern int (*sim_ptr_cmp)(const char*, const char*);

/* wrappers around macro APIs of the block-list family */
void* w_spl_new(size_t); int w_spl_add(void*, char*, size_t); int w_spl_set(void*, size_t, char*, size_t); int w_spl_insert(void*, size_t, char*, size_t); void* w_spl_get(void*, size_t); size_t w_spl_size(void*); void w_spl_free(void*);
void* w_kv_new(size_t); int w_kv_add(void*, char*, size_t, void*); int w_kv_set(void*, size_t, char*, size_t, void*); int w_kv_get(void*, size_t, char**, size_t*, void**); size_t w_kv_size(void*); void w_kv_free(void*); int w_kv_find(void*, char*, size_t, void**);
void* w_sl_new(size_t); int w_sl_add(void*, char*); int w_sl_add_dup(void*, char*); char* w_sl_get(void*, size_t); size_t w_sl_size(void*); void w_sl_delete(void*, size_t); void w_sl_free(void*); size_t w_sl_foreach(void*, char**, size_t);
void* w_sp_new(size_t); int w_sp_add(void*, void*); int w_sp_set(void*, void*, size_t); void* w_sp_get(void*, size_t); size_t w_sp_size(void*); void w_sp_free(void*);
size_t w_sb_iter(void*, void** out, size_t max);
#ifdef __cplusplus
}
#endif
#endif
