#define _GNU_SOURCE
#include "ops.h"
#include "stringptrlist.h"
#include "kvlist.h"
#include "stringlist.h"
#include "sptrlist.h"
void* w_spl_new(size_t n) { return stringptrlist_new(n); }
int w_spl_add(void* l, char* p, size_t n) { return stringptrlist_add((stringptrlist*)l, p, n); }
int w_spl_set(void* l, size_t i, char* p, size_t n) { return stringptrlist_set((stringptrlist*)l, i, p, n); }
int w_spl_insert(void* l, size_t i, char* p, size_t n) { int r = stringptrlist_insert((stringptrlist*)l, i, p, n); return r; }
void* w_spl_get(void* l, size_t i) { return stringptrlist_get((stringptrlist*)l, i); }
size_t w_spl_size(void* l) { return stringptrlist_getsize((stringptrlist*)l); }
void w_spl_free(void* l) { stringptrlist_free((stringptrlist*)l); }
void* w_kv_new(size_t n) { return kv_new(n); }
int w_kv_add(void* l, char* p, size_t n, void* v) { return kv_add((kvlist*)l, p, n, v); }
int w_kv_set(void* l, size_t i, char* p, size_t n, void* v) { return kv_set((kvlist*)l, i, p, n, v); }
int w_kv_get(void* l, size_t i, char** p, size_t* n, void** v) { stringptrv* s = kv_get((kvlist*)l, i); if(!s) return 0; *p = s->ptr; *n = s->size; *v = s->value; return 1; }
size_t w_kv_size(void* l) { return kv_getsize((kvlist*)l); }
void w_kv_free(void* l) { kv_free((kvlist*)l); }
int w_kv_find(void* l, char* p, size_t n, void** v) { stringptr s; s.ptr = p; s.size = n; return kv_find(l, &s, v); }
void* w_sl_new(size_t n) { return stringlist_new(n); }
int w_sl_add(void* l, char* s) { return stringlist_add((stringlist*)l, s); }
int w_sl_add_dup(void* l, char* s) { return stringlist_add_dup(l, s); }
char* w_sl_get(void* l, size_t i) { return stringlist_get(l, i); }
size_t w_sl_size(void* l) { return stringlist_getsize((stringlist*)l); }
void w_sl_delete(void* l, size_t i) { stringlist_delete((stringlist*)l, i); }
void w_sl_free(void* l) { stringlist_free((stringlist*)l); }
size_t w_sl_foreach(void* lv, char** out, size_t max) { stringlist* l = lv; char* r; size_t n = 0; stringlist_foreach(l, r) { if(n < max) out[n] = r; n++; } return n; }
void* w_sp_new(size_t n) { return sptrlist_new(n); }
int w_sp_add(void* l, void* p) { return sptrlist_add((sptrlist*)l, p); }
int w_sp_set(void* l, void* p, size_t i) { return sptrlist_set((sptrlist*)l, p, i); }
void* w_sp_get(void* l, size_t i) { return sptrlist_get((sptrlist*)l, i); }
size_t w_sp_size(void* l) { return sptrlist_get_count((sptrlist*)l); }
void w_sp_free(void* l) { sptrlist_free((sptrlist*)l); }
size_t w_sb_iter(void* lv, void** out, size_t max) { sblist* l = lv; void* p; size_t n = 0; sblist_iter(l, p) { if(n < max) out[n] = p; n++; } return n; }
