/* compiled twice: with and without BMAP_USE_TGILIST */
#include "ops.h"
#include "hbmap.h"
#ifdef BMAP_USE_TGILIST
#define TAG "tgi"
#define TABLE map_ops_tgi
#define KEEPS 1
#else
#define TAG "tg"
#define TABLE map_ops_tg
#define KEEPS 0
#endif
struct s12 { unsigned char b[12]; }; struct s24 { uint64_t a, b, c; };
typedef int int_t_; typedef char* ptr_t_; typedef struct s12 s12_t_; typedef struct s24 s24_t_; typedef uint64_t u64_t_; typedef short short_t_;
#define ENC_int(r) ((int)(r))
#define DEC_int(x) ((uint64_t)(unsigned)(x))
#define ENC_short(r) ((short)(r))
#define DEC_short(x) ((uint64_t)(unsigned short)(x))
#define ENC_u64(r) ((uint64_t)(r))
#define DEC_u64(x) (x)
#define ENC_ptr(r) ((char*)(uintptr_t)(r))
#define DEC_ptr(x) ((uint64_t)(uintptr_t)(x))
static struct s12 ENC_s12(uint64_t r) { struct s12 s; memcpy(s.b, &r, 8); r = ~r; memcpy(s.b + 8, &r, 4); return s; }
static uint64_t DEC_s12(struct s12 s) { uint64_t r; uint32_t t; memcpy(&r, s.b, 8); memcpy(&t, s.b + 8, 4); return t == (uint32_t)~r ? r : 0xdeadbeefdeadbeefull; }
static struct s24 ENC_s24(uint64_t r) { struct s24 s = { r, ~r, r * 3 }; return s; }
static uint64_t DEC_s24(struct s24 s) { return s.b == ~s.a && s.c == s.a * 3 ? s.a : 0xdeadbeefdeadbeefull; }
#define CMPV(K) static int cmp_##K(const void* a, const void* b) { return sim_key_cmp(DEC_##K(*(K##_t_*)a), DEC_##K(*(K##_t_*)b)); } static unsigned hash_##K(const K##_t_ k) { return sim_key_hash(DEC_##K(k)); }
CMPV(int) CMPV(short) CMPV(u64) CMPV(s12)
static int cmp_ptr(const void* a, const void* b) { return sim_ptr_cmp(*(char**)a, *(char**)b); }
static unsigned hash_ptr(char* const k) { return sim_key_hash((uint64_t)(uintptr_t)k); }

#define BM(K, V, KM, VM, KP, VP) \
typedef bmap_decl(B_##K##V, K##_t_, V##_t_) B_##K##V; \
static void* bmake_##K##V(int dyn, void* st) { B_##K##V* b; if(dyn) return bmap_new(cmp_##K); b = st; bmap_init(b, cmp_##K); return b; } \
static int64_t bins_##K##V(void* m, uint64_t k, uint64_t v) { B_##K##V* b = m; K##_t_ key = ENC_##K(k); return bmap_insert(b, key, ENC_##V(v)); } \
static int64_t binn_##K##V(void* m, uint64_t k, uint64_t v) { B_##K##V* b = m; K##_t_ key = ENC_##K(k); return bmap_insert_nocheck(b, key, ENC_##V(v)); } \
static int64_t bfind_##K##V(void* m, uint64_t k) { B_##K##V* b = m; K##_t_ key = ENC_##K(k); return bmap_find(b, key); } \
static int bcont_##K##V(void* m, uint64_t k) { B_##K##V* b = m; K##_t_ key = ENC_##K(k); return bmap_contains(b, key); } \
static int bget_##K##V(void* m, uint64_t k, uint64_t* o) { B_##K##V* b = m; K##_t_ key = ENC_##K(k); V##_t_* p = bmap_get(b, key); if(!p) return 0; *o = DEC_##V(*p); return 1; } \
static void bdel_##K##V(void* m, int64_t p) { B_##K##V* b = m; bmap_delete(b, p); } \
static size_t bsize_##K##V(void* m) { B_##K##V* b = m; return bmap_getsize(b); } \
static uint64_t bgk_##K##V(void* m, int64_t p) { B_##K##V* b = m; return DEC_##K(bmap_getkey(b, p)); } \
static uint64_t bgv_##K##V(void* m, int64_t p) { B_##K##V* b = m; return DEC_##V(bmap_getval(b, p)); } \
static int bsv_##K##V(void* m, uint64_t v, int64_t p) { B_##K##V* b = m; return bmap_setvalue(b, ENC_##V(v), p); } \
static void bfini_##K##V(void* m, int fl, int dyn) { B_##K##V* b = m; bmap_fini(b, fl); if(dyn) free(b); } \
static size_t bfe_##K##V(void* m, int64_t* o, size_t mx) { B_##K##V* b = m; size_t i; for(i = 0; i < bmap_getsize(b); i++) if(i < mx) o[i] = i; return i; } \
static size_t bdrain_##K##V(void* m) { B_##K##V* b = m; size_t n = 0; while(bmap_getsize(b)) { bmap_delete(b, 0); n++; } return n; } \
static const struct map_ops b_##K##V = { "bmap(" #K "," #V "," TAG ")", KM, VM, KP, VP, KEEPS, 0, sizeof(B_##K##V), bmake_##K##V, bins_##K##V, binn_##K##V, bfind_##K##V, bcont_##K##V, bget_##K##V, bdel_##K##V, bsize_##K##V, bgk_##K##V, bgv_##K##V, bsv_##K##V, bfini_##K##V, bfe_##K##V, bdrain_##K##V, 0 };
BM(int, int, 0xffffffff, 0xffffffff, 0, 0) BM(ptr, ptr, ~0ull, ~0ull, 1, 1) BM(s12, s24, ~0ull, ~0ull, 0, 0) BM(short, u64, 0xffff, ~0ull, 0, 0) BM(ptr, int, ~0ull, 0xffffffff, 1, 0)

#define HB(K, V, N, KM, VM, KP, VP) \
typedef hbmap_decl(H_##K##V##N, K##_t_, V##_t_, N) H_##K##V##N; \
static void* hmake_##K##V##N(int dyn, void* st) { H_##K##V##N* b; if(dyn) return hbmap_new(cmp_##K, hash_##K, N); b = st; hbmap_init(b, cmp_##K, hash_##K); return b; } \
static int64_t hins_##K##V##N(void* m, uint64_t k, uint64_t v) { H_##K##V##N* b = m; K##_t_ key = ENC_##K(k); return hbmap_insert(b, key, ENC_##V(v)); } \
static int64_t hinn_##K##V##N(void* m, uint64_t k, uint64_t v) { H_##K##V##N* b = m; K##_t_ key = ENC_##K(k); return hbmap_insert_nocheck(b, key, ENC_##V(v)); } \
static int64_t hfind_##K##V##N(void* m, uint64_t k) { H_##K##V##N* b = m; K##_t_ key = ENC_##K(k); return hbmap_find(b, key); } \
static int hcont_##K##V##N(void* m, uint64_t k) { H_##K##V##N* b = m; K##_t_ key = ENC_##K(k); return hbmap_contains(b, key); } \
static int hget_##K##V##N(void* m, uint64_t k, uint64_t* o) { H_##K##V##N* b = m; K##_t_ key = ENC_##K(k); V##_t_* p = hbmap_get(b, key); if(!p) return 0; *o = DEC_##V(*p); return 1; } \
static void hdel_##K##V##N(void* m, int64_t p) { H_##K##V##N* b = m; hbmap_iter it = p; hbmap_delete(b, it); } \
static size_t hsize_##K##V##N(void* m) { H_##K##V##N* b = m; size_t n = 0; hbmap_iter it; hbmap_foreach(b, it) n++; return n; } \
static uint64_t hgk_##K##V##N(void* m, int64_t p) { H_##K##V##N* b = m; hbmap_iter it = p; return DEC_##K(hbmap_getkey(b, it)); } \
static uint64_t hgv_##K##V##N(void* m, int64_t p) { H_##K##V##N* b = m; hbmap_iter it = p; return DEC_##V(hbmap_getval(b, it)); } \
static int hsv_##K##V##N(void* m, uint64_t v, int64_t p) { H_##K##V##N* b = m; hbmap_iter it = p; return hbmap_setvalue(b, ENC_##V(v), it); } \
static void hfini_##K##V##N(void* m, int fl, int dyn) { H_##K##V##N* b = m; hbmap_fini(b, fl); if(dyn) free(b); } \
static size_t hfe_##K##V##N(void* m, int64_t* o, size_t mx) { H_##K##V##N* b = m; size_t n = 0; hbmap_iter it; hbmap_foreach(b, it) { if(n < mx) o[n] = it; n++; if(n > 100000) break; } return n; } \
static size_t hdrain_##K##V##N(void* m) { H_##K##V##N* b = m; size_t n = 0; hbmap_iter it; hbmap_foreach(b, it) { while(hbmap_iter_index_valid(b, it)) { hbmap_delete(b, it); n++; } } return n; } \
static int hvalid_##K##V##N(void* m, int64_t p) { H_##K##V##N* b = m; hbmap_iter it = p; return hbmap_iter_valid(b, it); } \
static const struct map_ops h_##K##V##N = { "hbmap(" #K "," #V "," #N "," TAG ")", KM, VM, KP, VP, KEEPS, N, sizeof(H_##K##V##N), hmake_##K##V##N, hins_##K##V##N, hinn_##K##V##N, hfind_##K##V##N, hcont_##K##V##N, hget_##K##V##N, hdel_##K##V##N, hsize_##K##V##N, hgk_##K##V##N, hgv_##K##V##N, hsv_##K##V##N, hfini_##K##V##N, hfe_##K##V##N, hdrain_##K##V##N, hvalid_##K##V##N };
HB(int, int, 1, 0xffffffff, 0xffffffff, 0, 0) HB(int, u64, 3, 0xffffffff, ~0ull, 0, 0) HB(ptr, ptr, 8, ~0ull, ~0ull, 1, 1) HB(s12, s24, 16, ~0ull, ~0ull, 0, 0) HB(short, int, 100, 0xffff, 0xffffffff, 0, 0)
const struct map_ops* const TABLE[] = { &b_intint, &b_ptrptr, &b_s12s24, &b_shortu64, &b_ptrint, &h_intint1, &h_intu643, &h_ptrptr8, &h_s12s2416, &h_shortint100, 0 };
