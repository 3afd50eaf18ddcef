#include "ops.h"
#include "tglist.h"
#include "tgilist.h"
struct s3 { unsigned char b[3]; }; struct s24 { uint64_t a, b, c; }; struct s40 { char pad[8]; uint64_t v; char tail[24]; };
#define ENC_int(r) ((int)(r))
#define DEC_int(x) ((uint64_t)(unsigned)(x))
#define ENC_uchar(r) ((unsigned char)(r))
#define DEC_uchar(x) ((uint64_t)(x))
#define ENC_short(r) ((short)(r))
#define DEC_short(x) ((uint64_t)(unsigned short)(x))
#define ENC_u64(r) ((uint64_t)(r))
#define DEC_u64(x) (x)
#define ENC_ptr(r) ((char*)(uintptr_t)(r))
#define DEC_ptr(x) ((uint64_t)(uintptr_t)(x))
static struct s3 ENC_s3(uint64_t r) { struct s3 s = {{ r, r >> 8, r >> 16 }}; return s; }
static uint64_t DEC_s3(struct s3 s) { return s.b[0] | s.b[1] << 8 | s.b[2] << 16; }
static struct s24 ENC_s24(uint64_t r) { struct s24 s = { r, ~r, r * 3 }; return s; }
static uint64_t DEC_s24(struct s24 s) { return s.b == ~s.a && s.c == s.a * 3 ? s.a : 0xdeadbeefdeadbeefull; }
static struct s40 ENC_s40(uint64_t r) { struct s40 s; memset(s.pad, (int)r, 8); s.v = r; memset(s.tail, (int)~r, 24); return s; }
static uint64_t DEC_s40(struct s40 s) { int i; for(i = 0; i < 8; i++) if(s.pad[i] != (char)s.v) return 0xdeadbeefdeadbeefull; for(i = 0; i < 24; i++) if(s.tail[i] != (char)~s.v) return 0xdeadbeefdeadbeefull; return s.v; }
typedef unsigned char uchar_t_; typedef short short_t_; typedef uint64_t u64_t_; typedef char* ptr_t_; typedef int int_t_; typedef struct s3 s3_t_; typedef struct s24 s24_t_; typedef struct s40 s40_t_;

#define COMMON(K, P, ISPTR, MASK) \
static int cmp_##P##K(const void* a, const void* b) { return sim_key_cmp(DEC_##K(*(K##_t_*)a), DEC_##K(*(K##_t_*)b)); }
#define TG(K, MASK, ISPTR) \
typedef tglist_decl(L_##K, K##_t_) L_##K; COMMON(K, tg_, ISPTR, MASK) \
static void* make_##K(int dyn, void* st) { L_##K* l; if(dyn) return tglist_new(); l = st; tglist_init(l); return l; } \
static int add_##K(void* v, uint64_t r) { L_##K* l = v; return tglist_add(l, ENC_##K(r)); } \
static int ins_##K(void* v, uint64_t r, size_t p) { L_##K* l = v; return tglist_insert(l, ENC_##K(r), p); } \
static void del_##K(void* v, size_t p) { L_##K* l = v; tglist_delete(l, p); } \
static uint64_t get_##K(void* v, size_t p) { L_##K* l = v; return DEC_##K(tglist_get(l, p)); } \
static int set_##K(void* v, uint64_t r, size_t p) { L_##K* l = v; return tglist_set(l, ENC_##K(r), p); } \
static size_t size_##K(void* v) { L_##K* l = v; return tglist_getsize(l); } \
static size_t count2_##K(void* v) { L_##K* l = v; return tglist_get_count(l); } \
static size_t isz_##K(void* v) { L_##K* l = v; return tglist_itemsize(l); } \
static int empty_##K(void* v) { L_##K* l = v; return tglist_empty(l); } \
static void sort_##K(void* v) { L_##K* l = v; tglist_sort(l, cmp_tg_##K); } \
static size_t inss_##K(void* v, uint64_t r) { L_##K* l = v; K##_t_ it = ENC_##K(r); return tglist_insert_sorted(l, it, cmp_tg_##K); } \
static void fv_##K(void* v) { L_##K* l = v; tglist_free_values(l); } \
static void destroy_##K(void* v, int dyn) { L_##K* l = v; if(dyn) tglist_free(l); else tglist_free_items(l); } \
static size_t fe_##K(void* v, uint64_t* o, size_t m) { L_##K* l = v; size_t i, n = 0; tglist_foreach(l, i) { if(n < m) o[n] = DEC_##K(tglist_get(l, i)); n++; } return n; } \
static const struct list_ops tg_##K = { "tglist(" #K ")", MASK, sizeof(K##_t_), ISPTR, make_##K, sizeof(L_##K), add_##K, ins_##K, del_##K, get_##K, set_##K, size_##K, empty_##K, sort_##K, inss_##K, ISPTR ? fv_##K : 0, destroy_##K, fe_##K, count2_##K, isz_##K };
TG(int, 0xffffffff, 0) TG(uchar, 0xff, 0) TG(short, 0xffff, 0) TG(u64, ~0ull, 0) TG(ptr, ~0ull, 1) TG(s3, 0xffffff, 0) TG(s24, ~0ull, 0) TG(s40, ~0ull, 0)
const struct list_ops* const tg_ops[] = { &tg_int, &tg_uchar, &tg_short, &tg_u64, &tg_ptr, &tg_s3, &tg_s24, &tg_s40, 0 };

#define TGI(K, IDX, MASK, ISPTR) \
typedef tgilist_decl(I_##K##IDX, K##_t_, IDX) I_##K##IDX; \
static void* imake_##K##IDX(int dyn, void* st) { I_##K##IDX* l; if(dyn) return tgilist_new(); l = st; tgilist_init(l); return l; } \
static int iadd_##K##IDX(void* v, uint64_t r) { I_##K##IDX* l = v; return tgilist_add(l, ENC_##K(r)); } \
static int iins_##K##IDX(void* v, uint64_t r, size_t p) { I_##K##IDX* l = v; return tgilist_insert(l, ENC_##K(r), p); } \
static void idel_##K##IDX(void* v, size_t p) { I_##K##IDX* l = v; tgilist_delete(l, p); } \
static uint64_t iget_##K##IDX(void* v, size_t p) { I_##K##IDX* l = v; return DEC_##K(tgilist_get(l, p)); } \
static int iset_##K##IDX(void* v, uint64_t r, size_t p) { I_##K##IDX* l = v; return tgilist_set(l, ENC_##K(r), p); } \
static size_t isize_##K##IDX(void* v) { I_##K##IDX* l = v; return tgilist_getsize(l); } \
static size_t iisz_##K##IDX(void* v) { I_##K##IDX* l = v; return tgilist_itemsize(l); } \
static int iempty_##K##IDX(void* v) { I_##K##IDX* l = v; return tgilist_empty(l); } \
static void ifv_##K##IDX(void* v) { I_##K##IDX* l = v; tgilist_free_values(l); } \
static void idestroy_##K##IDX(void* v, int dyn) { I_##K##IDX* l = v; if(dyn) tgilist_free(l); else tgilist_free_items(l); } \
static const struct list_ops tgi_##K##IDX = { "tgilist(" #K "," #IDX ")", MASK, sizeof(K##_t_), ISPTR, imake_##K##IDX, sizeof(I_##K##IDX), iadd_##K##IDX, iins_##K##IDX, idel_##K##IDX, iget_##K##IDX, iset_##K##IDX, isize_##K##IDX, iempty_##K##IDX, 0, 0, ISPTR ? ifv_##K##IDX : 0, idestroy_##K##IDX, 0, isize_##K##IDX, iisz_##K##IDX };
typedef unsigned short ushort_; typedef unsigned uint_;
TGI(int, ushort_, 0xffffffff, 0) TGI(ptr, uint_, ~0ull, 1) TGI(s24, size_t, ~0ull, 0) TGI(s40, ushort_, ~0ull, 0) TGI(u64, uint_, ~0ull, 0) TGI(uchar, short, 0xff, 0) TGI(s3, int, 0xffffff, 0)
const struct list_ops* const tgi_ops[] = { &tgi_intushort_, &tgi_ptruint_, &tgi_s24size_t, &tgi_s40ushort_, &tgi_u64uint_, &tgi_ucharshort, &tgi_s3int, 0 };
