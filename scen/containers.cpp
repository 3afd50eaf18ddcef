// C05-C09: containers against reference models, with failing allocations
#include "common.hpp"
#include "../shim/ops.h"
#include <unordered_map>

// ---------------------------------------------------------------- order and hash shared by all containers
static uint32_t g_mod = 0;                      // keys are equal when equal modulo g_mod (0: full comparison)
static bool g_rev; static uint32_t g_hash_kind;
static std::unordered_map<uint64_t, uint64_t>* g_ids; // pointers -> deterministic identity
static uint64_t ident(uint64_t k) { if(g_ids) { auto i = g_ids->find(k); if(i != g_ids->end()) return i->second; } return k; }
static uint64_t cls(uint64_t k) { k = ident(k); return g_mod ? k % g_mod : k; }
static uint64_t g_want; static bool g_want_on;   // the item searched for must be the first argument
extern "C" int sim_key_cmp(uint64_t a, uint64_t b) {
	uint64_t x = cls(a), y = cls(b); int r = x < y ? -1 : x > y ? 1 : 0; if(g_rev) r = -r;
	return r * (int)(1 + (x ^ y) % 3);           // any negative / positive value is a valid answer
}
extern "C" unsigned sim_key_hash(uint64_t k) { uint64_t c = cls(k); switch(g_hash_kind) { case 0: return c; case 1: return 0xffffffffu; case 2: return mix(c); case 3: return 0x80000000u + c; default: return c % 2 ? 0xfffffff0u + c : 3; } }
static int ptr_cmp(const char* a, const char* b) { return sim_key_cmp((uint64_t)(uintptr_t)a, (uint64_t)(uintptr_t)b); }
extern "C" { int (*sim_ptr_cmp)(const char*, const char*) = ptr_cmp; }
struct Ids { std::unordered_map<uint64_t, uint64_t> m; Ids() { g_ids = &m; } ~Ids() { g_ids = nullptr; } };
static void order() { uint32_t k = choose(4, "order"); g_mod = k == 0 ? 0 : k == 1 ? 16 : k == 2 ? 4 : 200; g_rev = choose(2, "reverse"); }

// containers larger than 8 and 16 bit counters can number
static bool big_run() { return choose(thorough ? 60 : 120, "large") == 1; }
static size_t big_n() { static const size_t n[] = {250, 1100, 4000, 66000}; uint32_t k = choose(12, "large-size"); return n[k == 11 ? 3 : k % 3] + choose(300, "extra"); }

// ---------------------------------------------------------------- C05
static std::string item_bytes(size_t sz, uint32_t id) { std::string s(sz, 0); Rng r(id * 7919 + sz); for(size_t i = 0; i < sz; i += 8) { uint64_t v = r.next(); memcpy(&s[i], &v, std::min<size_t>(8, sz - i)); } if(sz >= 1) s[0] = (char)id; if(sz >= 2) s[1] = (char)(id >> 8); return s; }
struct CmpCtx { size_t sz; const std::string* want; uint64_t calls; uint64_t magic; };
static CmpCtx* g_ctx;
static uint64_t item_key(const void* p, size_t sz) { const unsigned char* b = (const unsigned char*)p; return sz >= 2 ? b[0] | b[1] << 8 : b[0]; }
static int item_cmp_c(const void* a, const void* b, CmpCtx* c) {
	c->calls++;
	if(c->want) CHECK(memcmp(a, c->want->data(), c->sz) == 0, "comparison-arguments", "the compare function's first argument is not the item searched for");
	return sim_key_cmp(item_key(a, c->sz), item_key(b, c->sz));
}
static int item_cmp(const void* a, const void* b) { return item_cmp_c(a, b, g_ctx); }
static int item_cmp_r(const void* a, const void* b, void* ctx) { CmpCtx* c = (CmpCtx*)ctx; CHECK(c && c == g_ctx, "comparison-context", "the context given was not passed to the compare function"); return item_cmp_c(a, b, c); }

struct SL { int kind; sblist* l; bool dyn; sblist* st; size_t sz; std::vector<std::string> m; bool sorted; std::set<std::string> owned; };
static std::vector<std::string>* g_pool;
static const char* kinds[] = {"sblist", "stringptrlist", "kvlist", "stringlist", "sptrlist"};
static bool sorted_model(const SL& s) { for(size_t i = 1; i < s.m.size(); i++) if(sim_key_cmp(item_key(s.m[i-1].data(), s.sz), item_key(s.m[i].data(), s.sz)) > 0) return false; return true; }
static size_t far_pos(size_t n) { static const size_t base[] = {(size_t)1 << 32, (size_t)1 << 31, (size_t)1 << 33, (size_t)1 << 63, (size_t)1 << 16, ~(size_t)0 - 1}; size_t p = base[choose(6, "far-base")] + choose(3, "far-by"); return p < n ? n : p; }
static void verify(SL& s, bool deep) {
	CHECK(sblist_getsize(s.l) == s.m.size(), "wrong-count", "%s holds %zu items, expected %zu", kinds[s.kind], (size_t)sblist_getsize(s.l), s.m.size());
	CHECK(!!sblist_empty(s.l) == s.m.empty(), "wrong-count", "empty wrong");
	size_t step = deep || s.m.size() < 64 ? 1 : s.m.size() / 16;
	for(size_t i = 0; i < s.m.size(); i += step) {
		void* p = sblist_get(s.l, i);
		CHECK(p, "item-missing", "%s item %zu of %zu is not there", kinds[s.kind], i, s.m.size());
		CHECK(memcmp(p, s.m[i].data(), s.sz) == 0, "wrong-item", "%s item %zu of %zu (size %zu) differs from what was stored", kinds[s.kind], i, s.m.size(), s.sz);
	}
	CHECK(!sblist_get(s.l, s.m.size()), "item-past-end", "item %zu of %zu is not null", s.m.size(), s.m.size());
	CHECK(!sblist_get(s.l, s.m.size() + 1 + (size_t)choose(3, "past") * 1000) && !sblist_get(s.l, ~(size_t)0) && !sblist_get(s.l, far_pos(s.m.size())), "item-past-end", "far item is not null");
	if(deep && s.m.size() < 500) {
		std::vector<void*> out(s.m.size() + 4); size_t n = w_sb_iter(s.l, out.data(), out.size());
		CHECK(n == s.m.size(), "wrong-iteration", "iteration visited %zu of %zu items", n, s.m.size());
		for(size_t i = 0; i < n; i++) CHECK(memcmp(out[i], s.m[i].data(), s.sz) == 0, "wrong-iteration", "iteration item %zu wrong", i);
		if(s.kind == 3) { std::vector<char*> cs(n + 4); CHECK(w_sl_foreach(s.l, cs.data(), cs.size()) == n, "wrong-iteration", "stringlist iteration"); for(size_t i = 0; i < n; i++) CHECK(memcmp(&cs[i], s.m[i].data(), sizeof(char*)) == 0, "wrong-iteration", "stringlist iteration item %zu", i); }
	}
}
static std::string gen_item(SL& s) {
	if(s.kind == 0) return item_bytes(s.sz, choose(4, "big-id") ? choose(40, "id") : choose(60000, "id"));
	std::string b(s.sz, 0); std::string& t = (*g_pool)[choose(g_pool->size(), "str")];
	char* p = (char*)t.data(); size_t n = t.size(); void* v = (void*)(uintptr_t)(0x1000 + choose(1000, "val"));
	if(s.kind == 4) { memcpy(&b[0], &v, sizeof v); return b; }
	memcpy(&b[0], &p, sizeof p); if(s.sz >= 16) memcpy(&b[8], &n, sizeof n); if(s.sz >= 24) memcpy(&b[16], &v, sizeof v);
	return b;
}
static void unpack(const std::string& b, char*& p, size_t& n, void*& v) { memcpy(&p, &b[0], 8); memcpy(&v, &b[0], 8); n = 0; if(b.size() >= 16) memcpy(&n, &b[8], 8); if(b.size() >= 24) memcpy(&v, &b[16], 8); }

// sorted insertion and search in lists of more items than 16 bits can number; only the neighbourhood of each position is looked at, which makes such a run cheap
static bool sorted_run() { return choose(thorough ? 150 : 250, "sorted-large") == 1; }
static size_t sorted_n() { static const size_t n[] = {65000, 66000, 32700, 131000}; return n[choose(4, "sorted-size")] + choose(700, "extra"); }
static void sorted_sblist() {
	size_t sz = choose(2, "itemsize") ? 4 : 8, n = sorted_n(); g_mod = 0; g_rev = false; HeapMark hm = heap_mark(); FaultCount f0 = fsnap(); sblist* l = sblist_new(sz, 4096); if(!l) { CHECK(fired(f0, {F_ALLOC}), "spurious-failure", "new failed"); return; }
	auto bytes = [&](uint64_t v) { std::string b(sz, 0); b[0] = v; b[1] = v >> 8; b[2] = v >> 16; return b; }; auto at = [&](size_t i) -> uint64_t { unsigned char* p = (unsigned char*)sblist_get(l, i); CHECK(p, "wrong-item", "no item %zu of %zu", i, (size_t)sblist_getsize(l)); return p[0] | p[1] << 8 | p[2] << 16; };
	auto cmp = [](const void* a, const void* b) -> int { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; int u = x[0] | x[1] << 8 | x[2] << 16, v = y[0] | y[1] << 8 | y[2] << 16; return (u > v) - (u < v); };
	size_t have = 0; budget(LIB_BUDGET + n * 400); for(uint64_t i = 0; i < n; i++) { std::string b = bytes(i * 3); if(sblist_add(l, &b[0])) have++; else CHECK(fired(f0, {F_ALLOC}), "spurious-failure", "adding failed"); } CHECK(sblist_getsize(l) == have, "wrong-count", "%zu of %zu", (size_t)sblist_getsize(l), have); bool full = have == n;
	for(int k = 12 + choose(20, "probes"); k > 0; k--) {
		budget(LIB_BUDGET); uint64_t v = choose(4, "where") == 0 ? 65536 * 3 - 40 + choose(80, "near") : choose(n * 3 + 4, "v"); std::string b = bytes(v); size_t f = sblist_bsearch(l, &b[0], cmp); bool has = f != (size_t)-1; CHECK(!has || (f < have && at(f) == v), "wrong-find", "search among %zu items returned %zu", have, f);
		if(full) CHECK(has || v % 3 || v >= n * 3, "wrong-find", "value %llu is in the list of %zu items, the search did not find it", (unsigned long long)v, n);
		size_t r = sblist_insert_sorted(l, &b[0], cmp); if(r == (size_t)-1) { CHECK(fired(f0, {F_ALLOC}), "spurious-failure", "insert_sorted"); continue; } have++; CHECK(sblist_getsize(l) == have && r < have, "wrong-result", "insert_sorted returned %zu of %zu", r, have);
		CHECK(at(r) == v && (!r || at(r - 1) <= v) && (r + 1 >= have || v <= at(r + 1)), "not-sorted", "item inserted at %zu of %zu breaks the order", r, have); f = sblist_bsearch(l, &b[0], cmp); CHECK(f < have && at(f) == v, "wrong-find", "the item just inserted at %zu of %zu is not found", r, have);
		if(choose(3, "delete") == 0) { sblist_delete(l, r); have--; if(v % 3 == 0 && v < n * 3) { std::string c = bytes(v); f = sblist_bsearch(l, &c[0], cmp); CHECK(f == (size_t)-1 ? !has : at(f) == v, "wrong-find", "after deleting a duplicate"); } }
	}
	probe("sorted-over-64k"); sblist_free(l); heap_expect_same(hm, "memory-leak", "after freeing a large list");
}
static void big_kvlist() { // more entries than 16 bits can count
	size_t n = 65537 + choose(3000, "n"); HeapMark hm = heap_mark(); NoFaults nf; sblist* l = w_kv_new(1000); std::vector<std::string> key(n); bool only_len = choose(2, "lengths"); probe("kvlist-over-64k");
	for(size_t i = 0; i < n; i++) { key[i] = only_len ? std::string(1 + i % 97, 'k') + std::to_string(i) : "key" + std::to_string(i); budget(LIB_BUDGET); CHECK(w_kv_add(l, &key[i][0], key[i].size(), (void*)(uintptr_t)(i + 1)), "spurious-failure", "add"); }
	for(int k = 0; k < 12; k++) { size_t i = k < 3 ? n - 1 - choose(3, "end") : k < 6 ? 65534 + choose(5, "mark") : choose(n, "i"); if(i >= n) continue; void* got = nullptr; budget(LIB_BUDGET + n * 300); std::string q = key[i]; int r = w_kv_find(l, &q[0], q.size(), &got); CHECK(r && got == (void*)(uintptr_t)(i + 1), "wrong-find", "key %zu of %zu: result %d", i, n, r); }
	void* got = nullptr; budget(LIB_BUDGET + n * 300); std::string q = "absent"; CHECK(!w_kv_find(l, &q[0], q.size(), &got), "wrong-find", "an absent key was found among %zu", n); w_kv_free(l); heap_expect_same(hm, "memory-leak", "after freeing a large list");
}
static void big_sblist() {
	static const size_t sizes[] = {8, 4, 3, 16, 24}, blocks[] = {0, 1, 7, 256, 1000}; SL s{}; s.kind = 0; s.sz = sizes[choose(5, "itemsize")]; size_t bi = blocks[choose(5, "block")], n = big_n(); HeapMark hm = heap_mark(); FaultCount f0 = fsnap();
	if(bi == 1 && n > 10000) bi = 64;
	auto oom = [&] { return fired(f0, {F_ALLOC}); }; g_mod = 0; uint32_t seed = choose(1000, "data");
	auto bytes = [&](uint32_t id) { std::string b(s.sz, (char)seed); b[0] = id; b[1] = id >> 8; b[2] = id >> 16; return b; };
	s.l = sblist_new(s.sz, bi); if(!s.l) { CHECK(oom(), "spurious-failure", "new failed"); return; }
	for(uint32_t i = 0; i < n; i++) { budget(LIB_BUDGET); std::string b = bytes(i); size_t r = i % 5 == 4 ? sblist_addi(s.l, &b[0]) : i % 5 == 3 ? (sblist_insert(s.l, &b[0], s.m.size()) ? s.m.size() : (size_t)-1) : sblist_add(s.l, &b[0]) ? s.m.size() : (size_t)-1; if(r == (size_t)-1) { CHECK(oom(), "spurious-failure", "adding item %u failed", i); probe("add-failed"); continue; } CHECK(r == s.m.size(), "wrong-result", "addi returned %zu, new item is %zu", r, s.m.size()); s.m.push_back(b); }
	auto full = [&] {
		budget(LIB_BUDGET * 10 + n * 400); verify(s, true); CHECK(sblist_getsize(s.l) == s.m.size(), "wrong-count", "%zu items", (size_t)sblist_getsize(s.l));
		for(size_t i = 0; i < s.m.size(); i++) { void* p = sblist_get(s.l, i); CHECK(p && !memcmp(p, s.m[i].data(), s.sz), "wrong-item", "item %zu of %zu (size %zu) differs from what was stored", i, s.m.size(), s.sz); }
		std::vector<void*> out(s.m.size() + 4); size_t k = w_sb_iter(s.l, out.data(), out.size()); CHECK(k == s.m.size(), "wrong-iteration", "iteration visited %zu of %zu items", k, s.m.size()); for(size_t i = 0; i < k; i++) CHECK(!memcmp(out[i], s.m[i].data(), s.sz), "wrong-iteration", "iteration item %zu wrong", i);
	};
	full(); probe(n > 65536 ? "list-over-64k" : "list-over-256");
	for(int k = choose(6, "ops"); k > 0; k--) {
		budget(LIB_BUDGET * 4 + n * 200); uint32_t op = choose(5, "op"); size_t pos = choose(s.m.size() + 1, "pos"); if(choose(3, "low")) pos = s.m.size() - pos % std::min<size_t>(300, s.m.size() + 1); std::string b = bytes(choose(3, "id") ? choose(n, "which") : choose(1 << 20, "id")); CmpCtx c{s.sz, nullptr, 0, 0}; g_ctx = &c;
		if(op == 0) { if(sblist_insert(s.l, &b[0], pos)) s.m.insert(s.m.begin() + pos, b); else CHECK(oom(), "spurious-failure", "insert"); }
		else if(op == 1) { sblist_delete(s.l, pos); if(pos < s.m.size()) s.m.erase(s.m.begin() + pos); }
		else if(op == 2) { bool w = pos < s.m.size(); CHECK(!!sblist_set(s.l, &b[0], pos) == w, "wrong-result", "set of item %zu of %zu", pos, s.m.size()); if(w) s.m[pos] = b; }
		else { // sorted operations; the first two bytes order the items
			sblist_sort(s.l, item_cmp); auto want = s.m; std::sort(want.begin(), want.end()); for(size_t i = 0; i < s.m.size(); i++) s.m[i].assign((char*)sblist_get(s.l, i), s.sz); auto got = s.m; std::sort(got.begin(), got.end()); CHECK(got == want, "sort-lost-items", "sorting changed the set of items"); CHECK(sorted_model(s), "not-sorted", "list of %zu items not sorted", s.m.size());
			for(int j = 0; j < 4; j++) {
				c.calls = 0; c.want = &b; size_t r = op == 3 ? sblist_insert_sorted(s.l, &b[0], item_cmp) : sblist_bsearch(s.l, &b[0], item_cmp);
				CHECK(c.calls <= s.m.size() + 2, "too-many-comparisons", "%llu comparisons for %zu items", (unsigned long long)c.calls, s.m.size());
				if(op == 3) { if(r == (size_t)-1) { CHECK(oom(), "spurious-failure", "insert_sorted"); continue; } CHECK(r <= s.m.size(), "wrong-result", "insert_sorted returned %zu of %zu", r, s.m.size()); s.m.insert(s.m.begin() + r, b); size_t lo = r ? r - 1 : 0; for(size_t i = lo; i + 1 < s.m.size() && i < r + 1; i++) CHECK(sim_key_cmp(item_key(s.m[i].data(), s.sz), item_key(s.m[i + 1].data(), s.sz)) <= 0, "not-sorted", "item inserted at %zu of %zu breaks the order", r, s.m.size()); }
				else { bool has = false; for(auto& x : s.m) has |= item_key(x.data(), s.sz) == item_key(b.data(), s.sz); CHECK((r != (size_t)-1) == has && (!has || (r < s.m.size() && item_key(s.m[r].data(), s.sz) == item_key(b.data(), s.sz))), "wrong-find", "search among %zu items returned %zd", s.m.size(), r); }
				b = bytes(choose(1 << 17, "id"));
			}
		}
		full();
	}
	sblist_free(s.l); heap_expect_same(hm, "memory-leak", "after freeing a large list");
}
SCENARIO(C05) {
	if(choose_in_run(30, 1, 2, "big-kvlist")) return big_kvlist();
	arm_some({F_ALLOC});
	order();
	if(big_run()) return big_sblist();
	if(sorted_run()) return sorted_sblist();
	std::vector<std::string> pool = {"", "a", "b", "abc", "abd", "a", "xyz", std::string(50, 'q'), std::string("n\0l", 3)}; g_pool = &pool;
	HeapMark hm0 = heap_mark();
	if(choose(20, "absurd") == 19) { // block sizes no memory can hold: adding has to fail, nothing else
		huge_ok = true; size_t is = (size_t)1 << choose(6, "isz"), bi = choose(2, "wrap") ? ~(size_t)0 / is + 1 + choose(6, "by") : (size_t)1 << (34 + choose(27, "shift")); sblist* l; { NoFaults nf; l = sblist_new(is, bi); } budget(LIB_BUDGET); Buf it(std::string(40, 'i'));
		bool ok = choose(2, "insert") ? sblist_insert(l, it.p, 0) : choose(2, "addi") ? sblist_addi(l, it.p) != (size_t)-1 : sblist_add(l, it.p); // a smaller block would do as well
		CHECK(sblist_getsize(l) == ok && (ok ? sblist_get(l, 0) && !memcmp(sblist_get(l, 0), it.p, is) : !sblist_get(l, 0)), "wrong-item", "after adding an item to a list with blocks of %zu items of %zu bytes", bi, is); sblist_free(l); heap_expect_same(hm0, "memory-leak", "list with an absurd block size"); probe("absurd-block"); huge_ok = false;
	}
	std::vector<SL> ls; static const size_t sizes[] = {4, 8, 1, 16, 2, 3, 12, 24, 100, 1000, 4096, 4097, 5000, 2048, 2049};
	int ops = 0; uint32_t nlists = 1 + choose(3, "lists");
	for(; ops < 90 && (ops < 2 || more(30, "op")); ops++) {
		Span sp; budget(LIB_BUDGET * 4);
		FaultCount f0 = fsnap(); auto oom = [&] { return fired(f0, {F_ALLOC}); };
		if(ls.size() < nlists && (ls.empty() || choose(3, "make") == 0)) {
			SL s{}; s.kind = choose(3, "family") ? 0 : 1 + choose(4, "kind"); s.dyn = true;
			static const size_t blocks[] = {1, 2, 3, 0, 7, 64, 1000}; size_t bi = blocks[choose(7, "block")];
			if(s.kind == 0) {
				s.sz = sizes[choose(15, "itemsize")]; uint32_t how = choose(4, "how");
				if(how == 1) { s.dyn = false; s.st = new sblist; memset(s.st, 0xC3, sizeof *s.st); s.l = s.st; sblist_init(s.l, s.sz, bi); }
				else if(how == 2) {
					size_t n = choose(6, "n"), tail = choose(2, "tail") ? choose(s.sz, "tailbytes") : 0; char* data; { NoFaults nf; data = (char*)malloc(n * s.sz + tail); }
					for(size_t i = 0; i < n; i++) { s.m.push_back(item_bytes(s.sz, choose(40, "id"))); memcpy(data + i * s.sz, s.m[i].data(), s.sz); }
					bool have = n * s.sz + tail;
					s.l = sblist_new_from_data(s.sz, data, n * s.sz + tail);
					if(!s.l) { CHECK(oom(), "spurious-failure", "new_from_data failed"); CHECK(!have || is_live(data), "freed-callers-data", "failed new_from_data freed the caller's memory"); free(data); continue; }
					if(choose(2, "set-block")) sblist_set_blockitems(s.l, 1 + choose(9, "block"));
					probe("list-from-data");
				} else s.l = sblist_new(s.sz, bi);
			} else {
				s.l = s.kind == 1 ? (sblist*)w_spl_new(bi) : s.kind == 2 ? (sblist*)w_kv_new(bi) : s.kind == 3 ? (sblist*)w_sl_new(bi) : (sblist*)w_sp_new(bi);
				s.sz = s.kind == 1 ? sizeof(stringptr) : s.kind == 2 ? sizeof(stringptrv) : sizeof(void*);
			}
			ev("new", s.kind, s.sz, bi);
			if(!s.l) { CHECK(oom(), "spurious-failure", "list creation failed although no allocation failed"); probe("new-failed"); continue; }
			ls.push_back(s); verify(ls.back(), true);
			continue;
		}
		SL& s = ls[choose(ls.size(), "list")];
		auto added = [&](bool ok, const char* what) { if(!ok) { CHECK(oom(), "spurious-failure", "%s on a list of %zu items of %zu bytes failed although no allocation failed", what, s.m.size(), s.sz); probe("add-failed"); } return ok; };
		uint32_t op = choose(s.kind == 0 ? 16 : 9, "what");
		ev("op", op, s.m.size());
		if(op <= 2) {
			std::string b = gen_item(s); char* p; size_t n; void* v; if(s.kind) unpack(b, p, n, v); Buf ib(b);
			int r = s.kind == 0 ? sblist_add(s.l, ib.p) : s.kind == 1 ? w_spl_add(s.l, p, n) : s.kind == 2 ? w_kv_add(s.l, p, n, v) : s.kind == 3 ? w_sl_add(s.l, p) : w_sp_add(s.l, v);
			CHECK(r == 0 || r == 1, "wrong-result", "add returned %d", r);
			if(added(r, "add")) s.m.push_back(b);
		} else if(op == 3) {
			size_t pos = choose(s.m.size() + 3, "pos"); if(choose(8, "far") == 7) pos = far_pos(s.m.size()); std::string b = gen_item(s); char* p; size_t n; void* v; if(s.kind) unpack(b, p, n, v); Buf ib(b);
			int r = s.kind == 1 ? w_spl_set(s.l, pos, p, n) : s.kind == 2 ? w_kv_set(s.l, pos, p, n, v) : s.kind == 4 ? w_sp_set(s.l, v, pos) : sblist_set(s.l, ib.p, pos);
			CHECK(!!r == (pos < s.m.size()), "wrong-result", "set of item %zu of %zu returned %d", pos, s.m.size(), r);
			if(r) s.m[pos] = b;
		} else if(op == 4 || op == 5) {
			size_t pos = choose(s.m.size() + (op == 4 ? 0 : 3) + (s.m.empty() ? 1 : 0), "pos");
			if(op == 5 && choose(8, "far") == 7) pos = choose(2, "very") ? ~(size_t)0 - choose(2, "wrap") : far_pos(s.m.size());
			if(s.kind == 3) w_sl_delete(s.l, pos); else sblist_delete(s.l, pos);
			if(pos < s.m.size()) s.m.erase(s.m.begin() + pos); else probe("delete-out-of-range");
		} else if(op == 6) {
			size_t pos = choose(s.m.size() + 1, "pos"); std::string b = gen_item(s); char* p; size_t n; void* v; if(s.kind) unpack(b, p, n, v); Buf ib(b);
			int r = s.kind == 1 ? w_spl_insert(s.l, pos, p, n) : sblist_insert(s.l, ib.p, pos);
			if(added(r, "insert")) s.m.insert(s.m.begin() + pos, b);
		} else if(op == 7) {
			void* p = sblist_pop(s.l);
			CHECK(!!p == !s.m.empty(), "wrong-result", "pop on %zu items returned %s", s.m.size(), p ? "an item" : "null");
			if(p) { CHECK(memcmp(p, s.m.back().data(), s.sz) == 0, "wrong-item", "pop returned another item than the last"); s.m.pop_back(); }
		} else if(op == 8) {
			if(s.kind == 1) {
				std::string w = pool[choose(pool.size(), "find")]; stringptr q; Buf qb(w); q.ptr = qb.p; q.size = w.size();
				ssize_t want = -1; for(size_t i = 0; i < s.m.size() && want < 0; i++) { char* p; size_t n; void* v; unpack(s.m[i], p, n, v); if(std::string(p, n) == w) want = i; }
				CHECK(stringptrlist_find(s.l, &q) == want, "wrong-find", "find returned another position than %zd", want);
				CHECK(!!stringptrlist_contains(s.l, &q) == (want >= 0), "wrong-find", "contains wrong");
			} else if(s.kind == 2) {
				std::string w = pool[choose(pool.size(), "find")]; Buf qb(w); void* want = nullptr; bool f = false; for(size_t i = 0; i < s.m.size() && !f; i++) { char* p; size_t n; void* v; unpack(s.m[i], p, n, v); if(std::string(p, n) == w) { want = v; f = true; } }
				void* got = (void*)7; int r = w_kv_find(s.l, qb.p, w.size(), &got);
				CHECK(!!r == f && (!f || got == want), "wrong-find", "kv_find wrong");
			} else if(s.kind == 3) { // duplicates belong to the caller
				std::string w = pool[choose(pool.size() - 1, "str")]; HeapMark h = heap_mark();
				Buf ib(w); int r = w_sl_add_dup(s.l, ib.p);
				if(added(r, "add_dup")) { char* c = w_sl_get(s.l, s.m.size()); CHECK(c && c != ib.p && is_live(c) && !strcmp(c, w.c_str()), "wrong-item", "duplicated string wrong"); char* keep = (char*)pool[1].data(); CHECK(sblist_set(s.l, &keep, s.m.size()) == 1, "wrong-result", "set"); s.m.push_back(std::string((char*)&keep, 8)); free(c); }
				else heap_expect_same(h, "memory-leak", "after a failed add_dup");
			} else if(!s.m.empty()) { size_t i = choose(s.m.size(), "i"); void* v; memcpy(&v, &s.m[i][0], 8); if(s.kind == 4) CHECK(w_sp_get(s.l, i) == v, "wrong-item", "sptrlist_get"); else CHECK(sblist_item_from_index(s.l, i) == sblist_get(s.l, i), "wrong-item", "item_from_index"); }
		} else if(op == 9) {
			std::string b = gen_item(s); Buf ib(b); size_t r = sblist_addi(s.l, ib.p);
			if(r != (size_t)-1) { CHECK(r == s.m.size(), "wrong-result", "addi returned %zu, new item is %zu", r, s.m.size()); s.m.push_back(b); } else added(false, "addi");
		} else if(op == 10 || op == 11) { // sorted insertion
			if(!sorted_model(s)) { CmpCtx c{s.sz, nullptr, 0, 0}; g_ctx = &c; sblist_sort(s.l, item_cmp); 
				std::vector<std::string> got; for(size_t i = 0; i < s.m.size(); i++) got.push_back(std::string((char*)sblist_get(s.l, i), s.sz));
				auto a = got, b2 = s.m; std::sort(a.begin(), a.end()); std::sort(b2.begin(), b2.end()); CHECK(a == b2, "sort-lost-items", "sorting changed the set of items");
				s.m = got; CHECK(sorted_model(s), "not-sorted", "list of %zu items not sorted after sorting", s.m.size()); }
			std::string b = gen_item(s); Buf ib(b); CmpCtx c{s.sz, &b, 0, 0}; g_ctx = &c;
			size_t r = op == 10 ? sblist_insert_sorted(s.l, ib.p, item_cmp) : sblist_insert_sorted_r(s.l, ib.p, item_cmp_r, &c);
			CHECK(c.calls <= s.m.size() + 2, "too-many-comparisons", "%llu comparisons for %zu items", (unsigned long long)c.calls, s.m.size());
			if(r == (size_t)-1) added(false, "insert_sorted");
			else { CHECK(r <= s.m.size(), "wrong-result", "insert_sorted returned %zu of %zu", r, s.m.size()); s.m.insert(s.m.begin() + r, b); CHECK(sorted_model(s), "not-sorted", "item inserted at %zu of %zu breaks the order", r, s.m.size()); }
		} else if(op == 12 || op == 13) {
			if(!sorted_model(s)) continue;
			std::string b = gen_item(s); if(!s.m.empty() && choose(2, "present")) b = s.m[choose(s.m.size(), "which")];
			Buf ib(b); CmpCtx c{s.sz, &b, 0, 0}; g_ctx = &c;
			size_t r = op == 12 ? sblist_bsearch(s.l, ib.p, item_cmp) : sblist_bsearch_r(s.l, ib.p, item_cmp_r, &c);
			bool has = false; for(auto& x : s.m) has |= sim_key_cmp(item_key(x.data(), s.sz), item_key(b.data(), s.sz)) == 0;
			if(r == (size_t)-1) CHECK(!has, "not-found", "present item not found among %zu", s.m.size());
			else { CHECK(r < s.m.size() && has && sim_key_cmp(item_key(s.m[r].data(), s.sz), item_key(b.data(), s.sz)) == 0, "wrong-find", "search returned position %zu of %zu which is another item", r, s.m.size()); }
		} else if(op == 14) {
			uint32_t k = choose(3, "sub");
			if(k == 0) { int r = sblist_grow_if_needed(s.l); added(r, "grow"); }
			else if(k == 1) { size_t n = choose(s.sz <= 8 ? 300 : 40, "bulk"); uint32_t id0 = choose(1000, "id"); bool up = choose(2, "up"); for(size_t i = 0; i < n; i++) { std::string b = item_bytes(s.sz, up ? id0 + i : id0 + n - i); if(!sblist_add(s.l, &b[0])) { added(false, "add"); break; } s.m.push_back(b); } }
			else { sblist_free_items(s.l); s.m.clear(); verify(s, true); }
		} else if(op == 15) {
			// a list of pointers to allocated values
			SL t{}; t.sz = sizeof(void*); t.kind = 4; HeapMark h = heap_mark(); FaultCount fz = fsnap();
			t.l = sblist_new(sizeof(void*), choose(5, "block")); if(!t.l) { CHECK(fired(fz, {F_ALLOC}), "spurious-failure", "new"); continue; }
			size_t n = choose(12, "n"); std::vector<void*> vals;
			for(size_t i = 0; i < n; i++) { void* v; { NoFaults nf; v = choose(6, "null") == 5 ? nullptr : malloc(1 + choose(20, "len")); } if(sblist_add(t.l, &v)) vals.push_back(v); else free(v); }
			sblist_free_values(t.l); size_t left = 0; for(void* v : vals) if(v && is_live(v)) left++;
			CHECK(!left, "values-not-freed", "%zu of %zu values not freed", left, vals.size());
			sblist_free(t.l); heap_expect_same(h, "memory-leak", "after free_values"); probe("free-values");
		}
		verify(s, true);
		for(auto& o : ls) if(&o != &s) verify(o, false);
	}
	for(auto& s : ls) { if(s.dyn) { if(s.kind == 0) sblist_free(s.l); else if(s.kind == 1) w_spl_free(s.l); else if(s.kind == 2) w_kv_free(s.l); else if(s.kind == 3) w_sl_free(s.l); else w_sp_free(s.l); } else { sblist_free_items(s.l); CHECK(sblist_getsize(s.l) == 0, "wrong-count", "items left after free_items"); delete s.st; } }
	sblist_free(nullptr);
	heap_expect_same(hm0, "memory-leak", "after freeing all lists");
}

// ---------------------------------------------------------------- C06
struct TL { const list_ops* o; void* l; bool dyn; char* st; std::vector<uint64_t> m; std::vector<uint64_t> gone; };
static void sorted_tg() {
	const list_ops* o = tg_ops[choose(8, "type")]; if(o->is_ptr || o->mask <= 0xffff || !o->insert_sorted) return; size_t n = sorted_n(); g_mod = 0; g_rev = false; HeapMark hm = heap_mark(); FaultCount f0 = fsnap(); void* l = o->make(1, nullptr); if(!l) { CHECK(fired(f0, {F_ALLOC}), "spurious-failure", "new failed"); return; }
	evs("large sorted", o->name); size_t have = 0; budget(LIB_BUDGET + n * 400); for(uint64_t i = 0; i < n; i++) if(o->add(l, i * 3)) have++; else CHECK(fired(f0, {F_ALLOC}), "spurious-failure", "adding failed"); CHECK(o->size(l) == have, "wrong-count", "%zu of %zu", o->size(l), have); auto le = [](uint64_t a, uint64_t b) { return sim_key_cmp(a, b) <= 0; };
	for(int k = 12 + choose(20, "probes"); k > 0; k--) {
		budget(LIB_BUDGET); uint64_t v = choose(4, "where") == 0 ? 65536 * 3 - 40 + choose(80, "near") : choose(n * 3 + 4, "v"); size_t r = o->insert_sorted(l, v); if(r == (size_t)-1) { CHECK(fired(f0, {F_ALLOC}), "spurious-failure", "insert_sorted"); continue; } have++; CHECK(o->size(l) == have && r < have, "wrong-result", "%s: insert_sorted returned %zu of %zu", o->name, r, have);
		CHECK(o->get(l, r) == v && (!r || le(o->get(l, r - 1), v)) && (r + 1 >= have || le(v, o->get(l, r + 1))), "not-sorted", "%s: item inserted at %zu of %zu breaks the order", o->name, r, have); if(choose(3, "delete") == 0) { o->del(l, r); have--; }
	}
	probe("sorted-over-64k"); o->destroy(l, 1); heap_expect_same(hm, "memory-leak", "after freeing a large list");
}
static void big_tg() {
	const list_ops* o = choose(2, "indirect") ? tgi_ops[choose(7, "type")] : tg_ops[choose(8, "type")]; if(o->is_ptr) return; size_t n = big_n(); if(strstr(o->name, "short")) n = std::min<size_t>(n, 32000); /* a short index type numbers so many values */ HeapMark hm = heap_mark(); FaultCount f0 = fsnap(); auto oom = [&] { return fired(f0, {F_ALLOC}); }; g_mod = 0;
	void* l = o->make(1, nullptr); if(!l) { CHECK(oom(), "spurious-failure", "new failed"); return; }
	evs("large", o->name); std::vector<uint64_t> m; uint64_t mul = choose(2, "ascending") ? 1 : 0x9e3779b97f4a7c15ull;
	for(uint64_t i = 0; i < n; i++) { budget(LIB_BUDGET); uint64_t v = i * mul & o->mask; if(!(i % 4 == 3 ? o->insert(l, v, m.size()) : o->add(l, v))) { CHECK(oom(), "spurious-failure", "%s: adding item %llu failed", o->name, (unsigned long long)i); probe("add-failed"); continue; } m.push_back(v); }
	auto full = [&] {
		budget(LIB_BUDGET * 4 + n * 600); CHECK(o->size(l) == m.size() && o->count2(l) == m.size() && !!o->empty(l) == m.empty(), "wrong-count", "%s holds %zu items, expected %zu", o->name, o->size(l), m.size());
		for(size_t i = 0; i < m.size(); i++) CHECK(o->get(l, i) == m[i], "wrong-item", "%s item %zu of %zu differs", o->name, i, m.size());
		if(o->foreach_) { std::vector<uint64_t> out(m.size() + 2); size_t k = o->foreach_(l, out.data(), out.size()); out.resize(k); CHECK(out == m, "wrong-iteration", "%s iteration visited %zu of %zu items", o->name, k, m.size()); }
	};
	full(); probe(n > 65536 ? "list-over-64k" : "list-over-256");
	for(int k = choose(5, "ops"); k > 0; k--) {
		budget(LIB_BUDGET * 4 + n * 20000); uint32_t op = choose(o->sort ? 5 : 3, "op"); size_t pos = choose(m.size() + 1, "pos"); if(choose(3, "low")) pos = m.size() - pos % std::min<size_t>(300, m.size() + 1); uint64_t v = choose(1 << 20, "v") * mul & o->mask;
		if(op == 0) { if(o->insert(l, v, pos)) m.insert(m.begin() + pos, v); else CHECK(oom(), "spurious-failure", "insert"); }
		else if(op == 1) { if(pos < m.size()) { o->del(l, pos); m.erase(m.begin() + pos); } }
		else if(op == 2) { if(pos < m.size()) { CHECK(o->set(l, v, pos), "wrong-result", "set"); m[pos] = v; } }
		else {
			o->sort(l); auto lt = [](uint64_t a, uint64_t b) { return sim_key_cmp(a, b) < 0; }; std::sort(m.begin(), m.end(), lt); full(); budget(LIB_BUDGET * 4 + n * 20000);
			if(op == 4) for(int j = 0; j < 4; j++) { uint64_t w = choose(1 << 20, "v") * mul & o->mask; size_t r = o->insert_sorted(l, w); if(r == (size_t)-1) { CHECK(oom(), "spurious-failure", "insert_sorted"); continue; } CHECK(r <= m.size(), "wrong-result", "insert_sorted returned %zu", r); m.insert(m.begin() + r, w); CHECK((!r || !lt(w, m[r - 1])) && (r + 1 >= m.size() || !lt(m[r + 1], w)), "not-sorted", "%s: item inserted at %zu of %zu breaks the order", o->name, r, m.size()); }
		}
		full();
	}
	o->destroy(l, 1); heap_expect_same(hm, "memory-leak", "after freeing a large list");
}
SCENARIO(C06) {
	arm_some({F_ALLOC}); order(); Ids ids; uint64_t next_id = 1;
	if(big_run()) return big_tg();
	if(sorted_run()) return sorted_tg();
	HeapMark hm = heap_mark(); std::vector<TL> ls; uint32_t nl = 1 + choose(3, "lists");
	auto val = [&](const list_ops* o) -> uint64_t {
		if(o->is_ptr) { NoFaults nf; void* p = malloc(8); uint64_t a = (uint64_t)(uintptr_t)p; ids.m[a] = choose(50, "key") + 100 * (next_id++); return a; }
		uint64_t v = choose(3, "wide") ? choose(60, "v") : ((uint64_t)choose(1u << 30, "v") << 31 | choose(1u << 30, "v")); return v & o->mask;
	};
	auto drop = [&](uint64_t v) { ids.m.erase(v); free((void*)(uintptr_t)v); };
	auto verify_ = [&](TL& t) {
		budget(LIB_BUDGET * 2 + t.m.size() * 2000);
		CHECK(t.o->size(t.l) == t.m.size() && t.o->count2(t.l) == t.m.size(), "wrong-count", "%s holds %zu items, expected %zu", t.o->name, t.o->size(t.l), t.m.size());
		CHECK(!!t.o->empty(t.l) == t.m.empty(), "wrong-count", "%s empty() wrong", t.o->name);
		for(size_t i = 0; i < t.m.size(); i++) CHECK(t.o->get(t.l, i) == t.m[i], "wrong-item", "%s item %zu of %zu differs", t.o->name, i, t.m.size());
		if(t.o->foreach_) { std::vector<uint64_t> out(t.m.size() + 2); size_t n = t.o->foreach_(t.l, out.data(), out.size()); out.resize(n); CHECK(out == t.m, "wrong-iteration", "%s iteration visited %zu items", t.o->name, n); }
	};
	auto is_sorted = [&](TL& t) { for(size_t i = 1; i < t.m.size(); i++) if(sim_key_cmp(t.m[i-1], t.m[i]) > 0) return false; return true; };
	auto destroy = [&](TL& t) {
		bool fv = t.o->is_ptr && choose(2, "free-values");
		if(fv) { t.o->free_values(t.l); for(uint64_t v : t.m) CHECK(!is_live((void*)(uintptr_t)v), "values-not-freed", "%s: a stored value was not freed", t.o->name); for(uint64_t v : t.gone) { ids.m.erase(v); if(is_live((void*)(uintptr_t)v)) free((void*)(uintptr_t)v); } probe("free-values"); }
		else if(t.o->is_ptr) { for(uint64_t v : t.m) { CHECK(is_live((void*)(uintptr_t)v), "value-freed", "%s freed a value", t.o->name); drop(v); } for(uint64_t v : t.gone) { CHECK(is_live((void*)(uintptr_t)v), "value-freed", "%s freed a deleted value", t.o->name); drop(v); } }
		for(uint64_t v : t.m) ids.m.erase(v);
		t.o->destroy(t.l, t.dyn); if(!t.dyn) delete[] t.st;
	};
	for(int ops = 0; ops < 120 && (ops < 2 || more(40, "op")); ops++) {
		Span sp; budget(LIB_BUDGET); FaultCount f0 = fsnap(); auto oom = [&] { return fired(f0, {F_ALLOC}); };
		if(ls.size() < nl && (ls.empty() || choose(3, "make") == 0)) {
			TL t{}; t.o = choose(2, "indirect") ? tgi_ops[choose(7, "type")] : tg_ops[choose(8, "type")]; t.dyn = choose(2, "dyn");
			if(!t.dyn) { t.st = new char[t.o->storage_size]; memset(t.st, 0xC3, t.o->storage_size); }
			t.l = t.o->make(t.dyn, t.st); evs("make", t.o->name);
			if(!t.l) { CHECK(oom(), "spurious-failure", "new failed"); delete[] t.st; continue; }
			CHECK(t.o->isz(t.l) == t.o->itemsize, "wrong-itemsize", "%s", t.o->name);
			ls.push_back(t); verify_(ls.back()); continue;
		}
		TL& t = ls[choose(ls.size(), "list")]; uint32_t op = choose(11, "what"); ev("op", op, t.m.size()); budget(LIB_BUDGET * 4 + t.m.size() * 5000);
		auto added = [&](bool ok, const char* what, uint64_t v) { if(!ok) { CHECK(oom(), "spurious-failure", "%s %s on %zu items failed although no allocation failed", t.o->name, what, t.m.size()); probe("add-failed"); if(t.o->is_ptr) { CHECK(is_live((void*)(uintptr_t)v), "value-freed", "failed add freed the value"); drop(v); } } return ok; };
		if(op <= 2) { uint64_t v = val(t.o); if(added(t.o->add(t.l, v), "add", v)) t.m.push_back(v); }
		else if(op <= 4) { uint64_t v = val(t.o); size_t p = choose(t.m.size() + 1, "pos"); if(added(t.o->insert(t.l, v, p), "insert", v)) t.m.insert(t.m.begin() + p, v); }
		else if(op <= 6) { if(t.m.empty()) continue; size_t p = choose(t.m.size(), "pos"); uint64_t v = t.m[p]; t.o->del(t.l, p); t.m.erase(t.m.begin() + p); if(t.o->is_ptr) t.gone.push_back(v); }
		else if(op == 7) { if(t.m.empty()) continue; size_t p = choose(t.m.size(), "pos"); uint64_t v = val(t.o); CHECK(t.o->set(t.l, v, p), "wrong-result", "set"); if(t.o->is_ptr) drop(t.m[p]); t.m[p] = v; }
		else if(op == 8 || op == 9) {
			if(!t.o->sort) { size_t n = choose(30, "bulk"); for(size_t i = 0; i < n; i++) { uint64_t v = val(t.o); if(!added(t.o->add(t.l, v), "add", v)) break; t.m.push_back(v); } }
			else {
				if(op == 8 || !is_sorted(t)) { t.o->sort(t.l); std::vector<uint64_t> g; CHECK(t.o->size(t.l) == t.m.size(), "wrong-count", "sort changed the count"); for(size_t i = 0; i < t.m.size(); i++) g.push_back(t.o->get(t.l, i)); auto a = g, b = t.m; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, "sort-lost-items", "%s: sorting changed the set of items", t.o->name); t.m = g; CHECK(is_sorted(t), "not-sorted", "%s of %zu items not sorted", t.o->name, t.m.size()); }
				if(op == 9) { uint64_t v = val(t.o); size_t r = t.o->insert_sorted(t.l, v); if(r == (size_t)-1) added(false, "insert_sorted", v); else { CHECK(r <= t.m.size(), "wrong-result", "insert_sorted returned %zu", r); t.m.insert(t.m.begin() + r, v); CHECK(is_sorted(t), "not-sorted", "%s: item inserted at %zu of %zu breaks the order", t.o->name, r, t.m.size()); } }
			}
		} else { size_t n = choose(30, "bulk"); for(size_t i = 0; i < n; i++) { uint64_t v = val(t.o); if(!added(t.o->add(t.l, v), "add", v)) break; t.m.push_back(v); } }
		verify_(t); for(auto& o : ls) if(&o != &t && choose(4, "cross") == 0) verify_(o);
	}
	for(auto& t : ls) { verify_(t); destroy(t); }
	heap_expect_same(hm, "memory-leak", "after freeing all lists");
}

// ---------------------------------------------------------------- C07
struct Ent { uint64_t k, v; };
struct MP { const map_ops* o; void* b; bool dyn; char* st; std::vector<Ent> m; std::vector<uint64_t> gonek, gonev; };
static void sorted_map() {
	const map_ops* o = (choose(2, "indirect") ? map_ops_tgi : map_ops_tg)[choose(10, "type")]; if(o->key_ptr || o->val_ptr || o->kmask <= 0xffff || o->buckets) return; size_t n = sorted_n(); g_mod = 0; g_rev = false; HeapMark hm = heap_mark(); FaultCount f0 = fsnap(); auto oom = [&] { return fired(f0, {F_ALLOC}); };
	void* b = o->make(1, nullptr); if(!b) { CHECK(oom(), "spurious-failure", "new failed"); return; } evs("large sorted", o->name); size_t have = 0; budget(LIB_BUDGET + n * 4000); auto val = [&](uint64_t k) { return mix(k + 5) & o->vmask; }; std::unordered_map<uint64_t, uint64_t> chg;
	for(uint64_t i = 0; i < n; i++) if(o->insert_nocheck(b, i * 3, val(i * 3)) != -1) have++; else { CHECK(oom(), "spurious-failure", "insertion failed"); chg[i * 3] = 1; } CHECK(o->size(b) == have, "wrong-count", "%zu of %zu", o->size(b), have); std::unordered_map<uint64_t, uint64_t> m; for(auto& c : chg) m[c.first] = 0; // 0: absent, 1: present, whatever the filling did
	auto has = [&](uint64_t k) { auto i = m.find(k); return i != m.end() ? i->second == 1 : k % 3 == 0 && k < n * 3; };
	for(int k = 12 + choose(20, "probes"); k > 0; k--) {
		budget(LIB_BUDGET); uint64_t v = choose(4, "where") == 0 ? 65536 * 3 - 40 + choose(80, "near") : choose(n * 3 + 4, "v"); int64_t f = o->find(b, v); bool h = has(v); CHECK((f != -1) == h, h ? "key-lost" : "phantom-key", "%s: %s key %s at %zu entries", o->name, h ? "present" : "absent", h ? "not found" : "found", have); if(h) CHECK(o->getkey(b, f) == v && o->getval(b, f) == val(v), "unpaired", "%s: wrong entry at %zu entries", o->name, have);
		int64_t r = o->insert(b, v, val(v)); if(r == -1) { CHECK(oom(), "spurious-failure", "insert"); continue; } have += !h; m[v] = 1; CHECK(o->size(b) == have && (size_t)r < have && o->getkey(b, r) == v && o->getval(b, r) == val(v) && (!h || r == f), "wrong-position", "%s: insertion returned position %lld of %zu", o->name, (long long)r, have);
		CHECK((!r || o->getkey(b, r - 1) < v) && ((size_t)r + 1 >= have || v < o->getkey(b, r + 1)), "not-sorted", "%s: key inserted at %lld of %zu breaks the order", o->name, (long long)r, have); if(choose(3, "delete") == 0) { o->del(b, r); have--; m[v] = 0; CHECK(o->find(b, v) == -1, "phantom-key", "%s: deleted key found at %zu entries", o->name, have); }
	}
	probe("sorted-over-64k"); o->fini(b, 0, 1); heap_expect_same(hm, "memory-leak", "after freeing a large map");
}
static void big_map() {
	const map_ops* o = (choose(2, "indirect") ? map_ops_tgi : map_ops_tg)[choose(10, "type")]; if(o->key_ptr || o->val_ptr) return; size_t n = big_n(); g_mod = 0; HeapMark hm = heap_mark(); FaultCount f0 = fsnap(); auto oom = [&] { return fired(f0, {F_ALLOC}); };
	void* b = o->make(1, nullptr); if(!b) { CHECK(oom(), "spurious-failure", "new failed"); return; }
	evs("large", o->name); bool shuffled = n < 10000 && choose(2, "shuffled"); uint64_t stride = choose(2, "stride") ? 1 : 7; std::unordered_map<uint64_t, uint64_t> m; std::vector<uint64_t> keys;
	if(!o->buckets && g_rev) shuffled = n < 10000; // descending insertion of very many keys is quadratic
	if(g_rev && n > 10000) g_rev = false;
	for(uint64_t i = 0; i < n; i++) {
		budget(LIB_BUDGET * 4 + n * 100); uint64_t k = (shuffled ? mix(i) % (n * 8) : i * stride) & o->kmask, v = mix(i + 77) & o->vmask; if(o->kmask <= 0xffff && i > 30000) break;
		int64_t r = o->insert(b, k, v); if(r == -1) { CHECK(oom(), "spurious-failure", "%s: insertion of entry %llu failed", o->name, (unsigned long long)i); probe("insert-failed"); continue; }
		CHECK(o->getkey(b, r) == k && o->getval(b, r) == v, "wrong-position", "%s: insertion at %zu entries returned another entry's position", o->name, m.size());
		if(!m.count(k)) keys.push_back(k); m[k] = v; if(!o->buckets || i % 1000 == 255 || i < 260) CHECK(o->size(b) == m.size(), "wrong-count", "%s holds %zu entries, expected %zu", o->name, o->size(b), m.size());
	}
	auto one = [&](uint64_t k) {
		budget(LIB_BUDGET * 4 + n * 100); auto i = m.find(k); bool has = i != m.end(); int64_t f = o->find(b, k); CHECK((f != -1) == has, has ? "key-lost" : "phantom-key", "%s: %s key %s", o->name, has ? "present" : "absent", has ? "not found" : "found"); uint64_t v = 0; CHECK(!!o->get(b, k, &v) == has && !!o->contains(b, k) == has, "wrong-get", "%s: get", o->name);
		if(has) CHECK(v == i->second && o->getkey(b, f) == k && o->getval(b, f) == v && (!o->valid || o->valid(b, f)), "unpaired", "%s: key, value and position do not belong together at %zu entries", o->name, m.size());
	};
	auto full = [&] {
		size_t step = keys.size() / 300 + 1; for(size_t i = choose(step, "from"); i < keys.size(); i += step) one(keys[i]); for(int i = 0; i < 8; i++) one((choose(2, "near") ? n * stride + i : (uint64_t)choose(1u << 30, "k")) & o->kmask);
		budget(LIB_BUDGET * 4 + n * 200); std::vector<int64_t> its(m.size() + 4); size_t c = o->foreach_(b, its.data(), its.size()); CHECK(c == m.size(), "wrong-iteration", "%s: iteration visited %zu of %zu entries", o->name, c, m.size()); std::unordered_map<uint64_t, int> seen;
		for(size_t i = 0; i < c; i++) { uint64_t k = o->getkey(b, its[i]); auto j = m.find(k); CHECK(j != m.end() && !seen[k]++, "wrong-iteration", "%s: iteration delivered %s", o->name, j == m.end() ? "an unknown key" : "a key twice"); CHECK(o->getval(b, its[i]) == j->second, "unpaired", "%s: iteration delivered a key with another value", o->name); if(!o->buckets && i) CHECK(sim_key_cmp(o->getkey(b, its[i-1]), k) < 0, "not-sorted", "%s: keys out of order", o->name); }
	};
	full(); probe(m.size() > 65536 ? "map-over-64k" : "map-over-256");
	for(int k = choose(4, "ops"); k > 0; k--) {
		for(int j = choose(40, "count"); j > 0 && !keys.empty(); j--) {
			budget(LIB_BUDGET * 4 + n * 100); size_t i = choose(keys.size(), "which"); uint64_t key = keys[i], v = mix(key + k) & o->vmask; uint32_t op = choose(3, "op");
			if(op == 0) { int64_t f = o->find(b, key); CHECK(f != -1, "key-lost", "%s: present key not found", o->name); o->del(b, f); m.erase(key); keys[i] = keys.back(); keys.pop_back(); }
			else if(op == 1) { int64_t f = o->find(b, key); CHECK(f != -1 && o->setvalue(b, v, f), "key-lost", "%s: setvalue", o->name); m[key] = v; }
			else { int64_t r = o->insert(b, key, v); if(r != -1) m[key] = v; else CHECK(oom(), "spurious-failure", "%s: overwriting failed", o->name); }
			budget(LIB_BUDGET * 4 + n * 100); CHECK(o->size(b) == m.size(), "wrong-count", "%s holds %zu entries, expected %zu", o->name, o->size(b), m.size()); one(key);
		}
		full();
	}
	if(choose(3, "drain") == 2 && m.size() < 10000) { budget(LIB_BUDGET * 10 + n * 2000); size_t c = o->drain(b); CHECK(c == m.size(), "wrong-drain", "%s: deleting everything removed %zu of %zu", o->name, c, m.size()); m.clear(); keys.clear(); full(); }
	o->fini(b, 0, 1); heap_expect_same(hm, "memory-leak", "after freeing a large map");
}
SCENARIO(C07) {
	arm_some({F_ALLOC}); order(); Ids ids; uint64_t next_id = 1; g_hash_kind = choose(5, "hash");
	if(big_run()) return big_map();
	if(sorted_run()) return sorted_map();
	uint32_t space = choose(3, "space") == 0 ? 400 : 24;
	HeapMark hm = heap_mark(); std::vector<MP> ms; uint32_t nm = 1 + choose(2, "maps");
	auto ptr = [&](uint64_t key) { NoFaults nf; void* p = malloc(8); ids.m[(uint64_t)(uintptr_t)p] = key; return (uint64_t)(uintptr_t)p; };
	auto key = [&](const map_ops* o) { uint64_t k = choose(space, "key"); return o->key_ptr ? ptr(k) : k & o->kmask; };
	auto val = [&](const map_ops* o) { next_id++; return o->val_ptr ? ptr(1000 + next_id) : (next_id * 0x9e3779b97f4a7c15ull) & o->vmask; };
	auto drop = [&](uint64_t v) { if(is_live((void*)(uintptr_t)v)) { ids.m.erase(v); free((void*)(uintptr_t)v); } };
	auto same = [&](uint64_t a, uint64_t b) { return sim_key_cmp(a, b) == 0; };
	auto locate = [&](MP& t, uint64_t k) { for(size_t i = 0; i < t.m.size(); i++) if(same(t.m[i].k, k)) return (ssize_t)i; return (ssize_t)-1; };
	auto check_one = [&](MP& t, uint64_t k) {
		ssize_t i = locate(t, k); int64_t f = t.o->find(t.b, k); bool has = i >= 0;
		CHECK((f != -1) == has, has ? "key-lost" : "phantom-key", "%s: %s key %s", t.o->name, has ? "present" : "absent", has ? "not found" : "found");
		CHECK(!!t.o->contains(t.b, k) == has, "wrong-contains", "%s: contains says %d", t.o->name, !has);
		uint64_t v = 0; int g = t.o->get(t.b, k, &v); CHECK(!!g == has, "wrong-get", "%s: get %s", t.o->name, g ? "found an absent key" : "missed a present key");
		if(has) { CHECK(v == t.m[i].v, "wrong-value", "%s: value of a key differs from the one stored", t.o->name); CHECK(t.o->getkey(t.b, f) == t.m[i].k, "wrong-key", "%s: key at its position differs", t.o->name); CHECK(t.o->getval(t.b, f) == t.m[i].v, "unpaired", "%s: value at the key's position differs", t.o->name); if(t.o->valid) CHECK(t.o->valid(t.b, f), "invalid-iterator", "%s", t.o->name); }
	};
	auto verify_ = [&](MP& t) {
		CHECK(t.o->size(t.b) == t.m.size(), "wrong-count", "%s holds %zu entries, expected %zu", t.o->name, t.o->size(t.b), t.m.size());
		for(auto& e : t.m) check_one(t, e.k);
		std::vector<int64_t> its(t.m.size() + 4); size_t n = t.o->foreach_(t.b, its.data(), its.size());
		CHECK(n == t.m.size(), "wrong-iteration", "%s: iteration visited %zu of %zu entries", t.o->name, n, t.m.size());
		std::vector<bool> seen(t.m.size());
		for(size_t i = 0; i < n; i++) {
			uint64_t k = t.o->getkey(t.b, its[i]); ssize_t j = locate(t, k);
			CHECK(j >= 0 && !seen[j], "wrong-iteration", "%s: iteration delivered %s", t.o->name, j < 0 ? "an unknown key" : "a key twice"); seen[j] = true;
			CHECK(t.o->getval(t.b, its[i]) == t.m[j].v, "unpaired", "%s: iteration delivered a key with another value", t.o->name);
			if(!t.o->buckets && i) CHECK(sim_key_cmp(t.o->getkey(t.b, its[i-1]), k) < 0, "not-sorted", "%s: keys out of order", t.o->name);
		}
	};
	auto destroy = [&](MP& t) {
		int fl = choose(4, "flags"); if(!t.o->key_ptr) fl &= ~1; if(!t.o->val_ptr) fl &= ~2;
		t.o->fini(t.b, fl, t.dyn);
		for(auto& e : t.m) {
			if(t.o->key_ptr) { bool live = is_live((void*)(uintptr_t)e.k); CHECK(live == !(fl & 1), live ? "keys-not-freed" : "key-freed", "%s fini(%d)", t.o->name, fl); drop(e.k); }
			if(t.o->val_ptr) { bool live = is_live((void*)(uintptr_t)e.v); CHECK(live == !(fl & 2), live ? "values-not-freed" : "value-freed", "%s fini(%d)", t.o->name, fl); drop(e.v); }
		}
		if(t.o->key_ptr) for(uint64_t k : t.gonek) drop(k);
		if(t.o->val_ptr) for(uint64_t v : t.gonev) drop(v);
		if(!t.dyn) delete[] t.st;
		probe("fini");
	};
	for(int ops = 0; ops < 120 && (ops < 2 || more(40, "op")); ops++) {
		Span sp; budget(LIB_BUDGET); FaultCount f0 = fsnap(); auto oom = [&] { return fired(f0, {F_ALLOC}); };
		if(ms.size() < nm && (ms.empty() || choose(3, "make") == 0)) {
			MP t{}; t.o = (choose(2, "indirect") ? map_ops_tgi : map_ops_tg)[choose(10, "type")]; t.dyn = choose(2, "dyn");
			if(!t.dyn) { t.st = new char[t.o->storage_size]; memset(t.st, 0xC3, t.o->storage_size); }
			t.b = t.o->make(t.dyn, t.st); evs("make", t.o->name);
			if(!t.b) { CHECK(oom(), "spurious-failure", "new failed"); delete[] t.st; continue; }
			ms.push_back(t); verify_(ms.back()); continue;
		}
		MP& t = ms[choose(ms.size(), "map")]; uint32_t op = choose(12, "what"); ev("op", op, t.m.size());
		if(op <= 6) {
			uint64_t k = key(t.o), v = val(t.o); ssize_t i = locate(t, k); bool nocheck = i < 0 && op >= 5;
			int64_t r = nocheck ? t.o->insert_nocheck(t.b, k, v) : t.o->insert(t.b, k, v);
			if(r == -1) {
				CHECK(oom(), "spurious-failure", "%s: insertion failed although no allocation failed", t.o->name); probe(i >= 0 ? "overwrite-failed" : "insert-failed");
				if(t.o->key_ptr) { CHECK(is_live((void*)(uintptr_t)k), "key-freed", "failed insert freed the key"); drop(k); } if(t.o->val_ptr) { CHECK(is_live((void*)(uintptr_t)v), "value-freed", "failed insert freed the value"); drop(v); }
			} else {
				CHECK(t.o->size(t.b) == t.m.size() + (i < 0), "false-success", "%s: insertion reported success (position %lld) but there are %zu entries after %zu", t.o->name, (long long)r, t.o->size(t.b), t.m.size());
				uint64_t gk = t.o->getkey(t.b, r), gv = t.o->getval(t.b, r);
				CHECK(gv == v, "wrong-position", "%s: insertion returned a position holding another value", t.o->name);
				if(i < 0) { CHECK(gk == k, "wrong-position", "%s: insertion returned a position holding another key", t.o->name); t.m.push_back({k, v}); }
				else { CHECK(gk == k || gk == t.m[i].k, "wrong-position", "%s: overwrite returned a position holding another key", t.o->name); if(t.o->key_ptr) drop(gk == k ? t.m[i].k : k); if(t.o->val_ptr) drop(t.m[i].v); t.m[i] = {gk, v}; probe("overwritten"); }
			}
		} else if(op <= 8) {
			if(t.m.empty()) continue; size_t i = choose(t.m.size(), "which"); int64_t f = t.o->find(t.b, t.m[i].k); CHECK(f != -1, "key-lost", "%s: present key not found", t.o->name);
			t.o->del(t.b, f); if(t.o->key_ptr) drop(t.m[i].k); if(t.o->val_ptr) t.gonev.push_back(t.m[i].v); uint64_t k = t.m[i].k; t.m.erase(t.m.begin() + i); if(!t.o->key_ptr) check_one(t, k);
		} else if(op == 9) {
			if(t.m.empty()) continue; size_t i = choose(t.m.size(), "which"); int64_t f = t.o->find(t.b, t.m[i].k); uint64_t v = val(t.o); CHECK(t.o->setvalue(t.b, v, f), "wrong-result", "setvalue"); if(t.o->val_ptr) drop(t.m[i].v); t.m[i].v = v;
		} else if(op == 10) { uint64_t k = key(t.o); check_one(t, k); if(t.o->key_ptr) drop(k); }
		else if(choose(4, "drain") == 3) { size_t n = t.o->drain(t.b); CHECK(n == t.m.size(), "wrong-drain", "%s: deleting everything removed %zu of %zu", t.o->name, n, t.m.size()); for(auto& e : t.m) { if(t.o->key_ptr) drop(e.k); if(t.o->val_ptr) t.gonev.push_back(e.v); } t.m.clear(); probe("drained"); }
		verify_(t); for(auto& o : ms) if(&o != &t && choose(4, "cross") == 0) verify_(o);
	}
	for(auto& t : ms) { verify_(t); destroy(t); }
	heap_expect_same(hm, "memory-leak", "after freeing all maps");
}

// ---------------------------------------------------------------- C08
struct TT { tlist* l; size_t sz; bool ptrs; std::vector<std::string> m; };
SCENARIO(C08) {
	arm_some({F_ALLOC}); HeapMark hm = heap_mark(); std::vector<TT> ls; uint32_t nl = 1 + choose(3, "lists"), next_id = 1;
	auto item = [&](TT& t) { std::string b; if(t.ptrs) { NoFaults nf; void* p = choose(8, "null") == 7 ? nullptr : malloc(1 + choose(16, "len")); b.assign((char*)&p, 8); } else b = item_bytes(t.sz, next_id++); return b; };
	auto pp = [](const std::string& b) { void* p; memcpy(&p, b.data(), 8); return p; };
	auto room = [&](TT& t) { budget(LIB_BUDGET * 4 + t.m.size() * 5000); }; // a call that visits every item
	auto verify_ = [&](TT& t, bool all) {
		budget(LIB_BUDGET);
		CHECK(tlist_getsize(t.l) == t.m.size(), "wrong-count", "list holds %zu items, expected %zu", tlist_getsize(t.l), t.m.size());
		size_t step = all || t.m.size() < 100 ? 1 : t.m.size() / 20;
		for(size_t i = 0; i < t.m.size(); i += step) { budget(LIB_BUDGET); void* p = tlist_get(t.l, i); CHECK(p && memcmp(p, t.m[i].data(), t.sz) == 0, "wrong-item", "item %zu of %zu differs from what was stored", i, t.m.size()); }
		size_t far[] = {t.m.size(), t.m.size() + 1, ~(size_t)0, (size_t)1 << 32};
		for(size_t f : far) CHECK(!tlist_get(t.l, f), "item-past-end", "item %zu of %zu is not null", f, t.m.size());
	};
	for(int ops = 0; ops < 100 && (ops < 2 || more(35, "op")); ops++) {
		Span sp; budget(LIB_BUDGET * 4); FaultCount f0 = fsnap(); auto oom = [&] { return fired(f0, {F_ALLOC}); };
		if(ls.size() < nl && (ls.empty() || choose(3, "make") == 0)) {
			static const size_t sizes[] = {4, 8, 1, 24, 100, 3, 4000}; TT t{}; t.ptrs = choose(2, "ptrs"); t.sz = t.ptrs ? sizeof(void*) : sizes[choose(7, "size")];
			t.l = tlist_new(t.sz); if(!t.l) { CHECK(oom(), "spurious-failure", "new failed"); continue; }
			ls.push_back(t); verify_(ls.back(), true); continue;
		}
		TT& t = ls[choose(ls.size(), "list")]; uint32_t op = choose(13, "what"); ev("op", op, t.m.size());
		auto added = [&](bool ok, const char* what, const std::string& b) { if(!ok) { CHECK(oom(), "spurious-failure", "%s failed although no allocation failed", what); probe("add-failed"); if(t.ptrs) { CHECK(!pp(b) || is_live(pp(b)), "value-freed", "failed insertion freed the value"); free(pp(b)); } } return ok; };
		if(op <= 2) { std::string b = item(t); Buf ib(b); if(added(tlist_append(t.l, ib.p), "append", b)) t.m.push_back(b); }
		else if(op <= 5) {
			size_t pos = choose(t.m.size() + 1, "pos"); if(choose(10, "beyond") == 9) pos = t.m.size() + 1 + choose(3, "by") * 1000; std::string b = item(t); Buf ib(b); int r = tlist_insert(t.l, pos, ib.p);
			if(pos > t.m.size()) { CHECK(r == 0, "wrong-result", "insertion at %zu of %zu accepted", pos, t.m.size()); if(t.ptrs) free(pp(b)); probe("insert-out-of-range"); }
			else if(added(r, "insert", b)) t.m.insert(t.m.begin() + pos, b);
		} else if(op <= 8) {
			size_t pos = choose(t.m.size() + 2, "pos"); if(choose(12, "far") == 11) pos = ((size_t)1 << 32) + choose(2, "by"); bool deep = t.ptrs && choose(2, "deep"); void* v = t.ptrs && pos < t.m.size() ? pp(t.m[pos]) : nullptr;
			int r = deep ? tlist_delete_deep(t.l, pos) : tlist_delete(t.l, pos);
			CHECK(!!r == (pos < t.m.size()), "wrong-result", "delete of item %zu of %zu returned %d", pos, t.m.size(), r);
			if(r) { t.m.erase(t.m.begin() + pos); if(t.ptrs && v) { CHECK(is_live(v) == !deep, deep ? "value-not-freed" : "value-freed", "%s delete: value is %s", deep ? "deep" : "plain", deep ? "still allocated" : "gone"); if(!deep) free(v); } } else probe("delete-out-of-range");
		} else if(op == 9) { // many items: cost stays logarithmic
			size_t n = choose(3, "scale") ? choose(40, "bulk") : choose(1500, "bulk"), n0 = t.m.size(); int how = choose(3, "where"); if(n > 1000 && t.sz <= 24 && choose(thorough ? 40 : 100, "huge") == 1) { n = 66000; how = 0; probe("list-over-64k"); } uint64_t s0 = steps; size_t done = 0;
			for(; done < n; done++) { std::string b = item(t); size_t pos = how == 0 ? t.m.size() : how == 1 ? 0 : mix(done) % (t.m.size() + 1); if(!added(tlist_insert(t.l, pos, &b[0]), "insert", b)) break; t.m.insert(t.m.begin() + pos, b); budget(LIB_BUDGET * 4); }
			if(done > 500 && n0 + done > 500) { double lg = 1; for(size_t k = n0 + done; k > 1; k /= 2) lg++; double per = double(steps - s0) / done; CHECK(per < 150 * lg, "not-logarithmic", "%.0f steps per insertion at %zu items", per, t.m.size()); probe("cost-measured"); }
			if(done == 66000) for(int k = 0; k < 60 && !t.ptrs; k++) { // positions around 2^16
				static const size_t at[] = {65535, 65536, 65537, 65534, 32768, 0}; size_t pos = k % 2 ? at[choose(6, "edge")] : 65536; budget(LIB_BUDGET); if(choose(3, "del")) { CHECK(tlist_delete(t.l, pos) == 1, "wrong-result", "delete of item %zu of %zu failed", pos, t.m.size()); t.m.erase(t.m.begin() + pos); } else { std::string b = item(t); if(!added(tlist_insert(t.l, pos, &b[0]), "insert", b)) continue; t.m.insert(t.m.begin() + pos, b); }
				for(size_t i = pos < 3 ? 0 : pos - 3; i < pos + 4; i++) { void* p = tlist_get(t.l, i); CHECK(p && memcmp(p, t.m[i].data(), t.sz) == 0, "wrong-item", "item %zu of %zu differs from what was stored", i, t.m.size()); } }
		} else if(op == 10) {
			bool deep = t.ptrs && choose(2, "deep"); room(t); if(deep) tlist_free_items_deep(t.l); else tlist_free_items(t.l);
			if(t.ptrs) for(auto& b : t.m) if(void* v = pp(b)) { CHECK(is_live(v) == !deep, deep ? "value-not-freed" : "value-freed", "free_items%s: value is %s", deep ? "_deep" : "", deep ? "still allocated" : "gone"); if(!deep) free(v); }
			t.m.clear(); probe("free-items");
		} else if(!t.m.empty() && !t.ptrs) { size_t pos = choose(t.m.size(), "pos"); t.m[pos] = item(t); memcpy(tlist_get(t.l, pos), t.m[pos].data(), t.sz); } // items are modified through the pointer
		verify_(t, choose(4, "all") == 0); for(auto& o : ls) if(&o != &t && choose(3, "cross") == 0) verify_(o, false);
	}
	for(auto& t : ls) {
		verify_(t, true); bool deep = t.ptrs && choose(2, "deep"); room(t); void* r = deep ? tlist_free_deep(t.l) : tlist_free(t.l); CHECK(r == nullptr, "wrong-result", "free returned %p", r);
		if(t.ptrs) for(auto& b : t.m) if(void* v = pp(b)) { CHECK(is_live(v) == !deep, deep ? "value-not-freed" : "value-freed", "free%s: value is %s", deep ? "_deep" : "", deep ? "still allocated" : "gone"); if(!deep) free(v); }
	}
	heap_expect_same(hm, "memory-leak", "after freeing all lists");
}

// ---------------------------------------------------------------- C09
struct HE { uint32_t h; std::string b; };
struct HL { hashlist* l; size_t sz; uint32_t n; std::vector<HE> m; };
SCENARIO(C09) {
	arm_some({F_ALLOC}); HeapMark hm = heap_mark(); std::vector<HL> ls; uint32_t nl = 1 + choose(3, "lists"), next_id = 1;
	auto verify_ = [&](HL& t) {
		std::vector<uint32_t> idx(t.m.size()), dis; for(size_t i = 0; i < idx.size(); i++) idx[i] = i;
		std::sort(idx.begin(), idx.end(), [&](uint32_t x, uint32_t y) { uint32_t a = t.m[x].h % t.n, b = t.m[y].h % t.n; return a != b ? a < b : x < y; });
		std::vector<const std::string*> want, exact;
		for(size_t g = 0, ge; g < idx.size(); g = ge) {
			uint32_t bk = t.m[idx[g]].h % t.n; want.clear(); dis.clear(); for(ge = g; ge < idx.size() && t.m[idx[ge]].h % t.n == bk; ge++) { want.push_back(&t.m[idx[ge]].b); dis.push_back(t.m[idx[ge]].h); }
			std::sort(dis.begin(), dis.end()); dis.erase(std::unique(dis.begin(), dis.end()), dis.end());
			sblist* last = nullptr;
			for(uint32_t h : dis) {
			budget(LIB_BUDGET + t.m.size() * 100); sblist* b = hashlist_get(t.l, h); CHECK(b, "entry-lost", "no entries for a hash that was added");
			if(b == last) continue; // the list already checked against the whole bucket
			// exactly the hash's entries, or all entries sharing its bucket; in order, each once
			auto same = [&](const std::vector<const std::string*>& w) { if(sblist_getsize(b) != w.size()) return false; for(size_t i = 0; i < w.size(); i++) { void* p = sblist_get(b, i); if(!p || memcmp(p, w[i]->data(), t.sz)) return false; } return true; };
			if(same(want)) { last = b; continue; }
			exact.clear(); for(size_t i = g; i < ge; i++) if(t.m[idx[i]].h == h) exact.push_back(&t.m[idx[i]].b);
			CHECK(same(exact), "wrong-entries", "lookup returned %zu entries, %zu were added under the hash (%zu in its bucket), or in another order", (size_t)sblist_getsize(b), exact.size(), want.size());
			}
		}
		{ hashlist_iterator it; memset(&it, 0xC3, sizeof it); hashlist_iterator_init(&it); uint64_t seen = 0, all = 0; auto fp = [&](const char* p) { uint64_t h = 1469598103934665603ull; size_t i = 0; for(; i + 8 <= t.sz; i += 8) { uint64_t w; memcpy(&w, p + i, 8); h = (h ^ w) * 1099511628211ull; h ^= h >> 31; } for(; i < t.sz; i++) h = (h ^ (uint8_t)p[i]) * 1099511628211ull; h ^= h >> 29; h *= 0x9e3779b97f4a7c15ull; return h ^ h >> 32; }; for(auto& e : t.m) all += fp(e.b.data()); size_t n = 0; // a sum of fingerprints: the order does not matter
		  budget(LIB_BUDGET * 4 + t.m.size() * 200);
		  while(void* p = hashlist_next(t.l, &it)) { CHECK(n++ <= t.m.size(), "endless-iteration", "iteration goes on after all %zu entries", t.m.size()); seen += fp((char*)p); }
		  CHECK(n == t.m.size() && seen == all, "wrong-iteration", "iteration visited %zu entries of %zu, or not the right ones", n, t.m.size());
		  CHECK(!hashlist_next(t.l, &it), "iteration-restarts", "iteration resumed after its end"); }
		{ hashlist_bucket_iterator it; memset(&it, 0xC3, sizeof it); budget(LIB_BUDGET * 4); hashlist_bucket_iterator_init(&it); size_t n = 0, b = 0; while(sblist* s = hashlist_bucket_next(t.l, &it)) { CHECK(b++ < t.n, "endless-iteration", "more buckets than exist"); n += sblist_getsize(s); } CHECK(n == t.m.size(), "wrong-iteration", "bucket iteration saw %zu entries of %zu", n, t.m.size()); }
	};
	for(int ops = 0; ops < 100 && (ops < 2 || more(35, "op")); ops++) {
		Span sp; budget(LIB_BUDGET); FaultCount f0 = fsnap(); auto oom = [&] { return fired(f0, {F_ALLOC}); };
		if(ls.size() < nl && (ls.empty() || choose(3, "make") == 0)) {
			static const size_t sizes[] = {4, 8, 16, 100, 5000}; static const uint32_t ns[] = {1, 2, 3, 8, 37, 256}; HL t{}; t.sz = sizes[choose(5, "size")]; t.n = ns[choose(6, "buckets")]; if(choose(150, "many-buckets") == 149) { t.n = 65536 + choose(5000, "n"); t.sz = 4; ops += 85; probe("buckets-over-64k"); }
			t.l = hashlist_new(t.n, t.sz); if(!t.l) { CHECK(oom(), "spurious-failure", "new failed"); continue; }
			ls.push_back(t); verify_(ls.back()); continue;
		}
		HL& t = ls[choose(ls.size(), "list")]; uint32_t op = choose(6, "what"); ev("op", op, t.m.size());
		auto add = [&] {
			uint32_t k = choose(4, "hash"); uint32_t h = k == 0 ? choose(4, "h") : k == 1 ? 0xffffffffu - choose(4, "h") : k == 2 ? (t.n > 65536 ? choose(2 * t.n, "h") : choose(300, "h")) : (t.m.empty() ? 0 : t.m[choose(t.m.size(), "which")].h);
			std::string b = item_bytes(t.sz, next_id++); Buf ib(b); f0 = fsnap();
			int r = hashlist_add(t.l, h, ib.p); CHECK(r == 0 || r == -1, "wrong-result", "add returned %d", r);
			if(r == 0) t.m.push_back({h, b}); else { CHECK(oom(), "spurious-failure", "add failed although no allocation failed"); probe("add-failed"); }
		};
		if(op <= 3) add();
		else if(op == 4) {
			if(t.sz <= 16 && choose(thorough ? 100 : 250, "large") == 1) { // more entries in a bucket than 8 or 16 bits can number
				size_t n = big_n(); uint32_t h = choose(3, "h"), step = choose(3, "spread"); budget(LIB_BUDGET); f0 = fsnap();
				for(size_t i = 0; i < n; i++) { budget(LIB_BUDGET); std::string b(t.sz, 0); uint32_t id = next_id++; memcpy(&b[0], &id, 4); uint32_t hh = h + step * (i % 300); if(hashlist_add(t.l, hh, &b[0]) == 0) t.m.push_back({hh, b}); else { CHECK(oom(), "spurious-failure", "add failed although no allocation failed"); probe("add-failed"); } }
				probe(n > 65536 ? "entries-over-64k" : "entries-over-256"); ops += n > 2000 ? 96 : 60;
			} else for(size_t n = choose(12, "bulk"); n > 0; n--) add();
		}
		else { uint32_t h = choose(1000, "absent") + 100000; bool any = false, inb = false; for(auto& e : t.m) { any |= e.h == h; inb |= e.h % t.n == h % t.n; } sblist* b = hashlist_get(t.l, h); if(!inb) CHECK(!b || sblist_getsize(b) == 0, "phantom-entry", "entries for a hash never added"); }
		verify_(t); for(auto& o : ls) if(&o != &t && choose(4, "cross") == 0) verify_(o);
	}
	for(auto& t : ls) { verify_(t); hashlist_free(t.l); }
	hashlist_free(nullptr);
	heap_expect_same(hm, "memory-leak", "after freeing all hash lists");
}
