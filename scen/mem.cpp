// C21 pool allocator, C22 guarded allocator
#include "common.hpp"
#include "mem.h"
#include <sys/mman.h>
#include <deque>
extern "C" void __asan_poison_memory_region(void const volatile*, size_t); extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
static char region[1 << 20] __attribute__((aligned(4096))); // fixed address: what an invalid free computes must not vary between processes
static void many_slots() { // more slots than 16 bits can count
	const ssa_ops& o = ssa_131072_2; const size_t M = o.maxelem, E = o.elemsize; probe("many-slots");
	__asan_unpoison_memory_region(region, sizeof region); char* own = region + (256 << 10); memset(own, 0xC3, o.pool_size); o.init(own); std::vector<uint32_t> owner(M, 0); std::vector<char*> at(M + 1, nullptr); size_t live = 0; char* base = nullptr;
	auto get = [&](uint32_t id) { budget(LIB_BUDGET + M * 40); char* p = (char*)o.alloc(own, E); if(!p) { CHECK(live >= M, "lost-space", "no block although only %zu of %zu are in use", live, M); return false; } CHECK(live < M, "over-capacity", "more blocks than slots"); if(!base) base = p; CHECK(p >= base && (size_t)(p - base) % E == 0 && (size_t)(p - base) / E < M && p + E <= own + o.pool_size, "outside-pool", "block %u lies outside the pool", id); uint32_t& w = owner[(p - base) / E]; CHECK(!w, "overlap", "block %u overlaps block %u", id, w); w = id; at[id] = p; memcpy(p, &id, E); live++; return true; };
	auto put = [&](uint32_t id) { budget(LIB_BUDGET); CHECK(!memcmp(at[id], &id, E), "block-corrupted", "block %u changed", id); o.free_(own, at[id]); owner[(at[id] - base) / E] = 0; at[id] = nullptr; live--; };
	for(uint32_t i = 1; i <= M; i++) get(i); CHECK(live == M, "lost-space", "%zu blocks", live); CHECK(!o.alloc(own, 1), "over-capacity", "more blocks than slots");
	for(int k = 0; k < 60; k++) { static const uint32_t marks[] = {1, 2, 255, 256, 257, 32768, 32769, 65535, 65536, 65537, 65792, 131071, 131072}; uint32_t n = 1 + choose(4, "holes"); std::vector<uint32_t> ids; for(; n > 0; n--) { uint32_t id = choose(2, "mark") ? marks[choose(13, "m")] : 1 + choose(M, "id"); if(at[id]) { put(id); ids.push_back(id); } } for(uint32_t id : ids) get(id); CHECK(live == M, "lost-space", "%zu blocks", live); CHECK(!o.alloc(own, 1), "over-capacity", "more blocks than slots"); }
	{ uint32_t n = 0, from = 1 + choose(M - 65600, "from"); for(; n < 65535; n++) put(from + n); for(int k = 0; k < 3; k++) { get(from); put(from); put(from + n++); } for(uint32_t i = 0; i < n; i += 1 + choose(1500, "some")) get(from + i); for(uint32_t i = 0; i < n; i++) if(at[from + i]) put(from + i); for(uint32_t i = 1; i <= M; i++) if(at[i]) put(i); for(uint32_t i = 1; i <= M; i++) get(i); CHECK(live == M, "lost-space", "%zu blocks", live); } // a number of free slots that 16 bits cannot hold, the last slot in use
	uint32_t stepw = 1 + 2 * choose(5000, "order"); for(uint32_t i = 0; i < M; i++) put(1 + (uint32_t)((uint64_t)i * stepw % M)); // odd steps visit every slot of a power of two
	for(uint32_t i = 1; i <= M; i++) get(i); for(uint32_t i = 1; i <= M; i++) CHECK(!memcmp(at[i], &i, E), "block-corrupted", "block %u changed", i);
}
SCENARIO(C21) {
	if(choose_in_run(30, 1, 2, "many-slots")) { many_slots(); return; }
	static const ssa_ops* const all[] = {&ssa_2_16, &ssa_4_1, &ssa_8_8, &ssa_16_3, &ssa_64_32, &ssa_128_100, &ssa_256_6, &ssa_1024_1, &ssa_4_4096, &ssa_2048_2};
	const ssa_ops& o = *all[choose(10, "pool")]; const size_t M = o.maxelem, E = o.elemsize;
	bool stat_ = choose(3, "static") == 2;
	__asan_poison_memory_region(region, sizeof region); char* own = region + (256 << 10); __asan_unpoison_memory_region(own, o.pool_size); memset(own, 0xC3, o.pool_size);
	void* P = own; if(stat_) o.sinit(); else o.init(P);
	struct Blk { char* p; size_t n; uint8_t pat; }; std::deque<Blk> live; std::vector<char*> dead; uint8_t pat = 1; char* first = nullptr; std::set<char*> starts;
	auto alloc = [&](size_t n) { budget(LIB_BUDGET); return (char*)(stat_ ? o.salloc(n) : o.alloc(P, n)); };
	auto dofree = [&](void* p) { budget(LIB_BUDGET); if(stat_) o.sfree(p); else o.free_(P, p); };
	bool zeros = choose(4, "zeros") == 3; auto content = [&](const Blk& b, size_t i) { return zeros ? (uint8_t)0 : (uint8_t)(b.pat + i); };
	auto intact = [&](const Blk& b) { for(size_t i = 0; i < b.n; i++) if((uint8_t)b.p[i] != content(b, i)) return false; return true; };
	auto check_all = [&](const char* what) { for(auto& b : live) CHECK(intact(b), "block-corrupted", "%s changed a live block of %zu bytes", what, b.n); };
	auto do_alloc = [&](size_t n) {
		char* p = alloc(n); ev("alloc", n, p != nullptr, live.size());
		if(n > E) { CHECK(!p, "too-large-served", "%zu bytes served from slots of %zu", n, E); return; }
		if(!p) { CHECK(live.size() >= M, "lost-space", "no block although only %zu of %zu are in use", live.size(), M); probe("pool-exhausted"); return; }
		CHECK(live.size() < M, "over-capacity", "block %zu handed out from %zu slots", live.size() + 1, M);
		if(!first) first = p;
		if(!stat_) CHECK(p >= own && p + n <= own + o.pool_size, "outside-pool", "block lies outside the pool");
		{ auto it = starts.lower_bound(p); bool bad = it != starts.end() && *it < p + E; if(it != starts.begin() && *std::prev(it) + E > p) bad = true; CHECK(!bad, "overlap", "new block overlaps a live one"); starts.insert(p); }
		Blk b{p, n, pat++}; for(size_t i = 0; i < n; i++) p[i] = content(b, i); live.push_back(b);
		if(dead.size() && dead.back() == p) { dead.pop_back(); probe("slot-reused"); }
	};
	auto do_free = [&](size_t i, bool mass = false) { Blk b = live[i]; if(mass) { live[i] = live.back(); live.pop_back(); } else live.erase(live.begin() + i); starts.erase(b.p); dofree(b.p); ev("free", i, live.size()); dead.push_back(b.p); };
	size_t sizes_full = choose(2, "fullsize"), opsn = 0;
	for(; opsn < 400 && more(M > 200 ? 60 : 40, "op"); opsn++) {
		Span sp; uint32_t k = choose(10, "what");
		auto sz = [&]() -> size_t { return sizes_full ? E : choose(8, "big") == 7 ? E + choose(3, "over") : choose(std::min<size_t>(E + 1, 5000), "n"); };
		if(k <= 2) do_alloc(sz());
		else if(k <= 4) { if(!live.empty()) { uint32_t w = choose(4, "which"); do_free(w == 0 ? live.size() - 1 : w == 1 ? 0 : choose(live.size(), "i")); } }
		else if(k == 5) { size_t n = 1 + choose(2, "burst") * M; n = std::min(n, M + 2); while(n-- > 0) do_alloc(M > 64 ? E : sz()); probe("burst"); }
		else if(k == 6) { size_t n = choose(live.size() + 1, "frees"); Rng r(choose(1u << 16, "order")); while(n-- > 0 && !live.empty()) do_free(r.below(live.size()), live.size() > 64); }
		else if(k == 7) { if(choose(4, "reinit") == 3) { live.clear(); dead.clear(); starts.clear(); if(stat_) o.sinit(); else o.init(P); ev("init"); } }
		else { // pointers that are not live blocks
			char* base = first ? first : own; char* bad = nullptr; uint32_t w = choose(6, "bad");
			if(w == 0) bad = nullptr;
			else if(w == 1) { if(dead.empty()) continue; bad = dead[choose(dead.size(), "dead")]; }
			else if(w == 2) { if(live.empty() || E < 2) continue; bad = live[choose(live.size(), "blk")].p + 1 + choose(E - 1, "off"); }
			else if(w == 3) { if(!first) continue; bad = (char*)((uintptr_t)base - (1 + choose(40, "before")) * E); }
			else if(w == 4) { if(!first) continue; bad = (char*)((uintptr_t)base + (M + choose(40, "after")) * E); }
			else { if(!first) continue; bad = (char*)((uintptr_t)base + choose(M, "slot") * E); }
			bool alive = false; for(auto& b : live) if(b.p == bad) alive = true;
			if(alive) continue;
			dofree(bad); ev("badfree", w, live.size()); probe("invalid-free");
		}
		check_all("an operation");
	}
	// everything can be used again
	while(!live.empty()) do_free(choose(2, "end") ? live.size() - 1 : 0);
	for(size_t i = 0; i < M; i++) do_alloc(E);
	check_all("refilling"); CHECK(live.size() == M, "lost-space", "only %zu of %zu slots usable after freeing everything", live.size(), M);
	CHECK(!alloc(1), "over-capacity", "more blocks than slots");
}
SCENARIO(C22) {
	arm_some({F_MMAP_ENOMEM, F_MPROTECT_ERR});
	typedef std::vector<PageRange> Ranges; struct Blk { char* p; size_t n; Ranges pages; uint8_t pat; }; std::vector<Blk> live; uint8_t pat = 1; const uintptr_t PS = 4096; const int RW = PROT_READ | PROT_WRITE;
	auto total = [](const Ranges& v) { size_t n = 0; for(auto& r : v) n += r.hi - r.lo; return n / 4096; };
	auto minus = [](const Ranges& a, const Ranges& b) { Ranges v; for(auto r : a) { for(auto& x : b) { if(x.hi <= r.lo || x.lo >= r.hi) continue; if(x.lo > r.lo) v.push_back({r.lo, x.lo, r.prot}); r.lo = std::min(x.hi, r.hi); } if(r.lo < r.hi) v.push_back(r); } return v; };
	auto step = [](size_t n) { return n > 64 ? n / 61 : 1; };
	bool giant = choose(12, "giant") == 11; if(giant) { mmap_max = (size_t)1 << 38; probe("giant-blocks"); } // more than 4 GiB: only a few bytes of the block are touched
	auto verify = [&](const char* what) {
		size_t want = 0, have = total(page_ranges()); for(auto& b : live) want += total(b.pages);
		CHECK(have == want, have > want ? "left-mapped" : "lost-pages", "%s: %zu pages mapped, the %zu live blocks account for %zu", what, have, live.size(), want);
		for(auto& b : live) {
			for(auto& r : b.pages) CHECK(pages_have(r.lo, r.hi, r.prot), "lost-pages", "%s unmapped or protected a page of a live block", what);
			uintptr_t lo = (uintptr_t)b.p, end = lo + b.n;
			CHECK(pages_have(lo, end, RW), "not-accessible", "%s: not every page of a live block of %zu bytes is accessible", what, b.n);
			CHECK(end % PS == 0 && pages_have(end, end + 1, PROT_NONE), "no-guard", "%s: the byte after a live block of %zu bytes is accessible", what, b.n);
			for(size_t i = 0; i < b.n; i += step(b.n)) CHECK((uint8_t)b.p[i] == (uint8_t)(b.pat + i), "block-corrupted", "%s changed a live block of %zu bytes", what, b.n);
		}
	};
	int n_ops = 0;
	for(; n_ops < 80 && more(16, "op"); n_ops++) {
		Span sp; budget(LIB_BUDGET);
		if(choose(5, "what") < 3 || live.empty()) {
			uint32_t k = choose(8, "size"); size_t n = k == 0 ? choose(10, "n") : k <= 2 ? choose(3 * 4096, "n") : k == 3 ? 4096 * (size_t)(1 + choose(6, "pages")) : k <= 5 ? 4096 * (size_t)(1 + choose(6, "pages")) - 3 + choose(7, "d") : k == 6 ? choose(300000, "n") : choose(2, "vast") ? (size_t)-1 - choose(5, "d") * 4096 - choose(4096, "d2") : (size_t)1 << (46 + choose(18, "bit"));
			if(giant && choose(3, "giant-size")) { n = ((size_t)1 << (26 + choose(11, "bit"))) * (1 + choose(3, "times")); uint32_t d = choose(4, "off"); n = d == 0 ? n : d == 1 ? n - choose(3, "d") : d == 2 ? n + 4096 * (size_t)choose(3, "p") : n + choose(1u << 26, "any"); }
			Ranges before = page_ranges(); FaultCount f0 = fsnap();
			char* p = (char*)w_guard_alloc(n); ev("alloc", n, p != nullptr);
			if(!p) { CHECK(fired_any(f0) || n > mmap_max - 4 * PS, "spurious-failure", "no block of %zu bytes although no call failed", n); CHECK(before == page_ranges(), "left-mapped", "a failed allocation left pages mapped or took some away"); probe("alloc-failed"); continue; }
			CHECK(n < (1ull << 45), "impossible-size", "a block of %zu bytes was reported as allocated", n);
			Blk b{p, n, minus(page_ranges(), before), pat++};
			live.push_back(b);
			CHECK(pages_have((uintptr_t)p, (uintptr_t)p + n, RW), "not-accessible", "not every page of a new block of %zu bytes is writable", n);
			for(size_t i = 0; i < n; i += n > (1u << 20) ? step(n) : 1) p[i] = (uint8_t)(b.pat + i);
			if(n && n % 4096 == 0) probe("whole-pages"); if(n >> 32) probe("block-above-4GiB");
			verify("allocation");
		} else {
			size_t i = choose(live.size(), "which"); Blk b = live[i]; live.erase(live.begin() + i); w_guard_free(b.p, b.n); ev("free", b.n); verify("free");
		}
	}
	while(!live.empty()) { Blk b = live.back(); live.pop_back(); budget(LIB_BUDGET); w_guard_free(b.p, b.n); verify("free"); }
}
