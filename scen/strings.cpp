// C10 string constructors, C18 formatted and logged output, C23 standard input lines
#include "common.hpp"
#include <cstdarg>

static bool big_texts;
static std::string gen_text(size_t max, const char* sep = nullptr) { // small alphabet so that separators occur
	std::string s; size_t n = big_texts && choose(3, "big") == 2 ? gen_size({4096, 8192, 65536, 131072}, 70000) : gen_size({}, max); Rng r(choose(1u << 16, "text"));
	while(s.size() < n) { uint32_t k = r.below(10); if(sep && k < 2) s += sep; else if(k == 9) s += (char)r.below(256); else s += (char)('a' + r.below(4)); }
	return s;
}
extern "C" { void repl_printf(const char*, int, unsigned long long); void repl_fprintf_out(const char*, int); void repl_fprintf_err(const char*, int); void repl_dprintf(int, const char*, int); void repl_puts(const char*); void repl_perror(const char*); long repl_snprintf(char*, unsigned long, const char*, int); long repl_vsnprintf(char*, unsigned long, const char*, ...); }
struct SP { Buf b; stringptr s; explicit SP(const std::string& t) : b(t) { s.ptr = b.p; s.size = t.size(); } stringptr* operator&() { return &s; } std::string str() { return b.str(s.size); } };

// ---------------------------------------------------------------- C10
static void expect(stringptr* r, const std::string& want, const char* what) {
	CHECK(r->size == want.size(), "wrong-length", "%s returned %zu bytes, expected %zu", what, r->size, want.size());
	CHECK(memcmp(r->ptr, want.data(), want.size()) == 0, "wrong-content", "%s returned %s, expected %s", what, show(std::string(r->ptr, r->size)).c_str(), show(want).c_str());
	CHECK(r->ptr[want.size()] == 0, "not-terminated", "%s result is not NUL-terminated", what);
}
static std::string replace_all(const std::string& s, const std::string& a, const std::string& b) { std::string o; size_t i = 0; while(i < s.size()) { if(s.compare(i, a.size(), a) == 0) { o += b; i += a.size(); } else o += s[i++]; } return o; }
static std::vector<std::string> split_all(const std::string& s, const std::string& d) { std::vector<std::string> v; size_t i = 0, st = 0; while(i < s.size()) { if(s.compare(i, d.size(), d) == 0) { v.push_back(s.substr(st, i - st)); i += d.size(); st = i; } else i++; } v.push_back(s.substr(st)); return v; }
// a random format of one string and three numbers of one size, with widths, percent signs and text between; printf defines its expansion
struct Mixed {
	bool wide; std::string f, s; uint64_t v[3];
	Mixed(const std::string& str) : s(str) {
		wide = choose(2, "wide"); auto lit = [&] { switch(choose(5, "lit")) { case 0: f += "%%"; break; case 1: f += gen_word(); break; case 2: f += ' '; break; default: break; } };
		lit(); f += "%s";
		for(int i = 0; i < 3; i++) {
			lit(); f += '%'; static const uint64_t marks[] = {0, 1, 9, 10, 99, 255, 256, 0x7fffffff, 0x80000000u, 0xffffffffu, 1ull << 32, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, 999999999, 1000000000};
			v[i] = choose(3, "val") ? marks[choose(16, "mark")] : (uint64_t)choose(0x7fffffff, "lo") << (wide ? choose(33, "sh") : choose(2, "sh")); uint32_t d = choose(wide ? 6 : 5, "directive");
			if(wide || d != 4) if(choose(2, "width")) { static const int w[] = {1, 2, 3, 8, 9, 10, 12, 19, 20, 21, 30, 64, 99, 100, 321, 993}; if(choose(8, "zero") == 7) f += ".0"; else f += '.'; f += std::to_string(w[choose(16, "w")]); }
			if(wide) { static const char* n[] = {"ld", "lu", "lld", "llu", "zd", "zu"}; f += n[d]; } else { f += "duxXc"[d]; if(d == 4) v[i] = 1 + v[i] % 126; }
		}
		lit();
	}
	static std::string gen_word() { std::string w; for(uint32_t n = choose(4, "w"); n > 0; n--) w += "ab.0dsxl"[choose(8, "ch")]; return w; }
	std::string want() { int n = wide ? snprintf(nullptr, 0, f.c_str(), s.c_str(), v[0], v[1], v[2]) : snprintf(nullptr, 0, f.c_str(), s.c_str(), (int)v[0], (int)v[1], (int)v[2]); std::string b(n + 1, 0); if(wide) snprintf(&b[0], n + 1, f.c_str(), s.c_str(), v[0], v[1], v[2]); else snprintf(&b[0], n + 1, f.c_str(), s.c_str(), (int)v[0], (int)v[1], (int)v[2]); b.pop_back(); return b; }
};
#define MIXED_ARGS(m) (char*)(m).s.c_str(), (int)(m).v[0], (int)(m).v[1], (int)(m).v[2]
#define MIXED_WIDE(m) (char*)(m).s.c_str(), (m).v[0], (m).v[1], (m).v[2]
static void fmt_case(std::string& f, std::string& want, stringptr*& out, bool& bad) { // formats whose meaning printf defines
	uint32_t k = choose(10, "fmt"); static char b[700000]; std::string s = gen_text(40); for(char& c : s) if(!c || c == '%') c = 'x';
	if(choose(4, "long") == 3) { size_t n = gen_size({1000, 999, 2000, 4096}, 1500); s.assign(n, 'L'); for(size_t i = 0; i < n; i++) s[i] = 'A' + i % 26; }
	int d = (int)choose(1u << 31, "int") - (1 << 30); unsigned u = choose(1u << 31, "uint") * 2u; unsigned long ul = (unsigned long)u << 20 | 77; Buf sb(s);
	bad = false;
	switch(k) {
	case 0: snprintf(b, sizeof b, "%s", s.c_str()); out = stringptr_format((char*)"%s", sb.p); break;
	case 1: snprintf(b, sizeof b, "a%d:%s!", d, s.c_str()); out = stringptr_format((char*)"a%d:%s!", d, sb.p); break;
	case 2: snprintf(b, sizeof b, "%u%%%lu", u, ul); out = stringptr_format((char*)"%u%%%lu", u, ul); break;
	case 3: snprintf(b, sizeof b, "%s%s", s.c_str(), s.c_str()); out = stringptr_format((char*)"%s%s", sb.p, sb.p); break;
	case 4: snprintf(b, sizeof b, "%c%zu|%lld", 'q', (size_t)ul, (long long)d); out = stringptr_format((char*)"%c%zu|%lld", 'q', (size_t)ul, (long long)d); break;
	case 5: b[0] = 0; out = stringptr_format((char*)""); break;
	case 6: bad = true; b[0] = 0; out = stringptr_format((char*)"x%qy", 1); break;
	case 8: case 9: { Mixed m(s); want = m.want(); Buf fb(m.f); out = m.wide ? stringptr_format(fb.p, MIXED_WIDE(m)) : stringptr_format(fb.p, MIXED_ARGS(m)); return; }
	case 7: bad = true; b[0] = 0; out = choose(2, "null") ? stringptr_format((char*)"x%s", (char*)nullptr) : stringptr_format(nullptr); break;
	}
	want = b;
}
static void giants() { // more than 4 GiB in one string: the result does not fit the memory, so only failure is right
	huge_ok = true; stringptr g; g.ptr = (char*)pattern(); g.size = (1ull << 32) + choose(3, "over") * 0x7fff; if(choose(4, "half") == 3) g.size -= 1ull << 31;
	Buf tb(std::string("xaya")); stringptr t; t.ptr = tb.p; t.size = 4; Buf wb(std::string("a")); stringptr w; w.ptr = wb.p; w.size = 1; HeapMark hm = heap_mark(); uint32_t op = choose(7, "giant-op"); ev("giant", op);
	void* r = nullptr;
	if(op == 0) r = stringptr_new(g.size); else if(op == 1) r = stringptr_copy(&g); else if(op == 2) r = stringptr_strdup(&g); else if(op == 3) r = stringptr_concat(&t, &g, (stringptr*)nullptr);
	else if(op == 4) r = stringptr_replace(&t, &w, &g);
	else if(op == 5) { size_t top = ~(size_t)0 - choose(40, "top"); r = stringptr_new(top); }
	else { stringptrlist* l; { NoFaults nf; l = stringptrlist_new(2); stringptrlist_add(l, t.ptr, t.size); stringptrlist_add(l, g.ptr, g.size); stringptrlist_add(l, t.ptr, t.size); }
		r = choose(2, "dos") ? stringptrlist_tostring_dos(l) : stringptrlist_tostring(l); CHECK(!r, "false-success", "joined to more than the memory holds"); CHECK(stringptrlist_dup_entries(l) <= 1, "false-success", "duplicated a string that does not fit the memory"); if(is_live(stringptrlist_get(l, 0)->ptr) && stringptrlist_get(l, 0)->ptr != t.ptr) free(stringptrlist_get(l, 0)->ptr);
		CHECK(!stringptrlist_add_strdup(l, &g), "false-success", "added a string that does not fit the memory"); CHECK(stringptrlist_getsize(l) == 3, "wrong-count", "failed add_strdup"); sblist_free(l); }
	CHECK(!r, "false-success", "operation %u made a string that does not fit the memory", op); heap_expect_same(hm, "memory-leak", "after refusing a giant string"); probe("giant-string"); huge_ok = false;
}
// strings of more than 4 GiB; only the places that matter are touched, the rest is one shared page of zeros
static bool zeros(const char* p, size_t n) { static const size_t K = 1 << 20; static char z[K]; for(size_t i = 0; i < n; i += K) if(memcmp(p + i, z, std::min(K, n - i))) return false; return true; }
static void giant_strings() {
	probe("giant-strings"); alloc_max = 1ull << 34; CpuLimit lim; budget(1ull << 40); HeapMark hm = heap_mark();
	const size_t G = 1ull << 32, N = G + 100000; char* b = (char*)syscall(SYS_mmap, 0, N + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(b == MAP_FAILED) { probe("no-address-space"); return; } syscall(SYS_madvise, b, N + 4096, MADV_NOHUGEPAGE);
	size_t marks[] = {choose(5000, "m0"), G / 2 + choose(5000, "m1"), G - 1, G + choose(50000, "m3"), N - 1 - choose(3, "m4")}; for(size_t m : marks) b[m] = 'x';
	auto same = [&](const char* what, const char* p, size_t n) { size_t at = 0; for(size_t m : marks) { if(m >= n) break; CHECK(p[m] == b[m] && zeros(p + at, m - at), "wrong-content", "%s of %zu bytes: the bytes up to %zu differ", what, n, m); at = m + 1; } CHECK(zeros(p + at, n - at) && p[n] == 0, "wrong-content", "%s of %zu bytes: the bytes from %zu differ", what, n, at); };
	stringptr s; s.ptr = b; s.size = N; evs("giant", "");
	{ stringptr* c = FAST(stringptr_copy)(&s); CHECK(c, "spurious-failure", "copy"); CHECK(c->size == N, "wrong-length", "a copy of %zu bytes has %zu", N, c->size); same("copy", c->ptr, N); stringptr_free(c); }
	cpu_set(60);
	{ char* c = FAST(stringptr_strdup)(&s); CHECK(c, "spurious-failure", "strdup"); same("strdup", c, N); sim_free(c); }
	cpu_set(60);
	{ stringptr l, r; l.ptr = b; l.size = G / 2 + 7777; r.ptr = b + l.size; r.size = N - l.size; stringptr* c = FAST(stringptr_concat)(&l, &r, (stringptr*)nullptr); CHECK(c, "spurious-failure", "concat"); CHECK(c->size == N, "wrong-length", "two parts of together %zu bytes give %zu", N, c->size); same("concatenation", c->ptr, N); stringptr_free(c); }
	cpu_set(60);
	{ stringptrlist* l = stringptrlist_new(2); stringptrlist_add(l, b, G / 2 + 7777); stringptrlist_add(l, b + G / 2 + 7777, N - G / 2 - 7777); bool dos = choose(2, "dos"); size_t e = 1 + dos; stringptr* c = dos ? FAST(stringptrlist_tostring_dos)(l) : FAST(stringptrlist_tostring)(l); CHECK(c, "spurious-failure", "join"); CHECK(c->size == N + 2 * e, "wrong-length", "joining two strings of together %zu bytes gives %zu", N, c->size);
		char* q = c->ptr + G / 2 + 7777; CHECK(!memcmp(q, dos ? "\r\n" : "\n", e), "wrong-content", "no line end behind the first string"); size_t k1 = N - G / 2 - 7777; bool okay = q[e] == b[G / 2 + 7777]; for(size_t m : marks) okay = okay && c->ptr[m < G / 2 + 7777 ? m : m + e] == 'x'; CHECK(okay && !memcmp(q + e + k1, dos ? "\r\n" : "\n", e) && !c->ptr[c->size], "wrong-content", "joining two strings of together %zu bytes gives something else", N); stringptr_free(c); sblist_free(l); }
	cpu_set(60);
	{ stringptrlist* l = FAST(stringptr_splitc)(&s, 'x'); CHECK(l, "spurious-failure", "split"); CHECK(stringptrlist_getsize(l) == 6, "wrong-count", "%zu parts", (size_t)stringptrlist_getsize(l)); size_t at = 0; for(int i = 0; i < 6; i++) { stringptr* p = stringptrlist_get(l, i); size_t e = i < 5 ? marks[i] : N; CHECK(p->ptr == b + at && p->size == e - at && b[e] == 0, "wrong-part", "part %d of %zu bytes lies at %zu and has %zu bytes, expected %zu at %zu", i, N, (size_t)(p->ptr - b), p->size, e - at, at); at = e + 1; } sblist_free(l); }
	heap_expect_same(hm, "memory-leak", "at the end"); syscall(SYS_munmap, b, N + 4096);
}

static void many_pieces() { // more pieces than 16 bits can count
	probe("pieces-over-64k"); size_t n = 65537 + choose(3000, "n"); std::string t, d = choose(2, "two") ? "xy" : "x"; Rng rg(choose(1u << 16, "text")); for(size_t i = 0; i < n; i++) { for(uint32_t k = rg.below(3); k > 0; k--) t += (char)('a' + rg.below(4)); if(i + 1 < n) t += d; }
	std::vector<std::string> parts = split_all(t, d); HeapMark hm = heap_mark(); SP a(d); stringptr* r;
	for(const char* w : {"cde", "", "z"}) { SP s(t), c(w); budget(1ull << 27); r = stringptr_replace(&s, &a, &c); CHECK(r, "spurious-failure", "replace"); expect(r, replace_all(t, d, w), "replace"); free(r); }
	budget(1ull << 27);
	SP s2(t); stringptrlist* l = d.size() == 1 && choose(2, "char") ? stringptr_splitc(&s2, d[0]) : stringptr_splits(&s2, &a); CHECK(l, "spurious-failure", "split"); CHECK(stringptrlist_getsize(l) == parts.size(), "wrong-count", "split gave %zu pieces, %zu expected", (size_t)stringptrlist_getsize(l), parts.size());
	std::string joined; for(size_t i = 0; i < parts.size(); i++) { stringptr* p = stringptrlist_get(l, i); CHECK(p->size == parts[i].size() && !memcmp(p->ptr, parts[i].data(), p->size) && !p->ptr[p->size], "wrong-part", "piece %zu", i); joined += parts[i] + "\n"; }
	r = stringptrlist_tostring(l); CHECK(r, "spurious-failure", "join"); expect(r, joined, "join"); free(r); stringptrlist_free(l); heap_expect_same(hm, "memory-leak", "at the end");
}
SCENARIO(C10) {
	if(choose_in_run(62, 1, 2, "many-pieces")) { many_pieces(); return; }
	if(cpu_armed) cpu_set(0); if(choose_in_run(60, 1, 2, "giant-strings")) { giant_strings(); return; }
	arm_some({F_ALLOC}); big_texts = choose(thorough ? 20 : 60, "bigtexts") == 11; if(choose(12, "giants") == 11) giants();
	for(int ops = 0; ops < 40 && (ops < 1 || more(8, "op")); ops++) {
		Span sp_; budget(LIB_BUDGET * (big_texts ? 60 : 4)); HeapMark hm = heap_mark(); FaultCount f0 = fsnap();
		auto failed = [&](const char* what) { CHECK(fired(f0, {F_ALLOC}), "spurious-failure", "%s failed although no allocation failed", what); heap_expect_same(hm, "memory-leak", what); probe("failure-reported"); };
		uint32_t op = choose(12, "what"); ev("op", op);
		if(op == 0) { size_t n = gen_size({}, 300); stringptr* r = stringptr_new(n); if(!r) { failed("new"); continue; } CHECK(r->size == n && r->ptr[n] == 0, "not-terminated", "new object of %zu bytes not terminated", n); memset(r->ptr, 7, n); free(r); }
		else if(op == 1) { std::string t = gen_text(200); SP s(t); stringptr* r = stringptr_copy(&s); CHECK(s.str() == t, "input-changed", "copy"); if(!r) { failed("copy"); continue; } expect(r, t, "copy"); CHECK(r->ptr != s.s.ptr, "aliased", "copy shares memory"); free(r); CHECK(!stringptr_copy(nullptr), "null-input", "copy of null"); }
		else if(op == 2) { std::string t = gen_text(200); SP s(t); char* r = stringptr_strdup(&s); CHECK(s.str() == t, "input-changed", "strdup"); if(!r) { failed("strdup"); continue; } CHECK(memcmp(r, t.data(), t.size()) == 0 && r[t.size()] == 0, "wrong-content", "strdup differs"); free(r); CHECK(!stringptr_strdup(nullptr), "null-input", "strdup of null");
			std::string c = t.empty() ? std::string("z") : t; for(char& x : c) if(!x) x = 'y'; Buf cb(c); f0 = fsnap(); char* d = strdup_n(cb.p, c.size()); if(!d) failed("strdup_n"); else { CHECK(!strcmp(d, c.c_str()), "wrong-content", "strdup_n differs"); free(d); }
			size_t k = 1 + choose((uint32_t)c.size(), "part"); Buf part(k); memcpy(part.p, c.data(), k); f0 = fsnap(); hm = heap_mark(); d = strdup_n(part.p, k); if(!d) failed("strdup_n"); else { CHECK(memcmp(d, c.data(), k) == 0 && d[k] == 0, "not-terminated", "strdup_n of the first %zu bytes of a string", k); free(d); } }
		else if(op == 3) {
			uint32_t n = choose(6, "parts"); std::vector<std::unique_ptr<SP>> v; std::string want, orig; for(uint32_t i = 0; i <= n; i++) { std::string t = gen_text(60); want += t; v.emplace_back(new SP(t)); }
			size_t alias[6] = {0, 1, 2, 3, 4, 5}; if(choose(6, "alias") == 5) { want = ""; for(uint32_t i = 0; i <= n; i++) { alias[i] = choose(i + 1, "same-as"); want += v[alias[i]]->str(); } }
			auto p = [&](uint32_t i) { return i <= n ? &v[alias[i]]->s : (stringptr*)nullptr; };
			stringptr* r = stringptr_concat(p(0), p(1), p(2), p(3), p(4), p(5), (stringptr*)nullptr);
			std::string in; for(uint32_t i = 0; i <= n; i++) in += v[alias[i]]->str(); CHECK(in == want, "input-changed", "concat");
			if(!r) { failed("concat"); continue; } expect(r, want, "concat"); free(r);
		} else if(op == 4) { std::string f, want; stringptr* r = nullptr; bool bad; fmt_case(f, want, r, bad);
			if(!r) { if(bad) { heap_expect_same(hm, "memory-leak", "after a failed format"); probe("bad-format"); } else failed("format"); continue; }
			CHECK(!bad, "false-success", "an impossible format returned %zu bytes", r->size); expect(r, want, "format"); if(want.size() >= 1000) probe("long-format"); free(r); }
		else if(op == 5) {
			std::string w = choose(2, "multi") ? "ab" : choose(2, "one") ? "a" : "aab", b = gen_text(6), t = gen_text(150, w.c_str()); if(big_texts && b.size() > 300) b.resize(300); SP s(t), a(w), c(b);
			stringptr* r = stringptr_replace(&s, &a, &c); CHECK(a.str() == w && c.str() == b, "input-changed", "replace changed the pattern or replacement");
			{ std::string now = s.str(); for(size_t i = 0, at = 0; i < t.size(); i++) { bool start = i >= at && t.compare(i, w.size(), w) == 0; if(start) at = i + w.size(); CHECK(now[i] == t[i] || (start && !now[i]), "input-changed", "replace changed byte %zu of the source, which starts no occurrence", i); } }
			if(!r) { failed("replace"); continue; } expect(r, replace_all(t, w, b), "replace"); free(r); heap_expect_same(hm, "memory-leak", "after replace");
		} else if(op <= 8) {
			bool chr = op == 6; if(!chr && choose(12, "nosep") == 11) { // nothing to look for: there is no match
				std::string t = gen_text(40); SP s(t), e(""), x("-"); stringptrlist* l = stringptr_splits(&s, &e); if(!l) { failed("split"); continue; } std::string again; for(size_t i = 0; i < stringptrlist_getsize(l); i++) again += sp_str(stringptrlist_get(l, i)); CHECK(again == t, "not-invertible", "the parts are not the string"); sblist_free(l);
				f0 = fsnap(); SP s2(t); bool ins = choose(2, "by-something"); stringptr* r = stringptr_replace(&s2, &e, ins ? &x : &e); CHECK(s2.str() == t, "input-changed", "replace of nothing"); if(!r) { failed("replace"); continue; } expect(r, t, "replace of nothing"); free(r); heap_expect_same(hm, "memory-leak", "after replace"); continue; }
			std::string d = chr ? std::string(1, "a\n\0b"[choose(4, "delim")]) : choose(2, "multi") ? "ab" : choose(2, "one") ? "c" : "aab"; size_t many = choose(4, "many") == 3 ? 1500 : 120; std::string t = gen_text(many, d[0] ? d.c_str() : "b"); SP s(t), ds(d);
			stringptrlist* l = chr ? stringptr_splitc(&s, d[0]) : stringptr_splits(&s, &ds);
			CHECK(ds.str() == d, "input-changed", "split changed the separator");
			if(!l) { failed("split"); continue; }
			auto want = split_all(t, d); size_t n = stringptrlist_getsize(l);
			CHECK(n == want.size(), n < want.size() ? "partial-result" : "wrong-count", "split into %zu parts, expected %zu", n, want.size());
			std::string again; for(size_t i = 0; i < n; i++) { stringptr* x = stringptrlist_get(l, i); expect(x, want[i], "split part"); if(i) again += d; again += sp_str(x); }
			CHECK(again == t, "not-invertible", "joining the parts gives another string");
			if(op == 8) { // duplicate the entries, then they outlive the buffer
				f0 = fsnap(); ssize_t r = stringptrlist_dup_entries(l); size_t good = r == -1 ? n : r;
				if(r != -1) { CHECK(fired(f0, {F_ALLOC}), "spurious-failure", "dup_entries failed"); CHECK(good < n, "wrong-result", "dup_entries returned %zd of %zu", r, n); probe("dup-entries-failed"); }
				for(size_t i = 0; i < n; i++) { stringptr* x = stringptrlist_get(l, i); expect(x, want[i], "duplicated entry"); bool own = is_live(x->ptr); CHECK(own == (i < good), "wrong-result", "entry %zu %s although dup_entries reported %zd", i, own ? "duplicated" : "not duplicated", r); }
				if(r == -1 && choose(2, "freeall")) { stringptrlist_freeall(l); l = nullptr; } else for(size_t i = 0; i < good; i++) free(stringptrlist_get(l, i)->ptr);
			}
			if(l) { sblist_free(l); }
			heap_expect_same(hm, "memory-leak", "after freeing the parts");
		} else if(op <= 10) {
			bool dos = op == 10; std::vector<std::string> items; stringptrlist* l; { NoFaults nf; l = stringptrlist_new(4); }
			std::string want; for(uint32_t i = choose(9, "items"); i > 0; i--) { items.push_back(gen_text(40)); SP s(items.back()); f0 = fsnap(); int r = stringptrlist_add_strdup(l, &s); CHECK(s.str() == items.back(), "input-changed", "add_strdup"); if(!r) { CHECK(fired(f0, {F_ALLOC}), "spurious-failure", "add_strdup failed"); items.pop_back(); probe("add_strdup-failed"); } else { CHECK(stringptrlist_getsize(l) == items.size(), "wrong-count", "add_strdup"); stringptr* x = stringptrlist_get(l, items.size() - 1); expect(x, items.back(), "add_strdup"); CHECK(is_live(x->ptr), "aliased", "add_strdup"); } }
			CHECK(stringptrlist_getsize(l) == items.size(), "wrong-count", "list has %zu of %zu entries", (size_t)stringptrlist_getsize(l), items.size());
			for(auto& i : items) want += i + (dos ? "\r\n" : "\n");
			HeapMark h2 = heap_mark(); f0 = fsnap(); stringptr* r = dos ? stringptrlist_tostring_dos(l) : stringptrlist_tostring(l);
			for(size_t i = 0; i < items.size(); i++) CHECK(sp_str(stringptrlist_get(l, i)) == items[i], "input-changed", "tostring changed an entry");
			if(!r) { CHECK(fired(f0, {F_ALLOC}), "spurious-failure", "tostring failed"); heap_expect_same(h2, "memory-leak", "tostring"); probe("tostring-failed"); } else { expect(r, want, "tostring"); free(r); }
			stringptrlist_freeall(l); heap_expect_same(hm, "memory-leak", "after freeall"); stringptrlist_freeall(nullptr);
		} else { std::string t = gen_text(80); for(char& c : t) if(!c) c = 'z'; Buf b(t); stringptr s; CHECK(stringptr_fromchar(b.p, &s) == &s && s.ptr == b.p && s.size == t.size(), "wrong-length", "fromchar"); stringptr_fromchar(nullptr, &s); CHECK(s.size == 0, "null-input", "fromchar of null"); }
		heap_expect_same(hm, "memory-leak", "after the call");
	}
}

// ---------------------------------------------------------------- C18
static bool is_subseq(const std::string& a, const std::string& b) { size_t i = 0; for(char c : b) if(i < a.size() && a[i] == c) i++; return i == a.size(); }
struct Msg { std::string m; bool cut; };
static bool weave(const std::string& out, const std::vector<std::vector<Msg>>& q, std::vector<size_t> ix, size_t pos, std::set<std::pair<std::vector<size_t>, size_t>>& seen) {
	if(!seen.insert({ix, pos}).second) return false;
	bool all = true; for(size_t t = 0; t < q.size(); t++) all &= ix[t] == q[t].size();
	if(all) return pos == out.size();
	for(size_t t = 0; t < q.size(); t++) if(ix[t] < q[t].size()) {
		const Msg& m = q[t][ix[t]]; size_t k = 0; while(k < m.m.size() && pos + k < out.size() && out[pos + k] == m.m[k]) k++;
		auto nx = ix; nx[t]++;
		if(!m.cut) { if(k == m.m.size() && weave(out, q, nx, pos + k, seen)) return true; }
		else for(size_t j = 0; j <= k; j++) if(weave(out, q, nx, pos + j, seen)) return true;
	}
	return false;
}
SCENARIO(C18) {
	arm_some({F_SHORT_WRITE, F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_EINTR});
	Process* me = cur_proc(); std::vector<InodeP> files; for(int i = 0; i < 5; i++) { NoFaults nf; std::string n = "/tmp/o" + std::to_string(i); files.push_back(vfs_mkfile(n, "")); sim_open(n.c_str(), 2); }
	HeapMark hm = heap_mark(); size_t fds = open_fds(me);
	auto wf = [](const FaultCount& f) { return fired(f, {F_SHORT_WRITE, F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_EINTR}); };
	auto text = [&](size_t max) { std::string s = gen_text(max); for(char& c : s) if(!c) c = '_'; return s; };
	uint32_t ntasks = choose(3, "concurrent") == 2 ? 2 + choose(2, "tasks") : 1;
	if(ntasks == 1) {
		if(choose(3, "tz") == 2) set_wall((int64_t)choose(2000000000, "when") * 1000000000ll + 999999000ll); tick_max = choose(2, "tick") ? 3000 : 0;
		for(int ops = 0; ops < 30 && (ops < 1 || more(8, "op")); ops++) {
			Span sp_; budget(LIB_BUDGET); std::vector<size_t> before; for(auto& f : files) before.push_back(f->data.size());
			int fd = choose(5, "fd"); std::string want, alt; FaultCount f0 = fsnap(); uint32_t op = choose(15, "what"); ev("op", op, fd); bool silent = false, limited = false;
			uint32_t lg = choose(120, "long"); std::string t = lg == 119 && ops == 0 ? text(100) : text(lg % 8 == 7 ? 6000 : 60); if(lg == 119 && ops == 0) { t.resize(65400 + choose(200, "over-64k") * (1 + choose(350, "times")), 'L'); probe("message-over-64k"); } SP s(t); char b[64];
			if(op == 0) { want = t; log_puts(fd, &s); CHECK(s.str() == t, "input-changed", "log_puts"); }
			else if(op == 1) { want = t; log_putc(fd, s.b.p); }
			else if(op == 2) { want = "\n"; log_putln(fd); }
			else if(op == 3) { int64_t v = choose(2, "neg") ? -(int64_t)choose(1u << 31, "v") * 3 : (int64_t)choose(1u << 31, "v") * choose(1u << 20, "v2"); bool sg = choose(2, "signed"); if(choose(3, "wide") == 2) v = (int64_t)(choose(1u << 31, "hi") * 0x200000003ull); uint64_t u = sg ? (uint64_t)v : v == INT64_MIN || choose(2, "top") ? (uint64_t)v : (uint64_t)(v < 0 ? -v : v); snprintf(b, sizeof b, sg ? "%lld" : "%llu", (long long)u); want = b; log_putd(fd, u, sg); }
			else if(op == 4) { static const int es[] = {ENOENT, EACCES, EINVAL, EIO, ENOSPC, EINTR, 0, 200}; int e = es[choose(8, "errno")]; want = t + ": " + strerror(e) + "\n"; errno = e; log_puterror(fd, s.b.p); }
			else if(op == 5) { int64_t w0 = wall_ns(); log_timestamp(fd); int64_t w1 = wall_ns(); for(int k = 0; k < 2; k++) { time_t x = (k ? w1 : w0) / 1000000000; struct tm tm; gmtime_r(&x, &tm); strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm); (k ? alt : want) = b; } }
			else if(op == 6) {
				stringptr* sp = &s; char* c = s.b.p; int i = (int)choose(1u << 31, "i") - (1 << 30); unsigned u = choose(1u << 31, "u") * 2u + 1; long l = -(long)choose(1u << 31, "l") * 5; unsigned long ul = ~(unsigned long)choose(1000, "ul");
				vario v[6]; vario* p[7]; uint32_t n = choose(6, "n"); for(uint32_t j = 0; j < 7; j++) p[j] = nullptr;
				for(uint32_t j = 0; j < n; j++) { p[j] = &v[j]; uint32_t k = choose(7, "type"); v[j].type = (variotype)k; void* ptrs[] = {&sp, &c, &c, &i, &u, &l, &ul}; v[j].ptr = ptrs[k]; switch(k) { case 0: case 1: case 2: want += t; break; case 3: want += std::to_string(i); break; case 4: want += std::to_string(u); break; case 5: want += std::to_string(l); break; case 6: want += std::to_string(ul); break; } }
				want += "\n"; log_put(fd, p[0], p[1], p[2], p[3], p[4], p[5], p[6], (vario*)nullptr);
			} else if(op == 7) { int d = (int)choose(1u << 31, "i") - (1 << 30); char* x = new char[t.size() + 64]; int n = snprintf(x, t.size() + 64, "<%s|%d>%%\n", t.c_str(), d); want.assign(x, n); delete[] x; ulz_fprintf(fd, "<%s|%d>%%\n", s.b.p, d); }
			else if(op >= 13) { // the replacements for stdio
				int d = (int)choose(1u << 31, "i") - (1 << 30); uint64_t q = choose(1u << 31, "q") * 0x200000003ull; uint32_t k = choose(8, "repl"); limited = k < 4; std::string ds = std::to_string(d); char qs[40]; snprintf(qs, sizeof qs, "%x|%llu", (unsigned)d, (unsigned long long)q);
				if(k == 0) { fd = 1; want = t + "|" + ds + "|" + qs + "\n"; repl_printf(s.b.p, d, q); } else if(k == 1) { fd = 1; want = t + ":" + ds; repl_fprintf_out(s.b.p, d); } else if(k == 2) { fd = 2; want = t + ";" + ds; repl_fprintf_err(s.b.p, d); } else if(k == 3) { want = "(" + t + "," + ds + ")"; repl_dprintf(fd, s.b.p, d); }
				else if(k == 4) { fd = 1; want = t + "\n"; repl_puts(s.b.p); } else if(k == 5) { fd = 2; want = t + ": " + strerror(EACCES) + "\n"; errno = EACCES; repl_perror(s.b.p); }
				else { std::string x = k == 6 ? t + "=" + ds : "[" + t + "]" + ds; size_t n = choose(2, "room") ? x.size() + 1 : 1 + choose(x.size() + 1, "n"); Buf o(n); long r = k == 6 ? repl_snprintf(o.p, n, s.b.p, d) : repl_vsnprintf(o.p, n, "[%s]%d", s.b.p, d); std::string cut = x.substr(0, n - 1); CHECK(r == (long)cut.size() && cut == o.p, "wrong-output", "formatted into %zu bytes: %ld, %s, expected %s", n, r, show(o.p).c_str(), show(cut).c_str()); silent = true; } }
			else if(op >= 11) { Mixed m(t); want = m.want(); Buf fb(m.f); if(op == 12) { fd = 1; if(m.wide) ulz_printf(fb.p, MIXED_WIDE(m)); else ulz_printf(fb.p, MIXED_ARGS(m)); } else if(m.wide) ulz_fprintf(fd, fb.p, MIXED_WIDE(m)); else ulz_fprintf(fd, fb.p, MIXED_ARGS(m)); probe("mixed-format"); }
			else if(op == 9) { fd = 1; op_state o; std::vector<std::unique_ptr<Buf>> av; char* argv[7]; int n = choose(6, "argc"); for(int i = 0; i < n; i++) { std::string a = text(20); if(i) want += a + "\n"; av.emplace_back(new Buf(a)); argv[i] = av.back()->p; } argv[n] = nullptr; op_init(&o, n, argv); op_printall(&o); }
			else if(op == 8) { fd = 1; want = "[" + t + "]"; ulz_printf("[%s]", s.b.p); }
			else { silent = true; uint32_t k = choose(5, "nothing"); if(k == 0) log_puts(fd, nullptr); else if(k == 1) log_putc(fd, nullptr); else if(k == 2) ulz_fprintf(fd, "%s", ""); else if(k == 3) ulz_fprintf(fd, "abc%q", 1); else { fd = 1; ulz_printf("abc%s", (char*)nullptr); } if(k >= 3) alt = "abc"; }
			bool cut = wf(f0); std::string got = files[fd]->data.substr(std::min(before[fd], files[fd]->data.size()));
			for(int i = 0; i < 5; i++) { CHECK(files[i]->data.size() >= before[i], "output-lost", "earlier output vanished"); if(i != fd) CHECK(files[i]->data.size() == before[i], "wrong-descriptor", "output for descriptor %d arrived on %d", fd, i); }
			if(silent) CHECK(got.empty() || (alt.size() && alt.compare(0, got.size(), got) == 0), "foreign-output", "%zu bytes written for an empty or impossible message", got.size());
			else if(!cut) {
				size_t lim = (op == 7 || op == 8 || op == 11 || op == 12 || limited) && want.size() > 4095 ? 4095 : want.size();
				if(lim < want.size()) { CHECK(want.compare(0, got.size(), got) == 0 && got.size() >= lim, "wrong-output", "long message: %zu of %zu bytes arrived", got.size(), want.size()); probe("message-longer-than-buffer"); }
				else CHECK(got == want || (!alt.empty() && got == alt), "wrong-output", "operation %u wrote %s, expected %s", op, show(got).c_str(), show(want).c_str());
			} else { CHECK(is_subseq(got, want) || (!alt.empty() && is_subseq(got, alt)), "foreign-output", "operation %u wrote %s, not made of the message %s", op, show(got).c_str(), show(want).c_str()); probe("cut-by-write-error"); }
		}
	} else {
		sys_yield = true; switch_den = 2; preempt_max = choose(2, "preempt") ? 60 : 0;
		std::vector<std::vector<std::vector<Msg>>> q(5, std::vector<std::vector<Msg>>(ntasks));
		for(uint32_t t = 0; t < ntasks; t++) {
			std::vector<std::pair<int, std::string>> plan; for(uint32_t i = 1 + choose(4, "msgs"); i > 0; i--) { std::string x = text(choose(5, "long") == 4 ? 3000 : 30); plan.push_back({choose(3, "fd") ? 1 : (int)choose(5, "fd2"), x}); }
			spawn("writer", [&, t, plan] {
				int id = 0; for(auto& m : plan) { FaultCount f0 = fsnap(); Buf b(m.second); id++; ev("print", t, id);
					if(m.first == 1) ulz_printf("{%d.%d|%s|}\n", (int)t, id, b.p); else ulz_fprintf(m.first, "{%d.%d|%s|}\n", (int)t, id, b.p);
					q[m.first][t].push_back({"{" + std::to_string(t) + "." + std::to_string(id) + "|" + m.second + "|}\n", wf(f0)}); yield_point(); }
			});
		}
		join_all(); preempt_max = 0; sys_yield = false;
		for(int fd = 0; fd < 5; fd++) { std::set<std::pair<std::vector<size_t>, size_t>> seen; CHECK(weave(files[fd]->data, q[fd], std::vector<size_t>(ntasks), 0, seen), "torn-output", "output on descriptor %d is not a sequence of whole messages: %s", fd, show(files[fd]->data, 120).c_str()); }
		probe("concurrent-writers");
	}
	CHECK(open_fds(me) == fds, "fd-leak", "descriptors: %s", fd_list(me).c_str());
	heap_expect_same(hm, "memory-leak", "after logging");
}

// ---------------------------------------------------------------- C23
SCENARIO(C23) {
	arm_some({F_SHORT_READ, F_READ_EIO, F_READ_EINTR});
	bool piped = choose(2, "pipe"); std::string S; int n = 0;
	while(n++ < 10 && more(4, "line")) { Span s; size_t len = gen_size({}, choose(6, "long") == 5 ? 5000 : 30); if(n == 1 && choose(300, "very-long") == 299) { len = 65500 + choose(3000, "len"); probe("line-over-64k"); } std::string l = gen_data(len, 0); for(char& c : l) if(c == '\n' || !c) c = 'n'; if(len && choose(4, "cr") == 3) l.back() = '\r'; S += l + "\n"; }
	if(!S.empty() && choose(2, "chop")) S.pop_back();
	int pfd[2] = {-1, -1}; bool wdone = false;
	{ NoFaults nf; if(!piped) { vfs_mkfile("/tmp/in", S); sim_open("/tmp/in", 0); } else { sim_pipe(pfd); sys_yield = true; switch_den = 2; } }
	if(piped) {
		CHECK(pfd[0] == 0, "harness", "pipe is not descriptor 0");
		std::vector<size_t> cuts; size_t left = S.size(); while(left) { size_t k = 1 + choose(std::min<size_t>(left, 64), "arrive"); if(choose(4, "big") == 3) k = left; cuts.push_back(k); left -= k; }
		spawn("typist", [&, cuts] { NoFaults nf; size_t p = 0; for(size_t k : cuts) { size_t w = 0; while(w < k) { ssize_t r = sim_write(pfd[1], S.data() + p + w, k - w); if(r <= 0) break; w += r; } p += k; for(int y = choose(3, "pause"); y > 0; y--) yield_point(); } sim_close(pfd[1]); wdone = true; });
	}
	struct Pos { std::vector<size_t> v; void insert(size_t p) { v.push_back(p); } size_t first() const { return v.front(); } bool has(size_t p) const { return std::binary_search(v.begin(), v.end(), p); } void done() { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); } } pos; pos.insert(0); int fails = 0; bool ended = false; HeapMark hm = heap_mark(); size_t calls = 0;
	while(!ended) {
		Span sp_; CHECK(calls++ < S.size() + 60, "no-end", "input of %zu bytes does not end", S.size()); budget(LIB_BUDGET);
		if(calls > 30 && fails) disarm_all();
		size_t L = 0; { size_t p = pos.first(), e = S.find('\n', p); L = (e == std::string::npos ? S.size() : e) - std::min(p, S.size()); }
		uint32_t k = choose(4, "bufsize"); size_t b = k == 0 ? 64 : k == 1 ? 2 + choose(20, "b") : k == 2 ? std::max<size_t>(2, L + choose(4, "b")) : 2 + choose(6000, "b"); if(calls > 1500 && b < 700) b += 700; bool chomp = choose(2, "chomp"); Buf buf(b);
		FaultCount f0 = fsnap(); stringptr r = read_stdin_line(buf.p, b, chomp); bool f = fired(f0, {F_READ_EIO, F_READ_EINTR}); ev("line", r.ptr ? (int64_t)r.size : -1, b, chomp);
		if(!r.ptr) {
			CHECK(r.size == 0, "stale-data", "failed read reports %zu bytes", r.size);
			if(f) { fails++; probe("read-error"); Pos np; size_t lo = 0; for(size_t p : pos.v) { for(size_t q = std::max(p, lo); q <= std::min(S.size(), p + b); q++) np.insert(q); lo = std::min(S.size(), p + b) + 1; } pos = np; if(fails > 25) disarm_all(); continue; } // what the failed call had read may be lost
			CHECK(pos.has(S.size()), "early-eof", "end of input reported at offset %zu of %zu", pos.first(), S.size()); ended = true; probe("end-of-input"); continue;
		}
		CHECK(r.ptr >= buf.p && r.size <= b - 1 && r.ptr + r.size < buf.p + b, "outside-buffer", "result of %zu bytes is not inside the buffer of %zu", r.size, b);
		CHECK(r.ptr[r.size] == 0, "not-terminated", "line not terminated");
		std::string got(r.ptr, r.size); Pos np; bool nl_kept = !got.empty() && got.back() == '\n';
		for(size_t p : pos.v) {
			if(p >= S.size() || S.compare(p, got.size(), got)) continue;
			size_t e = S.find('\n', p), len = (e == std::string::npos ? S.size() : e) - p; bool has_nl = e != std::string::npos;
			if(!chomp) { size_t full = len + has_nl; if(got.empty()) continue; if(got.size() == full || (got.size() < full && full > b - 1)) np.insert(p + got.size()); }
			else { if(nl_kept) continue; if(got.size() == len) { if(has_nl) np.insert(p + len + 1); if(len && (!has_nl || len + 1 > b - 1)) np.insert(p + len); } else if(got.size() < len && !got.empty() && len + has_nl > b - 1) np.insert(p + got.size()); }
		}
		np.done(); CHECK(!np.v.empty(), "wrong-line", "%zu bytes delivered (strip %d, buffer %zu) that are not the next line or piece at offset %zu of %zu: %s", got.size(), chomp, b, pos.first(), S.size(), show(got).c_str());
		pos = np; if(r.size == b - 1) probe("buffer-full");
	}
	if(piped) join_all();
	heap_expect_same(hm, "memory-leak", "after reading");
}
