// C20: calls on disjoint data give the same results alone, one after the other and interleaved
#include "common.hpp"
#include <fcntl.h>
#include <stdarg.h>
#include "ops.h"
extern "C" { int sim_key_cmp(uint64_t a, uint64_t b) { return a < b ? -1 : a > b; } unsigned sim_key_hash(uint64_t k) { return (unsigned)mix(k); } int (*sim_ptr_cmp)(const char*, const char*) = [](const char* a, const char* b) { return a < b ? -1 : a > b ? 1 : 0; }; }
namespace {
// Every operation is a deterministic function of (key, slot): its inputs are drawn from Rng(key), the files it
// uses carry the slot in their name.  It returns everything the library told the caller.
// In half of the runs in which the tasks perform the same operation they wait for each other wherever a library call
// has returned, so that the same functions are active in several tasks at once.
struct Meeting { bool on; int active, waiting; uint64_t round; } meet;
void meet_now() { if(++meet.waiting >= meet.active) { meet.waiting = 0; meet.round++; } else { uint64_t r = meet.round; block_until([r] { return meet.round != r; }, "the other callers"); } }
void meet_leave() { meet.active--; if(meet.active && meet.waiting >= meet.active) { meet.waiting = 0; meet.round++; } }
struct Out { std::string s; void n(int64_t v) { s += std::to_string(v) + ";"; if(meet.on) { int e = errno; meet_now(); errno = e; } } void b(const void* p, size_t l) { s.append((const char*)p, l); s += ';'; n(l); } void str(const char* p) { if(!p) s += "null;"; else b(p, strlen(p)); } void sp(stringptr* p) { if(!p) s += "null;"; else b(p->ptr, p->size); } };
std::string text(Rng& r, size_t max, const char* alpha = "abcAB xyz01,.=-[]\n/") { size_t n = r.below(max + 1), k = strlen(alpha); std::string s; for(size_t i = 0; i < n; i++) s += alpha[r.below(k)]; return s; }
std::string bytes(Rng& r, size_t max) { size_t n = r.below(max + 1); std::string s; for(size_t i = 0; i < n; i++) s += (char)r.below(256); return s; }
struct SP { Buf b; stringptr v; explicit SP(const std::string& s) : b(s) { v.ptr = b.p; v.size = s.size(); } operator stringptr*() { return &v; } };
int cmpint(const void* a, const void* b) { int x = *(const int*)a, y = *(const int*)b; return x < y ? -1 : x > y; }
int cmpctx(const void* a, const void* b, void* c) { int x = *(const int*)a, y = *(const int*)b, m = *(int*)c; return m * (x < y ? -1 : x > y); }
std::string fname(int slot, const char* n) { return "/tmp/slot" + std::to_string(slot) + n; }
typedef void (*Op)(Rng&, int, Out&);
void op_numbers(Rng& r, int, Out& o) {
	for(int k = 0; k < 3; k++) { char b[80]; uint64_t v = r.next() >> r.below(64); o.str(numberToString(v, 2 + r.below(35), b, r.below(20), r.below(8))); o.str(intToString((int)v, b)); o.str(uintToString((unsigned)v, b)); o.str(int64ToString((int64_t)v, b)); o.str(uint64ToString(v, b)); o.str(itoa((int)v, b)); o.str(utoa((unsigned)v, b)); snprintf(b, sizeof b, "%d", (int)v); o.n(strtoint(b, strlen(b))); o.n(strtoint64(b, strlen(b))); }
}
void op_text(Rng& r, int, Out& o) {
	std::string a = text(r, 40), w = text(r, 4, "ABXYZ01"), lw = w; for(char& c : lw) c = tolower(c); a += r.below(2) ? lw : "q"; a += text(r, 10); Buf A(a), W(w.empty() ? "A" : w); size_t wl = strlen(W.p);
	char* p = strstr_uc(A.p, W.p, wl); o.n(p ? p - A.p : -1); p = strstar(A.p, W.p, wl); o.n(p ? p - A.p : -1); p = findword(A.p, W.p, wl); o.n(p ? p - A.p : -1); o.n(strends(A.p, W.p)); o.n(containsChar(A.p, 'x'));
	for(size_t i = 0; i < a.size() && i < 8; i++) { o.n(isAlpha(A.p + i)); o.n(isNumber(A.p + i)); o.n(isLetter(A.p + i)); o.n(isUpper(A.p + i)); o.n(isLower(A.p + i)); makeupper(A.p + i); makelower(A.p + i); } o.str(A.p);
	char* d = strdup_n(A.p, a.size() / 2); o.b(d, a.size() / 2); sim_free(d);
}
void op_codec(Rng& r, int, Out& o) {
	std::string d = bytes(r, 60); Buf D(d), H(d.size() * 2 + 1), B(BASE64ENC_BUFSIZE(d.size())), R(d.size() + 4), X(d.size() + 1);
	raw2hex(H.p, (unsigned char*)D.p, d.size()); o.str(H.p); size_t n = hex2raw(H.p, (unsigned char*)R.p); o.b(R.p, n);
	base64enc(B.p, (unsigned char*)D.p, d.size()); o.str(B.p); n = base64dec((unsigned char*)R.p, B.p, d.size() + 3); o.b(R.p, n);
	std::string k = bytes(r, 20) + "k"; Buf K(k); rc4((unsigned char*)X.p, (unsigned char*)D.p, d.size(), (unsigned char*)K.p, k.size()); o.b(X.p, d.size());
	std::string t = text(r, 30, "abcdefgh"); Buf T(t), E(BASE64ENC_BUFSIZE(t.size())); o.n(base64enc_str(E.p, (unsigned char*)T.p, BASE64ENC_BUFSIZE(t.size()))); o.str(E.p);
	char ip[16]; unsigned char four[4] = {(unsigned char)r.below(256), (unsigned char)r.below(256), (unsigned char)r.below(256), (unsigned char)r.below(256)}; stringfromipv4(four, ip); o.str(ip); o.n(isnumericipv4(ip)); unsigned char f2[4] = {0}; o.n(ipv4fromstring(ip, f2)); o.b(f2, 4);
	char hx[2] = {"0123456789abcdefABCDEF"[r.below(22)], 0}; o.n(hexval(hx));
}
void op_digest(Rng& r, int, Out& o) {
	std::string d = bytes(r, 300); Buf D(d); md5_ctx m; unsigned char out[64]; md5_init(&m); size_t c = r.below(d.size() + 1); md5_update(&m, D.p, c); md5_update(&m, D.p + c, d.size() - c); md5_end(&m, out); o.b(out, 16);
	sha512_ctx s; sha512_init(&s); sha512_update(&s, (unsigned char*)D.p, d.size() & ~127ul); sha512_update(&s, (unsigned char*)D.p + (d.size() & ~127ul), d.size() & 127); o.b(sha512_end(&s), 64);
	CRC32_CTX x; CRC32_Init(&x); CRC32_Update(&x, (uint8_t*)D.p, d.size()); CRC32_Final(out, &x); o.b(out, 4); CRC32C_Init(&x); CRC32C_Update(&x, (uint8_t*)D.p, d.size()); CRC32C_Final(out, &x); o.b(out, 4); char h[33]; md5str(h, (unsigned char*)D.p, d.size()); o.str(h);
}
void op_format(Rng& r, int, Out& o) {
	size_t n = 1 + r.below(80); Buf B(n); std::string t = text(r, 20); int v = (int)r.next(); uint64_t q = r.next();
	o.n(ulz_snprintf(B.p, n, "%s|%d|%u|%x|%.4d|%c|%%|%lld|%zu|%X", t.c_str(), v, (unsigned)v, (unsigned)v, v & 4095, 'a' + (int)r.below(26), (long long)q, (size_t)q, (unsigned)v)); o.str(B.p); o.n(ulz_snprintf(nullptr, 0, "%s-%d", t.c_str(), v));
	stringptr* s = stringptr_format((char*)"%s=%d;", t.c_str(), v); o.sp(s); sim_free(s);
	Buf T(t); stringptr x; x.ptr = T.p; x.size = t.size(); stringptr* s2 = stringptr_format((char*)"<%s>", T.p); o.sp(s2); sim_free(s2);
}
void op_strings(Rng& r, int, Out& o) {
	std::string a = text(r, 40), b = text(r, 5), c = text(r, 6); if(b.empty()) b = ","; SP A(a), B(b), C(c);
	stringptr* x = stringptr_concat(A, (stringptr*)B, (stringptr*)C, (stringptr*)nullptr); o.sp(x); if(x) { size_t pos = r.below(x->size + 1); o.n(stringptr_here(x, pos, B)); o.n(stringptr_contains(x, B)); char* q = stringptr_rchr(x, b[0]); o.n(q ? q - x->ptr : -1); }
	stringptr* y = stringptr_copy(A); o.sp(y); o.n(stringptr_eq(A, y)); o.n(stringptr_eq(A, B)); o.n(stringptr_hash(A)); char* d = stringptr_strdup(A); o.str(d); sim_free(d);
	if(x) { stringptr* z = stringptr_replace(x, B, C); o.sp(z); if(z != x) sim_free(z); sim_free(x); }
	if(y) { stringptr v = *y; o.n(stringptr_shiftright(&v, r.below(v.size + 2))); o.n(stringptr_shiftleft(&v, r.below(v.size + 2))); o.sp(&v); o.n(stringptr_chomp(&v)); o.sp(&v); sim_free(y); }
	stringptr* nw = stringptr_new(r.below(30)); o.n(nw ? (int64_t)nw->size : -1); sim_free(nw); stringptr fc; o.sp(stringptr_fromchar(A.b.p, &fc));
}
void op_lists(Rng& r, int, Out& o) {
	std::string a = text(r, 60); if(a.empty()) a = "x"; SP A(a), D(std::string(1, ",. a"[r.below(4)])); stringptrlist* l = r.below(2) ? stringptr_splitc(A, D.b.p[0]) : stringptr_splits(A, D);
	if(!l) { o.str(nullptr); return; }
	o.n(stringptrlist_getsize(l)); for(size_t i = 0; i < stringptrlist_getsize(l); i++) o.sp(stringptrlist_get(l, i));
	SP W(text(r, 2, "abc")); o.n(stringptrlist_find(l, W)); o.n(stringptrlist_contains(l, W));
	o.n(stringptrlist_dup_entries(l)); stringptrlist_add_strdup(l, W); stringptr* j = stringptrlist_tostring(l); o.sp(j); sim_free(j); j = stringptrlist_tostring_dos(l); o.sp(j); sim_free(j); stringptrlist_freeall(l);
}
void op_sblist(Rng& r, int, Out& o) {
	sblist* l = sblist_new(sizeof(int), 1 + r.below(5)); if(!l) return; int n = r.below(14);
	for(int i = 0; i < n; i++) { int v = r.below(20); switch(r.below(4)) { case 0: o.n(sblist_add(l, &v)); break; case 1: o.n(sblist_insert(l, &v, r.below(l->count + 1))); break; case 2: if(l->count) sblist_delete(l, r.below(l->count)); break; default: o.n(sblist_addi(l, &v)); } }
	if(r.below(2)) { int* p = (int*)sblist_pop(l); o.n(p ? *p : -1); }
	sblist_sort(l, cmpint); for(int i = 0; i < 4; i++) { int v = r.below(20); o.n(sblist_insert_sorted(l, &v, cmpint)); o.n(sblist_bsearch(l, &v, cmpint)); } for(size_t i = 0; i < l->count; i++) o.n(*(int*)sblist_get(l, i));
	int up = r.below(2) ? 1 : -1; sblist* m = sblist_new(sizeof(int), 3); for(int i = 0; i < 6; i++) { int v = r.below(9); o.n(sblist_insert_sorted_r(m, &v, cmpctx, &up)); o.n(sblist_bsearch_r(m, &v, cmpctx, &up)); } for(size_t i = 0; i < m->count; i++) o.n(*(int*)sblist_get(m, i)); sblist_free(m); sblist_free(l);
}
void op_tlist(Rng& r, int, Out& o) {
	tlist* t = tlist_new(sizeof(int)); if(!t) return; int n = r.below(25); for(int i = 0; i < n; i++) { int v = r.next(); size_t sz = tlist_getsize(t); switch(r.below(4)) { case 0: o.n(tlist_append(t, &v)); break; case 1: case 2: o.n(tlist_insert(t, r.below(sz + 1), &v)); break; default: if(sz) o.n(tlist_delete(t, r.below(sz))); } } for(size_t i = 0; i < tlist_getsize(t); i++) o.n(*(int*)tlist_get(t, i)); tlist_free(t);
}
void op_hash(Rng& r, int, Out& o) {
	hashlist* h = hashlist_new(1 + r.below(7), sizeof(int)); if(!h) return; for(int i = 0, n = r.below(12); i < n; i++) { int v = i; o.n(hashlist_add(h, r.below(20), &v)); }
	for(uint32_t k = 0; k < 20; k++) { sblist* l = hashlist_get(h, k); o.n(l ? (int64_t)l->count : -1); } hashlist_iterator it; hashlist_iterator_init(&it); void* p; while((p = hashlist_next(h, &it))) o.n(*(int*)p); hashlist_free(h);
	kvlist* kv = kv_new(4); std::vector<std::unique_ptr<SP>> ks; for(int i = 0; i < 5; i++) { ks.emplace_back(new SP(text(r, 2, "ab"))); stringptrv sv; sv.ptr = ks[i]->b.p; sv.size = ks[i]->v.size; sv.value = (void*)(uintptr_t)i; sblist_add(kv, &sv); } for(int i = 0; i < 5; i++) { void* v = nullptr; o.n(kv_find(kv, *ks[i], &v)); o.n((uintptr_t)v); } kv_free(kv);
}
void op_ini(Rng& r, int, Out& o) {
	std::string ini; static const char* secs[] = {"[a]", "[bb]", "[c] ", "k=v", "key=val=2", "", "a=", "b=[x]"}; for(int i = 0, n = r.below(12); i < n; i++) { ini += secs[r.below(8)]; ini += "\n"; } if(ini.empty()) ini = "[a]\n";
	SP I(ini); stringptrlist* l = stringptr_linesplit(I); if(!l) return; o.n(iniparser_count_sections(l)); for(const char* sn : {"a", "bb", "c"}) { SP S(sn); ini_section s = iniparser_get_section(l, S); o.n(s.startline); o.n(s.linecount); for(const char* k : {"k", "key", "a", "b"}) { SP K(k); stringptr v; iniparser_getvalue(l, &s, K, &v); if(v.ptr) o.sp(&v); else o.n(-1); o.n(iniparser_getvalue_at(l, &s, K, &v, s.startline)); } ini_section nx = iniparser_get_next_section(l, S, &s); o.n(nx.startline); o.n(nx.linecount); } ini_section all = iniparser_file_as_section(l); o.n(all.startline); o.n(all.linecount); stringptrlist_free(l);
}
void op_opts(Rng& r, int, Out& o) {
	static const char* args[] = {"prog", "-v", "--verbose", "--name=x", "-n=3", "--file", "f.txt", "--", "-", "--name=y"}; char* av[8]; int n = 1 + r.below(6); av[0] = (char*)args[0]; for(int i = 1; i < n; i++) av[i] = (char*)args[1 + r.below(9)]; op_state st; op_init(&st, n, av); for(const char* f : {"v", "verbose", "name", "n", "file"}) { SP F(f); o.n(op_hasflag(&st, F)); o.str(op_get(&st, F)); }
}
void op_paths(Rng& r, int, Out& o) {
	static const char* parts[] = {"/a", "/b.txt", "/..", "/.", "//", "/c.d.e", "/usr", "/x"}; std::string p, q; for(int i = 0, n = 1 + r.below(6); i < n; i++) p += parts[r.below(8)]; for(int i = 0, n = 1 + r.below(4); i < n; i++) q += parts[r.below(8)];
	Buf P(p), O(p.size() + 2); char* e = getFileExt(P.p, p.size()); o.n(e ? e - P.p : -1); SP S(p); char* f = getfilename(S); o.n(f ? f - S.b.p : -1); char* nz = normalizepath_cstr(P.p, O.p); o.str(nz); SP N(p); o.n(normalizepath(N)); o.b(N.v.ptr, N.v.size); 
	SP A("/usr" + q), B("/usr/lib" + p); Buf W(200); memset(W.p, 0, 200); ssize_t d = getpathdiff(A, B, W.p); o.n(d); if(d > 0) o.b(W.p, d < 200 ? d : 200);
}
void op_files(Rng& r, int slot, Out& o) {
	std::string f = fname(slot, ".dat"), d = text(r, 200, "ab\ncd\n"); SP D(d); o.n(stringptr_tofile((char*)f.c_str(), D)); o.n(getfilesize((char*)f.c_str())); stringptr* s = stringptr_fromfile((char*)f.c_str()); o.sp(s); sim_free(s);
	fileparser fp; if(fileparser_open(&fp, f.c_str()) == 0) { stringptr line; int n = 0; for(; n < 50 && fileparser_readline(&fp) == 0; n++) { fileparser_getline(&fp, &line); o.b(line.ptr, line.size); } fileparser_close(&fp); }
	stringptrlist* l = stringptrlist_new(4); if(l) { o.n(stringptrlist_fromfile(l, f.c_str())); o.n(stringptrlist_getsize(l)); std::string g = fname(slot, ".lst"); o.n(stringptrlist_tofile(l, (char*)g.c_str(), 0600)); InodeP in = vfs_lookup(g); if(in) o.b(in->data.data(), in->data.size()); stringptrlist_freeall(l); }
	vfs_mkdir(fname(slot, ".d")); vfs_mkfile("/tmp/.slot" + std::to_string(slot), ""); filelist fl; SP dir("/tmp"), mask("*slot" + std::to_string(slot) + "*"); int rr = filelist_search(&fl, dir, mask, r.below(16)); o.n(rr); if(rr == 0) { for(size_t i = 0; i < stringptrlist_getsize(fl.files); i++) o.sp(stringptrlist_get(fl.files, i)); filelist_free(&fl); }
}
void op_logs(Rng& r, int slot, Out& o) {
	std::string f = fname(slot, ".log"); vfs_mkfile(f, ""); int fd = sim_open(f.c_str(), O_WRONLY | O_TRUNC); if(fd < 0) return; std::string t = text(r, 30); SP T(t); log_puts(fd, T); log_putc(fd, T.b.p); log_putln(fd); log_putd(fd, r.next(), r.below(2)); vario va[2]; int num = (int)r.next(); unsigned un = num; long ln = -(long)(r.next() >> 1); const char* cs = T.b.p; uint64_t ty = r.below(4); va[0].type = ty == 0 ? VT_INT : ty == 1 ? VT_UNSIGNED : ty == 2 ? VT_LONG : VT_ULONG; va[0].ptr = ty == 0 ? (void*)&num : ty == 1 ? (void*)&un : &ln; va[1].type = VT_CHAR_STAR; va[1].ptr = &cs; log_put(fd, &va[0], &va[1], (vario*)nullptr); ulz_fprintf(fd, "%s:%d\n", t.c_str(), (int)r.next()); sim_close(fd); InodeP in = vfs_lookup(f); if(in) o.b(in->data.data(), in->data.size());
}
void op_time(Rng& r, int, Out& o) { struct timespec a = {(time_t)r.below(100000), (long)r.below(1000000000)}, b = {(time_t)r.below(100000), (long)r.below(1000000000)}; o.n(timespec_diff(&a, &b)); char buf[40]; o.n(timestamp(buf, sizeof buf)); o.str(buf); struct timeval tv; gettimestamp(&tv); o.n(tv.tv_sec); o.n(tv.tv_usec); o.n(getutime()); tv.tv_sec -= r.below(1000); o.n(mspassed(&tv)); }
// what goes to the null device as descriptor 1 is credited to the task that wrote it
std::map<int, std::string> tap;
struct Tap { int t; Tap() : t(cur_task()) { tap[t] = ""; } std::string take() { std::string s = tap[t]; tap.erase(t); return s; } };
void op_print(Rng& r, int slot, Out& o) {
	std::string t = text(r, 30), u = text(r, 8, "abc-="); SP T(t), U(u + "x"); char* av[4] = {(char*)"prog", T.b.p, U.b.p, (char*)"--end"};
	op_state st; op_init(&st, 1 + r.below(4), av); Tap tp; op_printall(&st); ulz_printf("%s|%d|%x\n", T.b.p, (int)r.next(), (unsigned)r.next()); std::string w = tp.take(); o.b(w.data(), w.size());
	std::string f = fname(slot, ".err"); vfs_mkfile(f, ""); int fd = sim_open(f.c_str(), O_WRONLY | O_TRUNC); if(fd < 0) return; static const int en[] = {ENOENT, EIO, ENOMEM, EINVAL, 0, EACCES}; errno = en[r.below(6)]; log_puterror(fd, T.b.p); log_timestamp(fd); sim_close(fd); InodeP in = vfs_lookup(f); if(in) o.b(in->data.data(), in->data.size());
}
void op_reader(Rng& r, int slot, Out& o) {
	std::string f = fname(slot, ".txt"), d = text(r, 120, "ab\ncd\n\n"); vfs_mkfile(f, d); fileparser fp; if(fileparser_open(&fp, f.c_str())) { o.str(nullptr); return; }
	for(int n = 0; n < 60; n++) { Buf b(4 + r.below(40)); if(r.below(3) == 0) o.n(fileparser_getnextlinelength(&fp)); bool own = r.below(4); int e = own ? fileparser_readline_userbuf(&fp, b.p, b.n) : fileparser_readline(&fp); o.n(e); stringptr line; if(e == 0) { fileparser_getline(&fp, &line); if(own) o.b(b.p, std::min(line.size, b.n)); else o.sp(&line); } else if(e == EOF || fileparser_getnextlinelength(&fp) < 0) break; }
	fileparser_close(&fp); o.n(getFileModTime((char*)f.c_str())); o.n(getfilesize((char*)f.c_str()));
}
void op_temp(Rng& r, int slot, Out& o) {
	std::string pre = "t" + std::to_string(slot) + text(r, 4, "abc"), tmpl = "/tmp/made" + std::to_string(slot) + "XXXXXX"; Buf B(40 + r.below(20)), T(tmpl);
	auto seen = [&](const char* p, const std::string& want) { o.n(p && !strncmp(p, want.c_str(), want.size()) && strlen(p) == want.size() + 6); InodeP in = p ? vfs_lookup(p) : nullptr; o.n(in ? (int)in->mode : -1); };
	char* q = ulz_mkdtemp(T.p); seen(q, tmpl.substr(0, tmpl.size() - 6)); size_t n = mktempdir(pre.c_str(), B.p, B.n); o.n(n); seen(n ? B.p : nullptr, (n && B.p[1] == 'd' ? "/dev/shm/" : "/tmp/") + pre);
}
int kid(Process* c) { std::string s(c->argv[1].rbegin(), c->argv[1].rend()); for(size_t i = 0; i < s.size(); i += 3) sim_write(1, s.data() + i, std::min<size_t>(3, s.size() - i)); char b[8]; ssize_t n, t = 0; while((n = sim_read(0, b, sizeof b)) > 0) { t += n; sim_write(2, b, n); } return t & 255; }
void op_child(Rng& r, int, Out& o) {
	std::string a = text(r, 30), in = text(r, 20); Buf A(a); char* av[3] = {(char*)"/bin/kid", A.p, nullptr}; struct process p; int e = process_open(&p, av); o.n(e); if(e) return; sim_write(p.fds[0], in.data(), in.size());
	auto get = [&](int fd, size_t want) { std::string s; char b[16]; ssize_t n; while(s.size() < want && (n = sim_read(fd, b, sizeof b)) > 0) s.append(b, n); o.b(s.data(), s.size()); }; get(p.fds[1], a.size()); get(p.fds[2], in.size()); o.n(process_close(&p));
}
void op_lists2(Rng& r, int, Out& o) {
	int n = 1 + r.below(9); int* d = (int*)sim_malloc(n * sizeof(int)); for(int i = 0; i < n; i++) d[i] = r.below(50); sblist* l = sblist_new_from_data(sizeof(int), d, n); if(!l) { sim_free(d); return; } sblist_set_blockitems(l, 4); int v = 7; o.n(sblist_set(l, &v, r.below(n))); o.n(sblist_set(l, &v, n + 1)); o.n(sblist_addi(l, &v)); int* it[32]; size_t k = w_sb_iter(l, (void**)it, 32); for(size_t i = 0; i < k; i++) o.n(*it[i]); o.n(*(int*)sblist_item_from_index(l, 0)); sblist_free(l);
	sblist s; sblist_init(&s, sizeof(char*), 2); for(int i = 0; i < n; i++) { char* c = (char*)sim_malloc(4); snprintf(c, 4, "%d", i); o.n(sblist_add(&s, &c)); } for(size_t i = 0; i < s.count; i++) o.str(*(char**)sblist_get(&s, i)); sblist_free_values(&s); o.n(s.count); sblist_free_items(&s);
	tlist* t = tlist_new(sizeof(char*)); if(t) { for(int i = 0; i < n + 3; i++) { char* c = (char*)sim_malloc(4); snprintf(c, 4, "%d", i); o.n(tlist_insert(t, r.below(i + 1), &c)); } for(int i = 0; i < 2; i++) o.n(tlist_delete_deep(t, r.below(n))); for(size_t i = 0; i < tlist_getsize(t); i++) o.str(*(char**)tlist_get(t, i)); if(r.below(2)) { tlist_free_items_deep(t); o.n(tlist_getsize(t)); } tlist_free_deep(t); }
	t = tlist_new(sizeof(int)); if(t) { for(int i = 0; i < n; i++) tlist_append(t, &i); tlist_free_items(t); o.n(tlist_getsize(t)); tlist_free(t); }
	hashlist* h = hashlist_new(1 + r.below(6), sizeof(int)); if(h) { for(int i = 0; i < n; i++) hashlist_add(h, r.below(30), &i); hashlist_bucket_iterator b; hashlist_bucket_iterator_init(&b); sblist* q; while((q = hashlist_bucket_next(h, &b))) { o.n(q->count); for(size_t i = 0; i < q->count; i++) o.n(*(int*)sblist_get(q, i)); } hashlist_free(h); }
	void* sl = w_sl_new(3); if(sl) { Buf x(text(r, 9)); o.n(w_sl_add_dup(sl, x.p)); o.n(w_sl_add_dup(sl, (char*)"second")); o.n(w_sl_size(sl)); for(size_t i = 0; i < w_sl_size(sl); i++) { o.str(w_sl_get(sl, i)); sim_free(w_sl_get(sl, i)); } w_sl_free(sl); }
	std::string a = text(r, 20, "ab,c"); if(a.empty()) a = "x"; SP A(a); stringptrlist* p = stringptr_splitc(A, ','); if(p) { o.n(stringptrlist_dup_entries(p)); stringptrlist_freestrings(p); o.n(stringptrlist_getsize(p)); stringptrlist_free(p); }
}
void op_typed(Rng& r, int, Out& o) {
	int nl = 0; while(tg_ops[nl]) nl++; const list_ops* lo = tg_ops[r.below(nl)]; if(r.below(2)) { for(nl = 0; tgi_ops[nl];) nl++; lo = tgi_ops[r.below(nl)]; }
	if(!lo->is_ptr) { void* l = lo->make(1, nullptr); if(l) { for(int i = 0, n = 2 + r.below(20); i < n; i++) { uint64_t v = r.next() & lo->mask; size_t sz = lo->size(l); switch(r.below(5)) { case 0: case 1: o.n(lo->add(l, v)); break; case 2: o.n(lo->insert(l, v, r.below(sz + 1))); break; case 3: if(sz) lo->del(l, r.below(sz)); break; default: if(sz) o.n(lo->set(l, v, r.below(sz))); } } if(lo->sort && lo->size(l)) lo->sort(l); if(lo->insert_sorted) o.n(lo->insert_sorted(l, 5 & lo->mask)); for(size_t i = 0; i < lo->size(l); i++) o.n(lo->get(l, i)); lo->destroy(l, 1); } }
	int nm = 0; const map_ops* const* tab = r.below(2) ? map_ops_tg : map_ops_tgi; while(tab[nm]) nm++; const map_ops* m = tab[r.below(nm)]; if(m->key_ptr || m->val_ptr) m = tab[0]; void* mp = m->make(1, nullptr); if(!mp) return;
	for(int i = 0, n = 3 + r.below(20); i < n; i++) { uint64_t k = r.below(16), v = r.next() & m->vmask, g = 0; switch(r.below(4)) { case 0: case 1: o.n(m->insert(mp, k, v) != -1); break; case 2: o.n(m->get(mp, k, &g) ? (int64_t)(g ^ 1) : -5); break; default: { int64_t f = m->find(mp, k); o.n(f != -1); if(f != -1 && r.below(2)) m->del(mp, f); else if(f != -1) { o.n(m->getkey(mp, f)); o.n(m->getval(mp, f)); } } } }
	o.n(m->size(mp)); for(uint64_t k = 0; k < 16; k++) { uint64_t g = 0; if(m->get(mp, k, &g)) o.n(g); else o.n(-1); } int64_t its[64]; size_t c = m->foreach_(mp, its, 64); for(size_t i = 0; i < c && i < 64; i++) o.n(m->getkey(mp, its[i])); m->fini(mp, 0, 1);
}
std::string vf(Buf& B, const char* f, ...) { va_list ap; va_start(ap, f); int n = ulz_vsnprintf(B.p, B.n, f, ap); va_end(ap); return std::to_string(n); }
void op_vformat(Rng& r, int, Out& o) { for(int k = 0; k < 3; k++) { Buf B(1 + r.below(120)); std::string t = text(r, 20); uint64_t q = r.next() >> r.below(60); o.s += vf(B, "%s %d %.3u %x %X %c %lld %llu %zu %p", t.c_str(), (int)q, (unsigned)q, (unsigned)q, (unsigned)q, 'a' + (int)r.below(26), (long long)q, (unsigned long long)q, (size_t)q, (void*)(q & 0xffff)); o.str(B.p); } std::string d = text(r, 60, "k=v[a]\n"); if(d.empty()) d = "x"; SP I(d); stringptrlist* l = stringptr_linesplit(I); if(l) { SP K("k"), S("a"); ini_section s = iniparser_get_section(l, S); for(size_t at = 0; at < 4; at++) { stringptr v; v.ptr = nullptr; v.size = 0; o.n(iniparser_getvalue_at(l, &s, K, &v, at)); } stringptrlist_free(l); } }
const Op ops[] = {op_numbers, op_text, op_codec, op_digest, op_format, op_strings, op_lists, op_sblist, op_tlist, op_hash, op_ini, op_opts, op_paths, op_files, op_logs, op_time, op_print, op_reader, op_temp, op_child, op_lists2, op_typed, op_vformat};
const char* opname[] = {"numbers", "text", "codec", "digest", "format", "strings", "lists", "sblist", "tlist", "hash", "ini", "options", "paths", "files", "logs", "time", "print", "reader", "temp", "child", "lists2", "typed", "vformat"};
const int NOPS = 23;
}
SCENARIO(C20) {
	add_program("/bin/kid", kid); tap.clear(); meet = {}; on_null_write = [](int fd, const void* b, size_t n) { auto i = tap.find(cur_task()); if(fd == 1 && i != tap.end()) i->second.append((const char*)b, n); };
	{ NoFaults nf; for(int i = 0; i < 3; i++) sim_open("/dev/null", 2); CRC32_InitTables(); CRC32C_InitTables(); }
	if(choose(3, "deny-shm") == 2) vfs_lookup("/dev/shm")->deny = EACCES; // temporary directories in the fallback location
	struct Call { int op; uint64_t key; std::string solo, again, conc; };
	int nt = 2 + choose(2, "tasks"); std::vector<std::vector<Call>> w(nt);
	bool same = choose(2, "sameop"); int first = choose(NOPS, "op");
	for(int t = 0; t < nt; t++) for(int k = 0, n = 1 + choose(2, "calls"); k < n; k++) w[t].push_back({same ? first : (int)choose(NOPS, "op"), choose(1u << 20, "key"), "", "", ""});
	auto exec = [&](Call& c, int slot) { Rng r(c.key); Out o; budget(LIB_BUDGET * 10); ops[c.op](r, slot, o); return o.s; };
	HeapMark hm = heap_mark();
	auto clean = [&] { vfs_lookup("/tmp")->ents.clear(); };
	for(int t = 0; t < nt; t++) { clean(); for(auto& c : w[t]) c.solo = exec(c, t); }
	for(int t = nt - 1; t >= 0; t--) { clean(); for(auto& c : w[t]) { c.again = exec(c, t); CHECK(c.again == c.solo, "state-kept", "%s gives another result after other calls were made: %s, before %s", opname[c.op], show(c.again, 200).c_str(), show(c.solo, 200).c_str()); } }
	clean(); static const uint32_t pm[] = {12, 3, 60, 400}; uint32_t p = pm[choose(4, "preempt")]; sys_yield = true; switch_den = 2;
	meet = {same && choose(2, "in-step"), nt, 0, 0};
	for(int t = 0; t < nt; t++) spawn("caller", [&, t] { for(auto& c : w[t]) { ev("call", c.op, t); c.conc = exec(c, t); } if(meet.on) meet_leave(); });
	preempt_max = p;
	join_all(); preempt_max = 0; meet.on = false;
	for(int t = 0; t < nt; t++) for(auto& c : w[t]) CHECK(c.conc == c.solo, "not-reentrant", "%s gives another result when interleaved: %s, alone %s", opname[c.op], show(c.conc, 200).c_str(), show(c.solo, 200).c_str());
	heap_expect_same(hm, "memory-leak", "after all calls");
}
