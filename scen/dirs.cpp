// C11 directory search
#include "common.hpp"
#include <fnmatch.h>
namespace sim { size_t live_dirs(); }
SCENARIO(C11) {
	if(choose_in_run(40, 1, 2, "many-entries")) { // more than 16 bits can count
		probe("entries-over-64k"); size_t n = 65537 + choose(3000, "n"), g0 = live_globs(); vfs_mkdir("/tmp/many"); for(size_t i = 0; i < n; i++) vfs_mkfile("/tmp/many/f" + std::to_string(i), ""); HeapMark h = heap_mark(); budget(1ull << 26); filelist fl; memset(&fl, 0xC3, sizeof fl); Buf db{std::string("/tmp/many")}, mb{std::string("f*")}; stringptr ds, msk; ds.ptr = db.p; ds.size = 9; msk.ptr = mb.p; msk.size = 2;
		CHECK(filelist_search(&fl, &ds, &msk, 0) == 0, "spurious-failure", "search of a directory with %zu entries", n); std::vector<bool> seen(n); size_t m = stringptrlist_getsize(fl.files); CHECK(m == n, m < n ? "entry-missing" : "entry-wrong", "%zu of %zu entries found", m, n);
		for(size_t i = 0; i < n; i++) { stringptr* s = stringptrlist_get(fl.files, i); size_t k = s && s->size > 11 && !memcmp(s->ptr, "/tmp/many/f", 11) ? strtoul(s->ptr + 11, nullptr, 10) : n; CHECK(k < n && !seen[k] && std::string(s->ptr, s->size) == "/tmp/many/f" + std::to_string(k), "entry-wrong", "entry %zu is wrong or appears twice", i); seen[k] = true; }
		filelist_free(&fl); CHECK(live_globs() == g0, "glob-leak", "glob results alive"); heap_expect_same(h, "memory-leak", "after freeing the result"); return;
	}
	arm_some({F_ALLOC, F_GLOB_NOSPACE, F_GLOB_ABORTED, F_OPENDIR_ERR});
	static const char* dnames[] = {"d", "a[b]", "q*", "x?y", "back\\slash", "[", "[!a]x", "a b", "*", "\\*", "e\\", "{a,b}", "~"};
	static const char* fnames[] = {"a", "b.txt", "ab.txt", "abc", ".hid", ".hid.txt", "[x]", "zz", "a*b", "x?", "B", "dot.", "..x", "with space", "back\\s", "d", "-", "a..", "...", "x."};
	static const char* masks[] = {"*", "*.txt", "a*", "?", "[ab]*", "nomatch*", "a", "*.*", "\\[x]", "*b*", "x\\?", "[!a]*", ".h*", "zz", "back\\\\s", "??*", ".*"};
	Process* me = cur_proc(); HeapMark hm = heap_mark(); size_t fds = open_fds(me);
	int rounds = 1 + choose(4, "rounds");
	for(int r = 0; r < rounds; r++) {
		Span sp_; budget(LIB_BUDGET * 4);
		if(InodeP d = vfs_lookup("/tmp")) d->ents.clear();
		std::string dn; for(int depth = 1 + choose(2, "depth"); depth > 0; depth--) { dn += std::string("/") + dnames[choose(13, "dir")]; vfs_mkdir("/tmp" + dn); }
		if(choose(12, "deep") == 11) { probe("deep"); for(int depth = 1 + choose(16, "depth2"); depth > 0; depth--) { std::string c = choose(3, "longname") ? std::string(1 + choose(240, "namelen"), "nq*[?\\"[choose(6, "fill")]) : dnames[choose(13, "dir")]; if(dn.size() + c.size() > 3900) break; dn += "/" + c; vfs_mkdir("/tmp" + dn); } } // paths up to the system's limit, escaped possibly beyond it
		std::string dir = "/tmp" + dn; std::map<std::string, bool> ents;
		for(uint32_t n = choose(8, "entries"); n > 0; n--) { std::string f = fnames[choose(20, "name")]; if(ents.count(f)) continue; bool isd = choose(3, "isdir") == 2; ents[f] = isd; if(isd) vfs_mkdir(dir + "/" + f); else vfs_mkfile(dir + "/" + f, "x"); }
		// decoys a wrongly interpreted pattern would find
		std::string decoy; for(char c : dn) if(c != '\\') decoy += c; if(decoy != dn && choose(2, "decoy")) { std::string p = "/tmp"; size_t i = 1; while(i <= decoy.size()) { size_t e = decoy.find('/', i); if(e == std::string::npos) e = decoy.size(); p += "/" + decoy.substr(i, e - i); i = e + 1; if(!vfs_lookup(p)) vfs_mkdir(p); } if(!vfs_lookup(p + "/ab.txt")) vfs_mkfile(p + "/ab.txt", "decoy"); }
		if(dn.find_first_of("*?[") != std::string::npos) { if(!vfs_lookup("/tmp/qz")) vfs_mkdir("/tmp/qz"); if(!vfs_lookup("/tmp/qz/abc")) vfs_mkfile("/tmp/qz/abc", ""); if(!vfs_lookup("/tmp/xay")) vfs_mkdir("/tmp/xay"); if(!vfs_lookup("/tmp/ab")) vfs_mkdir("/tmp/ab"); if(!vfs_lookup("/tmp/ab/a")) vfs_mkfile("/tmp/ab/a", ""); }
		ents.clear(); for(auto& e : vfs_lookup(dir)->ents) ents[e.first] = e.second->kind == K_DIR;
		std::string mask = masks[choose(17, "mask")]; int flags = choose(16, "flags"); if(mask[0] == '.') flags |= 8;
		uint32_t how = choose(8, "dirform"); std::string arg = dir, prefix = dir + "/"; bool longcase = false, missing = false; me->cwd = "/";
		if(how == 1) { arg = dir + "/"; } else if(how == 2) { me->cwd = dir; arg = ""; prefix = "./"; } else if(how == 3) { me->cwd = "/tmp"; arg = dn.substr(1); prefix = arg + "/"; }
		else if(how == 6) { arg = prefix = "/"; ents.clear(); for(auto& e : vfs_lookup("/")->ents) ents[e.first] = e.second->kind == K_DIR; probe("root"); }
		else if(how == 4 && choose(2, "missing")) { missing = true; arg = "/tmp/missing/x"; } else if(how == 5 && choose(3, "huge") == 2) { longcase = true; size_t n = gen_size({4096, 2048, 4090, 1366}, 9000); arg = "/zz" + gen_data(n, 0); for(size_t i = 1; i < arg.size(); i++) if(!arg[i] || arg[i] == '/') arg[i] = '*'; for(size_t i = 1; i < arg.size(); i++) if(choose(1, "c") == 0 && (unsigned char)arg[i] < 128) arg[i] = "*[?\\"[arg[i] % 4]; if(choose(2, "longmask")) mask.assign(gen_size({4096, 2048}, 100) + 1, 'm'); }
		filelist fl; memset(&fl, 0xC3, sizeof fl); Buf db(arg), mb(mask); stringptr ds, msk; ds.ptr = db.p; ds.size = arg.size(); msk.ptr = mb.p; msk.size = mask.size();
		HeapMark h = heap_mark(); FaultCount f0 = fsnap(); size_t g0 = live_globs();
		evs("search", arg + " " + mask, flags, how);
		int ret = filelist_search(&fl, how == 2 && choose(2, "nulldir") ? nullptr : &ds, &msk, flags);
		bool f = fired_any(f0); ev("result", ret, f);
		CHECK(db.str(arg.size()) == arg && mb.str(mask.size()) == mask, "input-changed", "the search changed its arguments");
		bool hidden = flags & 8; std::multiset<std::string> want; std::set<std::string> opt;
		if(!missing && !longcase) {
			for(auto& e : ents) if(fnmatch(mask.c_str(), e.first.c_str(), hidden ? 0 : FNM_PERIOD) == 0) want.insert(((flags & 4) ? "" : prefix) + e.first + (e.second ? "/" : ""));
			if(!hidden) { if(flags & 1) want.insert("./"); if(flags & 2) want.insert("../"); }
			else for(int k = 1; k <= 2; k++) if(flags & k) { const char* n = k == 1 ? "." : ".."; std::string s = ((flags & 4) ? "" : prefix) + n + "/"; if(fnmatch(mask.c_str(), n, 0) == 0) want.insert(s); else { opt.insert(s); opt.insert(std::string(n) + "/"); } }
		}
		if(ret == 0) {
			CHECK(fl.files, "no-list", "success without a list");
			std::multiset<std::string> got; for(size_t i = 0; i < stringptrlist_getsize(fl.files); i++) { stringptr* s = stringptrlist_get(fl.files, i); std::string x(s->ptr, s->size); CHECK(s->ptr[s->size] == 0, "not-terminated", "entry %s", show(x).c_str()); if(!opt.count(x)) got.insert(x); }
			std::string miss, extra; for(auto& x : want) if(got.count(x) < want.count(x)) miss = x; for(auto& x : got) if(got.count(x) > want.count(x)) extra = x;
			CHECK(miss.empty(), "entry-missing", "search of %s for %s (flags %d) did not return %s", show(arg).c_str(), mask.c_str(), flags, show(miss).c_str());
			CHECK(extra.empty(), "entry-wrong", "search of %s for %s (flags %d) returned %s", show(arg).c_str(), mask.c_str(), flags, show(extra).c_str());
			filelist_free(&fl); probe("found");
		} else {
			bool toolong = false; { size_t esc = arg.size(); for(char c : arg) esc += c == '[' || c == '?' || c == '*' || c == '\\'; toolong = esc + mask.size() + 8 >= 4096; }
			size_t real = 0; for(auto& e : ents) if(fnmatch(mask.c_str(), e.first.c_str(), hidden ? 0 : FNM_PERIOD) == 0) real++;
			CHECK(f || missing || longcase || toolong || real == 0, "spurious-failure", "search of %s for %s returned %d although %zu entries match and no call failed", show(arg).c_str(), mask.c_str(), ret, real);
			probe(f ? "failed-by-fault" : longcase ? "too-long" : "no-match");
		}
		CHECK(live_globs() == g0, live_globs() > g0 ? "glob-leak" : "glob-double-free", "%zu glob results alive after the search, %zu before", live_globs(), g0);
		heap_expect_same(h, "memory-leak", ret ? "after a failed search" : "after freeing the result");
		CHECK(open_fds(me) == fds && live_dirs() == 0, "fd-leak", "descriptors or directory streams left open");
	}
	heap_expect_same(hm, "memory-leak", "at the end");
	CHECK(filelist_search(nullptr, nullptr, nullptr, 0) != 0, "null-input", "null search succeeded"); filelist_free(nullptr);
}
