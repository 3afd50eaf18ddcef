// C01-C04: loading, saving and parsing files
#include "common.hpp"

static void yields() { sys_yield = true; switch_den = choose(2, "switchy") ? 2 : 0; if(switch_den == 0) switch_den = 4; }
static const char* FN = "/tmp/f";

// what a program started at this point by another thread of the caller would inherit
static void no_inherit() { for(auto& f : cur_proc()->fds) if(f.second.of->kind == 0 && f.second.of->path == FN) CHECK(f.second.cloexec, "inheritable", "a program started now would inherit descriptor %d, open on %s", f.first, FN); }

// ---------------------------------------------------------------- C01
SCENARIO(C01) {
	if(cpu_armed) cpu_set(0); if(choose_in_run(70, 1, 2, "giant-load")) { // more than 4 GiB, and the memory for it
		uint64_t hole = 1ull << 32; hole -= choose(200000, "less"); InodeP i = vfs_mkfile(FN, gen_data(200000 + choose(300, "n"), 0)); i->hole = hole; size_t size = hole + i->data.size(); alloc_max = 1ull << 34; CpuLimit lim; budget(1ull << 40); size_t fds = open_fds(cur_proc()); HeapMark hm = heap_mark(); Buf name{std::string(FN)}; probe("giant-load");
		CHECK(getfilesize(name.p) == size, "wrong-size", "file size"); stringptr* g = FAST(stringptr_fromfile)(name.p); cpu_set(0); CHECK(g, "refused", "a file of %zu bytes was not loaded", size); CHECK(g->size == size, "wrong-length", "object has %zu bytes, the file has %zu", g->size, size);
		CHECK(!memcmp(g->ptr + hole, i->data.data(), i->data.size()) && !g->ptr[size], "wrong-content", "the end of the file differs"); for(size_t k = 0; k < hole; k += 4093) CHECK(!g->ptr[k], "wrong-content", "byte %zu", k);
		stringptr_free(g); CHECK(open_fds(cur_proc()) == fds, "fd-leak", "descriptors"); heap_expect_same(hm, "memory-leak", "after the load"); return;
	}
	arm_some({F_SHORT_READ, F_READ_EIO, F_READ_EINTR, F_OPEN_EIO, F_OPEN_EMFILE, F_STAT_EIO, F_ALLOC});
	bool big = choose(6, "big") == 5;
	if(choose(60, "giant") == 1) { // sizes that do not fit 31 or 32 bits, and not the memory either
		static const uint64_t at[] = {1ull << 32, 1ull << 31, 1ull << 33, 3ull << 32, 1ull << 40}; Rng rg(choose(1000, "tail")); InodeP i = vfs_mkfile(FN, std::string(choose(300, "n"), 'x')); i->hole = at[choose(5, "at")] - choose(300, "less"); uint64_t size = i->hole + i->data.size(); i->mtime = ((int64_t)choose(3, "era") << 32) * 1000000000ll + 12345;
		size_t fds = open_fds(cur_proc()); HeapMark hm = heap_mark(); FaultCount f0 = fsnap(); budget(LIB_BUDGET); Buf name{std::string(FN)}; probe("giant-file");
		size_t s = getfilesize(name.p); CHECK(s == size || (s == 0 && fired(f0, {F_STAT_EIO, F_OPEN_EIO, F_OPEN_EMFILE, F_ALLOC})), "wrong-size", "file size %zu reported for a file of %llu bytes", s, (unsigned long long)size);
		stringptr* g = stringptr_fromfile(name.p); CHECK(!g || g->size == size, "wrong-length", "object has %zu bytes, the file has %llu", g->size, (unsigned long long)size);
		CHECK(!g, "false-success", "a file of %llu bytes was loaded although there is no memory for it", (unsigned long long)size);
		CHECK(open_fds(cur_proc()) == fds, "fd-leak", "descriptors: %s", fd_list(cur_proc()).c_str()); heap_expect_same(hm, "memory-leak", "after the load");
		return;
	}
	int rounds = 1 + choose(3, "rounds");
	for(int r = 0; r < rounds; r++) {
		Span sp;
		size_t n = big ? gen_size({65536, 131072, 65535 + 4096, 200000}, 3000) : gen_size({1024, 4096, 512}, 600);
		std::string all = gen_data(n + 3000, 0);   // whatever the file ever holds is a prefix of this
		uint32_t kind = choose(8, "kind");
		bool mutate = kind >= 5, missing = kind == 3, dir = kind == 4;
		InodeP ino;
		if(InodeP d = vfs_lookup("/tmp")) d->ents.clear();
		if(dir) { vfs_mkdir("/tmp/f"); } else if(!missing) ino = vfs_mkfile(FN, all.substr(0, n));
		size_t fds = open_fds(cur_proc()); HeapMark hm = heap_mark();
		size_t lo = n, hi = n; bool done = false;
		if(mutate && ino) {
			yields();
			size_t steps_ = 1 + choose(3, "muts");
			std::vector<std::pair<int, size_t>> plan; for(size_t i = 0; i < steps_; i++) plan.push_back({(int)choose(2, "mut"), choose(2, "scale") ? choose(n + 1, "by") : choose(64, "by")});
			bool shrink_only = false;
			spawn("mutator", [&, plan] {
				for(auto& m : plan) {
					for(int w = choose(4, "wait"); w > 0 && !done; w--) yield_point();
					if(done) break;
					size_t cur = ino->data.size();
					if(m.first == 0) { size_t k = cur - std::min(cur, m.second); if(k != cur) { ino->data.resize(k); note_fault(F_TRUNCATED); ev("truncate", k); } }
					else { size_t k = std::min(all.size(), cur + m.second); if(k != cur) { ino->data = all.substr(0, k); note_fault(F_APPENDED); ev("append", k); } }
					lo = std::min(lo, ino->data.size()); hi = std::max(hi, ino->data.size());
				}
			});
		}
		FaultCount f0 = fsnap();
		budget(LIB_BUDGET);
		bool ask = choose(3, "ask") == 2;
		Buf name{std::string(FN)};
		if(ask) {
			size_t lo0 = ino ? ino->data.size() : 0; size_t s0 = lo, h0 = hi; (void)s0; (void)h0;
			size_t s = getfilesize(name.p);
			bool f = fired(f0, {F_STAT_EIO, F_OPEN_EIO, F_OPEN_EMFILE, F_ALLOC});
			if(f && s == 0) probe("getfilesize-error");
			else if(missing) CHECK(s == 0, "size-of-missing", "file size of a missing file reported as %zu", s);
			else if(!dir) CHECK(s >= lo && s <= hi, "wrong-size", "file size %zu reported for a file of %zu..%zu bytes", s, lo, hi);
			CHECK(open_fds(cur_proc()) == fds, "fd-leak", "descriptors after the size query: %s", fd_list(cur_proc()).c_str());
			f0 = fsnap();
		}
		if(choose(6, "askmod") == 5) { // modification time: the time some change was made, or 0 on error
			int64_t m0 = ino ? ino->mtime / 1000000000 : 0; FaultCount fm = fsnap(); int64_t m = getFileModTime(name.p), m1 = ino ? ino->mtime / 1000000000 : 0;
			if(m == 0 && fired(fm, {F_STAT_EIO, F_OPEN_EIO, F_OPEN_EMFILE, F_ALLOC})) probe("modtime-error");
			else if(missing) CHECK(m == 0, "modtime-of-missing", "modification time of a missing file reported as %lld", (long long)m);
			else if(!dir) CHECK(m >= std::min(m0, m1) && m <= std::max(m0, m1), "wrong-modtime", "modification time %lld reported for a file changed at %lld", (long long)m, (long long)m1);
			CHECK(open_fds(cur_proc()) == fds, "fd-leak", "descriptors after the time query: %s", fd_list(cur_proc()).c_str()); f0 = fsnap();
		}
		on_syscall = [](const char*) { no_inherit(); }; stringptr* sp_ = stringptr_fromfile(name.p); on_syscall = nullptr;
		done = true;
		bool f = fired_any(f0);
		ev("loaded", sp_ ? (int64_t)sp_->size : -1, f);
		CHECK(open_fds(cur_proc()) == fds, "fd-leak", "descriptors left open after the load: %s", fd_list(cur_proc()).c_str());
		if(sp_) {
			CHECK(!missing && !dir, "content-from-nothing", "load of a %s returned an object of %zu bytes", missing ? "missing file" : "directory", sp_->size);
			CHECK(sp_->size >= lo && sp_->size <= hi, "wrong-length", "object has %zu bytes, the file had %zu..%zu during the call", sp_->size, lo, hi);
			CHECK(sp_str(sp_) == all.substr(0, sp_->size), "wrong-content", "object of %zu bytes differs from the file's content (file %zu..%zu)", sp_->size, lo, hi);
			CHECK(sp_->ptr[sp_->size] == 0, "not-terminated", "no NUL after the content");
			probe(mutate ? "loaded-while-changing" : f ? "loaded-despite-faults" : "loaded");
		} else {
			// short reads are no reason to refuse
			bool excuse = f && fired(f0, {F_READ_EIO, F_READ_EINTR, F_OPEN_EIO, F_OPEN_EMFILE, F_OPEN_EINTR, F_STAT_EIO, F_ALLOC});
			CHECK(excuse || missing || dir || lo != hi || n == 0, "refused", "load of an intact file of %zu bytes failed although no call failed", n);
			probe(lo != hi ? "refused-while-changing" : "refused");
		}
		{ NoFaults nf; stringptr_free(sp_); }
		heap_expect_same(hm, "memory-leak", "after the load");
		if(mutate && ino) { block_until([] { return true; }, ""); join_all(); }
		sys_yield = false;
	}
}

// ---------------------------------------------------------------- C02
SCENARIO(C02) {
	if(choose_in_run(50, 1, 2, "giant")) { // more than 4 GiB in one object
		stringptr s; s.ptr = (char*)pattern(); s.size = (1ull << 32) + 70000; InodeP i = vfs_mkfile(FN, ""); i->expect = s.ptr; size_t fds = open_fds(cur_proc()); budget(LIB_BUDGET * 100); probe("giant-save"); Buf name{std::string(FN)};
		size_t r = stringptr_tofile(name.p, &s); CHECK(!i->sink_bad && i->sunk == s.size && r == s.size, "wrong-count", "saving %zu bytes returned %zu and wrote %llu bytes%s", s.size, r, (unsigned long long)i->sunk, i->sink_bad ? " with other content" : ""); CHECK(open_fds(cur_proc()) == fds, "fd-leak", "descriptors"); return;
	}
	arm_some({F_SHORT_WRITE, F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_EINTR, F_OPEN_EIO, F_OPEN_EMFILE, F_CLOSE_EIO, F_CRASH});
	bool big = choose(5, "big") == 4;
	int rounds = 1 + choose(3, "rounds");
	for(int r = 0; r < rounds; r++) {
		Span sp;
		size_t n = big ? gen_size({65536, 131072, 196608}, 3000) : gen_size({4096}, 400);
		std::string nu = gen_data(n, 0), old; bool had = choose(3, "had") != 0;
		uint32_t variant = choose(10, "variant"); // 9: null object, 8: object without memory
		if(InodeP d = vfs_lookup("/tmp")) d->ents.clear();
		if(had) { old = gen_data(gen_size({65536}, 300), 0); vfs_mkfile(FN, old); }
		if(choose(4, "disk") == 3) disk_free = choose(n + 2, "free"); else disk_free = ~(size_t)0;
		Process* proc = new_process(cur_proc()); size_t fds = open_fds(proc);
		bool finished = false; size_t ret = 0; FaultCount got{}; HeapMark hm = heap_mark();
		auto state = [&] { InodeP i = vfs_lookup(FN); return i ? i->data : std::string(); };
		bool touched = false; bool noop = variant >= 8 && variant < 10 && choose(2, "null") == 1;
		on_syscall = [&](const char* c) {   // every point between two system calls is a possible crash point
			no_inherit(); InodeP i = vfs_lookup(FN);
			bool is_old = had ? (i && i->data == old) : !i;
			bool is_prefix = i && i->data.size() <= nu.size() && nu.compare(0, i->data.size(), i->data) == 0;
			if(!is_old) touched = true;
			CHECK(is_old || is_prefix, "torn-file", "after %s the file (%zu bytes) is neither the old content nor a prefix of the new", c, i ? i->data.size() : (size_t)0);
		};
		Buf data(nu), name{std::string(FN)};
		spawn("writer", [&] {
			stringptr s; s.ptr = data.p; s.size = nu.size();
			budget(LIB_BUDGET);
			if(noop) { stringptr z; z.ptr = nullptr; z.size = 5; ret = variant == 8 ? stringptr_tofile(name.p, &z) : stringptr_tofile(name.p, nullptr); }
			else ret = stringptr_tofile(name.p, &s);
			got = fsnap(); finished = true;
		}, proc);
		join_all();
		on_syscall = nullptr;
		std::string now = state(); bool exists = (bool)vfs_lookup(FN);
		CHECK(data.str(nu.size()) == nu, "input-changed", "the object written was modified");
		ev("tofile", finished ? (int64_t)ret : -1, now.size());
		bool prefix = exists && now.size() <= nu.size() && nu.compare(0, now.size(), now) == 0;
		bool is_old = had ? (exists && now == old) : !exists;
		if(noop && finished) { CHECK(ret == 0 && is_old, "null-object", "writing no object returned %zu and changed the file", ret); continue; }
		CHECK(is_old || prefix, "torn-file", "file of %zu bytes is neither the old content nor a prefix of the new", now.size());
		if(!finished) { probe("crashed-inside"); continue; }
		CHECK(open_fds(proc) == fds, "fd-leak", "descriptors left open: %s", fd_list(proc).c_str());
		heap_expect_same(hm, "memory-leak", "after writing");
		CHECK(ret <= nu.size(), "impossible-result", "result %zu for %zu bytes", ret, nu.size());
		bool openf = got[F_OPEN_EIO] || got[F_OPEN_EMFILE], wf = got[F_WRITE_EIO] || got[F_WRITE_ENOSPC] || got[F_WRITE_EINTR], cf = got[F_CLOSE_EIO];
		if(ret == 0 && is_old && openf) { probe("open-refused"); continue; }
		if(cf && ret < now.size()) { probe("close-error-reported"); continue; }
		if(ret > 0 || nu.size()) CHECK(prefix && now.size() == ret, "wrong-count", "reported %zu bytes stored of %zu, the file holds %zu", ret, nu.size(), now.size());
		else CHECK(exists && now.empty(), "not-truncated", "writing an empty object left %zu bytes", now.size());
		if(!openf && !wf && !cf) { CHECK(ret == nu.size(), "gave-up", "only %zu of %zu bytes stored although no call failed", ret, nu.size()); probe(fired_any(FaultCount{}) ? "stored-all" : "stored-all"); }
		if(ret == nu.size() && got[F_SHORT_WRITE]) probe("completed-over-short-writes");
		if(ret < nu.size()) probe("partial-reported");
	}
}

// ---------------------------------------------------------------- C03
static std::string gen_lines(std::vector<size_t> marks) {
	std::string s; int n = 0;
	while(n++ < 12 && more(4, "line")) {
		Span sp;
		size_t len; uint32_t k = choose(6, "linelen");
		if(k == 0) len = 0; else if(k < 4) len = choose(20, "len"); else if(k == 4) len = choose(200, "len"); else { long m = marks[choose(marks.size(), "mark")]; len = std::max<long>(0, m + (long)choose(5, "delta") - 2); }
		std::string l = gen_data(len, choose(4, "bin") == 3 ? 0 : 26);
		for(char& c : l) if(c == '\n') c = 'N';
		s += l;
		s += '\n';
	}
	if(!s.empty() && choose(2, "chop") == 1) s.pop_back();
	return s;
}
// lines and offsets that do not fit 31 or 32 bits
static void giant_lines(bool nextlen) {
	probe(nextlen ? "giant-next-length" : "giant-line"); CpuLimit lim; Process* me = cur_proc(); for(int i = 0; i < 3; i++) { NoFaults nf; sim_open("/dev/null", 2); } budget(1ull << 40);
	size_t hole = (1ull << 32) + choose(5000, "over"); std::string S = "x\n" + gen_lines({1024, 1023, 2048, 512, 64, 3072}) + "last"; InodeP in = vfs_mkfile(FN, S); in->hole = hole; size_t end = hole + S.size(), L0 = hole + 1, max = L0 + 1 + choose(3000, "room"), fds0 = open_fds(me);
	HeapMark hm = heap_mark(); fileparser* fp = (fileparser*)operator new(sizeof(fileparser)); memset(fp, 0xB5, sizeof *fp);
	auto off = [&] { return (uint64_t)sim_lseek(fp->file, 0, SEEK_CUR); }; auto at = [&](size_t p) { return p < hole ? 0 : S[p - hole]; };
	CHECK(FAST(fileparser_open)(fp, FN) == 0, "spurious-failure", "open failed");
	if(nextlen) { ssize_t r = FAST(fileparser_getnextlinelength)(fp); ev("nextlen", r); CHECK(r == (ssize_t)L0, "wrong-next-length", "next line has %zu bytes, reported %zd", L0, r); CHECK(off() == 0, "position-lost", "asking for the length of the next line moved the file position to %llu", (unsigned long long)off());
		r = FAST(fileparser_readline)(fp); CHECK(r == -3, "false-too-small", "a line of %zu bytes read into a buffer of %zu returned %zd", L0, sizeof fp->buf, r); CHECK(off() == 0, "position-lost", "a refused line moved the file position to %llu", (unsigned long long)off()); }
	else {
		char* big = (char*)syscall(SYS_mmap, 0, max, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(big == MAP_FAILED) abort(); zero_from = big; zero_to = big + max;
		int r = FAST(fileparser_readline_userbuf)(fp, big, max); ev("readline", r, fp->len); zero_from = zero_to = nullptr;
		CHECK(r == 0 && fp->len == L0, "wrong-length", "a line of %zu bytes: result %d, length %zu", L0, r, fp->len); CHECK(!big[0] && !big[hole - 1] && big[hole] == 'x' && !big[hole + 1], "wrong-line", "the line ends with other bytes");
		syscall(SYS_munmap, big, max); size_t pos = hole + 2; CHECK(off() == pos, "position-lost", "after the line the file position is %llu, not %zu", (unsigned long long)off(), pos);
		int guard = 0; while(guard++ < 200) { // the lines behind it
			Span sp; size_t e = pos; while(e < end && at(e) != '\n') e++; size_t L = e - pos; bool own = choose(2, "own"); size_t b = own ? sizeof fp->buf : L + choose(3, "b"); if(!b) b = 1; Buf ub(b);
			if(choose(3, "peek") == 0) { ssize_t n = FAST(fileparser_getnextlinelength)(fp); if(pos < end) CHECK(n == (ssize_t)L, "wrong-next-length", "next line at offset %zu has %zu bytes, reported %zd", pos, L, n); CHECK(off() == pos, "position-lost", "asking for a length moved the file position from %zu to %llu", pos, (unsigned long long)off()); }
			int q = own ? FAST(fileparser_readline)(fp) : FAST(fileparser_readline_userbuf)(fp, ub.p, b); ev("line", q, b);
			if(pos >= end) { CHECK(q == -2, "no-eof", "at end of file readline returned %d", q); break; }
			if(b < L + 1) { CHECK(q == -3, "false-too-small", "a line of %zu bytes read into a buffer of %zu returned %d", L, b, q); if(!own || L + 1 <= sizeof fp->buf) { CHECK(off() == pos, "position-lost", "a refused line moved the file position from %zu to %llu", pos, (unsigned long long)off()); } Buf u2(L + 1); q = FAST(fileparser_readline_userbuf)(fp, u2.p, L + 1); CHECK(q == 0 && fp->len == L && u2.str(L) == S.substr(pos - hole, L), "wrong-line", "line at offset %zu (%zu bytes): result %d, length %zu", pos, L, q, fp->len); }
			else CHECK(q == 0 && fp->len == L && std::string(own ? fp->buf : ub.p, L) == S.substr(pos - hole, L), "wrong-line", "line at offset %zu (%zu bytes): result %d, length %zu", pos, L, q, fp->len);
			pos = e + 1;
		}
	}
	FAST(fileparser_close)(fp); CHECK(open_fds(me) == fds0, "fd-leak", "close left %s", fd_list(me).c_str()); heap_expect_same(hm, "memory-leak", "after close"); operator delete(fp);
}
SCENARIO(C03) {
	if(cpu_armed) cpu_set(0); for(int k = 0; k < 2; k++) if(choose_in_run(50 + k, 1, 2, "giant")) { giant_lines(k); return; }
	arm_some({F_SHORT_READ, F_READ_EIO, F_READ_EINTR, F_OPEN_EIO, F_OPEN_EMFILE, F_DUP_ERR}); if(choose(10, "badseek") == 9) arm_some({F_SHORT_READ, F_READ_EIO, F_LSEEK_EIO});
	Process* me = cur_proc();
	for(int i = 0; i < 3; i++) { NoFaults nf; sim_open("/dev/null", 2); }
	if(choose(6, "closedstd") == 5) { NoFaults nf; for(int i = 0; i < 3; i++) if(choose(2, "std")) sim_close(i); }
	std::string S = gen_lines({1024, 1023, 2048, 512, 64, 3072});
	vfs_mkfile(FN, S);
	size_t fds0 = open_fds(me); HeapMark hm = heap_mark();
	fileparser* fp = (fileparser*)operator new(sizeof(fileparser)); memset(fp, 0xB5, sizeof *fp);
	bool open_ = false; size_t pos = 0; int eofs = 0; on_syscall = [](const char*) { no_inherit(); };
	const size_t IB = sizeof(fp->buf);
	auto linelen = [&](size_t p) { size_t e = S.find('\n', p); return (e == std::string::npos ? S.size() : e) - p; };
	auto after = [&](size_t p) { return std::min(S.size(), p + linelen(p) + 1); };
	auto check_fail = [&](const char* what, int ret, bool f) {
		CHECK(f, "spurious-failure", "%s returned %d at offset %zu of %zu although no call failed", what, ret, pos, S.size());
		probe("failed-call-then-retry");
	};
	int ops = 0;
	for(; ops < 60 && (ops < 3 || more(25, "op")); ops++) {
		Span sp;
		budget(LIB_BUDGET);
		if(!open_) {
			FaultCount f0 = fsnap();
			int r = fileparser_open(fp, FN);
			ev("open", r);
			if(r) { CHECK(fired_any(f0), "spurious-failure", "open returned %d although no call failed", r); CHECK(open_fds(me) == fds0, "fd-leak", "failed open left %s", fd_list(me).c_str()); continue; }
			CHECK(open_fds(me) == fds0 + 1, "fd-count", "after open: %s", fd_list(me).c_str());
			open_ = true; pos = 0; eofs = 0;
			continue;
		}
		uint32_t op = choose(8, "what");
		FaultCount f0 = fsnap();
		auto faulted = [&] { return fired(f0, {F_READ_EIO, F_READ_EINTR}); };
		auto lost = [&] { // the system could not restore the position: that must be reported, and ends the use of this reader
			if(!fired(f0, {F_LSEEK_EIO})) return false;
			fileparser_close(fp); open_ = false; CHECK(open_fds(me) == fds0, "fd-leak", "close left %s", fd_list(me).c_str()); probe("seek-failure-reported"); return true; };
		if(op <= 4) {
			bool own = op < 2; size_t b = IB; size_t L = linelen(pos);
			if(!own) { uint32_t k = choose(6, "bufsize"); b = k == 0 ? 1 + choose(8, "b") : k == 1 ? std::max<size_t>(1, L + choose(3, "b") ) : k == 2 ? L + 1 : k == 3 ? 1 + choose(64, "b") : k == 4 ? L + 1 + choose(64, "b") : 1 + choose(5000, "b"); if(b == 0) b = 1; }
			Buf ub(own ? 1 : b);
			int r = own ? fileparser_readline(fp) : fileparser_readline_userbuf(fp, ub.p, b);
			ev("readline", r, b, pos);
			if(r == 0) {
				CHECK(pos < S.size(), "line-after-eof", "a line was delivered at end of file");
				CHECK(b >= L + 1, "line-cut", "a line of %zu bytes was delivered in a buffer of %zu", L, b);
				stringptr gl; size_t len = fp->len; const char* data = own ? fp->buf : ub.p;
				if(own) { CHECK(fileparser_getline(fp, &gl) == 0, "getline", "getline failed after a successful read"); data = gl.ptr; len = gl.size; }
				CHECK(len == L, "wrong-length", "line at offset %zu has %zu bytes, reader says %zu", pos, L, len);
				CHECK(memcmp(data, S.data() + pos, L) == 0, "wrong-line", "line at offset %zu (%zu bytes) delivered with other bytes: %s", pos, L, show(std::string(data, L)).c_str());
				CHECK(data[L] == 0, "not-terminated", "line at offset %zu is not NUL-terminated", pos);
				if(L == 0) probe("empty-line"); if(pos + L == S.size()) probe("unterminated-last-line"); if(b == L + 1) probe("buffer-exactly-fits");
				pos = after(pos);
			} else if(r == -2) {
				CHECK(pos >= S.size(), "early-eof", "end of file reported at offset %zu of %zu", pos, S.size());
				probe("eof");
			} else if(r == -3) {
				CHECK(pos < S.size() && b < L + 1, "false-too-small", "buffer of %zu refused for a line of %zu bytes (offset %zu of %zu)", b, L, pos, S.size());
				probe("too-small");
			} else if(lost()) continue; else check_fail("readline", r, faulted());
		} else if(op <= 6) {
			ssize_t r = fileparser_getnextlinelength(fp);
			ev("nextlen", r, pos);
			if(r >= 0) {
				CHECK(pos < S.size(), "line-after-eof", "length %zd reported at end of file", r);
				CHECK((size_t)r == linelen(pos), "wrong-next-length", "next line at offset %zu has %zu bytes, reported %zd", pos, linelen(pos), r);
				if((size_t)r > IB) probe("long-next-length");
			} else if(lost()) continue; else if(pos < S.size()) check_fail("getnextlinelength", r, faulted());
		} else {
			if(pos < S.size() && choose(3, "close") != 2) continue;
			fileparser_close(fp); open_ = false;
			CHECK(open_fds(me) == fds0, "fd-leak", "close left %s", fd_list(me).c_str());
			if(choose(4, "twice") == 3) { int n; { NoFaults nf; n = sim_open("/dev/null", 0); } fileparser_close(fp); CHECK(me->fds.count(n), "closed-foreign", "closing the closed reader closed descriptor %d of the caller", n); { NoFaults nf; sim_close(n); } probe("closed-twice"); }
		}
		CHECK(open_fds(me) == fds0 + (open_ ? 1 : 0), "fd-count", "descriptors: %s", fd_list(me).c_str());
		CHECK(vfs_lookup(FN)->data == S, "file-changed", "reading changed the file");
	}
	if(open_) { // faults stop: the rest of the file must come out completely
		disarm_all(); size_t guard = 0;
		while(1) {
			CHECK(guard++ < S.size() + 3, "no-end", "no end of file");
			size_t L = linelen(pos); Buf ub(std::max<size_t>(L + 1, 1)); budget(LIB_BUDGET);
			int r = fileparser_readline_userbuf(fp, ub.p, L + 1);
			if(pos >= S.size()) { CHECK(r == -2, "no-eof", "at end of file readline returned %d", r); break; }
			CHECK(r == 0, "stuck", "after faults stopped readline returned %d at offset %zu", r, pos);
			CHECK(fp->len == L && ub.str(L) == S.substr(pos, L) && ub.p[L] == 0, "wrong-line", "line at offset %zu wrong after faults stopped", pos);
			pos = after(pos);
		}
		fileparser_close(fp);
	}
	CHECK(open_fds(me) == fds0, "fd-leak", "close left %s", fd_list(me).c_str());
	heap_expect_same(hm, "memory-leak", "after close");
	operator delete(fp);
}

// ---------------------------------------------------------------- C04
SCENARIO(C04) {
	if(choose_in_run(50, 1, 2, "giant")) { // an entry of more than 4 GiB; the system takes at most 2 GiB in one call
		size_t n = (1ull << 32) + choose(60000, "len"); while(pattern()[n] != '\n') n++;
		stringptrlist* l = stringptrlist_new(1); stringptrlist_add(l, (char*)pattern(), n); InodeP i = vfs_mkfile(FN, ""); i->expect = pattern(); size_t fds = open_fds(cur_proc()); budget(LIB_BUDGET * 100); Buf name{std::string(FN)};
		int r = stringptrlist_tofile(l, name.p, 0644); ev("saved", r, i->sunk); CHECK(!i->sink_bad && i->sunk <= n + 1, "wrong-file", "saving an entry of %zu bytes wrote %llu bytes%s", n, (unsigned long long)i->sunk, i->sink_bad ? " with other content" : ""); CHECK(!r || i->sunk == n + 1, "false-success", "the save of an entry of %zu bytes succeeded with %llu bytes written", n, (unsigned long long)i->sunk);
		probe(r ? "giant-save" : "giant-save-refused"); CHECK(open_fds(cur_proc()) == fds, "fd-leak", "descriptors"); sblist_free(l); return;
	}
	if(choose_in_run(55, 1, 2, "many-entries")) { // more than 16 bits can count
		probe("entries-over-64k"); size_t n = 65537 + choose(3000, "n"); Rng rg(choose(1u << 16, "text")); std::string want; stringptrlist* l = stringptrlist_new(64);
		for(size_t i = 0; i < n; i++) { size_t at = want.size(); for(uint32_t k = rg.below(4); k > 0; k--) want += (char)('a' + rg.below(26)); stringptr t; t.ptr = &want[at]; t.size = want.size() - at; CHECK(stringptrlist_add_strdup(l, &t), "spurious-failure", "add"); want += '\n'; }
		budget(1ull << 27); Buf name{std::string(FN)}; int r = stringptrlist_tofile(l, name.p, 0644); CHECK(r, "spurious-failure", "save of %zu entries", n); InodeP i = vfs_lookup(FN); CHECK(i && i->data == want, "incomplete-save", "the save of %zu entries succeeded, the file holds %zu bytes, %zu expected", n, i ? i->data.size() : (size_t)0, want.size());
		stringptrlist* m = stringptrlist_new(64); r = stringptrlist_fromfile(m, name.p); CHECK(r, "spurious-failure", "load of %zu lines", n); CHECK(stringptrlist_getsize(m) == n, "incomplete-load", "load reported success with %zu of %zu lines", (size_t)stringptrlist_getsize(m), n);
		for(size_t k = 0; k < n; k++) { stringptr *x = (stringptr*)sblist_get(l, k), *y = (stringptr*)sblist_get(m, k); CHECK(x->size == y->size && !memcmp(x->ptr, y->ptr, x->size + 1), "wrong-entry", "entry %zu", k); }
		stringptrlist_freeall(l); stringptrlist_freeall(m); return;
	}
	for(int i = 0; i < 3; i++) { NoFaults nf; sim_open("/dev/null", 2); }
	if(choose(6, "closedstd") == 5) { NoFaults nf; for(int i = 0; i < 3; i++) if(choose(2, "std")) sim_close(i); }
	arm_some({F_SHORT_READ, F_READ_EIO, F_READ_EINTR, F_OPEN_EIO, F_OPEN_EMFILE, F_SHORT_WRITE, F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_EINTR, F_ALLOC});
	Process* me = cur_proc(); size_t fds0 = open_fds(me);
	auto wf = [](const FaultCount& f) { return fired(f, {F_SHORT_WRITE, F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_EINTR, F_OPEN_EIO, F_OPEN_EMFILE, F_ALLOC}); };
	on_syscall = [](const char*) { no_inherit(); };
	auto rf = [](const FaultCount& f) { return fired(f, {F_READ_EIO, F_READ_EINTR, F_OPEN_EIO, F_OPEN_EMFILE, F_ALLOC}); };
	int rounds = 1 + choose(3, "rounds");
	for(int r = 0; r < rounds; r++) {
		Span sp;
		if(choose(4, "disk") == 3) disk_free = choose(200, "free"); else disk_free = ~(size_t)0;
		HeapMark hm = heap_mark();
		std::vector<std::string> items; bool too_long = false;
		if(choose(3, "source") < 2) { // save, then load what was saved
			while(items.size() < 20 && more(5, "item")) {
				Span s2; size_t len; uint32_t k = choose(8, "len"); len = k == 0 ? 0 : k < 5 ? choose(12, "len") : k < 7 ? choose(200, "len") : 1019 + choose(8, "len");
				std::string it = gen_data(len, 0); for(char& c : it) if(c == '\n') c = 'n'; items.push_back(it);
			}
			stringptrlist* l; std::vector<Buf*> keep;
			{ NoFaults nf; l = stringptrlist_new(1 + choose(8, "blk")); for(auto& s : items) { Buf* b = new Buf(s); keep.push_back(b); stringptr t; t.ptr = b->p; t.size = s.size(); sblist_add(l, &t); } }
			std::string want; for(auto& s : items) want += s + "\n";
			InodeP d = vfs_lookup("/tmp"); d->ents.clear();
			bool had = choose(2, "had"); std::string old = had ? gen_data(choose(3000, "oldsize"), 26) : ""; if(had) vfs_mkfile(FN, old);
			FaultCount f0 = fsnap(); budget(LIB_BUDGET);
			Buf name{std::string(FN)};
			int ok = stringptrlist_tofile(l, name.p, 0600 + choose(2, "mode") * 044);
			InodeP i = vfs_lookup(FN);
			ev("save", ok, i ? i->data.size() : -1);
			CHECK(open_fds(me) == fds0, "fd-leak", "save left %s", fd_list(me).c_str());
			bool same = true; CHECK(sblist_getsize(l) == items.size(), "list-changed", "saving changed the list's length"); for(size_t k = 0; k < items.size(); k++) same &= sp_str((stringptr*)sblist_get(l, k)) == items[k];
			CHECK(same, "list-changed", "saving changed the list");
			if(ok) CHECK(i && i->data == want, "incomplete-save", "save reported success, the file holds %zu bytes, %zu expected", i ? i->data.size() : (size_t)0, want.size());
			else { CHECK(wf(f0), "spurious-failure", "save failed although no call failed"); probe("save-refused");
				CHECK(!i || (had && i->data == old) || want.compare(0, i->data.size(), i->data) == 0, "garbage-saved", "failed save left bytes that are not a prefix of the list's text"); }
			{ NoFaults nf; stringptrlist_free(l); } for(auto b : keep) delete b;
			heap_expect_same(hm, "memory-leak", "after save");
			if(!ok) continue;
		} else { std::string S = gen_lines({1023, 1024, 2048, 100}); vfs_mkfile(FN, S); size_t p = 0; while(p < S.size()) { size_t e = S.find('\n', p); if(e == std::string::npos) e = S.size(); items.push_back(S.substr(p, e - p)); p = e + 1; } }
		for(auto& s : items) if(s.size() >= sizeof(((fileparser*)0)->buf)) too_long = true;
		// load, possibly into a list that already has entries
		stringptrlist* l; size_t pre;
		{ NoFaults nf; l = stringptrlist_new(1 + choose(20, "blk")); pre = choose(3, "pre"); for(size_t k = 0; k < pre; k++) { stringptr t; char c[2] = {(char)('A' + k), 0}; t.ptr = c; t.size = 1; stringptrlist_add_strdup(l, &t); } }
		FaultCount f0 = fsnap(); budget(LIB_BUDGET);
		std::string before = vfs_lookup(FN)->data;
		int ok = stringptrlist_fromfile(l, FN);
		ev("load", ok, sblist_getsize(l));
		CHECK(open_fds(me) == fds0, "fd-leak", "load left %s", fd_list(me).c_str());
		CHECK(vfs_lookup(FN)->data == before, "file-changed", "loading changed the file");
		size_t n = sblist_getsize(l);
		CHECK(n >= pre && n - pre <= items.size(), "too-many", "%zu entries loaded from %zu lines", n - pre, items.size());
		for(size_t k = 0; k < n; k++) { std::string want = k < pre ? std::string(1, 'A' + k) : items[k - pre]; stringptr* g = (stringptr*)sblist_get(l, k); CHECK(sp_str(g) == want, "wrong-entry", "entry %zu is \"%s\", line is \"%s\"", k, show(sp_str(g)).c_str(), show(want).c_str()); CHECK(g->ptr[g->size] == 0, "not-terminated", "entry %zu", k); }
		if(ok) { CHECK(n - pre == items.size(), "incomplete-load", "load reported success with %zu of %zu lines", n - pre, items.size()); probe("loaded"); }
		else { CHECK(too_long || rf(f0), "spurious-failure", "load failed although no call failed and no line is too long"); probe(too_long ? "line-too-long" : "load-refused"); }
		{ NoFaults nf; stringptrlist_freeall(l); }
		heap_expect_same(hm, "memory-leak", "after load and free");
	}
}
