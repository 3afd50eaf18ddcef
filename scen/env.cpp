// C15 sleeping, C16 clock readings, C17 temporary directories
#include "common.hpp"
#include <sys/stat.h>

SCENARIO(C15) {
	arm_some({F_SLEEP_EINTR, F_OVERSLEEP, F_CLOCK_STEP});
	sys_yield = true; switch_den = 1 + choose(3, "switch");
	bool giant = choose(16, "giant") == 15; // one sleep of up to two centuries
	int nt = giant ? 1 : 1 + choose(3, "tasks");
	if(choose(12, "storm") == 11) storm(F_SLEEP_EINTR, 20 + choose(1500, "storm-length"));
	for(int t = 0; t < nt; t++) spawn("sleeper", [t, giant] {
		int n = giant ? 1 : 1 + choose(4, "sleeps");
		for(int k = 0; k < n; k++) {
			Span sp_; bool ms = choose(2, "unit"); static const long marks[] = {0, 1, 999, 1000, 1001, 999999, 1000000, 1000001, 2147483, 2147483647, 2147483648l, 4294967295l, 4294967296l, 4294968, 86400000, 1000000000000l};
			long d; switch(choose(4, "kind")) { case 0: d = marks[choose(16, "mark")]; break; case 1: d = choose(3000, "short"); break; case 2: d = choose(2000000000, "mid"); break; default: d = (long)choose(1000000, "hi") * 1000003 + choose(1000, "lo"); }
			if(giant) { int64_t s = choose(2, "giant-mark") ? (int64_t)choose(7000000, "giant-k") * 1000 + choose(1000, "giant-s") : (choose(2, "half") ? 1ll << 32 : 1ll << 31) - 2 + choose(5, "giant-d"); d = s * (ms ? 1000 : 1000000) + choose(ms ? 1000 : 1000000, "giant-frac"); probe("giant"); }
			int64_t t0 = world_now(), want = d * (ms ? 1000000ll : 1000ll), inj0 = injected_delay; uint64_t c0 = n_sleep_calls; budget(LIB_BUDGET);
			ev(ms ? "msleep" : "microsleep", d, t); int r = ms ? msleep(d) : microsleep(d); int64_t el = world_now() - t0; ev("woke", r, el);
			CHECK(r == 0, "sleep-failed", "%s(%ld) returned %d (errno %d)", ms ? "msleep" : "microsleep", d, r, errno);
			CHECK(el >= want, "woke-early", "%s(%ld) returned after %lld ns instead of %lld", ms ? "msleep" : "microsleep", d, (long long)el, (long long)want);
			int64_t slack = (injected_delay - inj0) + 1000 + 1000 * (int64_t)(n_sleep_calls - c0);
			CHECK(el <= want + slack, "overslept", "%s(%ld) returned after %lld ns instead of %lld, although the system delayed it by at most %lld", ms ? "msleep" : "microsleep", d, (long long)el, (long long)want, (long long)slack);
			if(n_sleep_calls - c0 > 1) probe("interrupted"); if(n_sleep_calls - c0 > 100) probe("interrupted-100-times");
		}
	});
	join_all();
}

static std::string stamp(int64_t sec) { time_t t = sec; struct tm tm; localtime_r(&t, &tm); char b[64]; snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec); return b; }
static int64_t fdiv(int64_t a, int64_t b) { int64_t q = a / b; return a % b < 0 ? q - 1 : q; }
// the local time zone, a configuration every stamp depends on; POSIX strings need no data files
static void local_zone(uint32_t k) { static const char* z[] = {"UTC", "XXX-5:30", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "YYY11:59:59"}; static uint32_t cur = 0; if(cur == k) return; cur = k; setenv("TZ", z[k], 1); tzset(); }
SCENARIO(C16) {
	local_zone(choose(4, "zone?") == 3 ? choose(5, "zone") : 0);
	static const int64_t ticks[] = {0, 1, 1000, 1000000, 400000000, 1500000000}; tick_max = ticks[choose(6, "tick")];
	bool together = choose(4, "together") == 3; int n = 1 + choose(6, "calls"); // several callers at once: time passes, but is not set anew
	auto calls = [&] { for(int k = 0; k < n; k++) {
		Span sp_; budget(LIB_BUDGET);
		static const int64_t secs[] = {1500000000, 0, 951782399, 1078012799, 946684799, 1735689599, 2147483647, 4294967295ll, 253402300798ll, 86399, 1582934400 - 1, 31535999};
		int64_t s = choose(3, "when") == 2 ? (int64_t)choose(1u << 31, "sec") * 2 + choose(2, "odd") : secs[choose(12, "mark")];
		static const int64_t nss[] = {0, 999999999, 999999000, 999998999, 500000000, 1, 1000, 999, 1000000, 999000000}; int64_t ns = !together && choose(2, "nsk") ? choose(1000000000, "ns") : nss[choose(10, "nsmark")];
		if(s > 9000000000ll) s = 9000000000ll + s % 100000; 
		if(!together || (!k && cur_task() == 0)) set_wall(s * 1000000000 + ns);
		int64_t w0 = wall_ns(); uint32_t op = choose(5, "op"); ev("call", op, w0);
		if(op == 0) { struct timeval t; memset(&t, 0xEE, sizeof t); gettimestamp(&t); int64_t w1 = wall_ns(), v = t.tv_sec * 1000000ll + t.tv_usec; CHECK(t.tv_usec >= 0 && t.tv_usec < 1000000, "not-normalised", "tv_usec is %ld", (long)t.tv_usec); CHECK(v >= w0 / 1000 && v <= w1 / 1000, "not-an-instant", "gettimestamp gave %lld us, the call lasted from %lld to %lld", (long long)v, (long long)w0 / 1000, (long long)w1 / 1000); }
		else if(op == 1) { int64_t v = getutime(), w1 = wall_ns(); CHECK(v >= w0 / 1000 && v <= w1 / 1000, "not-an-instant", "getutime gave %lld us, the call lasted from %lld to %lld", (long long)v, (long long)w0 / 1000, (long long)w1 / 1000); }
		else if(op == 2) {
			int64_t base; switch(choose(4, "ref")) { case 0: base = w0 / 1000; break; case 1: base = w0 / 1000 - choose(5000000, "ago"); break; case 2: base = w0 / 1000 + choose(5000000, "ahead"); break; default: base = (int64_t)choose(1u << 31, "refsec") * 1000000 + choose(1000000, "refusec"); }
			struct timeval t = { (time_t)fdiv(base, 1000000), (suseconds_t)(base - fdiv(base, 1000000) * 1000000) }, c = t; int64_t v = mspassed(&t), w1 = wall_ns();
			int64_t lo = fdiv(w0 / 1000 - base, 1000), hi = fdiv(w1 / 1000 - base, 1000); hi = std::max(hi, (w1 / 1000 - base) / 1000); // towards zero is as good as downwards
			CHECK(v >= lo && v <= hi, "elapsed-wrong", "mspassed gave %lld ms, true values lie between %lld and %lld", (long long)v, (long long)lo, (long long)hi);
			CHECK(t.tv_sec == c.tv_sec && t.tv_usec == c.tv_usec, "input-changed", "mspassed changed its argument"); if(lo < 0) probe("negative-elapsed");
		} else if(op == 3) {
			auto pick = [&] { int64_t x = secs[choose(12, "a")] + (int64_t)choose(3, "d"); if(x > 9000000000ll) x = 9000000000ll; struct timespec ts = { (time_t)x, (long)nss[choose(10, "b")] }; return ts; };
			struct timespec a = pick(), b = pick(); int64_t v = timespec_diff(&a, &b), want = ((int64_t)a.tv_sec - b.tv_sec) * 1000000000 + (a.tv_nsec - b.tv_nsec);
			CHECK(v == want, "difference-wrong", "timespec_diff gave %lld, true difference %lld", (long long)v, (long long)want);
		} else {
			size_t bs = choose(3, "bs") ? 20 + choose(20, "big") : 1 + choose(22, "small"); if(choose(20, "none") == 19) bs = 0; Buf b(bs); if(!bs) b.p[0] = 'Z'; size_t r = timestamp(b.p, bs); int64_t w1 = wall_ns(); bool ok = false; if(!bs) { CHECK(b.p[0] == 'Z', "wrote-outside", "a buffer of no bytes was written to"); probe("no-buffer"); continue; }
			size_t len = strnlen(b.p, bs); CHECK(len < bs, "not-terminated", "no terminator within the %zu bytes of the buffer", bs); CHECK(r == len, "length-wrong", "timestamp returned %zu, the string has %zu bytes", r, len);
			std::string got = b.str(len), ex;
			for(int64_t x = w0 / 1000000000; x <= w1 / 1000000000 && !ok; x++) { ex = stamp(x).substr(0, bs - 1); ok = ex == got; }
			CHECK(ok, "stamp-wrong", "timestamp gave %s during %s .. %s", show(got).c_str(), stamp(w0 / 1000000000).c_str(), stamp(w1 / 1000000000).c_str());
			if(w0 / 1000000000 != w1 / 1000000000) probe("second-boundary");
		}
	} };
	if(!together) { calls(); return; }
	int all = n; n = 1; calls(); n = all; // sets the clock
	sys_yield = true; switch_den = 2; static const uint32_t pm[] = {3, 1, 12, 60}; uint32_t p = pm[choose(4, "preempt")];
	for(int t = 2 + choose(2, "callers"); t > 0; t--) spawn("caller", calls);
	preempt_max = p; join_all(); preempt_max = 0; probe("several-callers");
}

SCENARIO(C17) {
	arm_some({F_MKDIR_ERR, F_MKDIR_RACE, F_RAND_REPEAT, F_CRASH});
	sys_yield = true; switch_den = 1 + choose(3, "switch"); static const uint32_t rr[] = {0, 2, 3, 64}; rand_range = rr[choose(4, "randrange")];
	static const char* prefixes[] = {"p", "", "longer-prefix_", "sub/x", "XXXXXX", "a.b"};
	int pfx = choose(6, "prefix"); std::string prefix = prefixes[pfx]; if(pfx != 3 && pfx != 1 && choose(8, "long-prefix") == 7) { static const int lens[] = {20, 40, 60, 110, 120, 200, 243}; int l = lens[choose(7, "prefix-len")] + choose(7, "prefix-more"); prefix.clear(); while((int)prefix.size() < l) prefix += "abcdefghij_K.0X"[prefix.size() % 15]; probe("long-prefix"); } bool noshm = choose(4, "noshm") == 3, notmp = choose(6, "notmp") == 5;
	static const int denials[] = {EACCES, EROFS, ENOSPC, EMLINK, EPERM}; if(choose(5, "deny-shm") == 4 && prefix.find('/') == std::string::npos) vfs_lookup("/dev/shm")->deny = denials[choose(5, "errno")]; if(choose(8, "deny-tmp") == 7 && prefix.find('/') == std::string::npos) vfs_lookup("/tmp")->deny = denials[choose(5, "errno")];
	if(choose(12, "storm") == 11) { bool rnd = choose(2, "storm-kind"); if(!rnd && rand_range && rand_range < 64) rand_range = 64; /* else it runs out of names */ storm(rnd ? F_RAND_REPEAT : F_MKDIR_RACE, 20 + choose(700, "storm-length")); probe("collision-storm"); }
	auto usable_dir = [](const std::string& d) { InodeP i = vfs_lookup(d); return i && !i->deny; };
	if(noshm) vfs_lookup("/dev")->ents.erase("shm"); if(notmp) vfs_lookup("/")->ents.erase("tmp");
	if(choose(3, "sub") == 2) { if(!notmp) vfs_mkdir("/tmp/sub"); if(!noshm && choose(2, "shmsub")) vfs_mkdir("/dev/shm/sub"); }
	// names that are already taken, as files or directories
	for(uint32_t n = choose(12, "taken"); n > 0; n--) { std::string nm; for(int i = 0; i < 6; i++) nm += conv_cypher[choose(rand_range ? std::min<uint32_t>(rand_range, 62) : 2, "c")]; std::string dir = choose(2, "where") ? "/tmp" : "/dev/shm"; if(vfs_lookup(dir) && prefix.find('/') == std::string::npos && !vfs_lookup(dir + "/" + prefix + nm)) { if(choose(2, "isfile")) vfs_mkfile(dir + "/" + prefix + nm, "taken"); else vfs_mkdir(dir + "/" + prefix + nm, 0777); } }
	std::map<uint64_t, int> owner; int nt = 1 + choose(3, "tasks");
	std::set<uint64_t> pre; std::function<void(InodeP)> scan = [&](InodeP d) { for(auto& e : d->ents) { pre.insert(e.second->ino); if(e.second->kind == K_DIR) scan(e.second); } }; scan(vfs_lookup("/"));
	auto made = [&](int task) { std::vector<InodeP> v; std::function<void(InodeP)> f = [&](InodeP d) { for(auto& e : d->ents) { if(!pre.count(e.second->ino) && (int)e.second->created_by == task) v.push_back(e.second); if(e.second->kind == K_DIR) f(e.second); } }; f(vfs_lookup("/")); return v; };
	for(int t = 0; t < nt; t++) {
		Process* p = new_process(cur_proc()); static const mode_t um[] = {022, 0, 077, 027}; p->umask_ = um[choose(4, "umask")];
		spawn("caller", [&, t, p] {
			std::set<uint64_t> mine; int n = 1 + choose(3, "calls");
			for(int k = 0; k < n; k++) {
				Span sp_; budget(LIB_BUDGET * 8); bool two = choose(2, "which"); FaultCount f0 = fsnap(); size_t had = made(cur_task()).size(); char* res; std::string path; errno = 0; size_t len = 0; bool small = false, shortt = false; std::string given;
				uint32_t place = 0; std::unique_ptr<Buf> b;
				if(!two) {
					place = choose(4, "place"); given = place == 0 ? "/tmp/" + prefix + "XXXXXX" : place == 1 ? "/dev/shm/" + prefix + "XXXXXX" : place == 2 ? "/missing/aXXXXXX" : prefix + "XXXXXX"; if(place == 3) { p->cwd = "/tmp"; }
					if(choose(10, "short") == 9) { given = std::string("XXXXX").substr(0, choose(6, "shortlen")); shortt = true; }
					b.reset(new Buf(given)); evs("mkdtemp", given); res = ulz_mkdtemp(b->p); path = std::string(b->p); ev("made", res != nullptr, errno);
				} else {
					size_t need = 9 + prefix.size() + 7, bs = choose(4, "bufsize") ? need + choose(10, "extra") : choose(need + 2, "bs"); small = bs < need; b.reset(new Buf(bs)); evs("mktempdir", prefix, bs); len = mktempdir(prefix.c_str(), b->p, bs); ev("made2", len); res = len ? b->p : nullptr; if(res) { CHECK(strnlen(b->p, bs) < bs, "not-terminated", "the name fills the whole buffer"); path = b->p; }
				}
				int e = errno; bool f = fired(f0, {F_MKDIR_ERR}); auto now = made(cur_task());
				if(res) {
					CHECK(!small && !shortt, "false-success", "succeeded although the %s is too short", small ? "buffer" : "template");
					if(!two) { CHECK(res == b->p, "bad-result", "the returned pointer is not the template"); CHECK(path.size() == given.size() && path.compare(0, given.size() - 6, given, 0, given.size() - 6) == 0, "prefix-changed", "template %s became %s", given.c_str(), show(path).c_str()); }
					else { CHECK(len == path.size(), "length-wrong", "returned %zu for %s", len, show(path).c_str()); bool shm = path.compare(0, 9, "/dev/shm/") == 0; std::string want = (shm ? "/dev/shm/" : "/tmp/") + prefix; CHECK(path.compare(0, want.size(), want) == 0 && path.size() == want.size() + 6, "prefix-changed", "prefix %s gave %s", prefix.c_str(), show(path).c_str()); 
						bool shmok = usable_dir("/dev/shm" + (pfx == 3 ? std::string("/sub") : std::string())); CHECK(shm || f || !shmok, "not-preferred", "%s used although the preferred location works", path.c_str()); if(!shm) probe("fallback"); }
					std::string tail = path.substr(path.size() - 6); for(char c : tail) CHECK(isalnum((unsigned char)c) || c == '-' || c == '_' || c == '.', "bad-name", "generated name %s", show(path).c_str());
					InodeP in = vfs_lookup(path[0] == '/' ? path : p->cwd + "/" + path);
					CHECK(in && in->kind == K_DIR, "no-directory", "%s does not exist", show(path).c_str());
					CHECK(!pre.count(in->ino), "not-fresh", "%s existed before the call", path.c_str());
					CHECK((int)in->created_by == cur_task(), "not-mine", "%s was created by someone else", path.c_str());
					CHECK(!mine.count(in->ino) && !owner.count(in->ino), "shared", "%s was handed out before", path.c_str());
					CHECK((in->mode & 0777) == 0700, "not-private", "%s has mode %o", path.c_str(), in->mode);
					CHECK(now.size() == had + 1, "stray-directory", "%zu directories were created by one call", now.size() - had);
					mine.insert(in->ino); owner[in->ino] = t; probe("created");
				} else {
					CHECK(now.size() == had, "stray-directory", "a failed call left a directory behind");
					bool tmpok = usable_dir(pfx == 3 ? "/tmp/sub" : "/tmp"), shmok = usable_dir(pfx == 3 ? "/dev/shm/sub" : "/dev/shm"); bool usable = two ? tmpok || shmok : place == 0 || place == 3 ? tmpok : place == 1 ? shmok : false;
					if(two && !shmok && !tmpok) usable = false;
					CHECK(f || small || shortt || !usable, "spurious-failure", "failed (errno %d) although the directory could be created", e);
					if(two && !small && shmok && tmpok) CHECK(fsnap()[F_MKDIR_ERR] - f0[F_MKDIR_ERR] > 1, "no-fallback", "one failing mkdir made the call fail although the fallback location works");
					CHECK(two || e != 0, "no-errno", "failed without errno"); if(shortt) CHECK(e == EINVAL, "no-errno", "a short template gave errno %d", e); if(!two && !shortt) CHECK(e != EEXIST, "gave-up", "a name collision was reported as failure"); if(!two && !shortt && !f && place < 2 && vfs_lookup(place ? "/dev/shm" : "/tmp") && vfs_lookup(place ? "/dev/shm" : "/tmp")->deny) CHECK(e == vfs_lookup(place ? "/dev/shm" : "/tmp")->deny, "wrong-errno", "failed with errno %d, the directory refuses with %d", e, vfs_lookup(place ? "/dev/shm" : "/tmp")->deny);
					probe("failed");
				}
			}
		}, p);
	}
	join_all();
}
