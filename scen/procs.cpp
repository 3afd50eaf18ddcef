// C12 opening a process, C13 closing it, C14 daemonising
#include "common.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
extern "C" char** environ;
extern "C" { int sim_dup2(int, int); pid_t sim_waitpid(pid_t, int*, int); int sim_posix_spawn_file_actions_destroy(posix_spawn_file_actions_t*); void sim_exit(int); }

// What a simulated child does is described by a Job, found through argv[1].
struct Job {
	int mode, code, killed = 0; std::string out, err; size_t chunk; bool started = false, sawEof = false, done = false; std::string got; int pid = 0;
	int marked = -1; std::string written, rout, rerr; bool open = false, epipe = false; struct process p; uint64_t wiring = 0;
};
static std::vector<std::unique_ptr<Job>>* jobs; static bool check_wiring;
static void child_check(Process* c, Job* j) {
	static const int want[3] = {1, 2, 2};
	for(int i = 0; i < 3; i++) {
		auto it = c->fds.find(i);
		CHECK(it != c->fds.end(), "stream-missing", "the child has no descriptor %d", i);
		CHECK(it->second.of->kind == want[i], "stream-wrong", "descriptor %d of the child is not the %s end of a pipe", i, want[i] == 1 ? "read" : "write");
		for(int k = 0; k < i; k++) CHECK(c->fds[k].of->pipe != it->second.of->pipe, "stream-shared", "descriptors %d and %d of the child are the same pipe", k, i);
	}
	for(auto& f : c->fds) if(f.first > 2) CHECK(f.second.of->kind == 0, "pipe-inherited", "the child also has a %s end of a pipe as descriptor %d", f.second.of->kind == 1 ? "read" : "write", f.first);
}
static int child_main(Process* c) {
	Job* j = (*jobs)[atoi(c->argv[1].c_str())].get(); j->started = true; j->pid = c->pid;
	CHECK(c->argv.size() == 3 && c->argv[2] == "last arg", "argv-wrong", "the child got %zu arguments", c->argv.size());
	{ size_t n = 0; for(char** e = environ; *e; e++, n++) CHECK(n < c->env.size() && c->env[n] == *e, "environment-wrong", "the child does not have the caller's environment"); CHECK(n == c->env.size(), "environment-wrong", "the child has %zu environment variables, the caller %zu", c->env.size(), n); }
	if(check_wiring) child_check(c, j);
	auto put = [&](int fd, const std::string& s) { size_t o = 0; while(o < s.size()) { ssize_t r = sim_write(fd, s.data() + o, std::min(j->chunk, s.size() - o)); if(r <= 0) { j->epipe = true; return; } o += r; } };
	if(j->mode == 3) { size_t a = 0, b = 0; while(a < j->out.size() || b < j->err.size()) { bool first = b >= j->err.size() || (a < j->out.size() && choose(2, "which") == 0); if(first) { size_t n = std::min(j->chunk, j->out.size() - a); put(1, j->out.substr(a, n)); a += n; } else { size_t n = std::min(j->chunk, j->err.size() - b); put(2, j->err.substr(b, n)); b += n; } } }
	if(j->mode != 2) {
		std::string b(j->chunk, 0);
		for(;;) {
			ssize_t r = sim_read(0, &b[0], j->chunk); CHECK(r >= 0, "child-read", "read in the child failed: %d", errno);
			if(r == 0) { j->sawEof = true; break; }
			j->got.append(b, 0, r);
			if(j->mode == 1) put(1, b.substr(0, r));
			if(j->mode == 4) for(ssize_t i = 0; i < r; i++) put((j->got.size() - r + i) & 1 ? 2 : 1, b.substr(i, 1));
		}
	}
	j->done = true; return j->killed ? KILLED_BY + j->killed : j->code;
}
static void expect_out(Job* j, std::string& o, std::string& e) { o = e = ""; if(j->mode == 1) o = j->written; else if(j->mode == 3) { o = j->out; e = j->err; } else if(j->mode == 4) for(size_t i = 0; i < j->written.size(); i++) ((i & 1) ? e : o) += j->written[i]; }

// a child killed by a signal, and one whose code the system has thrown away, have no exit code
static const int signals[] = {9, 11 | 0x80, 15, 1, 6 | 0x80, 13, 64};
static void check_code(Process* me, Job* j, int r, bool closing) {
	if(j->killed || (closing && me->ignores_sigchld)) { if(closing) { CHECK(r < 0 || r > 255, "made-up-code", "close returned %d as the exit code of a child %s", r, j->killed ? "that was killed by a signal" : "whose exit code is not available"); probe(j->killed ? "child-killed" : "no-exit-code"); } return; }
	CHECK(r == j->code, "exit-code", "close returned %d, the child exited with %d", r, j->code);
}
// a caller that already has hundreds or thousands of descriptors open
static void crowd(Process* me) {
	static const int many[] = {61, 125, 253, 510, 1021, 2045, 4093}; int n = many[choose(7, "crowd-size")] + (int)choose(6, "crowd-extra"); me->limit = n + 64;
	auto of = std::make_shared<OpenFile>(); of->kind = 0; of->ino = vfs_lookup("/dev/null"); of->off = 0; of->flags = O_RDWR; of->path = "crowd";
	for(int i = 3; i < n; i++) if(!me->fds.count(i)) me->fds[i] = FdEnt{of, false};
	probe("many-descriptors");
}
static void processes(bool closing) {
	std::vector<std::unique_ptr<Job>> js; jobs = &js; check_wiring = !closing;
	Process* me = cur_proc(); sys_yield = true; switch_den = 1 + choose(4, "switch");
	me->ignores_sigchld = closing && choose(12, "sigchld") == 11;
	if(closing) { arm_some({F_WAIT_EINTR}); if(choose(16, "storm") == 15) storm(F_WAIT_EINTR, 20 + choose(300, "storm-length")); } else arm_some({F_PIPE_EMFILE, F_FA_ENOMEM, F_SPAWN_ERR, F_DUP_ERR});
	static const size_t caps[] = {4096, 65536, 16, 1}; pipe_cap = caps[choose(4, "pipecap")];
	add_program("/bin/child", child_main); add_program("child", child_main);
	{ NoFaults nf; for(int i = 0; i < 3; i++) sim_open("/dev/null", O_RDWR);
	std::vector<int> extra; for(uint32_t n = choose(5, "extra"); n > 0; n--) { std::string f = "/tmp/x" + std::to_string(n); vfs_mkfile(f, "x"); int fd = sim_open(f.c_str(), O_RDWR); extra.push_back(fd); }
	if(choose(4, "closedstd") == 3) for(int i = 0; i < 3; i++) if(choose(2, "std")) sim_close(i);
	 for(int fd : extra) if(choose(3, "hole") == 2) sim_close(fd); }
	if(choose(50, "crowd") == 49) crowd(me); else
	if(!closing && choose(4, "tight") == 3) me->limit = 3 + open_fds(me) + choose(16, "limit");
	HeapMark hm = heap_mark(); size_t live0 = live_file_actions();
	auto nopen = [&] { size_t n = 0; for(auto& j : js) n += j->open; return n; };
	auto reap = [&](Job* j) { // the harness's own way of ending a child, for C12
		NoFaults nf; for(int i = 0; i < 3; i++) sim_close(j->p.fds[i]); int st = -1; pid_t r = sim_waitpid(j->p.pid, &st, 0);
		CHECK(r == j->p.pid, "not-my-child", "waiting for the opened process failed");
		if(live_file_actions() > live0 + nopen() - 1) sim_posix_spawn_file_actions_destroy(&j->p.fa);
		return WEXITSTATUS(st);
	};
	auto finish = [&](Job* j) {
		std::string before = fd_list(me); size_t kids = n_children(me, false), n0 = open_fds(me); budget(LIB_BUDGET);
		std::set<int> others; for(auto& o : js) if(o->open && o.get() != j) others.insert(o->p.pid);
		evs("close", "", j->p.pid, j->mode);
		int r; if(closing) r = process_close(&j->p); else r = reap(j);
		j->open = false; ev("closed", r); if(j->marked >= 0) { CHECK(me->fds.count(j->marked), "closed-foreign", "descriptor %d of the caller was closed", j->marked); NoFaults nf; sim_close(j->marked); n0--; }
		Process* c = proc_by_pid(j->pid ? j->pid : j->p.pid);
		CHECK(j->done, "child-not-ended", "close returned while the child was still running");
		check_code(me, j, r, closing);
		CHECK(c && c->reaped, "zombie", "the child was not reaped");
		CHECK(open_fds(me) == n0 - 3, "fd-leak", "descriptors before the close: %s, after: %s", before.c_str(), fd_list(me).c_str());
		for(int i = 0; i < 3; i++) CHECK(!me->fds.count(j->p.fds[i]), "fd-leak", "stream %d (descriptor %d) is still open after the close", i, j->p.fds[i]);
		if(!me->ignores_sigchld) for(int pid : others) { Process* o = proc_by_pid(pid); CHECK(o && !o->reaped, "wrong-child", "closing one process reaped another one"); }
		if(!me->ignores_sigchld) CHECK(n_children(me, false) == kids - 1, "wrong-child", "%zu children before the close, %zu after", kids, n_children(me, false));
		CHECK(live_file_actions() <= live0 + nopen(), "spawn-resource-leak", "%zu initialised file actions with %zu open processes", live_file_actions(), nopen());
		if(j->mode != 2) { CHECK(j->sawEof, "no-eof", "the child did not see the end of its input"); CHECK(j->got == j->written, "stdin-wrong", "the child read %s, written was %s", show(j->got).c_str(), show(j->written).c_str()); }
	};
	auto open_one = [&] {
		std::unique_ptr<Job> jp(new Job()); Job* j = jp.get(); js.push_back(std::move(jp)); int id = js.size() - 1;
		static const int codes[] = {0, 1, 255, 127, 42, 128}; j->mode = choose(5, "mode"); j->code = codes[choose(6, "code")]; if(closing && choose(8, "killed") == 7) j->killed = signals[choose(7, "signal")]; static const size_t ch[] = {4096, 1, 7, 64}; j->chunk = ch[choose(4, "chunk")];
		if(j->mode == 3) { j->out = gen_data(choose(std::min<size_t>(pipe_cap, 200) + 1, "outlen"), 0); j->err = gen_data(choose(std::min<size_t>(pipe_cap, 200) + 1, "errlen"), 0); }
		bool missing = !closing && choose(8, "missing") == 7;
		std::string a1 = std::to_string(id); char a2[] = "last arg"; const char* prog = missing ? "nosuchprogram" : choose(2, "path") ? "child" : "/bin/child"; char* argv[] = {(char*)prog, (char*)a1.c_str(), a2, nullptr};
		memset(&j->p, 0x5C, sizeof j->p);
		std::string before = fd_list(me); size_t n0 = open_fds(me), kids = n_children(me, false), fa0 = live_file_actions(); std::set<int> had; for(auto& f : me->fds) had.insert(f.first);
		FaultCount f0 = fsnap(); int freefds = 0; for(int k = 3; k < me->limit; k++) freefds += !had.count(k); bool room = freefds >= 9; budget(LIB_BUDGET); errno = 0;
		ev("open", id, j->mode); int r = process_open(&j->p, argv); int e = errno; bool f = fired_any(f0); ev("opened", r, r ? e : 0, f);
		CHECK(r == 0 || r == -1, "bad-result", "process_open returned %d", r);
		if(r) {
			CHECK(f || missing || !room, "spurious-failure", "process_open failed (errno %d) although every call succeeded", e);
			CHECK(e != 0, "no-errno", "process_open failed without setting errno");
			std::set<int> ok; if(fired(f0, {F_PIPE_EMFILE, F_DUP_ERR}) || !room) { ok.insert(EMFILE); ok.insert(ENFILE); } if(fired(f0, {F_FA_ENOMEM})) ok.insert(ENOMEM); if(fired(f0, {F_SPAWN_ERR})) { ok.insert(EAGAIN); ok.insert(ENOMEM); ok.insert(ENOENT); ok.insert(EACCES); } if(missing) ok.insert(ENOENT);
			CHECK(ok.count(e), "wrong-errno", "process_open failed with errno %d, which is not the error that occurred", e);
			CHECK(fd_list(me) == before, "fd-leak", "descriptors before: %s, after the failure: %s", before.c_str(), fd_list(me).c_str());
			CHECK(n_children(me, false) == kids, "child-leak", "a child is left behind after the failure");
			CHECK(live_file_actions() == fa0, "spawn-resource-leak", "file actions left initialised after the failure");
			probe(missing ? "open-missing" : "open-failed");
			return;
		}
		CHECK(!missing && !f, "false-success", "process_open succeeded although %s", missing ? "the program does not exist" : "a call failed");
		CHECK(open_fds(me) == n0 + 3, "fd-leak", "descriptors before: %s, after the open: %s", before.c_str(), fd_list(me).c_str());
		for(int i = 0; i < 3; i++) { int fd = j->p.fds[i]; CHECK(me->fds.count(fd) && !had.count(fd), "bad-stream", "stream %d is descriptor %d, which is not a new open descriptor", i, fd); CHECK(me->fds[fd].of->kind == (i ? 1 : 2), "bad-stream", "stream %d is the wrong end of its pipe", i); for(int k = 0; k < i; k++) CHECK(j->p.fds[k] != fd, "bad-stream", "streams %d and %d are the same", k, i); }
		for(int k : had) CHECK(me->fds.count(k), "closed-foreign", "descriptor %d of the caller was closed", k);
		Process* c = proc_by_pid(j->p.pid); CHECK(c && c->ppid == me->pid, "bad-pid", "the recorded pid %d is not a child", (int)j->p.pid);
		for(int i = 0; i < 3 && c->alive; i++) CHECK(c->fds.count(i) && c->fds[i].of->pipe == me->fds[j->p.fds[i]].of->pipe, "cross-wired", "stream %d of the child is not connected to the caller's end", i);
		j->open = true; if(nopen() > 1) probe("several-open");
		int m = choose(3, "mark-kind") ? (int)j->p.pid : 8 + 8 * (int)choose(2, "mark-fd"); if(choose(4, "mark") == 3 && m < me->limit && !me->fds.count(m)) { NoFaults nf; int d = sim_open("/dev/null", O_RDWR); if(d >= 0) { if(sim_dup2(d, m) == m) j->marked = m; sim_close(d); } } // a descriptor whose number looks like the process
	};
	uint32_t maxp = 1 + choose(closing ? 4 : 3, "maxp");
	while(more(8, "ops")) {
		Span sp_; uint32_t op = choose(6, "op");
		std::vector<Job*> op_; for(auto& j : js) if(j->open) op_.push_back(j.get());
		if(op <= 1 || op_.empty()) { if(op_.size() < maxp) open_one(); continue; }
		Job* j = op_[choose(op_.size(), "who")]; std::string wo, we; expect_out(j, wo, we);
		size_t inflight = wo.size() + we.size() - j->rout.size() - j->rerr.size();
		if(op == 5) { probe(nopen() > 1 ? "close-among-several" : "close-early"); finish(j); continue; }
		NoFaults nf;
		if(op == 2 && j->mode != 2) { // write to it, never more than the pipes can hold
			size_t room = j->mode == 1 || j->mode == 4 ? (pipe_cap > inflight ? pipe_cap - inflight : 0) : 300; if(!room) continue;
			std::string d = gen_data(1 + choose(std::min<size_t>(room, 300), "n"), 0); ssize_t r = sim_write(j->p.fds[0], d.data(), d.size());
			CHECK(r == (ssize_t)d.size(), "stdin-broken", "writing to the running child's input returned %zd (errno %d)", r, errno); j->written += d;
		} else if(op == 3 || op == 4) {
			int s = op - 2; std::string& acc = s == 1 ? j->rout : j->rerr; std::string full = s == 1 ? wo : we; size_t left = full.size() - acc.size(); if(!left) continue;
			std::string b(1 + choose(left, "rn"), 0); ssize_t r = sim_read(j->p.fds[s], &b[0], b.size());
			CHECK(r > 0, "stdout-broken", "reading stream %d returned %zd although %zu bytes are due", s, r, left); acc.append(b, 0, r);
			CHECK(full.compare(0, acc.size(), acc) == 0, "stream-data", "stream %d delivered %s, the child wrote %s", s, show(acc).c_str(), show(full).c_str());
		}
	}
	// close everything in an arbitrary order
	while(nopen()) { std::vector<Job*> op_; for(auto& j : js) if(j->open) op_.push_back(j.get()); Span sp_; finish(op_[choose(op_.size(), "closewho")]); }
	CHECK(live_file_actions() == live0, "spawn-resource-leak", "%zu file actions left initialised", live_file_actions());
	CHECK(n_children(me, false) == 0, "zombie", "children left at the end");
	heap_expect_same(hm, "memory-leak", "at the end");
	jobs = nullptr;
}
// several callers (threads of one program) open, use and close processes at the same time
static void parallel_callers(bool closing) {
	std::vector<std::unique_ptr<Job>> js; jobs = &js; check_wiring = !closing;
	Process* me = cur_proc(); sys_yield = true; switch_den = 1 + choose(3, "switch");
	me->ignores_sigchld = closing && choose(12, "sigchld") == 11;
	if(closing) { arm_some({F_WAIT_EINTR}); if(choose(16, "storm") == 15) storm(F_WAIT_EINTR, 20 + choose(300, "storm-length")); } else arm_some({F_PIPE_EMFILE, F_FA_ENOMEM, F_SPAWN_ERR, F_DUP_ERR});
	add_program("/bin/child", child_main); add_program("child", child_main);
	{ NoFaults nf; for(int i = 0; i < 3; i++) sim_open("/dev/null", O_RDWR); if(choose(4, "closedstd") == 3) for(int i = 0; i < 3; i++) if(choose(2, "std")) sim_close(i); }
	if(choose(80, "crowd") == 79) crowd(me);
	HeapMark hm = heap_mark(); size_t live0 = live_file_actions(); std::string fds0 = fd_list(me); size_t now = 0;
	int nt = 2 + choose(2, "callers");
	auto session = [&](int t) {
		Job* j = new Job(); js.push_back(std::unique_ptr<Job>(j)); int id = js.size() - 1; j->mode = choose(4, "mode"); if(j->mode == 3) { j->out = gen_data(choose(40, "outlen"), 0); j->err = gen_data(choose(40, "errlen"), 0); } j->chunk = 1 + choose(16, "chunk"); j->code = 1 + (id * 37 + t) % 250; if(closing && choose(8, "killed") == 7) j->killed = signals[choose(7, "signal")];
		std::string a1 = std::to_string(id); char a2[] = "last arg"; char* argv[] = {(char*)"child", (char*)a1.c_str(), a2, nullptr}; memset(&j->p, 0x5C, sizeof j->p);
		FaultCount f0 = fsnap(); budget(LIB_BUDGET); errno = 0; ev("open", id, j->mode, t); int r = process_open(&j->p, argv); int e = errno; ev("opened", r, r ? e : 0, t);
		CHECK(r == 0 || r == -1, "bad-result", "process_open returned %d", r);
		if(r) { CHECK(fired_any(f0), "spurious-failure", "process_open failed (errno %d) although every call succeeded", e); CHECK(e != 0, "no-errno", "process_open failed without setting errno"); return; }
		CHECK(!fired_any(f0), "false-success", "process_open succeeded although a call failed");
		if(++now > 1) probe("several-open");
		if(j->mode != 2) { NoFaults nf; std::string d = gen_data(choose(30, "n"), 0); if(!d.empty()) { ssize_t w = sim_write(j->p.fds[0], d.data(), d.size()); CHECK(w == (ssize_t)d.size(), "stdin-broken", "writing to the running child's input returned %zd (errno %d)", w, errno); j->written = d; } }
		std::string wo, we; expect_out(j, wo, we);
		auto drain = [&](int s, const std::string& want) { NoFaults nf; std::string acc; while(acc.size() < want.size()) { std::string b(want.size() - acc.size(), 0); ssize_t n = sim_read(j->p.fds[s], &b[0], b.size()); CHECK(n > 0, "stdout-broken", "reading stream %d returned %zd with %zu bytes due", s, n, want.size() - acc.size()); acc.append(b, 0, n); } CHECK(acc == want, "stream-data", "stream %d delivered %s, the child wrote %s", s, show(acc).c_str(), show(want).c_str()); };
		if(choose(4, "drain")) { drain(1, wo); drain(2, we); }
		int c; budget(LIB_BUDGET); ev("close", j->p.pid, j->mode, t);
		if(closing) c = process_close(&j->p); else { NoFaults nf; for(int i = 0; i < 3; i++) sim_close(j->p.fds[i]); int st = -1; pid_t w = sim_waitpid(j->p.pid, &st, 0); CHECK(w == j->p.pid, "not-my-child", "waiting for the opened process failed"); if(live_file_actions() > live0 + now - 1) sim_posix_spawn_file_actions_destroy(&j->p.fa); c = WEXITSTATUS(st); }
		now--; ev("closed", c, t);
		CHECK(j->done, "child-not-ended", "close returned while the child was still running"); check_code(me, j, c, closing);
		Process* cp = proc_by_pid(j->pid); CHECK(cp && cp->reaped, "zombie", "the child was not reaped");
		if(j->mode != 2) { CHECK(j->sawEof, "no-eof", "the child did not see the end of its input"); CHECK(j->got == j->written, "stdin-wrong", "the child read %s, written was %s", show(j->got).c_str(), show(j->written).c_str()); }
	};
	for(int t = 0; t < nt; t++) { uint32_t n = 1 + choose(3, "sessions"); spawn("caller", [&, t, n] { for(uint32_t i = 0; i < n; i++) session(t); }); }
	join_all(); probe("parallel-callers");
	CHECK(fd_list(me) == fds0, "fd-leak", "descriptors before: %s, at the end: %s", fds0.c_str(), fd_list(me).c_str());
	CHECK(n_children(me, false) == 0, "zombie", "children left at the end"); if(closing) CHECK(live_file_actions() == live0, "spawn-resource-leak", "%zu file actions left initialised", live_file_actions());
	js.clear(); js.shrink_to_fit(); heap_expect_same(hm, "memory-leak", "at the end"); jobs = nullptr;
}
SCENARIO(C12) { if(choose(4, "parallel") == 3) parallel_callers(false); else processes(false); }
SCENARIO(C13) { if(choose(4, "parallel") == 3) parallel_callers(true); else processes(true); }

SCENARIO(C14) {
	arm_some({F_FORK_EAGAIN, F_OPEN_EIO, F_OPEN_EMFILE, F_OPEN_EINTR, F_DUP_ERR, F_CLOSE_EIO, F_WRITE_EIO});
	Process* me = cur_proc(); Process* d;
	{
		NoFaults nf; d = new_process(me); d->fds.clear(); static const int limits[] = {64, 3, 4, 16, 256, 257, 1024, 1500}; d->limit = choose(100, "huge-limit") == 99 ? 33000 * (1 + (int)choose(2, "limit-n")) : limits[choose(8, "limit")]; d->leader = choose(2, "leader"); if(d->leader) d->sid = d->pid;
	}
	auto put = [&](int fd, InodeP in) { auto of = std::make_shared<OpenFile>(); of->kind = 0; of->ino = in; of->off = 0; of->flags = O_RDWR; of->path = "inherited"; d->fds[fd] = FdEnt{of, choose(4, "cloexec") == 3}; };
	InodeP secret = vfs_mkfile("/tmp/inherited", "secret");
	for(int i = 0; i < 3; i++) if(choose(4, "std") != 3) put(i, secret);
	while(more(4, "inherit")) { Span sp_; uint32_t how = choose(4, "fdpos"); int fd = how == 0 ? choose(std::min(d->limit, 16), "fd") : how == 1 ? d->limit - 1 : how == 2 ? d->limit - 1 - (int)choose(d->limit - 1, "fdback") : (int)choose(d->limit, "fdany"); put(fd, choose(5, "null") == 4 ? vfs_lookup("/dev/null") : secret); }
	std::set<OpenFile*> inherited; std::vector<std::shared_ptr<OpenFile>> keep; for(auto& f : d->fds) { inherited.insert(f.second.of.get()); keep.push_back(f.second.of); }
	int sid0 = d->sid, pid0 = d->pid; size_t before = d->fds.size(); int returned = 0, exited = 0, code = -1; bool nofork = false;
	HeapMark hm = heap_mark();
	on_exit_hook = [&](int st) { exited++; code = st; };
	FaultCount f1;
	spawn("daemon", [&] {
		FaultCount f0 = fsnap(); budget(LIB_BUDGET * 4 + 400ull * d->limit);
		ev("daemonize", before, d->limit); errno = 0;
		daemonize();
		returned++; ev("returned", d->pid); f1 = fsnap();
		bool parentside = false; for(auto& f : forks) parentside |= !f.child_side;
		CHECK(!parentside, "parent-continues", "the calling process continued after daemonize()");
		CHECK(!forks.empty(), "not-forked", "daemonize() returned in the calling process");
		CHECK(d->pid != pid0, "not-forked", "the caller itself continues");
		CHECK(!fired(f0, {F_FORK_EAGAIN}), "parent-continues", "daemonize() returned although fork failed");
		CHECK(d->sid != sid0, "not-detached", "the daemon is still in session %d of its caller", sid0);
		for(auto& f : d->fds) {
			CHECK(!inherited.count(f.second.of.get()), "fd-inherited", "descriptor %d is still the caller's", f.first);
			CHECK(f.second.of->kind == 0 && f.second.of->ino->kind == K_NULL, "not-null", "descriptor %d is not the null device", f.first);
			CHECK(f.first <= 2, "fd-leak", "descriptor %d is open besides the standard streams", f.first);
		}
		if(!fired(f0, {F_OPEN_EIO, F_OPEN_EMFILE, F_OPEN_EINTR, F_DUP_ERR})) {
			for(int i = 0; i < 3; i++) { CHECK(d->fds.count(i), "no-stream", "standard stream %d is not open", i); int m = d->fds[i].of->flags & O_ACCMODE; CHECK(m == O_RDWR || m == (i ? O_WRONLY : O_RDONLY), "not-null", "standard stream %d can not be used", i); CHECK(!d->fds[i].cloexec, "no-stream", "standard stream %d would vanish on exec", i); }
			probe("detached");
		} else probe("detached-without-null");
	}, d);
	join_all();
	on_exit_hook = nullptr;
	CHECK(returned + exited == 1, "continued-twice", "returned %d times and exited %d times", returned, exited);
	if(exited) {
		bool parentside = false; for(auto& f : forks) parentside |= !f.child_side;
		if(parentside && forks.size() == 1) { CHECK(code == 0, "exit-code", "the calling process ended with status %d", code); probe("parent-exit"); }
		else if(forks.empty()) { CHECK(code != 0, "exit-code", "fork failed but the caller ended with status 0"); nofork = true; probe("fork-failed"); }
		else if(!parentside) fail("daemon-died", "the daemon exited with status %d instead of continuing", code);
	}
	CHECK(secret->data == "secret" || nofork, "wrote-to-inherited", "the caller's file was changed");
	heap_expect_same(hm, "memory-leak", "daemonize");
}
