#include "sys.hpp"
#include <unordered_map>
#include <algorithm>
#include <cstdarg>
#include <climits>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <glob.h>
#include <poll.h>
#include <spawn.h>
#include <sys/select.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/random.h>
extern "C" int __sanitizer_get_ownership(const volatile void*);

namespace sim {
int& task_nofault();
FaultCount& task_faults();
void kill_task(int id);

// ================================================================ faults
const char* fault_name[F_N] = {
	"alloc-fails", "short-read", "read-EIO", "read-EINTR", "short-write", "write-EIO", "write-ENOSPC", "write-EINTR",
	"open-EIO", "open-EMFILE", "open-EINTR", "stat-EIO", "lseek-EIO", "close-EIO", "mkdir-error", "mkdir-lost-race", "pipe-EMFILE",
	"spawn-actions-ENOMEM", "spawn-fails", "fork-EAGAIN", "setsid-fails", "dup-fails", "wait-EINTR", "sleep-EINTR", "oversleep",
	"wall-clock-step", "mmap-ENOMEM", "mprotect-fails", "glob-NOSPACE", "glob-ABORTED", "opendir-fails", "process-crash",
	"concurrent-truncate", "concurrent-append", "rand-repeats", "fsync-EIO" };
static uint32_t rate[F_N];
static uint64_t ftotal[F_N], fall; static uint64_t fsig;
void arm(Fault k, uint32_t den) { rate[k] = den; }
static uint32_t storms[F_N];
void storm(Fault k, uint32_t n) { storms[k] = n; }
void disarm_all() { memset(rate, 0, sizeof rate); memset(storms, 0, sizeof storms); }
void arm_some(std::initializer_list<Fault> ks) {
	Span sp;
	static const uint32_t dens[] = { 0, 0, 3, 6, 12, 30 };
	for(Fault k : ks) { uint32_t c = choose(6, "swarm"); rate[k] = dens[c]; }
}
void note_fault(Fault k) { ftotal[k]++; fall++; task_faults()[k]++; fsig = mix(fsig ^ (k + 1)); ev("fault", k); }
bool inject(Fault k) {
	if(storms[k] && !task_nofault()) { storms[k]--; note_fault(k); if(tracing) printf("  [%d] FAULT %s (again)\n", cur_task(), fault_name[k]); return true; }
	if(!rate[k] || task_nofault()) return false;
	if(!chance(1, rate[k], fault_name[k])) return false;
	note_fault(k);
	if(tracing) printf("  [%d] FAULT %s\n", cur_task(), fault_name[k]);
	return true;
}
NoFaults::NoFaults() { task_nofault()++; }
NoFaults::~NoFaults() { task_nofault()--; }
FaultCount fsnap() { return task_faults(); }
bool fired(const FaultCount& s, std::initializer_list<Fault> ks) { FaultCount& c = task_faults(); for(Fault k : ks) if(c[k] != s[k]) return true; return false; }
bool fired_any(const FaultCount& s) { return task_faults() != s; }
uint64_t faults_total() { return fall; }
uint64_t fault_sig() { return fsig; }
void print_fault_stats(FILE* f) { const char* sep = ""; for(int i = 0; i < F_N; i++) if(ftotal[i]) { fprintf(f, "%s\"%s\":%llu", sep, fault_name[i], (unsigned long long)ftotal[i]); sep = ","; } }
static std::map<std::string, uint64_t> calls;
void print_call_stats(FILE* f) { const char* sep = ""; for(auto& c : calls) { fprintf(f, "%s\"%s\":%llu", sep, c.first.c_str(), (unsigned long long)c.second); sep = ","; } }

// ================================================================ heap
struct Blk { size_t size; uint64_t seq; };
static std::unordered_map<void*, Blk>& heap() { static auto* h = new std::unordered_map<void*, Blk>; return *h; }
static size_t heap_bytes; static uint64_t heap_seq;
static uint64_t n_malloc, n_realloc, n_free;
size_t live_blocks() { return heap().size(); }
size_t live_bytes() { return heap_bytes; }
bool is_live(const void* p) { return heap().count((void*)p); }
size_t live_size(const void* p) { auto i = heap().find((void*)p); return i == heap().end() ? 0 : i->second.size; }
uint64_t alloc_count() { return heap_seq; }
HeapMark heap_mark() { HeapMark m; m.blocks = heap().size(); for(auto& b : heap()) m.set.insert(b.first); return m; }
void heap_expect_same(const HeapMark& m, const char* cls, const char* what) {
	if(heap().size() == m.blocks) return;
	size_t extra = 0, bytes = 0; for(auto& b : heap()) if(!m.set.count(b.first)) { extra++; bytes += b.second.size; }
	fail(cls, "%s: %zu block(s), %zu byte(s) more than before (%zu blocks now, %zu before)", what, extra, bytes, heap().size(), m.blocks);
}
static const size_t HUGE_ALLOC = 1u << 30; size_t alloc_max = HUGE_ALLOC; bool huge_ok; static unsigned char fill_byte = 0xA7;
void set_fill(unsigned char c) { fill_byte = c; }
static void* alloc(size_t n, size_t align = 0, size_t keep = 0) { // the first keep bytes are overwritten by the caller
	if(n > alloc_max) { ev("alloc-huge"); errno = ENOMEM; if(huge_ok) note_fault(F_ALLOC); return nullptr; /* an absurd request is the caller's mistake, not a fault */ }
	if(inject(F_ALLOC)) { errno = ENOMEM; return nullptr; }
	void* p = align ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n);
	if(!p) { fprintf(stderr, "harness out of memory (%zu)\n", n); _exit(3); }
	if(n <= HUGE_ALLOC) memset((char*)p + keep, fill_byte, n - keep); else memset((char*)p + n - 65536, fill_byte, 65536);
	heap()[p] = { n, ++heap_seq }; heap_bytes += n; n_malloc++;
	return p;
}
static void release(void* p, const char* who) {
	auto i = heap().find(p);
	if(i == heap().end()) {
		if(__sanitizer_get_ownership(p)) { free(p); return; } // block from a real libc function or from the harness
		fail("invalid-free", "%s of a pointer that is not a live heap block", who);
	}
	heap_bytes -= i->second.size;
	if(i->second.size <= HUGE_ALLOC) memset(p, 0xDD, i->second.size);
	heap().erase(i); n_free++;
	free(p);
}

// ================================================================ clocks
static int64_t now_ns, start_ns, wall_off;
int64_t tick_max, injected_delay; uint64_t n_sleeps, n_sleep_calls;
std::function<void()> on_clock_read;
int64_t world_now() { return now_ns; }
int64_t world_elapsed() { return now_ns - start_ns; }
void world_advance_to(int64_t t) { if(t > now_ns) now_ns = t; }
int64_t wall_ns() { return now_ns + wall_off; }
void set_wall(int64_t ns) { wall_off = ns - now_ns; }
static void wall_step() {
	if(!inject(F_CLOCK_STEP)) return;
	static const int64_t d[] = { 1000000, -1000000, 1000000000ll, -1000000000ll, 3600000000000ll, -3600000000000ll };
	wall_off += d[choose(6, "step")];
}
static void tick() { if(tick_max) now_ns += choose((uint32_t)std::min<int64_t>(tick_max, 0x7fffffff) + 1, "tick"); if(on_clock_read) on_clock_read(); wall_step(); }

// ================================================================ files
static InodeP root; static uint64_t next_ino, next_pipe;
size_t pipe_cap = 4096, disk_free = ~(size_t)0;
std::function<void(const char*)> on_syscall; std::function<void(int, const void*, size_t)> on_null_write; bool sys_yield;
static std::vector<Process*> procs; static int next_pid;
static std::map<std::string, Program>& programs() { static auto* p = new std::map<std::string, Program>; return *p; }
std::vector<ForkRec> forks; std::function<void(int)> on_exit_hook;
OpenFile::~OpenFile() { if(kind == 1) pipe->readers--; else if(kind == 2) pipe->writers--; }

static Process* P() { return cur_proc(); }
static void enter(const char* name) {
	calls[name]++; charge(30);
	if(sys_yield) yield_point();
	if(inject(F_CRASH)) proc_exit(0x89);
}
static void leave(const char* name) { if(on_syscall) on_syscall(name); }
struct Sys { const char* n; Sys(const char* n) : n(n) { enter(n); } ~Sys() { int e = errno; leave(n); errno = e; } };
char *zero_from, *zero_to;
static int err(int e) { errno = e; return -1; }

static InodeP mk(int kind, unsigned mode) { auto i = std::make_shared<Inode>(); i->kind = kind; i->mode = mode; i->ino = ++next_ino; i->mtime = wall_ns(); i->created_by = cur_task(); i->min_size = i->max_size = 0; return i; }
static std::vector<std::string> split(const std::string& p) { std::vector<std::string> v; std::string c; for(char ch : p) { if(ch == '/') { if(!c.empty()) v.push_back(c); c.clear(); } else c += ch; } if(!c.empty()) v.push_back(c); return v; }
// resolves the parent directory; last = final component ("" for the root itself)
static InodeP walk(const std::string& path, std::string* last, InodeP* parent, int* e) {
	std::string full = path;
	if(path.empty()) { *e = ENOENT; return nullptr; }
	if(path[0] != '/') full = (P() ? P()->cwd : std::string("/")) + "/" + path;
	bool trailing = full.back() == '/';
	auto comps = split(full);
	std::vector<InodeP> st{root}; std::vector<std::string> names;
	for(size_t i = 0; i < comps.size(); i++) {
		if(comps[i].size() > 255) { *e = ENAMETOOLONG; return nullptr; }
		if(st.back()->kind != K_DIR) { *e = ENOTDIR; return nullptr; }
		if(comps[i] == ".") continue;
		if(comps[i] == "..") { if(st.size() > 1) st.pop_back(); continue; }
		auto it = st.back()->ents.find(comps[i]);
		if(it == st.back()->ents.end()) {
			*e = ENOENT;
			if(i + 1 == comps.size()) { if(last) *last = comps[i]; if(parent) *parent = st.back(); }
			return nullptr;
		}
		if(i + 1 == comps.size()) { if(last) *last = comps[i]; if(parent) *parent = st.back(); }
		st.push_back(it->second);
	}
	if(trailing && st.back()->kind != K_DIR) { *e = ENOTDIR; return nullptr; }
	return st.back();
}
InodeP vfs_lookup(const std::string& p) { int e; return walk(p, nullptr, nullptr, &e); }
InodeP vfs_mkfile(const std::string& p, const std::string& data) {
	std::string last; InodeP par; int e; InodeP i = walk(p, &last, &par, &e);
	if(!i) { if(!par) return nullptr; i = mk(K_REG, 0644); par->ents[last] = i; }
	i->data = data; i->min_size = i->max_size = data.size(); return i;
}
InodeP vfs_mkdir(const std::string& p, unsigned mode) {
	std::string last; InodeP par; int e; InodeP i = walk(p, &last, &par, &e);
	if(!i) { if(!par) return nullptr; i = mk(K_DIR, mode); par->ents[last] = i; }
	return i;
}
size_t open_fds(Process* p) { return p->fds.size(); }
static std::string describe(OpenFile* f) { char b[64]; if(f->kind == 0) return f->path; snprintf(b, sizeof b, "pipe-%s", f->kind == 1 ? "r" : "w"); return b; }
std::string fd_list(Process* p) { std::string s; for(auto& f : p->fds) s += std::to_string(f.first) + "=" + describe(f.second.of.get()) + (f.second.cloexec ? "(cloexec) " : " "); return s; }
static int new_fd(Process* p, int min = 0) { int i = min; while(p->fds.count(i)) i++; if(i >= p->limit) return -1; return i; }
static FdEnt* getfd(int fd) { auto i = P()->fds.find(fd); return i == P()->fds.end() ? nullptr : &i->second; }

static int do_open(const char* path, int flags, mode_t mode, const char* who) {
	Sys s(who);
	if(inject(F_OPEN_EINTR)) return err(EINTR);
	if(inject(F_OPEN_EMFILE)) return err(choose(2, "emfile") ? ENFILE : EMFILE);
	if(inject(F_OPEN_EIO)) { static const int es[] = { EIO, EACCES, ENOMEM }; return err(es[choose(3, "openerr")]); }
	int fd = new_fd(P()); if(fd < 0) return err(EMFILE);
	std::string last; InodeP par; int e = 0; InodeP i = walk(path, &last, &par, &e);
	if(!i) {
		if(e != ENOENT || !(flags & O_CREAT) || !par) { evs("open", path, -1, e); return err(e); }
		i = mk(K_REG, mode & ~P()->umask_ & 07777); par->ents[last] = i;
	} else if((flags & O_CREAT) && (flags & O_EXCL)) return err(EEXIST);
	if(i->kind == K_DIR && (flags & O_ACCMODE) != O_RDONLY) return err(EISDIR);
	if((flags & O_DIRECTORY) && i->kind != K_DIR) return err(ENOTDIR);
	if((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY && i->kind == K_REG) { i->data.clear(); i->min_size = 0; i->mtime = wall_ns(); }
	auto of = std::make_shared<OpenFile>(); of->kind = 0; of->ino = i; of->off = 0; of->flags = flags; of->path = path;
	P()->fds[fd] = { of, (flags & O_CLOEXEC) != 0 };
	evs("open", path, fd, flags);
	return fd;
}
static ssize_t do_read(int fd, void* buf, size_t n, off_t* at, const char* who) {
	Sys s(who);
	FdEnt* f = getfd(fd); if(!f) return err(EBADF);
	auto of = f->of;
	if(n > SSIZE_MAX) return err(EINVAL);
	if(of->kind == 2 || (of->flags & O_ACCMODE) == O_WRONLY) return err(EBADF);
	if(inject(F_READ_EINTR)) return err(EINTR);
	if(inject(F_READ_EIO)) return err(EIO);
	if(of->kind == 1) {
		auto pp = of->pipe;
		block_until([pp] { return !pp->buf.empty() || pp->writers == 0; }, "pipe-read");
		size_t k = std::min(n, pp->buf.size());
		if(k > 1 && inject(F_SHORT_READ)) k = 1 + choose(k - 1, "shortlen");
		memcpy(buf, pp->buf.data(), k); pp->buf.erase(0, k);
		ev("read-pipe", fd, k); return k;
	}
	if(of->ino->kind == K_DIR) return err(EISDIR);
	if(of->ino->kind == K_NULL) return 0;
	off_t o = at ? *at : of->off; std::string& d = of->ino->data;
	off_t hole = of->ino->hole, total = hole + (off_t)d.size(); if(n > 0x7ffff000) n = 0x7ffff000; // no more in one call, as on Linux
	size_t k = o >= total ? 0 : std::min(n, (size_t)(total - o));
	if(k > 1 && inject(F_SHORT_READ)) k = 1 + choose(k - 1, "shortlen");
	if(o < hole) { size_t z = std::min<size_t>(k, hole - o); if(!((char*)buf >= zero_from && (char*)buf + z <= zero_to)) memset(buf, 0, z); memcpy((char*)buf + z, d.data(), k - z); } else memcpy(buf, d.data() + (o - hole), k);
	if(!at) of->off += k;
	ev("read", fd, n, k);
	return k;
}
static ssize_t do_write(int fd, const void* buf, size_t n, off_t* at, const char* who) {
	Sys s(who);
	FdEnt* f = getfd(fd); if(!f) return err(EBADF);
	auto of = f->of;
	if(n > SSIZE_MAX) return err(EFAULT);
	if(of->kind == 1 || (of->kind == 0 && (of->flags & O_ACCMODE) == O_RDONLY)) return err(EBADF);
	if(inject(F_WRITE_EINTR)) return err(EINTR);
	if(inject(F_WRITE_EIO)) return err(EIO);
	if(inject(F_WRITE_ENOSPC)) return err(ENOSPC);
	size_t k = std::min<size_t>(n, 0x7ffff000);
	if(k > 1 && inject(F_SHORT_WRITE)) k = 1 + choose(k - 1, "shortlen");
	if(of->kind == 2) {
		auto pp = of->pipe; size_t done = 0;
		while(done < k) {
			block_until([pp] { return pp->buf.size() < pp->cap || pp->readers == 0; }, "pipe-write");
			if(pp->readers == 0) { if(done) break; return err(EPIPE); }
			size_t c = std::min(k - done, pp->cap - pp->buf.size());
			pp->buf.append((const char*)buf + done, c); done += c;
		}
		evs("write-pipe", std::string((const char*)buf, done), fd, done); return done;
	}
	if(of->ino->kind == K_NULL) { if(on_null_write) on_null_write(fd, buf, n); ev("write-null", fd, n); return n; }
	if(of->ino->expect) { off_t o = at ? *at : of->off; if(o != (off_t)of->ino->sunk || memcmp(of->ino->expect + o, buf, k)) of->ino->sink_bad = true; of->ino->sunk += k; if(!at) of->off += k; return k; }
	if(k > disk_free) { if(disk_free == 0 && k) { note_fault(F_WRITE_ENOSPC); return err(ENOSPC); } k = disk_free; note_fault(F_SHORT_WRITE); }
	std::string& d = of->ino->data; off_t o = at ? *at : (of->flags & O_APPEND) ? (off_t)d.size() : of->off;
	if(d.size() < o + k) d.resize(o + k);
	memcpy(&d[o], buf, k); if(disk_free != ~(size_t)0) disk_free -= k;
	if(!at) of->off = o + k;
	of->ino->mtime = wall_ns(); of->ino->max_size = std::max(of->ino->max_size, d.size());
	evs("write", std::string((const char*)buf, k), fd, n);
	return k;
}
static void fill_stat(InodeP i, struct stat* st) {
	memset(st, 0, sizeof *st);
	st->st_ino = i->ino; st->st_nlink = 1; st->st_mode = i->mode | (i->kind == K_DIR ? S_IFDIR : i->kind == K_NULL ? S_IFCHR : S_IFREG);
	st->st_size = i->kind == K_DIR ? 4096 : i->hole + i->data.size(); st->st_blksize = 4096; st->st_mtim.tv_sec = i->mtime / 1000000000; st->st_mtim.tv_nsec = i->mtime % 1000000000;
	st->st_blocks = (st->st_size + 511) / 512;
}
static int do_close(int fd) {
	Sys s("close");
	auto i = P()->fds.find(fd);
	if(i == P()->fds.end()) { ev("close-bad", fd); return err(EBADF); }
	P()->fds.erase(i); ev("close", fd);
	if(inject(F_CLOSE_EIO)) return err(EIO);
	return 0;
}

// ================================================================ processes
std::vector<Process*>& all_procs() { return procs; }
Process* proc_by_pid(int pid) { for(auto p : procs) if(p->pid == pid) return p; return nullptr; }
void add_program(const std::string& n, Program p) { programs()[n] = p; }
size_t n_children(Process* par, bool z) { size_t n = 0; for(auto p : procs) if(p->ppid == par->pid && !p->reaped && (!z || p->zombie)) n++; return n; }
Process* new_process(Process* parent) {
	Process* p = new Process();
	p->pid = next_pid; next_pid += 1 + choose(3, "pid"); p->ppid = parent ? parent->pid : 0; p->sid = parent ? parent->sid : p->pid;
	p->limit = parent ? parent->limit : 64; p->alive = true; p->umask_ = parent ? parent->umask_ : 022; p->cwd = parent ? parent->cwd : "/"; p->task = -1;
	if(parent) p->fds = parent->fds;
	procs.push_back(p);
	return p;
}
static void finish_process(Process* p, int status) { p->alive = false; p->zombie = true; p->status = status; p->fds.clear(); Process* par = proc_by_pid(p->ppid); if(par && par->ignores_sigchld) p->reaped = true; ev("proc-exit", p->pid, status); }
void proc_exit(int status) {
	Process* p = P();
	finish_process(p, status);
	task_exit();
}
struct FA { struct Act { int op, a, b; std::string path; int fl; mode_t mode; }; std::vector<Act> acts; };
static std::map<const void*, FA>& fas() { static auto* m = new std::map<const void*, FA>; return *m; }
size_t live_file_actions() { return fas().size(); }
static std::set<void*>& globs() { static auto* s = new std::set<void*>; return *s; }
size_t live_globs() { return globs().size(); }
// page table as intervals: start -> (end, protection); neighbours with the same protection are one interval
typedef std::map<uintptr_t, std::pair<uintptr_t, int>> PageTable;
static PageTable& pages() { static auto* m = new PageTable; return *m; }
size_t mmap_max = 1u << 30;
static void pt_cut(uintptr_t at) { auto i = pages().upper_bound(at); if(i == pages().begin()) return; --i; if(i->first < at && at < i->second.first) { auto v = i->second; i->second.first = at; pages()[at] = v; } }
static size_t pt_have(uintptr_t lo, uintptr_t hi) { size_t n = 0; auto i = pages().upper_bound(lo); if(i != pages().begin()) --i; for(; i != pages().end() && i->first < hi; ++i) if(i->second.first > lo) n += std::min(hi, i->second.first) - std::max(lo, i->first); return n; }
static void pt_clear(uintptr_t lo, uintptr_t hi) { pt_cut(lo); pt_cut(hi); auto i = pages().lower_bound(lo); while(i != pages().end() && i->first < hi) i = pages().erase(i); }
static void pt_set(uintptr_t lo, uintptr_t hi, int prot) {
	pt_clear(lo, hi); auto i = pages().emplace(lo, std::make_pair(hi, prot)).first;
	auto n = std::next(i); if(n != pages().end() && n->first == hi && n->second.second == prot) { i->second.first = n->second.first; pages().erase(n); }
	if(i != pages().begin()) { auto b = std::prev(i); if(b->second.first == lo && b->second.second == prot) { b->second.first = i->second.first; pages().erase(i); } }
}
std::vector<PageRange> page_ranges() { std::vector<PageRange> v; for(auto& r : pages()) v.push_back({r.first, r.second.first, r.second.second}); return v; }
bool pages_have(uintptr_t lo, uintptr_t hi, int prot) { // every page of [lo,hi) is mapped with exactly this protection
	uintptr_t at = lo & ~(uintptr_t)4095; auto i = pages().upper_bound(at); if(i == pages().begin()) return lo >= hi; --i;
	for(; at < hi; ++i) { if(i == pages().end() || i->first > at || i->second.first <= at || i->second.second != prot) return false; at = i->second.first; }
	return true;
}

static int do_spawn(pid_t* pid, const char* file, const posix_spawn_file_actions_t* fa, char* const argv[], char* const envp[], bool search, const char* who) {
	Sys s(who);
	if(inject(F_SPAWN_ERR)) { static const int es[] = { EAGAIN, ENOMEM, ENOENT, EACCES }; return es[choose(4, "spawnerr")]; }
	if(fa && !fas().count(fa)) fail("bad-file-actions", "spawn with file actions that were never initialised");
	Process* c = new_process(P()); auto drop = [&](int e) { procs.pop_back(); delete c; ev("spawn-fail", e); return e; };
	c->argv.clear(); for(int i = 0; argv && argv[i]; i++) c->argv.push_back(argv[i]);
	c->env.clear(); for(int i = 0; envp && envp[i]; i++) c->env.push_back(envp[i]);
	if(fa) for(auto& a : fas()[fa].acts) {
		if(a.op == 0) { if(a.a < 0 || a.a >= c->limit) return drop(EBADF); c->fds.erase(a.a); }
		else if(a.op == 1) { auto i = c->fds.find(a.a); if(i == c->fds.end() || a.b < 0 || a.b >= c->limit) return drop(EBADF); FdEnt e = i->second; e.cloexec = false; c->fds[a.b] = e; }
		else if(a.op == 2) { InodeP in = vfs_lookup(a.path); if(!in) return drop(ENOENT); auto of = std::make_shared<OpenFile>(); of->kind = 0; of->ino = in; of->off = 0; of->flags = a.fl; of->path = a.path; c->fds[a.a] = { of, (a.fl & O_CLOEXEC) != 0 }; }
	}
	for(auto i = c->fds.begin(); i != c->fds.end();) if(i->second.cloexec) i = c->fds.erase(i); else ++i;
	auto it = programs().find(file);
	if(it == programs().end() || (!search && !strchr(file, '/'))) return drop(ENOENT); // a name without a slash is found through PATH only
	for(auto& f : c->fds) c->at_exec[f.first] = describe(f.second.of.get());
	Program prog = it->second;
	c->task = spawn(file, [c, prog] { task_nofault() = 1; int r = prog(c); finish_process(c, r >= KILLED_BY ? r - KILLED_BY : (r & 255) << 8); }, c);
	if(pid) *pid = c->pid;
	ev("spawned", c->pid);
	return 0;
}
static pid_t do_wait(pid_t pid, int* st, int opt, const char* who) {
	Sys s(who);
	Process* me = P();
	auto find = [me, pid](bool z) -> Process* { for(auto p : procs) if(p->ppid == me->pid && !p->reaped && (pid == -1 || pid == 0 || p->pid == pid) && (!z || p->zombie)) return p; return nullptr; };
	if(!find(false)) return err(ECHILD);
	if(inject(F_WAIT_EINTR)) return err(EINTR);
	if((opt & WNOHANG) && !find(true)) return 0;
	block_until([find] { return find(true) || !find(false); }, "waitpid");
	Process* p = find(true); if(!p) return err(ECHILD);
	p->reaped = true; if(st) *st = p->status;
	ev("reap", p->pid, p->status);
	return p->pid;
}

static int do_sleep(clockid_t clk, int flags, const struct timespec* req, struct timespec* rem, const char* who) { // returns error number
	Sys s(who); n_sleep_calls++;
	if(req->tv_nsec < 0 || req->tv_nsec > 999999999 || req->tv_sec < 0) return EINVAL;
	__int128 want = (__int128)req->tv_sec * 1000000000 + req->tv_nsec;
	int64_t d; int64_t t0 = now_ns;
	if(want > (int64_t)7e18) want = (int64_t)7e18;
	bool abs = flags & TIMER_ABSTIME;
	if(abs) d = (int64_t)want - (clk == CLOCK_REALTIME ? wall_ns() : now_ns); else d = (int64_t)want;
	if(d < 0) d = 0;
	n_sleeps++;
	int r = 0;
	if(d > 0 && inject(F_SLEEP_EINTR)) { // interrupted part of the way: any point in [0,d)
		uint32_t how = choose(5, "int-at"); int64_t part;
		if(how == 0) part = 0; else if(how == 1) part = d - 1; else if(how == 2) part = std::min<int64_t>(d - 1, 1 + choose(1000, "ns")); else part = (int64_t)((__int128)d * (choose(1000, "frac")) / 1000);
		sleep_until(t0 + part); wall_step();
		if(rem && !abs) { int64_t left = d - part; rem->tv_sec = left / 1000000000; rem->tv_nsec = left % 1000000000; }
		r = EINTR;
		ev("sleep-int", d, part);
	} else {
		int64_t over = 0; if(inject(F_OVERSLEEP)) { over = 1 + choose(2000000, "over"); injected_delay += over; }
		wall_step();
		sleep_until(t0 + d + over); ev("slept", d, over);
	}
	return r;
}

// ================================================================ stdio on simulated descriptors
struct Cookie { int fd; bool owned; };
static std::vector<FILE*> std_files;
static ssize_t ck_read(void* c, char* b, size_t n) { return do_read(((Cookie*)c)->fd, b, n, nullptr, "read"); }
static ssize_t ck_write(void* c, const char* b, size_t n) { ssize_t r = do_write(((Cookie*)c)->fd, b, n, nullptr, "write"); return r < 0 ? 0 : r; }
static int ck_seek(void* c, off64_t* o, int wh) { off_t r = sim_lseek(((Cookie*)c)->fd, *o, wh); if(r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { int r = 0; if(((Cookie*)c)->owned) r = do_close(((Cookie*)c)->fd); delete (Cookie*)c; return r; }
static FILE* mkfile(int fd, const char* mode, bool owned) {
	cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
	return fopencookie(new Cookie{fd, owned}, mode, io);
}
static int mode_flags(const char* m) {
	int f; switch(*m) { case 'r': f = O_RDONLY; break; case 'w': f = O_WRONLY | O_CREAT | O_TRUNC; break; case 'a': f = O_WRONLY | O_CREAT | O_APPEND; break; default: return -1; }
	for(m++; *m; m++) { if(*m == '+') f = (f & ~O_ACCMODE) | O_RDWR; if(*m == 'e') f |= O_CLOEXEC; if(*m == 'x') f |= O_EXCL; }
	return f;
}
}
using namespace sim;
extern "C" { FILE *sim_stdin, *sim_stdout, *sim_stderr; }

namespace sim {
// ================================================================ life cycle
uint32_t rand_range; static Process* root_proc; static uint32_t last_rand;
static std::vector<void*> spare;
void world_init() { setenv("TZ", "UTC", 1); tzset(); }
static void free_procs() { for(auto p : procs) delete p; procs.clear(); }
static void fresh_std() {
	for(FILE* f : std_files) fclose(f);
	std_files.clear();
	sim_stdin = mkfile(0, "r", false); sim_stdout = mkfile(1, "w", false); sim_stderr = mkfile(2, "w", false);
	setvbuf(sim_stdout, 0, _IONBF, 0); setvbuf(sim_stderr, 0, _IONBF, 0);
	std_files = { sim_stdin, sim_stdout, sim_stderr };
}
void world_reset() {
	disarm_all(); fsig = 0; rand_range = last_rand = 0; on_syscall = nullptr; on_null_write = nullptr; on_exit_hook = nullptr; on_clock_read = nullptr; sys_yield = false; forks.clear();
	free_procs(); next_pid = 100; next_ino = 0; root.reset();
	mmap_max = alloc_max = HUGE_ALLOC; now_ns = start_ns = 1000000000; wall_off = 1500000000000000000ll; tick_max = 0; injected_delay = 0; n_sleeps = n_sleep_calls = 0;
	pipe_cap = 4096; disk_free = ~(size_t)0; heap_seq = 0; fas().clear(); globs().clear(); programs().clear();
	root = mk(K_DIR, 0755);
	root->ents["tmp"] = mk(K_DIR, 01777); root->ents["dev"] = mk(K_DIR, 0755); root->ents["dev"]->ents["null"] = mk(K_NULL, 0666); root->ents["dev"]->ents["shm"] = mk(K_DIR, 01777);
	root_proc = new_process(nullptr);
	root_proc->sid = 1; // session of the simulated login shell
	fresh_std();
}
Process* world_root_process() { return root_proc; }
void world_end_of_run() {}
void world_free_leftovers() {
	for(auto& b : heap()) free(b.first);
	heap().clear(); heap_bytes = 0;
	for(auto& p : pages()) munmap((void*)p.first, p.second.first - p.first);
	pages().clear();
}
}

// ================================================================ the seam
extern "C" {
void* sim_malloc(size_t n) { return alloc(n); }
void* sim_calloc(size_t a, size_t b) { size_t n; if(__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } void* p = alloc(n); if(p) memset(p, 0, n); return p; }
void sim_free(void* p) { if(p) { int e = errno; release(p, "free"); errno = e; } }
void sim_cfree(void* p) { sim_free(p); }
void* sim_realloc(void* p, size_t n) {
	n_realloc++;
	if(!p) return alloc(n);
	if(!is_live(p)) { if(__sanitizer_get_ownership(p)) return realloc(p, n); fail("invalid-free", "realloc of a pointer that is not a live heap block"); }
	if(n == 0) { sim_free(p); return nullptr; }
	size_t old = live_size(p);
	void* q = alloc(n, 0, std::min(old, n)); if(!q) return nullptr;
	memcpy(q, p, std::min(old, n)); release(p, "realloc"); return q;
}
void* sim_reallocarray(void* p, size_t a, size_t b) { size_t n; if(__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return sim_realloc(p, n); }
void* sim_aligned_alloc(size_t a, size_t n) { return alloc(n, a); }
void* sim_memalign(size_t a, size_t n) { return alloc(n, a); }
int sim_posix_memalign(void** o, size_t a, size_t n) { int e = errno; void* p = alloc(n, a); errno = e; if(!p) return ENOMEM; *o = p; return 0; }
char* sim_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)alloc(n); if(p) memcpy(p, s, n); return p; }
char* sim___strdup(const char* s) { return sim_strdup(s); }
char* sim_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = (char*)alloc(n + 1); if(p) { memcpy(p, s, n); p[n] = 0; } return p; }
size_t sim_malloc_usable_size(void* p) { return live_size(p); }
static int fmt_alloc(char** o, const char* f, va_list ap) { va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, f, a2); va_end(a2); if(n < 0) return -1; char* p = (char*)alloc(n + 1); if(!p) return -1; vsnprintf(p, n + 1, f, ap); *o = p; return n; }
int sim_vasprintf(char** o, const char* f, va_list ap) { return fmt_alloc(o, f, ap); }
int sim_asprintf(char** o, const char* f, ...) { va_list ap; va_start(ap, f); int r = fmt_alloc(o, f, ap); va_end(ap); return r; }

int sim_open(const char* p, int fl, ...) { mode_t m = 0; if(fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return do_open(p, fl, m, "open"); }
int sim_open64(const char* p, int fl, ...) { mode_t m = 0; if(fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return do_open(p, fl, m, "open"); }
int sim_openat(int d, const char* p, int fl, ...) { mode_t m = 0; if(fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } if(d != AT_FDCWD && p[0] != '/') return err(ENOTDIR); return do_open(p, fl, m, "open"); }
int sim_creat(const char* p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m, "open"); }
ssize_t sim_read(int fd, void* b, size_t n) { return do_read(fd, b, n, nullptr, "read"); }
ssize_t sim_pread(int fd, void* b, size_t n, off_t o) { return do_read(fd, b, n, &o, "read"); }
ssize_t sim_pread64(int fd, void* b, size_t n, off_t o) { return do_read(fd, b, n, &o, "read"); }
static std::string gather(const struct iovec* v, int n) { std::string s; for(int i = 0; i < n; i++) s.append((const char*)v[i].iov_base, v[i].iov_len); return s; }
ssize_t sim_readv(int fd, const struct iovec* v, int n) { size_t t = 0; for(int i = 0; i < n; i++) t += v[i].iov_len; std::string b(t, 0); ssize_t r = do_read(fd, &b[0], t, nullptr, "read"); size_t o = 0; for(int i = 0; r > 0 && i < n && o < (size_t)r; i++) { size_t k = std::min<size_t>(v[i].iov_len, r - o); memcpy(v[i].iov_base, &b[o], k); o += k; } return r; }
ssize_t sim_write(int fd, const void* b, size_t n) { return do_write(fd, b, n, nullptr, "write"); }
ssize_t sim_pwrite(int fd, const void* b, size_t n, off_t o) { return do_write(fd, b, n, &o, "write"); }
ssize_t sim_writev(int fd, const struct iovec* v, int n) { std::string s = gather(v, n); return do_write(fd, s.data(), s.size(), nullptr, "write"); }
off_t sim_lseek(int fd, off_t o, int wh) {
	Sys s("lseek"); FdEnt* f = getfd(fd); if(!f) return err(EBADF);
	if(f->of->kind != 0) return err(ESPIPE);
	if(inject(F_LSEEK_EIO)) return err(EIO);
	off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->of->off : (off_t)(f->of->ino->hole + f->of->ino->data.size());
	if(b + o < 0) return err(EINVAL);
	f->of->off = b + o; ev("lseek", fd, b + o); return b + o;
}
off_t sim_lseek64(int fd, off_t o, int wh) { return sim_lseek(fd, o, wh); }
int sim_close(int fd) { return do_close(fd); }
int sim_close_range(unsigned a, unsigned b, int fl) { Sys s("close"); auto& m = P()->fds; for(auto i = m.begin(); i != m.end();) if((unsigned)i->first >= a && (unsigned)i->first <= b) { if(fl & 4) { i->second.cloexec = true; ++i; } else i = m.erase(i); } else ++i; return 0; }
void sim_closefrom(int a) { sim_close_range(a < 0 ? 0 : a, ~0u, 0); }
int sim_fsync(int fd) { Sys s("fsync"); if(!getfd(fd)) return err(EBADF); if(inject(F_FSYNC_EIO)) return err(EIO); return 0; }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
int sim_fstat(int fd, struct stat* st) { Sys s("fstat"); FdEnt* f = getfd(fd); if(!f) return err(EBADF); if(inject(F_STAT_EIO)) return err(EIO); if(f->of->kind) { memset(st, 0, sizeof *st); st->st_mode = S_IFIFO | 0600; } else fill_stat(f->of->ino, st); ev("fstat", fd, st->st_size); return 0; }
int sim_stat(const char* p, struct stat* st) { Sys s("stat"); if(inject(F_STAT_EIO)) return err(EIO); int e; InodeP i = walk(p, nullptr, nullptr, &e); if(!i) { evs("stat", p, -1, e); return err(e); } fill_stat(i, st); evs("stat", p, 0, st->st_size); return 0; }
int sim_lstat(const char* p, struct stat* st) { return sim_stat(p, st); }
int sim_stat64(const char* p, struct stat* st) { return sim_stat(p, st); }
int sim_lstat64(const char* p, struct stat* st) { return sim_stat(p, st); }
int sim_fstat64(int fd, struct stat* st) { return sim_fstat(fd, st); }
int sim_fstatat(int d, const char* p, struct stat* st, int) { if(d != AT_FDCWD && p[0] != '/') return err(ENOTDIR); return sim_stat(p, st); }
int sim_access(const char* p, int) { Sys s("access"); int e; InodeP i = walk(p, nullptr, nullptr, &e); if(!i) return err(e); return 0; }
int sim_faccessat(int d, const char* p, int m, int) { if(d != AT_FDCWD && p[0] != '/') return err(ENOTDIR); return sim_access(p, m); }
int sim_ftruncate(int fd, off_t n) { Sys s("ftruncate"); FdEnt* f = getfd(fd); if(!f || f->of->kind) return err(EBADF); f->of->ino->data.resize(n); return 0; }
int sim_truncate(const char* p, off_t n) { Sys s("truncate"); int e; InodeP i = walk(p, nullptr, nullptr, &e); if(!i) return err(e); i->data.resize(n); return 0; }
int sim_unlink(const char* p) { Sys s("unlink"); std::string l; InodeP par; int e; InodeP i = walk(p, &l, &par, &e); if(!i) return err(e); if(i->kind == K_DIR) return err(EISDIR); par->ents.erase(l); evs("unlink", p); return 0; }
int sim_rmdir(const char* p) { Sys s("rmdir"); std::string l; InodeP par; int e; InodeP i = walk(p, &l, &par, &e); if(!i) return err(e); if(i->kind != K_DIR) return err(ENOTDIR); if(!i->ents.empty()) return err(ENOTEMPTY); if(!par) return err(EBUSY); par->ents.erase(l); evs("rmdir", p); return 0; }
int sim_remove(const char* p) { InodeP i = vfs_lookup(p); return i && i->kind == K_DIR ? sim_rmdir(p) : sim_unlink(p); }
int sim_rename(const char* a, const char* b) { Sys s("rename"); std::string la, lb; InodeP pa, pb; int e; InodeP i = walk(a, &la, &pa, &e); if(!i) return err(e); InodeP j = walk(b, &lb, &pb, &e); if(!j && (!pb)) return err(e); pb->ents[lb] = i; if(!(pa == pb && la == lb)) pa->ents.erase(la); evs("rename", a); return 0; }
static int do_mkdir(const char* p, mode_t m, const char* who) {
	Sys s(who);
	if(inject(F_MKDIR_ERR)) { static const int es[] = { ENOSPC, EACCES, EROFS, ENOENT, EMLINK, EIO }; int e = es[choose(6, "mkdirerr")]; evs("mkdir", p, -1, e); return err(e); }
	std::string l; InodeP par; int e = 0; InodeP i = walk(p, &l, &par, &e);
	if(!i && par && inject(F_MKDIR_RACE)) { i = mk(K_DIR, 0700); i->created_by = 9999; par->ents[l] = i; } // another process was faster
	if(i) { evs("mkdir", p, -1, EEXIST); return err(EEXIST); }
	if(!par || e != ENOENT) { evs("mkdir", p, -1, e); return err(e); }
	if(par->deny) { evs("mkdir", p, -1, par->deny); return err(par->deny); } // persistent, unlike an injected fault
	i = mk(K_DIR, m & ~P()->umask_ & 01777); par->ents[l] = i; evs("mkdir", p, 0, i->mode); return 0;
}
int sim_mkdir(const char* p, mode_t m) { return do_mkdir(p, m, "mkdir"); }
int sim_mkdirat(int d, const char* p, mode_t m) { if(d != AT_FDCWD && p[0] != '/') return err(ENOTDIR); return do_mkdir(p, m, "mkdir"); }
mode_t sim_umask(mode_t m) { mode_t o = P()->umask_; P()->umask_ = m & 0777; return o; }
int sim_chmod(const char* p, mode_t m) { Sys s("chmod"); int e; InodeP i = walk(p, nullptr, nullptr, &e); if(!i) return err(e); i->mode = m & 07777; return 0; }
int sim_fchmod(int fd, mode_t m) { Sys s("chmod"); FdEnt* f = getfd(fd); if(!f || f->of->kind) return err(EBADF); f->of->ino->mode = m & 07777; return 0; }
int sim_chdir(const char* p) { Sys s("chdir"); InodeP i = vfs_lookup(p); if(!i || i->kind != K_DIR) return err(ENOENT); P()->cwd = p[0] == '/' ? p : P()->cwd + "/" + p; return 0; }
static int do_dup(int fd, int min, int to, bool ce) {
	Sys s("dup"); FdEnt* f = getfd(fd); if(!f) return err(EBADF);
	if(inject(F_DUP_ERR)) return err(to >= 0 ? EINTR : EMFILE);
	FdEnt n = { f->of, ce };
	if(to < 0) { to = new_fd(P(), min); if(to < 0) return err(EMFILE); } else if(to >= P()->limit) return err(EBADF);
	P()->fds[to] = n; ev("dup", fd, to); return to;
}
int sim_dup(int fd) { return do_dup(fd, 0, -1, false); }
int sim_dup2(int a, int b) { if(b < 0) return err(EBADF); if(a == b) return getfd(a) ? a : err(EBADF); return do_dup(a, 0, b, false); }
int sim_dup3(int a, int b, int fl) { if(a == b) return err(EINVAL); return do_dup(a, 0, b, fl & O_CLOEXEC); }
static int do_pipe(int* o, int fl) {
	Sys s("pipe");
	if(inject(F_PIPE_EMFILE)) return err(choose(2, "emfile") ? ENFILE : EMFILE);
	Process* p = P(); int a = new_fd(p); if(a < 0) return err(EMFILE);
	auto pp = std::make_shared<Pipe>(); pp->cap = pipe_cap; pp->readers = pp->writers = 1; pp->moved = 0;
	auto r = std::make_shared<OpenFile>(), w = std::make_shared<OpenFile>(); r->kind = 1; w->kind = 2; r->pipe = w->pipe = pp; r->flags = O_RDONLY; w->flags = O_WRONLY; r->off = w->off = 0;
	p->fds[a] = { r, (fl & O_CLOEXEC) != 0 }; int b = new_fd(p); if(b < 0) { p->fds.erase(a); return err(EMFILE); }
	p->fds[b] = { w, (fl & O_CLOEXEC) != 0 }; o[0] = a; o[1] = b; ev("pipe", a, b); return 0;
}
int sim_pipe(int* o) { return do_pipe(o, 0); }
int sim_pipe2(int* o, int fl) { return do_pipe(o, fl); }
int sim_fcntl(int fd, int cmd, ...) {
	va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
	if(cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return do_dup(fd, arg, -1, cmd == F_DUPFD_CLOEXEC);
	Sys s("fcntl"); FdEnt* f = getfd(fd); if(!f) return err(EBADF);
	switch(cmd) { case F_GETFD: return f->cloexec ? FD_CLOEXEC : 0; case F_SETFD: f->cloexec = arg & FD_CLOEXEC; ev("setfd", fd, arg); return 0; case F_GETFL: return f->of->flags; case F_SETFL: return 0; }
	return err(EINVAL);
}
int sim_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return sim_fcntl(fd, cmd, arg); }
int sim_isatty(int fd) { errno = ENOTTY; return 0; }
int sim_ioctl(int, unsigned long, ...) { return err(ENOTTY); }
int sim_posix_fadvise(int, off_t, off_t, int) { return 0; }

// stdio
FILE* sim_fopen(const char* p, const char* m) { int fl = mode_flags(m); if(fl < 0) { errno = EINVAL; return nullptr; } int fd = do_open(p, fl, 0666, "open"); if(fd < 0) return nullptr; return mkfile(fd, m, true); }
FILE* sim_fopen64(const char* p, const char* m) { return sim_fopen(p, m); }
FILE* sim_fdopen(int fd, const char* m) { if(!getfd(fd)) { errno = EBADF; return nullptr; } return mkfile(fd, m, true); }
int sim_getchar(void) { return fgetc(sim_stdin); }
int sim_vdprintf(int fd, const char* f, va_list ap) { char* b = nullptr; int n = vasprintf(&b, f, ap); if(n < 0) return n; ssize_t r = do_write(fd, b, n, nullptr, "write"); free(b); return r < 0 ? -1 : n; }
int sim_dprintf(int fd, const char* f, ...) { va_list ap; va_start(ap, f); int r = sim_vdprintf(fd, f, ap); va_end(ap); return r; }
int sim_vprintf(const char* f, va_list ap) { return vfprintf(sim_stdout, f, ap); }
int sim_printf(const char* f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(sim_stdout, f, ap); va_end(ap); return r; }
int sim_puts(const char* s) { if(fputs(s, sim_stdout) < 0) return EOF; return fputc('\n', sim_stdout); }
int sim_putchar(int c) { return fputc(c, sim_stdout); }
void sim_perror(const char* s) { int e = errno; fprintf(sim_stderr, "%s: %s\n", s, strerror(e)); errno = e; }

// directories
struct SimDir { std::vector<std::pair<std::string, InodeP>> v; size_t i; struct dirent de; };
static size_t open_dirs;
} namespace sim { size_t live_dirs() { return open_dirs; } } extern "C" {
void* sim_opendir(const char* p) {
	Sys s("opendir");
	if(inject(F_OPENDIR_ERR)) { static const int es[] = { EACCES, EMFILE, ENOMEM }; errno = es[choose(3, "opendirerr")]; return nullptr; }
	int e = 0; InodeP i = walk(p, nullptr, nullptr, &e); if(!i) { errno = e; return nullptr; } if(i->kind != K_DIR) { errno = ENOTDIR; return nullptr; }
	SimDir* d = new SimDir(); d->i = 0; d->v.push_back({".", i}); d->v.push_back({"..", i});
	for(auto& x : i->ents) d->v.push_back(x);
	for(size_t k = d->v.size(); k > 1; k--) std::swap(d->v[k - 1], d->v[choose(k, "dirorder")]); // readdir order is arbitrary
	open_dirs++; evs("opendir", p); return d;
}
struct dirent* sim_readdir(void* dp) {
	SimDir* d = (SimDir*)dp; calls["readdir"]++; if(d->i >= d->v.size()) return nullptr;
	auto& x = d->v[d->i++]; memset(&d->de, 0, sizeof d->de); d->de.d_ino = x.second->ino; d->de.d_type = x.second->kind == K_DIR ? DT_DIR : x.second->kind == K_REG ? DT_REG : DT_CHR; d->de.d_reclen = sizeof d->de;
	snprintf(d->de.d_name, sizeof d->de.d_name, "%s", x.first.c_str()); return &d->de;
}
int sim_closedir(void* dp) { delete (SimDir*)dp; open_dirs--; return 0; }
void sim_rewinddir(void* dp) { ((SimDir*)dp)->i = 0; }
static void g_closedir(void* d) { sim_closedir(d); }
int sim_glob(const char* pat, int fl, int (*ef)(const char*, int), glob_t* g) {
	Sys s("glob");
	if(inject(F_GLOB_NOSPACE)) { g->gl_pathc = 0; g->gl_pathv = nullptr; return GLOB_NOSPACE; }
	if(inject(F_GLOB_ABORTED)) { g->gl_pathc = 0; g->gl_pathv = nullptr; return GLOB_ABORTED; }
	g->gl_closedir = g_closedir; g->gl_readdir = sim_readdir; g->gl_opendir = sim_opendir; g->gl_lstat = sim_lstat; g->gl_stat = sim_stat;
	no_switch++; int r = glob(pat, fl | GLOB_ALTDIRFUNC, ef, g); no_switch--; // the sanitizer's glob wrapper keeps its callbacks in a global
	evs("glob", pat, r, r ? 0 : g->gl_pathc);
	if(r == 0 && g->gl_pathv) globs().insert(g->gl_pathv);
	return r;
}
void sim_globfree(glob_t* g) { if(g->gl_pathv) globs().erase(g->gl_pathv); globfree(g); }
int sim_glob64(const char* pat, int fl, int (*ef)(const char*, int), glob_t* g) { return sim_glob(pat, fl, ef, g); }
void sim_globfree64(glob_t* g) { sim_globfree(g); }

// processes
pid_t sim_fork(void) {
	Sys s("fork"); if(inject(F_FORK_EAGAIN)) return err(choose(2, "forkerr") ? ENOMEM : EAGAIN);
	Process* me = P(); Process* c = new_process(me);
	bool child = choose(2, "fork-side") == 1; forks.push_back({ child, c->pid }); ev("fork", c->pid, child);
	if(!child) return c->pid;
	// this execution follows the child: swap identities so that the running task is the child
	std::swap(me->pid, c->pid); std::swap(me->ppid, c->ppid); me->leader = false;
	return 0;
}
pid_t sim_vfork(void) { return sim_fork(); }
pid_t sim_setsid(void) { Sys s("setsid"); Process* p = P(); if(inject(F_SETSID_ERR)) return err(EPERM); if(p->leader) return err(EPERM); p->sid = p->pid; p->leader = true; ev("setsid", p->pid); return p->pid; }
pid_t sim_getpid(void) { return P()->pid; }
pid_t sim_getppid(void) { return P()->ppid; }
pid_t sim_getsid(pid_t) { return P()->sid; }
int sim_setpgid(pid_t, pid_t) { return 0; }
static void end_process(int st) { if(on_exit_hook) on_exit_hook(st); ev("exit", st); proc_exit((st & 255) << 8); }
void sim_exit(int st) { calls["exit"]++; end_process(st); }
void sim__exit(int st) { calls["exit"]++; end_process(st); }
void sim__Exit(int st) { calls["exit"]++; end_process(st); }
void sim_quick_exit(int st) { calls["exit"]++; end_process(st); }
int sim_getdtablesize(void) { return P()->limit; }
long sim_sysconf(int n) { if(n == _SC_OPEN_MAX) return P()->limit; if(n == _SC_PAGESIZE) return 4096; return sysconf(n); }
int sim_getrlimit(int r, unsigned long* rl) { if(r == 7) { rl[0] = rl[1] = P()->limit; return 0; } rl[0] = rl[1] = ~0ul; return 0; }
int sim_getpagesize(void) { return 4096; }
int sim_daemon(int, int) { return err(ENOSYS); }
int sim_kill(pid_t pid, int sig) {
	Sys s("kill"); Process* p = proc_by_pid(pid); if(!p || p->reaped) return err(ESRCH);
	if(sig && p->alive && p->task >= 0) { kill_task(p->task); finish_process(p, sig & 127); } return 0;
}
pid_t sim_waitpid(pid_t p, int* st, int o) { return do_wait(p, st, o, "waitpid"); }
pid_t sim_wait4(pid_t p, int* st, int o, void*) { return do_wait(p, st, o, "waitpid"); }
pid_t sim_wait(int* st) { return do_wait(-1, st, 0, "waitpid"); }
int sim_waitid(int t, id_t id, siginfo_t* si, int o) { int st; pid_t r = do_wait(t == P_PID ? (pid_t)id : -1, &st, (o & WNOHANG) ? WNOHANG : 0, "waitpid"); if(r < 0) return -1; if(si) { memset(si, 0, sizeof *si); si->si_pid = r; si->si_status = WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st); si->si_code = WIFEXITED(st) ? CLD_EXITED : CLD_KILLED; } return 0; }
static void fa_shape(posix_spawn_file_actions_t* f, size_t used) { ((int*)f)[0] = (used + 7) / 8 * 8; ((int*)f)[1] = used; } // the counters the C library keeps at the start of the object
int sim_posix_spawn_file_actions_init(posix_spawn_file_actions_t* f) { calls["fa_init"]++; if(inject(F_FA_ENOMEM)) return ENOMEM; fas()[f] = FA(); memset(f, 0xFA, sizeof *f); fa_shape(f, 0); return 0; }
static FA* getfa(const void* f, const char* w) { auto i = fas().find(f); if(i == fas().end()) fail("bad-file-actions", "%s on file actions that are not initialised (or already destroyed)", w); return &i->second; }
int sim_posix_spawn_file_actions_destroy(posix_spawn_file_actions_t* f) { calls["fa_destroy"]++; getfa(f, "destroy"); fas().erase(f); return 0; }
int sim_posix_spawn_file_actions_addclose(posix_spawn_file_actions_t* f, int fd) { calls["fa_add"]++; FA* a = getfa(f, "addclose"); if(inject(F_FA_ENOMEM)) return ENOMEM; if(fd < 0 || fd >= P()->limit) return EBADF; a->acts.push_back({0, fd, 0, "", 0, 0}); fa_shape(f, a->acts.size()); return 0; }
int sim_posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t* f, int x, int y) { calls["fa_add"]++; FA* a = getfa(f, "adddup2"); if(inject(F_FA_ENOMEM)) return ENOMEM; if(x < 0 || y < 0 || x >= P()->limit || y >= P()->limit) return EBADF; a->acts.push_back({1, x, y, "", 0, 0}); fa_shape(f, a->acts.size()); return 0; }
int sim_posix_spawn_file_actions_addopen(posix_spawn_file_actions_t* f, int fd, const char* p, int fl, mode_t m) { calls["fa_add"]++; FA* a = getfa(f, "addopen"); if(inject(F_FA_ENOMEM)) return ENOMEM; a->acts.push_back({2, fd, 0, p, fl, m}); fa_shape(f, a->acts.size()); return 0; }
int sim_posix_spawn(pid_t* p, const char* f, const posix_spawn_file_actions_t* a, const void*, char* const av[], char* const ev[]) { return do_spawn(p, f, a, av, ev, false, "posix_spawn"); }
int sim_posix_spawnp(pid_t* p, const char* f, const posix_spawn_file_actions_t* a, const void*, char* const av[], char* const ev[]) { return do_spawn(p, f, a, av, ev, true, "posix_spawn"); }

// clocks
int sim_gettimeofday(struct timeval* tv, void*) { Sys s("gettimeofday"); tick(); int64_t w = wall_ns(); tv->tv_sec = w / 1000000000; tv->tv_usec = w % 1000000000 / 1000; ev("gettimeofday", tv->tv_sec, tv->tv_usec); return 0; }
int sim_clock_gettime(clockid_t c, struct timespec* ts) { Sys s("clock_gettime"); tick(); int64_t w = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? wall_ns() : now_ns; ts->tv_sec = w / 1000000000; ts->tv_nsec = w % 1000000000; ev("clock_gettime", c, w); return 0; }
int sim_timespec_get(struct timespec* ts, int b) { sim_clock_gettime(CLOCK_REALTIME, ts); return b; }
time_t sim_time(time_t* o) { Sys s("time"); tick(); time_t t = wall_ns() / 1000000000; if(o) *o = t; ev("time", t); return t; }
// conversions read the caller's variable (or write one of the C library's) at a moment of their own
static struct tm libc_tm __attribute__((section("ulz_data"))) = {1};
struct tm* sim_localtime_r(const time_t* t, struct tm* o) { Sys s("localtime"); return localtime_r(t, o); }
struct tm* sim_gmtime_r(const time_t* t, struct tm* o) { Sys s("gmtime"); return gmtime_r(t, o); }
struct tm* sim_localtime(const time_t* t) { Sys s("localtime"); struct tm* r = localtime_r(t, &libc_tm); if(sys_yield) yield_point(); return r; }
struct tm* sim_gmtime(const time_t* t) { Sys s("gmtime"); struct tm* r = gmtime_r(t, &libc_tm); if(sys_yield) yield_point(); return r; }
clock_t sim_clock(void) { tick(); return now_ns / 1000; }
int sim_nanosleep(const struct timespec* r, struct timespec* m) { int e = do_sleep(CLOCK_MONOTONIC, 0, r, m, "nanosleep"); if(e) return err(e); return 0; }
int sim_clock_nanosleep(clockid_t c, int fl, const struct timespec* r, struct timespec* m) { return do_sleep(c, fl, r, m, "nanosleep"); }
int sim_usleep(useconds_t u) { struct timespec r = { (time_t)(u / 1000000), (long)(u % 1000000) * 1000 }, m; int e = do_sleep(CLOCK_MONOTONIC, 0, &r, &m, "nanosleep"); if(e) return err(e); return 0; }
unsigned sim_sleep(unsigned n) { struct timespec r = { (time_t)n, 0 }, m; int e = do_sleep(CLOCK_MONOTONIC, 0, &r, &m, "nanosleep"); return e ? m.tv_sec + (m.tv_nsec >= 500000000) : 0; }
int sim_poll(struct pollfd*, nfds_t n, int ms) { if(n) return err(ENOSYS); struct timespec r = { ms / 1000, ms % 1000 * 1000000l }, m; int e = do_sleep(CLOCK_MONOTONIC, 0, &r, &m, "poll"); if(e) return err(e); return 0; }
int sim_select(int n, fd_set*, fd_set*, fd_set*, struct timeval* tv) { if(n || !tv) return err(ENOSYS); struct timespec r = { tv->tv_sec, tv->tv_usec * 1000l }, m; int e = do_sleep(CLOCK_MONOTONIC, 0, &r, &m, "select"); if(e) return err(e); return 0; }

// randomness
static uint32_t rnd31() { calls["rand"]++; if(inject(F_RAND_REPEAT)) return last_rand; if(rand_range) return last_rand = choose(rand_range, "rand"); uint32_t hi = choose(1u << 16, "rand-hi"), lo = choose(1u << 15, "rand-lo"); return last_rand = (hi << 15 | lo) & 0x7fffffff; }
int sim_rand(void) { return rnd31(); }
long sim_random(void) { return rnd31(); }
int sim_rand_r(unsigned*) { return rnd31(); }
long sim_lrand48(void) { return rnd31(); }
void sim_srand(unsigned) {}
void sim_srandom(unsigned) {}
unsigned sim_arc4random(void) { return rnd31() * 2 + 1; }
unsigned sim_arc4random_uniform(unsigned n) { return n ? rnd31() % n : 0; }
ssize_t sim_getrandom(void* b, size_t n, unsigned) { for(size_t i = 0; i < n; i++) ((unsigned char*)b)[i] = rnd31() >> 8; return n; }
int sim_getentropy(void* b, size_t n) { sim_getrandom(b, n, 0); return 0; }
char* sim_mkdtemp(char* t) { size_t l = strlen(t); if(l < 6 || strcmp(t + l - 6, "XXXXXX")) { errno = EINVAL; return nullptr; } for(int k = 0; k < 1000; k++) { for(size_t i = l - 6; i < l; i++) t[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[rnd31() % 36]; if(!do_mkdir(t, 0700, "mkdir")) return t; if(errno != EEXIST) return nullptr; } errno = EEXIST; return nullptr; }

// mappings: real memory, every page accounted
void* sim_mmap(void* a, size_t n, int prot, int fl, int fd, off_t o) {
	Sys s("mmap"); int ty = fl & MAP_TYPE; if(n == 0 || (ty != MAP_PRIVATE && ty != MAP_SHARED && ty != MAP_SHARED_VALIDATE) || (o & 4095)) { errno = EINVAL; return MAP_FAILED; }
	if(!(fl & MAP_ANONYMOUS)) { errno = getfd(fd) ? ENODEV : EBADF; return MAP_FAILED; }
	if(inject(F_MMAP_ENOMEM) || n > mmap_max) { errno = ENOMEM; return MAP_FAILED; }
	void* p = mmap(a, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | (n > (64u << 20) ? MAP_NORESERVE : fl & MAP_NORESERVE), -1, 0);
	if(p == MAP_FAILED) return p;
	n = (n + 4095) & ~(size_t)4095; if(n > (64u << 20)) madvise(p, n, MADV_NOHUGEPAGE); pt_set((uintptr_t)p, (uintptr_t)p + n, prot);
	ev("mmap", n, prot); return p;
}
int sim_munmap(void* p, size_t n) {
	Sys s("munmap"); if((uintptr_t)p & 4095 || !n) { ev("munmap-inval"); return err(EINVAL); }
	uintptr_t lo = (uintptr_t)p, hi = lo + ((n + 4095) & ~(size_t)4095); if(hi <= lo) { ev("munmap-inval"); return err(EINVAL); }
	size_t cnt = pt_have(lo, hi) / 4096, miss = (hi - lo) / 4096 - cnt;
	if(!miss) { munmap(p, hi - lo); pt_clear(lo, hi); }
	ev("munmap", cnt, miss);
	if(miss) fail("unmap-foreign", "munmap of %zu page(s) that no allocation mapped", miss);
	return 0;
}
int sim_mprotect(void* p, size_t n, int prot) {
	Sys s("mprotect"); if((uintptr_t)p & 4095) return err(EINVAL); if(inject(F_MPROTECT_ERR)) return err(choose(2, "mperr") ? EACCES : ENOMEM);
	uintptr_t lo = (uintptr_t)p, hi = lo + ((n + 4095) & ~(size_t)4095); if(hi < lo || pt_have(lo, hi) != hi - lo) { ev("mprotect-foreign"); return err(ENOMEM); }
	if(hi > lo) pt_set(lo, hi, prot);
	ev("mprotect", n, prot); return mprotect(p, n, prot);
}
void* sim_mremap(void*, size_t, size_t, int, ...) { errno = ENOMEM; return MAP_FAILED; }
int sim_madvise(void*, size_t, int) { return 0; }
}
