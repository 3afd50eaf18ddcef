#include "core.hpp"
#include "sys.hpp"
#include <cstdarg>
#include <unordered_set>
#include <algorithm>
#include <chrono>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

extern "C" const char* __asan_default_options() {
	return "detect_leaks=0:quarantine_size_mb=8:malloc_context_size=8:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0:exitcode=86:symbolize=0:print_legend=0:allow_user_segv_handler=0";
}

namespace sim {

// ---------------------------------------------------------------- shared run record
// Lives in a MAP_SHARED file so that the driver can read it after a crash.
static const uint32_t MAXCH = 1u << 20;
struct Shared {
	uint64_t seed, run_index;
	uint32_t state;          // 0 idle 1 running 2 failed
	uint32_t nch;
	uint64_t hash;
	char cls[64];
	char msg[1024];
	uint32_t nspan;
	uint32_t ch[MAXCH];
};
static Shared* sh;

static const std::vector<uint32_t>* replay_in; // replay mode input
static uint64_t rng_state;
bool tracing = false, thorough = false;
static FILE* trace_out;

uint64_t mix(uint64_t x) {
	x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31; return x;
}
static uint64_t rnd() { rng_state += 0x9e3779b97f4a7c15ull; return mix(rng_state); }

struct SpanRec { uint32_t a, b; };
static std::vector<SpanRec> spans; static std::vector<uint32_t> span_stack;
static bool record_spans = false;

static void hash_bytes(const void* p, size_t n) {
	const unsigned char* s = (const unsigned char*)p; uint64_t h = sh->hash;
	for(size_t i = 0; i < n; i++) { h ^= s[i]; h *= 0x100000001b3ull; }
	sh->hash = h;
}
static void hash_u64(uint64_t v) { sh->hash = mix(sh->hash ^ (v + 0x9e3779b97f4a7c15ull)); }

uint32_t choose(uint32_t n, const char* label) {
	if(n <= 1) return 0;
	uint32_t v;
	uint32_t i = sh->nch;
	if(replay_in) { v = i < replay_in->size() ? (*replay_in)[i] : 0; if(v >= n) v = n - 1; }
	else v = (uint32_t)((rnd() >> 11) % n);
	if(i >= MAXCH) fail("harness-choices-exhausted", "run used more than %u choices", MAXCH);
	sh->ch[i] = v; sh->nch = i + 1;
	hash_u64(v);
	if(tracing && v) fprintf(trace_out, "    choice[%u] %s = %u of %u\n", i, label, v, n);
	return v;
}
uint32_t choose_in_run(uint64_t run, uint32_t v, uint32_t n, const char* label) { // rare expensive case, reached in exactly one run of a search
	uint32_t i = sh->nch; if(replay_in) return choose(n, label);
	if(i >= MAXCH) fail("harness-choices-exhausted", "run used more than %u choices", MAXCH);
	uint32_t x = sh->run_index == run ? v : 0; sh->ch[i] = x; sh->nch = i + 1; hash_u64(x); if(tracing && x) fprintf(trace_out, "    choice[%u] %s = %u of %u\n", i, label, x, n); return x;
}
bool chance(uint32_t num, uint32_t den, const char* label) {
	if(num == 0) return false;
	uint32_t v = choose(den, label);
	return v >= den - num && v != 0;
}
bool more(uint32_t avg, const char* label) { return choose(avg + 1, label) != 0; }

Span::Span() { if(record_spans) span_stack.push_back(sh->nch); }
Span::~Span() { if(record_spans && !span_stack.empty()) { spans.push_back({span_stack.back(), sh->nch}); span_stack.pop_back(); } }

// ---------------------------------------------------------------- events
static uint64_t n_events;
void ev(const char* tag, int64_t a, int64_t b, int64_t c) {
	n_events++;
	hash_bytes(tag, strlen(tag)); hash_u64(a); hash_u64(b); hash_u64(c);
	if(tracing && n_events < 300000) fprintf(trace_out, "  [%d] %s %lld %lld %lld\n", cur_task(), tag, (long long)a, (long long)b, (long long)c);
}
void evs(const char* tag, const std::string& s, int64_t a, int64_t b) {
	n_events++;
	hash_bytes(tag, strlen(tag)); hash_bytes(s.data(), s.size()); hash_u64(a); hash_u64(b);
	if(tracing) fprintf(trace_out, "  [%d] %s \"%s\" %lld %lld\n", cur_task(), tag, show(s).c_str(), (long long)a, (long long)b);
}
std::string show(const std::string& s, size_t max) {
	std::string o; char b[8];
	for(size_t i = 0; i < s.size() && i < max; i++) {
		unsigned char c = s[i];
		if(c >= 32 && c < 127 && c != '"' && c != '\\') o += c;
		else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
	}
	if(s.size() > max) { snprintf(b, sizeof b, "..."); o += b; o += "(" + std::to_string(s.size()) + " bytes)"; }
	return o;
}

static std::map<std::string, uint64_t> probes, probes_run;
void probe(const char* name) { probes[name]++; }

// ---------------------------------------------------------------- tasks
struct Task {
	int id; std::string name; std::function<void()> fn; Process* proc;
	void* sp; char* stack; size_t stacksz; bool own;
	int err; bool done, dirty; 
	std::function<bool()> pred; bool blocked; int64_t wake; const char* what;
	void* fake; int nofault; FaultCount fc;
};
static std::vector<Task*> tasks;
static Task* cur;
static void* main_sp; static void* main_fake; static const void* main_bottom; static size_t main_size;
static std::vector<char*> stack_pool;
static const size_t STACKSZ = 1u << 20;
uint32_t switch_den, preempt_max, no_switch; uint64_t n_switches;
static uint64_t total_switches;
static uint64_t countdown;      // basic blocks until preemption, 0: none
static bool failed_run;
static uint64_t interleave_hash;

uint64_t steps, step_limit;
static uint64_t b_start, b_size; static double b_max; // largest share of a budget ever used
static void b_note() { if(b_size) { double r = double(steps - b_start) / b_size; if(r > b_max) b_max = r; } b_size = 0; }
void budget(uint64_t b) { b_note(); b_start = steps; b_size = b; step_limit = steps + b; }

extern "C" void sim_switch(void** save, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp,(%rdi)
	movq %rsi,%rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_switch,.-sim_switch
)");

int cur_task() { return cur ? cur->id : -1; }
Process* cur_proc() { return cur ? cur->proc : nullptr; }

static int root_nofault; static FaultCount root_fc;
int& task_nofault() { return cur ? cur->nofault : root_nofault; }
FaultCount& task_faults() { return cur ? cur->fc : root_fc; }
void kill_task(int id) { for(Task* t : tasks) if(t->id == id && !t->done) { t->done = true; t->dirty = true; } }

static void to_main(bool dying) {
	Task* t = cur;
	t->err = errno;
	__sanitizer_start_switch_fiber(dying ? nullptr : &t->fake, main_bottom, main_size);
	sim_switch(&t->sp, main_sp);
	__sanitizer_finish_switch_fiber(t->fake, &main_bottom, &main_size);
	errno = t->err;
}
static void trampoline() {
	__sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
	errno = 0;
	cur->fn();
	cur->done = true;
	to_main(true);
	abort();
}
static void new_stack(Task* t) {
	if(stack_pool.empty()) {
		t->stack = (char*)mmap(0, STACKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if(t->stack == MAP_FAILED) { perror("mmap stack"); _exit(3); }
		mprotect(t->stack, 4096, PROT_NONE); // stack overflow becomes a fault, not corruption
	} else { t->stack = stack_pool.back(); stack_pool.pop_back(); }
	t->stacksz = STACKSZ;
	uintptr_t top = (uintptr_t)(t->stack + STACKSZ) & ~(uintptr_t)63;
	void** p = (void**)top;
	*--p = nullptr;
	*--p = (void*)trampoline;
	for(int i = 0; i < 6; i++) *--p = nullptr;
	t->sp = p;
}
int spawn(const char* name, std::function<void()> fn, Process* proc) {
	Task* t = new Task();
	t->id = tasks.size(); t->name = name; t->fn = std::move(fn); t->proc = proc ? proc : cur_proc();
	t->wake = -1;
	new_stack(t);
	tasks.push_back(t);
	ev("spawn", t->id);
	return t->id;
}
// the scheduler runs in the main context: resumes `t` until it switches back
static void resume(Task* t) {
	cur = t;
	interleave_hash = mix(interleave_hash ^ (uint64_t)(t->id + 1) ^ (steps << 8));
	__sanitizer_start_switch_fiber(&main_fake, t->stack, t->stacksz);
	sim_switch(&main_sp, t->sp);
	__sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
	cur = nullptr;
}
static int next_hint = -1; // task that asked to be continued
static void schedule() {
	while(!failed_run) {
		std::vector<Task*> run; bool alive = false; int64_t minwake = -1;
		for(Task* t : tasks) {
			if(t->done) continue;
			alive = true;
			if(t->wake >= 0) { if(t->wake <= world_now()) { t->wake = -1; } else { if(minwake < 0 || t->wake < minwake) minwake = t->wake; continue; } }
			if(t->blocked) { if(t->pred && t->pred()) { t->blocked = false; t->pred = nullptr; } else continue; }
			run.push_back(t);
		}
		if(!alive) return;
		if(run.empty()) {
			if(minwake >= 0) { world_advance_to(minwake); continue; }
			std::string w;
			for(Task* t : tasks) if(!t->done) { w += t->name; w += ":"; w += t->what ? t->what : "?"; w += " "; }
			cur = nullptr;
			for(Task* t : tasks) if(!t->done) { cur = t; break; }
			failed_run = true;
			snprintf(sh->cls, sizeof sh->cls, "deadlock"); snprintf(sh->msg, sizeof sh->msg, "no task can run: %s", w.c_str());
			sh->state = 2; cur = nullptr;
			return;
		}
		Task* pick = run[0];
		if(run.size() > 1) {
			// simplest: keep running whoever was running, else the lowest id
			std::vector<Task*> ord = run;
			for(size_t i = 0; i < ord.size(); i++) if(ord[i]->id == next_hint) { std::rotate(ord.begin(), ord.begin() + i, ord.begin() + i + 1); break; }
			uint32_t k = choose(ord.size(), "sched");
			pick = ord[k];
			ev("run", pick->id);
		}
		if(next_hint != pick->id) { n_switches++; total_switches++; }
		next_hint = pick->id;
		if(preempt_max && run.size() > 1) {
			uint32_t d = choose(preempt_max + 1, "slice");
			countdown = d;
		} else countdown = 0;
		resume(pick);
	}
}
void yield_point() {
	if(!cur || !switch_den || tasks.size() < 2 || no_switch) return;
	if(choose(switch_den, "yield") == 0) return;
	to_main(false);
}
static void preempt() { if(cur && tasks.size() > 1 && !no_switch) to_main(false); }
void block_until(std::function<bool()> pred, const char* what) {
	if(pred()) return;
	cur->pred = std::move(pred); cur->blocked = true; cur->what = what;
	to_main(false);
}
void sleep_until(int64_t t) {
	if(t <= world_now()) return;
	cur->wake = t; cur->what = "sleep";
	to_main(false);
}
void join_all() {
	int me = cur->id;
	block_until([me] { for(Task* t : tasks) if(t->id != me && !t->done) return false; return true; }, "join");
}
void task_exit() { cur->done = true; cur->dirty = true; to_main(true); abort(); }

void fail(const char* cls, const char* fmt, ...) {
	if(sh->state != 2) {
		snprintf(sh->cls, sizeof sh->cls, "%s", cls);
		va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap);
		sh->state = 2;
	}
	failed_run = true;
	if(cur) { cur->done = true; cur->dirty = true; to_main(true); }
	fprintf(stderr, "fail outside task: %s %s\n", sh->cls, sh->msg);
	_exit(4);
}

void charge(uint64_t n) { steps += n; if(cur && steps > step_limit) fail("no-progress", "a call executed more than its step budget without finishing"); }
// basic-block seam: called by every basic block of the library under test
static const size_t COVSZ = 1 << 20;
static unsigned char cov[COVSZ]; // PC bitmap (program is linked non-PIE)
extern "C" char __executable_start;
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc() {
	steps++;
	uintptr_t pc = (uintptr_t)__builtin_return_address(0) - (uintptr_t)&__executable_start;
	if(pc < COVSZ * 8) cov[pc >> 3] |= 1 << (pc & 7);
	if(!cur) return;
	if(steps > step_limit) fail("no-progress", "a call executed more than its step budget without finishing");
	if(countdown && --countdown == 0) { ev("preempt", 0); preempt(); }
}

// ---------------------------------------------------------------- library data sections: pristine before every run
extern "C" { extern char __start_ulz_data[] __attribute__((weak)); extern char __stop_ulz_data[] __attribute__((weak)); extern char __start_ulz_bss[] __attribute__((weak)); extern char __stop_ulz_bss[] __attribute__((weak)); }
static std::vector<char*> snap; // [data][bss]
static char *snap_data, *snap_bss; static size_t n_data, n_bss;
__attribute__((no_sanitize("address"), noinline)) static void rawcopy(volatile char* d, const volatile char* s, size_t n) { for(size_t i = 0; i < n; i++) if(d[i] != s[i]) d[i] = s[i]; }
static void take_snapshot() {
	if(__start_ulz_data) { n_data = __stop_ulz_data - __start_ulz_data; snap_data = (char*)mmap(0, n_data + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); rawcopy(snap_data, __start_ulz_data, n_data); }
	if(__start_ulz_bss) { n_bss = __stop_ulz_bss - __start_ulz_bss; snap_bss = (char*)mmap(0, n_bss + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); rawcopy(snap_bss, __start_ulz_bss, n_bss); }
}
void restore_library_data() {
	if(n_data) rawcopy(__start_ulz_data, snap_data, n_data);
	if(n_bss) rawcopy(__start_ulz_bss, snap_bss, n_bss);
}

// memory seam (C20): right after the library has written to a variable of its own, the next uses of such variables are
// the places where another task could see or change it
static int hot, hot_max, cold_max; // cold: the C library may have written it
static __attribute__((no_sanitize("address"))) void touch(const void* p, bool wr) {
	const char* a = (const char*)p;
	if(!cur || !preempt_max || !((a >= __start_ulz_data && a < __stop_ulz_data) || (a >= __start_ulz_bss && a < __stop_ulz_bss))) return;
	bool go = hot > 0 && hot_max > 0; if(wr) hot = 4; else if(hot) hot--;
	if(!go && cold_max > 0) { cold_max--; go = true; }
	if(go) { hot_max--; if(choose(2, "shared")) { ev("preempt", 1); preempt(); } }
}
#define TOUCH(n) extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_load##n(const void* p) { touch(p, false); } extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_store##n(const void* p) { touch(p, true); }
TOUCH(1) TOUCH(2) TOUCH(4) TOUCH(8) TOUCH(16)
extern "C" { void* __asan_memcpy(void*, const void*, size_t); void* __asan_memmove(void*, const void*, size_t); void* __asan_memset(void*, int, size_t);
void* ulz_memcpy(void* d, const void* s, size_t n) { if(n) { touch(s, false); touch(d, true); } return __asan_memcpy(d, s, n); }
void* ulz_memmove(void* d, const void* s, size_t n) { if(n) { touch(s, false); touch(d, true); } return __asan_memmove(d, s, n); }
void* ulz_memset(void* d, int c, size_t n) { if(n) touch(d, true); return __asan_memset(d, c, n); } }

// ---------------------------------------------------------------- one run
static Scenario* scen_head;
Scenario::Scenario(const char* i, void (*r)()) : id(i), run(r), next(scen_head) { scen_head = this; }
static Scenario* scen;

static void run_once(uint64_t seed, const std::vector<uint32_t>* in) {
	replay_in = in;
	rng_state = mix(seed ^ 0xabcdef);
	sh->seed = seed; sh->nch = 0; sh->hash = 0xcbf29ce484222325ull; sh->cls[0] = sh->msg[0] = 0; sh->state = 1;
	spans.clear(); span_stack.clear();
	failed_run = false; n_switches = 0; switch_den = 0; preempt_max = 0; no_switch = 0; countdown = 0; next_hint = -1;
	steps = 0; step_limit = ~0ull >> 1; b_size = 0; interleave_hash = 0;
	errno = 0;
	restore_library_data(); hot = 0; hot_max = 300; cold_max = 30;
	world_reset();
	spawn("root", [] { static const unsigned char fills[] = {0xA7, 0, 0xFF, 1}; set_fill(fills[choose(4, "fill")]); huge_ok = false; scen->run(); }, world_root_process());
	schedule();
	bool ok = sh->state != 2;
	if(ok) {
		hash_u64(steps); // the run must be reproducible down to the basic block count
		world_end_of_run();
		sh->state = 0;
	}
	for(Task* t : tasks) {
		if(!t->done || t->dirty) { __asan_unpoison_memory_region(t->stack + 4096, t->stacksz - 4096); }
		stack_pool.push_back(t->stack);
		delete t;
	}
	tasks.clear();
	if(ok) world_free_leftovers();
}

static uint64_t run_seed(uint64_t base, const char* prop, uint64_t i) {
	uint64_t h = base * 0x9e3779b97f4a7c15ull;
	for(const char* p = prop; *p; p++) h = mix(h ^ (unsigned char)*p);
	return mix(h ^ mix(i + 1));
}

// ---------------------------------------------------------------- files
static std::vector<uint32_t> read_choices(const char* f, std::string* cls = nullptr, uint64_t* seed = nullptr, uint64_t* hash = nullptr) {
	std::vector<uint32_t> v; FILE* fp = fopen(f, "r");
	if(!fp) { perror(f); _exit(3); }
	static char line[1 << 23];
	while(fgets(line, sizeof line, fp)) {
		if(!strncmp(line, "choices:", 8)) {
			char* p = line + 8; char* e;
			for(;;) { unsigned long x = strtoul(p, &e, 10); if(e == p) break; v.push_back((uint32_t)x); p = e; }
		} else if(!strncmp(line, "class: ", 7) && cls) { *cls = line + 7; while(!cls->empty() && (cls->back() == '\n')) cls->pop_back(); }
		else if(!strncmp(line, "seed: ", 6) && seed) *seed = strtoull(line + 6, 0, 10);
		else if(!strncmp(line, "hash: ", 6) && hash) *hash = strtoull(line + 6, 0, 16);
	}
	fclose(fp);
	return v;
}
static void map_shared(const char* path) {
	int fd = open(path, O_RDWR | O_CREAT, 0600);
	if(fd < 0 || ftruncate(fd, sizeof(Shared))) { perror(path); _exit(3); }
	sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if(sh == MAP_FAILED) { perror("mmap"); _exit(3); }
	close(fd);
}

// run a choice vector in a forked child; returns true if it fails, sets cls/choices used
static bool attempt(const std::vector<uint32_t>& in, std::string& cls, std::vector<uint32_t>& used, std::vector<SpanRec>* sp) {
	static SpanRec* spshm = (SpanRec*)mmap(0, sizeof(SpanRec) * 200000, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	sh->nspan = 0; sh->state = 0;
	pid_t pid = fork();
	if(pid == 0) {
		int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); dup2(dn, 1);
		alarm(20);
		record_spans = true;
		run_once(0, &in);
		// spans still open at the failure end there
		uint32_t n = 0;
		for(auto& s : spans) if(n < 200000) spshm[n++] = s;
		for(auto a : span_stack) if(n < 200000) spshm[n++] = {a, sh->nch};
		sh->nspan = n;
		_exit(sh->state == 2 ? 1 : 0);
	}
	int st; waitpid(pid, &st, 0);
	if(WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
	if(WIFEXITED(st) && WEXITSTATUS(st) == 1) cls = sh->cls;
	else if(WIFEXITED(st) && WEXITSTATUS(st) == 86) cls = "memory-error";
	else cls = "crash";
	used.assign(sh->ch, sh->ch + std::min(sh->nch, MAXCH));
	if(sp) sp->assign(spshm, spshm + sh->nspan);
	return true;
}

static int minimize(const char* infile, const char* outfile, double secs) {
	std::string want; uint64_t seed = 0;
	std::vector<uint32_t> best = read_choices(infile, &want, &seed), used; std::string cls; std::vector<SpanRec> sp;
	auto t0 = std::chrono::steady_clock::now();
	auto left = [&] { return secs - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 0; };
	if(!attempt(best, cls, used, &sp) || (cls != want && !want.empty())) { fprintf(stderr, "minimize: input does not reproduce (%s vs %s)\n", cls.c_str(), want.c_str()); return 5; }
	want = cls; best = used; size_t orig = best.size(); int tries = 0;
	auto tryit = [&](const std::vector<uint32_t>& c) {
		tries++;
		std::vector<SpanRec> s2; std::string k; std::vector<uint32_t> u;
		if(attempt(c, k, u, &s2) && k == want && (u.size() < best.size() || (u.size() == best.size() && u < best))) { best = u; sp = s2; return true; }
		return false;
	};
	bool progress = true;
	while(progress && left()) {
		progress = false;
		// 1. delete whole spans, largest first
		for(bool again = true; again && left();) {
			again = false;
			std::vector<SpanRec> order = sp;
			std::sort(order.begin(), order.end(), [](const SpanRec& a, const SpanRec& b) { return a.b - a.a > b.b - b.a; });
			size_t cnt = 0;
			for(auto& s : order) {
				if(!left() || ++cnt > 400) break;
				if(s.b > best.size() || s.a >= s.b) continue;
				std::vector<uint32_t> c(best.begin(), best.begin() + s.a); c.insert(c.end(), best.begin() + s.b, best.end());
				if(tryit(c)) { again = progress = true; break; }
			}
		}
		// 2. delete blocks of choices
		for(size_t w : {16, 8, 4, 2, 1})
			for(size_t i = 0; i + w <= best.size() && left();) {
				if(best.size() > 3000) break;
				std::vector<uint32_t> c(best.begin(), best.begin() + i); c.insert(c.end(), best.begin() + i + w, best.end());
				if(tryit(c)) progress = true; else i += w;
			}
		// 3. zero, then lower values
		for(size_t w : {32, 8, 1})
		for(size_t i = 0; i < best.size() && left(); i += w) {
			bool nz = false; for(size_t j = i; j < std::min(i + w, best.size()); j++) nz |= best[j] != 0;
			if(!nz) continue;
			std::vector<uint32_t> c = best; for(size_t j = i; j < std::min(i + w, best.size()); j++) c[j] = 0;
			if(tryit(c)) { progress = true; continue; }
			if(w == 1) { uint32_t lo = 0; 
				for(int k = 0; k < 8 && i < best.size() && lo + 1 < best[i] && left(); k++) {
					uint32_t mid = lo + (best[i] - lo) / 2; c = best; c[i] = mid;
					if(tryit(c)) progress = true; else lo = mid;
				} }
		}
	}
	// final form
	if(!attempt(best, cls, used, nullptr)) { fprintf(stderr, "minimize: final form does not reproduce\n"); return 5; }
	FILE* f = fopen(outfile, "w"); if(!f) { perror(outfile); return 3; }
	fprintf(f, "# minimised from %zu to %zu choices in %d attempts\nseed: %llu\nclass: %s\nmessage: %s\nhash: %016llx\nchoices:", orig, best.size(), tries, (unsigned long long)seed, cls.c_str(), cls == sh->cls ? sh->msg : "", (unsigned long long)sh->hash);
	for(auto c : best) fprintf(f, " %u", c);
	fprintf(f, "\n"); fclose(f);
	return 0;
}

static int main_(int argc, char** argv) {
	std::string mode = argc > 1 ? argv[1] : "";
	std::map<std::string, std::string> o;
	for(int i = 2; i + 1 < argc; i += 2) o[argv[i] + 2] = argv[i + 1];
	std::string prop = o["prop"];
	for(Scenario* s = scen_head; s; s = s->next) if(prop == s->id) scen = s;
	if(!scen) { fprintf(stderr, "no scenario %s\n", prop.c_str()); return 3; }
	thorough = o["tier"] == "thorough";
	trace_out = stdout;
	map_shared(o["shared"].c_str());
	take_snapshot();
	world_init();
	if(mode == "run") {
		uint64_t base = strtoull(o["seed"].c_str(), 0, 10), from = strtoull(o["from"].c_str(), 0, 10), step = strtoull(o["step"].c_str(), 0, 10), to = strtoull(o["to"].c_str(), 0, 10);
		double secs = atof(o["secs"].c_str());
		std::unordered_set<uint64_t> hashes; uint64_t runs = 0, nontriv = 0, tot_steps = 0, tot_events = 0; int64_t simns = 0; uint64_t detlog = 0; uint64_t tot_ch = 0; 
		std::unordered_set<uint64_t> inter;
		auto t0 = std::chrono::steady_clock::now();
		FILE* hl = o.count("hashlog") ? fopen(o["hashlog"].c_str(), "w") : nullptr;
		uint64_t i; bool bad = false; bool timeup = false;
		for(i = from; i < to; i += step) {
			sh->run_index = i;
			uint64_t f0 = faults_total();
			run_once(run_seed(base, scen->id, i), nullptr);
			if(sh->state == 2) { bad = true; break; }
			b_note(); runs++; tot_steps += steps; simns += world_elapsed(); tot_ch += sh->nch;
			if(faults_total() > f0 || n_switches > 1) { if(hashes.size() < 3000000 && hashes.insert(sh->hash).second) nontriv++; }
			if(inter.size() < 3000000) inter.insert(mix(interleave_hash) ^ fault_sig());
			if(hl) fprintf(hl, "%llu %016llx %u\n", (unsigned long long)i, (unsigned long long)sh->hash, sh->nch);
			detlog ^= mix(sh->hash + i);
			if((runs & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) { timeup = true; break; }
		}
		if(hl) fclose(hl);
		tot_events = n_events;
		double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		uint64_t covn = 0; for(size_t k = 0; k < COVSZ; k++) covn += __builtin_popcount(cov[k]);
		FILE* f = fopen(o["out"].c_str(), "w");
		fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"events\":%llu,\"choices\":%llu,\"sim_ns\":%lld,\"switches\":%llu,\"wall\":%.3f,\"bad\":%d,\"timeup\":%d,\"seed\":%llu,\"index\":%llu,\"class\":\"%s\",\"budget\":%.4f,\"signatures\":%zu,\"blocks\":%llu,\"faults\":{", (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)tot_steps, (unsigned long long)tot_events, (unsigned long long)tot_ch, (long long)simns, (unsigned long long)total_switches, wall, bad, timeup, (unsigned long long)sh->seed, (unsigned long long)sh->run_index, sh->cls, b_max, inter.size(), (unsigned long long)covn);
		print_fault_stats(f);
		fprintf(f, "},\"probes\":{");
		const char* sep = ""; for(auto& p : probes) { fprintf(f, "%s\"%s\":%llu", sep, p.first.c_str(), (unsigned long long)p.second); sep = ","; }
		fprintf(f, "},\"calls\":{"); print_call_stats(f);
		fprintf(f, "}}\n"); fclose(f);
		FILE* h = fopen((o["out"] + ".hashes").c_str(), "w"); for(auto x : hashes) fwrite(&x, 8, 1, h); fclose(h);
		FILE* cv = fopen((o["out"] + ".cov").c_str(), "w"); for(size_t k = 0; k < COVSZ; k++) for(int b = 0; b < 8; b++) if(cov[k] >> b & 1) { uint64_t a = k * 8 + b + (uintptr_t)&__executable_start; fwrite(&a, 8, 1, cv); } fclose(cv);
		return bad ? 1 : 0;
	}
	if(mode == "dump") { // print the shared record of a finished or crashed run as a replay file
		std::string cls = o.count("class") ? o["class"] : sh->cls;
		FILE* f = fopen(o["out"].c_str(), "w");
		fprintf(f, "seed: %llu\nclass: %s\nmessage: %s\nhash: %016llx\nchoices:", (unsigned long long)sh->seed, cls.c_str(), sh->msg, (unsigned long long)sh->hash);
		for(uint32_t i = 0; i < std::min(sh->nch, MAXCH); i++) fprintf(f, " %u", sh->ch[i]);
		fprintf(f, "\n"); fclose(f); return 0;
	}
	if(mode == "seed") { // one run from its index
		uint64_t base = strtoull(o["seed"].c_str(), 0, 10), i = strtoull(o["index"].c_str(), 0, 10);
		tracing = o["trace"] == "1"; sh->run_index = i;
		run_once(run_seed(base, scen->id, i), nullptr);
		printf("%s hash=%016llx class=%s %s\n", sh->state == 2 ? "FAIL" : "OK", (unsigned long long)sh->hash, sh->cls, sh->msg);
		return sh->state == 2 ? 1 : 0;
	}
	if(mode == "replay") {
		std::string cls; uint64_t seed; std::vector<uint32_t> v = read_choices(o["file"].c_str(), &cls, &seed);
		tracing = o["trace"] != "0";
		setvbuf(stdout, 0, _IOLBF, 0);
		run_once(0, &v);
		printf("%s hash=%016llx class=%s %s\n", sh->state == 2 ? "FAIL" : "OK", (unsigned long long)sh->hash, sh->cls, sh->msg);
		return sh->state == 2 ? 1 : 0;
	}
	if(mode == "minimize") return minimize(o["file"].c_str(), o["out"].c_str(), atof(o["secs"].c_str()));
	return 3;
}
}
int main(int argc, char** argv) { return sim::main_(argc, argv); }
