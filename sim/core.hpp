// Deterministic simulation core: one choice sequence = one execution.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <memory>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- choices
// Every decision of a run is one call of choose(); value 0 is always the
// simplest outcome (no fault, no switch, stop).  In search mode the values
// come from the PRNG seeded for the run, in replay mode from the replay file.
uint32_t choose(uint32_t n, const char* label);          // [0,n)
uint32_t choose_in_run(uint64_t run, uint32_t v, uint32_t n, const char* label); // v in that run of a search, 0 in all others
inline uint32_t range(uint32_t lo, uint32_t hi, const char* l) { return lo + choose(hi - lo + 1, l); }
bool chance(uint32_t num, uint32_t den, const char* label); // true with num/den, shrinks to false
bool more(uint32_t avg, const char* label);              // loop continuation, mean avg iterations
uint64_t mix(uint64_t x);
// bulk data that needs no individual shrinking: deterministic function of `key`
struct Rng { uint64_t s; explicit Rng(uint64_t k) : s(mix(k + 0x1234567)) {} uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); } uint32_t below(uint32_t n) { return n ? next() % n : 0; } };
struct Span { Span(); ~Span(); };                        // one deletable unit for the minimiser

// ---------------------------------------------------------------- log, verdict
void ev(const char* tag, int64_t a = 0, int64_t b = 0, int64_t c = 0);
void evs(const char* tag, const std::string& s, int64_t a = 0, int64_t b = 0);
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECK(cond, cls, ...) do { if(!(cond)) ::sim::fail(cls, __VA_ARGS__); } while(0)
void probe(const char* name);                            // "this rare condition was hit"
std::string show(const std::string& s, size_t max = 48);  // printable excerpt

// ---------------------------------------------------------------- tasks
struct Process;
struct Task;
int spawn(const char* name, std::function<void()> fn, Process* proc = nullptr);
void join_all();                                         // root waits for all spawned tasks
void yield_point();                                      // maybe switch task (cooperative)
void block_until(std::function<bool()> pred, const char* what);
void sleep_until(int64_t t_ns);                          // block until simulated time
[[noreturn]] void task_exit();                           // abandon the current task
Process* cur_proc();
int cur_task();
extern uint32_t switch_den;    // yield_point(): switch with 1/switch_den (0: never)
extern uint32_t preempt_max;   // preempt after 1..preempt_max basic blocks of library code (0: off)
extern uint32_t no_switch;     // inside a C library function that cannot be interrupted by a task switch
extern uint64_t n_switches;

// ---------------------------------------------------------------- progress budget
extern uint64_t steps;         // basic blocks of library code executed in this run
extern uint64_t step_limit;    // absolute value at which "no-progress" is raised
void budget(uint64_t blocks);  // step_limit = steps + blocks
void charge(uint64_t n);       // cost of a system call in blocks
#define LIB_BUDGET 400000ull

// ---------------------------------------------------------------- scenario registry
struct Scenario { const char* id; void (*run)(); Scenario* next; Scenario(const char* i, void (*r)()); };
#define SCENARIO(ID) static void scen_##ID(); static ::sim::Scenario reg_##ID(#ID, scen_##ID); static void scen_##ID()

extern bool tracing;
extern bool thorough;
}
