// The simulated operating system: allocator, files, descriptors, pipes,
// processes, clocks, randomness.  Library code reaches it because its object
// files have malloc, read, ... renamed to sim_malloc, sim_read, ... after
// compilation; harness code calls the same functions or the helpers below.
#pragma once
#include "core.hpp"
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <array>

namespace sim {

// ---------------------------------------------------------------- faults
enum Fault {
	F_ALLOC, F_SHORT_READ, F_READ_EIO, F_READ_EINTR, F_SHORT_WRITE, F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_EINTR,
	F_OPEN_EIO, F_OPEN_EMFILE, F_OPEN_EINTR, F_STAT_EIO, F_LSEEK_EIO, F_CLOSE_EIO, F_MKDIR_ERR, F_MKDIR_RACE, F_PIPE_EMFILE,
	F_FA_ENOMEM, F_SPAWN_ERR, F_FORK_EAGAIN, F_SETSID_ERR, F_DUP_ERR, F_WAIT_EINTR, F_SLEEP_EINTR, F_OVERSLEEP,
	F_CLOCK_STEP, F_MMAP_ENOMEM, F_MPROTECT_ERR, F_GLOB_NOSPACE, F_GLOB_ABORTED, F_OPENDIR_ERR, F_CRASH,
	F_TRUNCATED, F_APPENDED, F_RAND_REPEAT, F_FSYNC_EIO, F_N
};
extern const char* fault_name[F_N];
void arm(Fault k, uint32_t den);               // per call of the affected kind: 1/den
void storm(Fault k, uint32_t n);                 // the next n opportunities all fail, with certainty
void arm_some(std::initializer_list<Fault> ks); // swarm: each kind on/off and at a rate drawn for this run
void disarm_all();
bool inject(Fault k);                           // decide, count, log
void note_fault(Fault k);                       // count a fault the scenario performs itself
struct NoFaults { NoFaults(); ~NoFaults(); };   // harness's own calls of the simulated system
typedef std::array<uint32_t, F_N> FaultCount;
FaultCount fsnap();                             // faults that hit the current task so far
bool fired(const FaultCount& since, std::initializer_list<Fault> ks);
bool fired_any(const FaultCount& since);
uint64_t faults_total(); uint64_t fault_sig();
void print_fault_stats(FILE*); void print_call_stats(FILE*);

// ---------------------------------------------------------------- heap
size_t live_blocks(); size_t live_bytes();
bool is_live(const void* p); size_t live_size(const void* p);
uint64_t alloc_count(); extern bool huge_ok;         // a request above 1 GiB counts as a failing allocation
void set_fill(unsigned char c);                 // what fresh memory contains
struct HeapMark { size_t blocks; std::set<void*> set; };
HeapMark heap_mark();                           // later: which blocks were added
void heap_expect_same(const HeapMark& m, const char* cls, const char* what);

// ---------------------------------------------------------------- files
enum { K_REG, K_DIR, K_NULL };
extern char *zero_from, *zero_to; // memory known to be zero already, not written again when zeros are read into it
struct Inode { int kind; std::string data; std::map<std::string, std::shared_ptr<Inode>> ents; unsigned mode; uint64_t ino; int64_t mtime; uint64_t created_by; size_t min_size, max_size; int deny = 0; /* error of every attempt to create something in this directory */ uint64_t hole = 0; /* that many zero bytes before data */ const char* expect = nullptr; uint64_t sunk = 0; bool sink_bad = false; /* what is written is compared with expect, not kept */ };
typedef std::shared_ptr<Inode> InodeP;
struct Pipe { std::string buf; size_t cap; int readers, writers; uint64_t moved; };
struct OpenFile { int kind; /*0 inode 1 pipe-read 2 pipe-write*/ InodeP ino; std::shared_ptr<Pipe> pipe; off_t off; int flags; std::string path; ~OpenFile(); };
struct FdEnt { std::shared_ptr<OpenFile> of; bool cloexec; };
struct Process {
	int pid, ppid, sid; std::map<int, FdEnt> fds; int limit; bool alive, zombie, reaped; int status; mode_t umask_; std::string cwd; int task; std::vector<std::string> argv, env; bool leader; bool ignores_sigchld = false; // its children are never zombies
	std::map<int, std::string> at_exec; // snapshot of fds at exec, for oracles
};
InodeP vfs_lookup(const std::string& path);
InodeP vfs_mkfile(const std::string& path, const std::string& data);
InodeP vfs_mkdir(const std::string& path, unsigned mode = 0755);
size_t open_fds(Process* p);
std::string fd_list(Process* p);
extern size_t pipe_cap; extern size_t disk_free; // bytes until ENOSPC
extern std::function<void(const char*)> on_syscall; // invariant hook, after each system call took effect
extern std::function<void(int, const void*, size_t)> on_null_write; // what went to the null device
extern bool sys_yield;                          // system calls are preemption points

// ---------------------------------------------------------------- processes
typedef std::function<int(Process*)> Program;   // body of a simulated child; returns its exit code, or
static const int KILLED_BY = 256;               // KILLED_BY + the wait status of a child that a signal ended
void add_program(const std::string& name, Program p);
Process* proc_by_pid(int pid);
size_t n_children(Process* parent, bool zombies_only);
std::vector<Process*>& all_procs();
[[noreturn]] void proc_exit(int status);
Process* new_process(Process* parent);
struct ForkRec { bool child_side; int pid; };
extern std::vector<ForkRec> forks;
extern std::function<void(int)> on_exit_hook;   // called by exit() before the task ends
size_t live_file_actions();
size_t live_globs();

// ---------------------------------------------------------------- clocks
int64_t world_now(); void world_advance_to(int64_t); int64_t world_elapsed();
int64_t wall_ns();
void set_wall(int64_t ns);
extern int64_t tick_max;                        // every clock read advances time by 0..tick_max
extern int64_t injected_delay;                  // total oversleep injected
extern uint64_t n_sleeps, n_sleep_calls;
extern std::function<void()> on_clock_read;
extern uint32_t rand_range;                     // restrict random numbers to [0,rand_range) (0: no), to make collisions likely

// ---------------------------------------------------------------- mappings
struct Mapping { size_t len; int prot; };
struct PageRange { uintptr_t lo, hi; int prot; bool operator==(const PageRange& o) const { return lo == o.lo && hi == o.hi && prot == o.prot; } };
std::vector<PageRange> page_ranges();           // what the library has mapped, in order, neighbours joined
bool pages_have(uintptr_t lo, uintptr_t hi, int prot);
extern size_t alloc_max;                        // requests of more bytes fail
extern size_t mmap_max;                         // larger mappings fail

// ---------------------------------------------------------------- life cycle
void world_reset(); void world_init(); Process* world_root_process(); void world_end_of_run(); void world_free_leftovers();
}

extern "C" {
void* sim_malloc(size_t); void sim_free(void*); void* sim_calloc(size_t, size_t); void* sim_realloc(void*, size_t);
char* sim_strdup(const char*);
int sim_open(const char*, int, ...); ssize_t sim_read(int, void*, size_t); ssize_t sim_write(int, const void*, size_t); int sim_close(int); off_t sim_lseek(int, off_t, int);
int sim_stat(const char*, struct stat*); int sim_mkdir(const char*, mode_t); int sim_pipe(int*);
}
