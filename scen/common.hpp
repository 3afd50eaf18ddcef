#pragma once
#include "sys.hpp"
#include "ulz.hpp"
#include <algorithm>
#include <dlfcn.h>
#include <sys/mman.h>
#include <unistd.h>
#include <sys/syscall.h>
using namespace sim;

// sizes biased to boundaries; 0 is the simplest
inline size_t gen_size(std::initializer_list<size_t> marks, size_t small, const char* l = "size") {
	uint32_t k = choose(3 + (marks.size() ? 1 : 0), l);
	if(k == 0) return choose(8, "tiny");
	if(k < 3) return choose(small + 1, "small");
	size_t m = *(marks.begin() + choose(marks.size(), "mark"));
	uint32_t d = choose(5, "delta"); // m-2..m+2
	long v = (long)m + (long)d - 2; return v < 0 ? 0 : v;
}
inline std::string gen_data(size_t n, uint32_t alphabet /*0: all bytes*/) {
	Rng r(choose(1u << 20, "content")); std::string s(n, 0);
	for(size_t i = 0; i < n; i++) s[i] = alphabet ? (char)('a' + r.below(alphabet)) : (char)r.below(256);
	return s;
}
inline std::string sp_str(stringptr* s) { return s && s->ptr ? std::string(s->ptr, s->size) : std::string(); }
// heap copy with ASan red zones directly around it
struct Buf { char* p; size_t n; explicit Buf(size_t n) : p(new char[n ? n : 1]), n(n) { memset(p, 0x5A, n); } Buf(const std::string& s) : Buf(s.size() + 1) { memcpy(p, s.data(), s.size()); p[s.size()] = 0; } Buf(const Buf&) = delete; ~Buf() { delete[] p; } std::string str(size_t k) { return std::string(p, k); } };
// the library compiled without instrumentation, for streams of gigabytes
#ifdef BUILD_DIR
inline void* fast(const char* name) { static void* h; if(!h) h = dlopen(BUILD_DIR "/fast.so", RTLD_NOW | RTLD_LOCAL); void* f = h ? dlsym(h, name) : nullptr; if(!f) abort(); return f; }
#define FAST(f) ((decltype(&::f))fast(#f))
// that code does not charge the step budget; a call that uses a minute of processor time is taken for one that never ends
#include <signal.h>
#include <sys/time.h>
inline bool cpu_armed;
inline void cpu_set(long secs) { struct itimerval v = {}; v.it_value.tv_sec = secs; cpu_armed = secs; syscall(SYS_setitimer, ITIMER_VIRTUAL, &v, 0); }
struct CpuLimit { explicit CpuLimit(long secs = 60) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_flags = SA_NODEFER; sa.sa_handler = [](int) { cpu_armed = false; fail("no-progress", "a call used a minute of processor time without finishing"); }; sigaction(SIGVTALRM, &sa, 0); cpu_set(secs); } ~CpuLimit() { cpu_set(0); } };
#endif
inline const char* pattern() { // 4 GiB + 16 MiB of address space showing one 16 MiB piece of memory over and over
	static char* base; if(base) return base; // (plain system calls: the library functions of these names are the simulator's)
	const size_t piece = 1 << 24, n = 257; int fd = syscall(SYS_memfd_create, "pattern", 0); if(fd < 0 || syscall(SYS_ftruncate, fd, piece)) abort();
	char* b = (char*)syscall(SYS_mmap, 0, piece * n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(b == MAP_FAILED) abort();
	for(size_t i = 0; i < n; i++) if((void*)syscall(SYS_mmap, b + i * piece, piece, PROT_READ | (i ? 0 : PROT_WRITE), MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
	for(uint32_t i = 0; i < piece; i++) b[i] = (char)((uint32_t)((i & 0xfffff) * 2654435761u) >> 24);
	syscall(SYS_mprotect, b, piece, PROT_READ); syscall(SYS_close, fd); return base = b;
}
