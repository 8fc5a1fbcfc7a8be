// a virtual machine's clocks: the cycle counter, the time of day and sleeping, all driven by one true time
#pragma once
#include "lh.hpp"
#include <sys/time.h>
#include <sys/select.h>
#include <sys/syscall.h>
namespace world {
    struct Ev { char kind; uint64_t v; };     // 'c' counter read -> value, 't' time of day -> microseconds
    inline bool on = false; inline uint64_t t = 0;                 // true time in cycles
    inline double rate = 2000; inline uint64_t ccCost = 40, todCost = 100; inline int64_t offset = 0; inline uint64_t todJump = 0, base = 1300000000ull * 1000000, quantum = 1;
    inline uint64_t ops = 0, lastcc = 0, ntod = 0; inline std::vector<Ev> log; inline bool logging = false; inline std::function<void(char)> hook; inline uint64_t jit = 0;
    inline uint64_t jitter() { if (!jit) return 0; jit = jit * 6364136223846793005ull + 1442695040888963407ull; return (jit >> 40) % 23; }
    inline void __attribute__((noinline)) before(char k) { ++ops; if (hook) hook(k); }
    inline uint64_t tod() { before('t'); t += todCost + jitter(); ++ntod; uint64_t us = base + todJump + (uint64_t)((long double)t / rate) / quantum * quantum; if (logging) log.push_back({'t', us}); return us; }
    inline uint64_t cc() { before('c'); t += ccCost + (jit ? jitter() / 3 : 0); lastcc = t + offset; if (logging) log.push_back({'c', lastcc}); return lastcc; }
    inline void sleepUs(double us) { t += (uint64_t)(us * rate); }
}
extern "C" {
__attribute__((noinline)) uint64_t mc_rdtsc_c() { if (!world::on) return __builtin_ia32_rdtsc(); return world::cc(); }
int gettimeofday(struct timeval *tv, void *z) noexcept { if (!world::on) return syscall(SYS_gettimeofday, tv, z); uint64_t u = world::tod(); tv->tv_sec = u / 1000000; tv->tv_usec = u % 1000000; return 0; }
int select(int n, fd_set *a, fd_set *b, fd_set *c, struct timeval *tv) { if (!world::on) return syscall(SYS_select, n, a, b, c, tv); if (tv) world::sleepUs(tv->tv_sec * 1e6 + tv->tv_usec); return 0; }
int usleep(useconds_t u) { if (!world::on) { struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return syscall(SYS_nanosleep, &ts, 0); } world::sleepUs(u); return 0; }
#ifndef CLOCKWORLD_SCHED
int clock_gettime(clockid_t c, struct timespec *ts) noexcept { if (!world::on || c != CLOCK_REALTIME) return syscall(SYS_clock_gettime, c, ts); uint64_t u = world::tod(); ts->tv_sec = u / 1000000; ts->tv_nsec = u % 1000000 * 1000; return 0; }
int nanosleep(const struct timespec *ts, struct timespec *r) { if (!world::on) return syscall(SYS_nanosleep, ts, r); world::sleepUs(ts->tv_sec * 1e6 + ts->tv_nsec / 1e3); return 0; }
#endif
}
// keeps the vector registers, as the instruction does
asm(".text\n.globl mc_rdtsc\n.type mc_rdtsc,@function\nmc_rdtsc:\n push %rbp\n mov %rsp,%rbp\n sub $528,%rsp\n and $-64,%rsp\n fxsave (%rsp)\n call mc_rdtsc_c\n fxrstor (%rsp)\n mov %rbp,%rsp\n pop %rbp\n ret\n.size mc_rdtsc,.-mc_rdtsc\n");
