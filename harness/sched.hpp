// E2: controlled scheduler. Threads of the code under test become coroutines; every pthread operation (and, where asked, every
// conflicting memory access or single machine instruction) is a scheduling decision drawn from mc::choose.
#pragma once
#include "mc.hpp"
#include <functional>
#include <pthread.h>
namespace sched {
struct Opt {
    int preempt = 2;            // preemption bound
    bool race_fail = true;      // a data race (by happens-before) is a violation
    bool mem_points = false;    // discovered conflicting accesses are scheduling points
    int spurious = 0;           // spurious condition wakeups allowed per run
    uint32_t maxpoints = 20000;
};
struct Stats { uint64_t points, switches; };
void run(const Opt &, const std::function<void()> &main);    // from an mc body; throws mc::Violation
int spawn(const std::function<void()> &);                      // inside run
void join(int);
int self();                                                    // coroutine number (0 main), -1 outside
void point(const char *what);                                  // explicit scheduling point
void yield();
int npreempt();
uint64_t vclock_ns();                                          // virtual real-time clock
void set_vclock_ns(uint64_t);
bool is_live(int);                                             // coroutine has not finished
// instruction-level exploration of accesses to one shared word placed at the start of step_page(): between begin and end every
// instruction touching it is a scheduling point, and unlocked read-modify-write instructions are split into load and store
void *step_page();
void step_region(void *p, size_t n);
void step_begin(); void step_end();
// run body under all sync-level schedules with bound 1 (up to max executions) and collect code locations of conflicting accesses
void discover(const std::function<void()> &body, const Opt &o, int max = 300);
size_t discovered();
void init();                                                   // once, before run_main
}
