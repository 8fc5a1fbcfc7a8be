#include "lh.hpp"
#include "sched.hpp"
#include <Lintel/PThread.hpp>
#include <Lintel/SimpleMutex.hpp>
#include <signal.h>
using namespace mc;
static int cs, entered, done_, flag_; static std::vector<int> *q;
static void enter() { MC_EQ(cs, 0, "two threads inside the critical section"); ++cs; sched::point("inside critical section"); ++entered; --cs; }
template <class F> static bool throws(F f) { try { f(); } catch (AssertBoostException &) { return true; } return false; }
static timespec at(uint64_t ns) { timespec t; t.tv_sec = ns / 1000000000ull; t.tv_nsec = ns % 1000000000ull; return t; }
// every combination of lock / trylock / timed lock by n threads
static void mutex_body(int n, int ops, bool errorcheck) {
    PThreadMutex m(errorcheck); int expect = 0; int *ok = new int[8](); std::vector<int> ids;
    MC_EQ(m.isLocked(), false, "new mutex");
    for (int i = 0; i < n; i++) { std::vector<int> what; for (int j = 0; j < ops; j++) { what.push_back(choose(4)); } 
        ids.push_back(sched::spawn([&, i, what] { for (int w : what) {
            if (w == 0) { m.lock(); MC_EQ(m.isLocked(), true, "locked"); enter(); ++ok[i]; m.unlock(); }
            else if (w == 1) { PThreadScopedLock l(m); MC_EQ(m.isLocked(), true, "locked"); enter(); ++ok[i]; }
            else if (w == 2) { if (m.trylock()) { MC_EQ(m.isLocked(), true, "locked"); enter(); ++ok[i]; m.unlock(); } }
            else { uint64_t t = sched::vclock_ns() + 500; if (m.timedLock(at(t))) { enter(); ++ok[i]; m.unlock(); } else MC_REQ(sched::vclock_ns() >= t, "timed lock gave up early"); } } })); }
    for (int id : ids) sched::join(id);
    for (int i = 0; i < n; i++) expect += ok[i];
    MC_EQ(entered, expect, "increments under the lock"); MC_EQ(m.isLocked(), false, "free at the end"); MC_REQ(m.getContention() <= (unsigned)(n * ops), "contention count"); outcome(expect);
    if (n == 1) MC_EQ(m.getContention(), 0u, "contention without contenders");
}
static void trylock_exact() { // trylock fails exactly when somebody holds it
    PThreadMutex m; int k = choose(2); if (k) m.lock(); int id = sched::spawn([&] { bool got = m.trylock(); MC_EQ(got, !k, "trylock result"); if (got) m.unlock(); }); sched::join(id); if (k) m.unlock();
    SimpleMutex s; { SimpleScopedLock l(s); } s.lock(); s.unlock(); }
static void scoped_exceptions() {
    PThreadMutex m; int depth = choose(3);
    auto f = [&] { try { PThreadScopedLock l(m); enter(); if (depth == 0) throw std::runtime_error("x"); { PThreadScopedUnlock u(l); sched::point("unlocked inside"); if (depth == 1) throw std::runtime_error("y"); } enter(); MC_EQ(m.isLocked(), true, "relocked"); if (depth == 2) throw std::runtime_error("z"); } catch (std::runtime_error &) {} };
    int a = sched::spawn(f), b = sched::spawn(f); sched::join(a); sched::join(b); MC_EQ(m.isLocked(), false, "released by unwinding"); MC_EQ(entered, depth == 2 ? 4 : 2, "entries"); }
static void scoped_unlock_really() { // while a scoped unlock is alive another thread can take the lock, and the parent holds it again afterwards
    PThreadMutex m; PThreadMutex m2; PThreadCond c; flag_ = 0; 
    PThreadScopedLock l(m); int id; { PThreadScopedUnlock u(l); MC_EQ(m.isLocked(), false, "released while unlocked"); id = sched::spawn([&] { PThreadScopedLock k(m); enter(); }); sched::join(id); MC_EQ(entered, 1, ""); }
    MC_EQ(m.isLocked(), true, "held again"); }
static void errorchecked() { PThreadMutex m(true); m.lock(); MC_EQ(throws([&] { m.lock(); }), true, "relocking an error checking mutex is reported"); int id = sched::spawn([&] { MC_EQ(throws([&] { m.unlock(); }), true, "unlock by a thread not holding it is reported"); }); sched::join(id); m.unlock(); MC_EQ(throws([&] { m.unlock(); }), true, "double unlock is reported"); }
// producers and consumers over a queue
static void pc_body(int producers, int consumers, int items, bool bcast, bool inside) {
    PThreadMutex m; PThreadCond c; q = new std::vector<int>; std::vector<int> *got = new std::vector<int>; int total = producers * items; std::vector<int> ids; done_ = 0;
    for (int i = 0; i < consumers; i++) ids.push_back(sched::spawn([&] { PThreadScopedLock l(m); for (;;) { while (q->empty() && done_ < producers) { c.wait(m); MC_EQ(m.isLocked(), true, "wait returned without the mutex"); MC_EQ(cs, 0, "wait returned while another thread holds the mutex"); } ++cs; sched::point("consumer in section"); --cs; if (q->empty()) break; got->push_back(q->back()); q->pop_back(); } }));
    for (int i = 0; i < producers; i++) ids.push_back(sched::spawn([&, i] { for (int k = 0; k < items; k++) { { PThreadScopedLock l(m); ++cs; sched::point("producer in section"); q->push_back(i * 10 + k); --cs; if (k == items - 1) ++done_; if (inside) { if (bcast || done_ == producers) c.broadcast(); else c.signal(); } } if (!inside) { if (bcast || k == items - 1) c.broadcast(); else c.signal(); } } }));
    for (int id : ids) sched::join(id);
    std::sort(got->begin(), got->end()); MC_EQ((int)got->size(), total, "items"); for (int i = 0; i < producers; i++) for (int k = 0; k < items; k++) MC_EQ((int)std::count(got->begin(), got->end(), i * 10 + k), 1, "item delivered once");
}
static void signal_one() { // exactly one of two waiters is released per signal
    PThreadMutex m; PThreadCond c; entered = 0; done_ = 0; auto w = [&] { PThreadScopedLock l(m); ++done_; while (flag_ == 0) c.wait(m); --flag_; ++entered; };
    int a = sched::spawn(w), b = sched::spawn(w); for (int k = 0; k < 2; k++) { PThreadScopedLock l(m); ++flag_; c.signal(); } sched::join(a); sched::join(b); MC_EQ(entered, 2, "both woken"); }
static void broadcast_all() { // one broadcast releases every waiter, whether it was sent inside or outside the lock
    PThreadMutex m; PThreadCond c, up; entered = 0; flag_ = 0; done_ = 0; int n = 2 + choose(3); bool inside = choose(2); note("%d waiters, broadcast %s the lock", n, inside ? "inside" : "outside"); auto w = [&] { PThreadScopedLock l(m); ++done_; up.signal(); while (flag_ == 0) c.wait(m); ++entered; }; std::vector<int> ids; for (int i = 0; i < n; i++) ids.push_back(sched::spawn(w));
    { PThreadScopedLock l(m); while (done_ < n) up.wait(m); flag_ = 1; if (inside) c.broadcast(); } if (!inside) c.broadcast(); for (int i : ids) sched::join(i); MC_EQ(entered, n, "all woken"); }
static void timed_wait() {
    static const double secs[] = {0, 1e-9, 0.25, 0.5, 0.999999999, 1, 1.5, 3.000000001, 10.75}; double s = secs[choose(9)]; static const uint64_t frac[] = {0, 1, 500000000, 999999999}; uint64_t base = 1000000ull * 1000000000ull + frac[choose(4)]; bool sig = choose(2); note("timedWait(%.9f) starting at %llu, signaller %d", s, (unsigned long long)base, sig);
    PThreadMutex m; PThreadCond c; flag_ = 0; int id = -1; sched::set_vclock_ns(base);
    { PThreadScopedLock l(m); if (sig) id = sched::spawn([&] { PThreadScopedLock k(m); flag_ = 1; c.signal(); });
      bool to = false; while (!flag_ && !to) { uint64_t t0 = sched::vclock_ns(); to = c.timedWait(m, s); MC_EQ(m.isLocked(), true, "mutex held"); uint64_t want = t0 + (uint64_t)llround(s * 1e9);
        if (to) { MC_REQ(sched::vclock_ns() + 1 >= want, "timed out early by " << (want - sched::vclock_ns())); if (sched::vclock_ns() != t0) MC_REQ(sched::vclock_ns() <= want + 1, "slept until later than asked"); } }
      if (!sig) MC_EQ(to, true, "nobody signals: must time out"); if (!to) MC_EQ(flag_, 1, ""); outcome(to); }
    if (id >= 0) sched::join(id);
    { PThreadScopedLock l(m); timespec t = at(sched::vclock_ns() + 7); uint64_t w = sched::vclock_ns() + 7; MC_EQ(c.timedWaitAbs(m, t), true, "absolute timeout"); MC_EQ(sched::vclock_ns(), w, "absolute deadline"); }
}
struct Worker : PThread { int n = 0; int kind; void *run() override { ++n; sched::point("in run"); return (void *)(intptr_t)(100 + n); } };
struct WorkerNS : PThreadNoSignals { sigset_t seen; void *run() override { sigset_t e; sigemptyset(&e); pthread_sigmask(SIG_BLOCK, &e, &seen); return nullptr; } };
static void threads_body() {
    Worker a, b; a.start(); b.start(); int order = choose(2); void *ra, *rb; if (order) { ra = a.join(); rb = b.join(); } else { rb = b.join(); ra = a.join(); }
    MC_EQ((long)(intptr_t)ra, 101L, "result"); MC_EQ((long)(intptr_t)rb, 101L, "result"); MC_EQ(a.n, 1, "ran once");
    a.start(); MC_EQ(throws([&] { a.start(); }), true, "starting a live thread is refused"); MC_EQ((long)(intptr_t)a.join(), 102L, "restarted"); MC_EQ(throws([&] { a.join(); }), true, "joining twice is refused");
}
static void function_thread() { static int x; x = 0; PThreadFunction f([]() -> void * { x = 7; sched::point("in function"); return &x; }); sigset_t before, after; sigemptyset(&before); sigaddset(&before, SIGUSR1); pthread_sigmask(SIG_SETMASK, &before, nullptr); f.start(); pthread_sigmask(SIG_BLOCK, nullptr, &after); MC_EQ(sigismember(&after, SIGUSR1), 1, "mask kept"); MC_EQ(sigismember(&after, SIGUSR2), 0, "parent's mask restored"); MC_REQ(f.join() == (void *)&x, "result"); MC_EQ(x, 7, "ran");
    WorkerNS w; w.start(); w.join(); for (int s = 1; s < 32; s++) if (s != SIGKILL && s != SIGSTOP) MC_EQ(sigismember(&w.seen, s), 1, "signal " << s << " blocked in thread"); pthread_sigmask(SIG_BLOCK, nullptr, &after); MC_EQ(sigismember(&after, SIGUSR2), 0, "parent's mask restored"); }
static void detached() { struct D : PThread { void *run() override { PThreadScopedLock l(*m); ++*n; c->broadcast(); return nullptr; } PThreadMutex *m; PThreadCond *c; int *n; }; static PThreadMutex *m = new PThreadMutex; static PThreadCond *c = new PThreadCond; static int n; n = 0; D *d = new D, *e = new D; for (D *x : {d, e}) { x->m = m; x->c = c; x->n = &n; x->setDetached(choose(2)); } d->setDetached(true); d->start(); e->start();
    { PThreadScopedLock l(*m); while (n < 2) c->wait(*m); } MC_EQ(throws([&] { d->join(); }), true, "joining a detached thread is refused"); }
static void attrs() { Worker w; static const size_t sz[] = {65536, 262144, 8 << 20}; size_t s = sz[choose(3)]; w.setStackSize(s); MC_EQ(w.getStackSize(), s, "stack size"); size_t g = choose(3) * 4096; w.setGuardSize(g); MC_EQ(w.getGuardSize(), g, "guard size"); MC_EQ(w.getStackSize(), s, "stack size kept"); w.start(); w.kill(0); MC_EQ((long)(intptr_t)w.join(), 101L, ""); w.setDetached(true); w.setDetached(false); w.start(); MC_EQ((long)(intptr_t)w.join(), 102L, "joinable again"); }
// every nesting of ordered locks against the rule "strictly increasing"
static LockOrderingGroup *grp; static PThreadScopedOnlyMutex *om[4]; static const double lv[4] = {1, 2, 2, 3.5};
static void nest(int depth, double cur, unsigned held) {
    if (!depth) return; int k = choose(5); if (k == 4) return;
    if (held & (1u << k)) return;
    bool legal = lv[k] > cur; bool thrown = false, inner = false;
    try { PThreadScopedLock l(*om[k], *grp, lv[k]); inner = true; MC_REQ(legal, "level " << lv[k] << " taken while at " << cur); MC_EQ(om[k]->isLocked(), true, ""); MC_EQ(grp->curLevel(), lv[k], "current level");
        nest(depth - 1, lv[k], held | (1u << k)); MC_EQ(grp->curLevel(), lv[k], "level restored");
        if (depth > 1 && choose(2)) { PThreadScopedUnlock u(l); MC_EQ(grp->curLevel(), cur, "level while unlocked"); MC_EQ(om[k]->isLocked(), false, "unlocked"); nest(1, cur, held); }
        MC_EQ(grp->curLevel(), lv[k], "level after scoped unlock"); MC_EQ(om[k]->isLocked(), true, "relocked"); }
    catch (AssertBoostException &) { thrown = true; MC_REQ(!inner, "error from inside"); MC_EQ(om[k]->isLocked(), (held >> k & 1) != 0, "refused lock must not be held"); }
    MC_EQ(thrown, !legal, "order violation reported exactly when broken: level " << lv[k] << " at " << cur); MC_EQ(grp->curLevel(), cur, "level after scope"); if (!thrown) MC_EQ(om[k]->isLocked(), false, "released"); outcome(k * 100 + thrown * 10 + depth);
    if (thorough() || !held) nest(depth - 1, cur, held);
}
static void ordering_one(int depth) { grp = new LockOrderingGroup; for (int i = 0; i < 4; i++) om[i] = new PThreadScopedOnlyMutex(false); nest(depth, 0, 0); MC_EQ(grp->curLevel(), 0.0, ""); }
static void ordering_two() { // levels are per thread
    grp = new LockOrderingGroup; for (int i = 0; i < 4; i++) om[i] = new PThreadScopedOnlyMutex(false);
    auto f = [](int lo, int hi) { grp->prepare(); MC_EQ(grp->curLevel(), 0.0, "new thread starts at 0"); { PThreadScopedLock a(*om[lo], *grp, lv[lo]); sched::point("first"); PThreadScopedLock b(*om[hi], *grp, lv[hi]); enter(); MC_EQ(grp->curLevel(), lv[hi], "own level"); } MC_EQ(grp->curLevel(), 0.0, "own level at end"); };
    int a = sched::spawn([=] { f(0, 3); }), b = sched::spawn([=] { f(1, 3); }); { PThreadScopedLock l(*om[2], *grp, 2); MC_EQ(grp->curLevel(), 2.0, ""); } sched::join(a); sched::join(b); MC_EQ(entered, 2, ""); MC_EQ(grp->curLevel(), 0.0, ""); }
static int nsing; struct CountedMutex : SimpleMutex { CountedMutex() { ++nsing; } };
SIMPLE_MUTEX_SINGLETON(the_mutex)
static void singleton() { auto f = [] { SimpleScopedLock l(the_mutex()); enter(); }; int a = sched::spawn(f), b = sched::spawn(f), c = sched::spawn(f); sched::join(a); sched::join(b); sched::join(c); MC_EQ(entered, 3, ""); }
static void ncpus() { static int r[2]; auto f = [](int i) { r[i] = PThreadMisc::getNCpus(); }; int a = sched::spawn([=] { f(0); }), b = sched::spawn([=] { f(1); }); sched::join(a); sched::join(b); MC_EQ(r[0], 3, "cpus"); MC_EQ(r[1], 3, "cpus"); }
std::vector<Config> configs() {
    bool T = thorough(); std::vector<Config> v; setenv("NUMBER_OF_PROCESSORS", "3", 1);
    auto add = [&](const char *n, std::function<void()> b, int pre, const char *rule, int spurious = 0) { sched::Opt o; o.preempt = pre + (T ? 1 : 0); o.spurious = spurious; char buf[300]; snprintf(buf, sizeof buf, "%s; all schedules with at most %d preemptions, data races are violations", rule, o.preempt); v.push_back({n, [=] { sched::run(o, [=] { cs = entered = done_ = flag_ = 0; b(); }); }, buf}); };
    add("mutex2", [] { mutex_body(2, 2, false); }, 3, "2 threads x 2 operations from lock, scoped lock, trylock, timed lock");
    add("mutex2_errorcheck", [] { mutex_body(2, 2, true); }, 2, "2 threads, error checking mutex");
    add("mutex3", [] { mutex_body(3, 1, false); }, 2, "3 threads x 1 operation");
    add("trylock_exact", trylock_exact, 3, "trylock result"); add("scoped_exceptions", scoped_exceptions, 3, "exceptions leave scoped locks and unlocks"); add("scoped_unlock", scoped_unlock_really, 3, "scoped unlock"); add("errorcheck", errorchecked, 2, "misuse of error checking mutexes");
    for (int in = 0; in < 2; in++) for (int bc = 0; bc < 2; bc++) { std::string n = std::string("queue_1p1c_") + (in ? "in" : "out") + (bc ? "_bcast" : "_signal"); add(n.c_str(), [=] { pc_body(1, 1, 2, bc, in); }, 3, "one producer, one consumer, two items", 1); }
    add("queue_1p2c", [] { pc_body(1, 2, 2, false, true); }, 2, "one producer, two consumers", 1); add("queue_2p1c", [] { pc_body(2, 1, 2, false, true); }, 2, "two producers, one consumer", 1); add("queue_2p2c", [] { pc_body(2, 2, 1, true, false); }, 1, "two producers, two consumers, broadcast outside the lock");
    add("signal_one", signal_one, 3, "two waiters, two signals", 1); add("broadcast_all", broadcast_all, T ? 1 : 0, "one broadcast to two to four waiters"); add("timed_wait", timed_wait, 3, "timed waits of nine lengths from four clock readings, with and without a signaller");
    add("threads", threads_body, 3, "start, join, restart of two threads"); add("function_thread", function_thread, 2, "function threads and signal masks"); add("detached", detached, 2, "detached and joinable threads"); add("attrs", attrs, 1, "thread attributes");
    add("ordering", [T] { ordering_one(3); }, 0, "all nestings of four ordered locks (three levels) to depth 3, with sequels"); add("ordering_two", ordering_two, 3, "lock order of concurrent threads is separate"); add("singleton", singleton, 2, "three threads first-use a singleton mutex"); add("ncpus", ncpus, 3, "concurrent first query of the cpu count");
    return v;
}
int main(int argc, char **argv) { lh_init(); sched::init(); return mc::run_main(argc, argv, configs); }
