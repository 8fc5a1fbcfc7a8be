#include "lh.hpp"
#include "sched.hpp"
#include <climits>
#include <Lintel/AtomicCounter.hpp>
using namespace mc; using lintel::Atomic;
struct Op { int kind; long a, b; long res; bool ok; int beg, end; };
static volatile int tick_; static const int NK = 24;
static const char *nm[NK] = {"incThenFetch", "decThenFetch", "addThenFetch(3)", "isZero", "load", "store(5)", "exchange(7)", "cas(0->9)", "fetch_add(2)", "fetch_sub(3)", "fetch_or(6)", "fetch_and(5)", "fetch_xor(3)", "++x", "x++", "--x", "x--", "x+=2", "x-=1", "x|=8", "x&=3", "x^=1", "x=4", "T(x)"};
template <class T> static __attribute__((noinline)) void perform(Atomic<T> &x, Op &o) {
    long r = 0; bool ok = true; T e;
    switch (o.kind) {
        case 0: r = (long)x.incThenFetch(); break; case 1: r = (long)x.decThenFetch(); break; case 2: r = (long)x.addThenFetch(3); break; case 3: r = x.isZero(); break; case 4: r = (long)x.load(); break;
        case 5: x.store(5); break; case 6: r = (long)x.exchange(7); break; case 7: e = 0; ok = x.compare_exchange_strong(&e, 9); r = (long)e; break;
        case 8: r = (long)x.fetch_add(2); break; case 9: r = (long)x.fetch_sub(3); break; case 10: r = (long)x.fetch_or(6); break; case 11: r = (long)x.fetch_and(5); break; case 12: r = (long)x.fetch_xor(3); break;
        case 13: r = (long)++x; break; case 14: r = (long)x++; break; case 15: r = (long)--x; break; case 16: r = (long)x--; break; case 17: r = (long)(x += 2); break; case 18: r = (long)(x -= 1); break;
        case 19: r = (long)(x |= 8); break; case 20: r = (long)(x &= 3); break; case 21: r = (long)(x ^= 1); break; case 22: r = (long)(x = 4); break; case 23: r = (long)(T)x; break; }
    o.res = r; o.ok = ok;
}
template <class T> static __attribute__((noinline)) void perform_unsafe(T *p, Op &o) { // the same operations on a plain word
    namespace u = lintel::unsafe; long r = 0; bool ok = true; T e;
    switch (o.kind) { case 4: r = (long)u::atomic_load(p); break; case 5: u::atomic_store(p, 5); break; case 6: r = (long)u::atomic_exchange(p, 7); break; case 7: e = 0; ok = u::atomic_compare_exchange_strong(p, &e, 9); r = (long)e; break; case 8: r = (long)u::atomic_fetch_add(p, 2); break; case 9: r = (long)u::atomic_fetch_sub(p, 3); break; case 10: r = (long)u::atomic_fetch_or(p, 6); break; case 11: r = (long)u::atomic_fetch_and(p, 5); break; case 12: r = (long)u::atomic_fetch_xor(p, 3); break; }
    o.res = r; o.ok = ok; }
// the sequential meaning
template <class T> static void model(T &v, int kind, long &r, bool &ok) {
    ok = true; r = 0; T old = v;
    switch (kind) { case 0: case 13: v = v + 1; r = (long)v; break; case 1: case 15: v = v - 1; r = (long)v; break; case 2: v = v + 3; r = (long)v; break; case 3: r = v == 0; break; case 4: case 23: r = (long)v; break; case 5: v = 5; break; case 6: v = 7; r = (long)old; break;
        case 7: if (v == 0) { v = 9; r = 0; } else { ok = false; r = (long)v; } break; case 8: v = v + 2; r = (long)old; break; case 9: v = v - 3; r = (long)old; break; case 10: v = v | 6; r = (long)old; break; case 11: v = v & 5; r = (long)old; break; case 12: v = v ^ 3; r = (long)old; break;
        case 14: v = v + 1; r = (long)old; break; case 16: v = v - 1; r = (long)old; break; case 17: v = v + 2; r = (long)v; break; case 18: v = v - 1; r = (long)v; break; case 19: v = v | 8; r = (long)v; break; case 20: v = v & 3; r = (long)v; break; case 21: v = v ^ 1; r = (long)v; break; case 22: v = 4; r = 4; break; }
}
// does some order of all operations, respecting which finished before which began, explain results and the final value?
template <class T> static bool linearizable(const std::vector<Op> &ops, unsigned done, T v, T fin) {
    if (done == (1u << ops.size()) - 1) return v == fin;
    for (size_t i = 0; i < ops.size(); i++) if (!(done >> i & 1)) {
        bool first = true; for (size_t j = 0; j < ops.size(); j++) if (j != i && !(done >> j & 1) && ops[j].end < ops[i].beg) first = false;
        if (!first) continue; T w = v; long r; bool ok; model<T>(w, ops[i].kind, r, ok); if (r == ops[i].res && ok == ops[i].ok && linearizable(ops, done | (1u << i), w, fin)) return true; }
    return false; }
static std::vector<Op> *all; 
template <class T> static void body(const std::vector<std::vector<int>> &script, T init, bool unsafe_) {
    void *pg = sched::step_page(); Atomic<T> *x = unsafe_ ? nullptr : new (pg) Atomic<T>(init); T *plain = unsafe_ ? new (pg) T(init) : nullptr; sched::step_region(pg, sizeof(T)); sched::step_begin(); tick_ = 0;
    all = new std::vector<Op>; for (auto &t : script) for (int k : t) { Op o; o.kind = k; o.beg = o.end = 1 << 20; all->push_back(o); }
    std::vector<int> ids; int base = 0;
    for (auto &t : script) { int b = base, n = (int)t.size(); base += n; ids.push_back(sched::spawn([=] { for (int i = b; i < b + n; i++) { Op &o = (*all)[i]; o.beg = tick_ = tick_ + 1; if (unsafe_) perform_unsafe<T>(plain, o); else perform<T>(*x, o); o.end = tick_ = tick_ + 1; note("%s -> %ld", nm[o.kind], o.res); } })); }
    for (int id : ids) sched::join(id);
    sched::step_end(); T fin = unsafe_ ? *plain : x->load(); std::string d; for (auto &o : *all) d += std::string(" ") + nm[o.kind] + "=" + std::to_string(o.res);
    if (!linearizable<T>(*all, 0, init, fin)) { std::string s; for (auto &o : *all) { s += nm[o.kind]; s += ","; } fail("not linearizable: " + s, "started at " + std::to_string((long)init) + ", final " + std::to_string((long)fin) + d); }
    int zeros = 0, decs = 0; for (auto &o : *all) if (o.kind == 1) { decs++; zeros += o.res == 0; } if (decs == (int)all->size() && (long)init == decs) MC_EQ(zeros, 1, "exactly one decrement sees zero");
    uint64_t h = (uint64_t)(long)fin; for (auto &o : *all) h = mix(h ^ o.res); outcome(h);
}
template <class T> static Config pairs(const char *name, int pre, const std::vector<int> &kinds, int nthreads, int nops, const std::vector<long> &inits, bool un = false) {
    sched::Opt o; o.preempt = pre; o.race_fail = false; char buf[300]; snprintf(buf, sizeof buf, "%d threads x %d operations from %zu kinds on a %zu-byte counter; every instruction touching it is a scheduling point, unlocked read-modify-writes are split; at most %d preemptions; linearizability checked", nthreads, nops, kinds.size(), sizeof(T), pre);
    return {name, [=] { std::vector<std::vector<int>> sc(nthreads); int last = -1; for (auto &t : sc) { int w = 0; for (int i = 0; i < nops; i++) { int c = choose((int)kinds.size()); w = w * 32 + c; t.push_back(kinds[c]); } if (w < last) throw Prune(); last = w; } T init = (T)inits[choose((int)inits.size())]; sched::run(o, [=] { body<T>(sc, init, un); }); }, buf};
}
// one operation of each kind against two or three of another thread that may bring the value back to where it was
template <class T> static Config aba(const char *name, int pre, int nops, const std::vector<int> &other, const std::vector<long> &inits) {
    sched::Opt o; o.preempt = pre; o.race_fail = false; char buf[300]; snprintf(buf, sizeof buf, "one operation of every kind against every sequence of %d operations (of %zu kinds) of another thread, which can restore an earlier value in between; at most %d preemptions; linearizability checked", nops, other.size(), pre);
    return {name, [=] { std::vector<std::vector<int>> sc(2); sc[0].push_back(choose(NK)); for (int i = 0; i < nops; i++) sc[1].push_back(other[choose((int)other.size())]); T init = (T)inits[choose((int)inits.size())]; sched::run(o, [=] { body<T>(sc, init, false); }); }, buf}; }
// single-threaded: every operation on every value of the 8-bit counter and on boundary values of the others
template <class T> static void seq(const std::vector<long> &vals) { for (long v : vals) { int k = -1; (void)k; for (int kind = 0; kind < NK; kind++) { Atomic<T> x((T)v); Op o; o.kind = kind; sched::Opt so; T m = (T)v; long r; bool ok; model<T>(m, kind, r, ok);
    T e; o.ok = true; o.res = 0; switch (kind) { case 0: o.res = (long)x.incThenFetch(); break; case 1: o.res = (long)x.decThenFetch(); break; case 2: o.res = (long)x.addThenFetch(3); break; case 3: o.res = x.isZero(); break; case 4: o.res = (long)x.load(); break; case 5: x.store(5); break; case 6: o.res = (long)x.exchange(7); break; case 7: e = 0; o.ok = x.compare_exchange_strong(&e, 9); o.res = (long)e; break; case 8: o.res = (long)x.fetch_add(2); break; case 9: o.res = (long)x.fetch_sub(3); break; case 10: o.res = (long)x.fetch_or(6); break; case 11: o.res = (long)x.fetch_and(5); break; case 12: o.res = (long)x.fetch_xor(3); break; case 13: o.res = (long)++x; break; case 14: o.res = (long)x++; break; case 15: o.res = (long)--x; break; case 16: o.res = (long)x--; break; case 17: o.res = (long)(x += 2); break; case 18: o.res = (long)(x -= 1); break; case 19: o.res = (long)(x |= 8); break; case 20: o.res = (long)(x &= 3); break; case 21: o.res = (long)(x ^= 1); break; case 22: o.res = (long)(x = 4); break; case 23: o.res = (long)(T)x; break; }
    MC_EQ((T)o.res, (T)r, nm[kind] << " from " << v); MC_EQ(o.ok, ok, nm[kind]); MC_EQ((long)x.load(), (long)m, nm[kind] << " from " << v << " leaves"); step(); } } Atomic<T> d; MC_EQ((long)d.load(), 0L, "default value"); }
std::vector<Config> configs() {
    bool T = thorough(); std::vector<Config> v; std::vector<int> full, core = {0, 1, 2, 3, 5, 6, 7, 10}, un = {4, 5, 6, 7, 8, 9, 10, 11, 12}; for (int i = 0; i < NK; i++) full.push_back(i);
    std::vector<long> b8; for (int i = 0; i < 256; i++) b8.push_back(i);
    std::vector<long> bw = {0, 1, -1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647L, -2147483648L, 4294967295L, 4294967296L, LONG_MAX - 3, LONG_MIN + 3};
    v.push_back({"sequential", [=] { int w = choose(7); switch (w) { case 0: seq<uint8_t>(b8); break; case 1: seq<int8_t>(b8); break; case 2: seq<uint16_t>(bw); break; case 3: seq<unsigned>(bw); break; case 4: seq<long>(bw); break; case 5: seq<uint64_t>(bw); break; case 6: seq<short>(bw); break; } state(w); }, "every operation from every 8-bit value and boundary values of wider types"});
    v.push_back(pairs<int>("pairs_int", T ? 8 : 4, full, 2, 1, {0, 1}));
    v.push_back(pairs<uint64_t>("pairs_u64", T ? 8 : 4, full, 2, 1, {0}));
    v.push_back(pairs<uint8_t>("pairs_u8", T ? 8 : 4, full, 2, 1, {255}));
    v.push_back(pairs<int16_t>("pairs_i16", T ? 8 : 4, full, 2, 1, {0}));
    v.push_back(pairs<int>("unsafe_int", T ? 8 : 4, un, 2, 1, {0}, true));
    v.push_back(pairs<int>("two_by_two", T ? 4 : 2, T ? full : core, 2, 2, {1}));
    v.push_back(pairs<int>("incdec_2x2", T ? 8 : 4, {0, 1}, 2, 2, {2, 4}));
    v.push_back(aba<int>("restored_2", T ? 6 : 3, 2, {0, 1, 5, 6, 12, 22}, {0, 4, 5, 6}));
    if (T) v.push_back(aba<int>("restored_3", 4, 3, {0, 1, 12, 22}, {0, 6}));
    v.push_back(pairs<int>("three", T ? 6 : 3, {0, 1, 7, 10}, 3, 1, {0, 3}));
    return v;
}
int main(int argc, char **argv) { lh_init(); sched::init(); return mc::run_main(argc, argv, configs); }
