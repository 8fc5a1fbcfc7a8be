#include "lh.hpp"
#include <Lintel/PriorityQueue.hpp>
using namespace mc;
struct E { int k, tag; E(int a = -7, int b = -7) : k(a), tag(b) {} bool operator<(const E &o) const { return k != o.k ? k < o.k : tag < o.tag; } bool operator==(const E &o) const { return k == o.k && tag == o.tag; } };
struct LE { bool operator()(const E &a, const E &b) const { return a.k <= b.k; } };
struct GE { bool operator()(const E &a, const E &b) const { return a.k >= b.k; } };
struct LT { bool operator()(const E &a, const E &b) const { return a.k < b.k; } };
struct Run { int sign; Run(int s = 1) : sign(s) {} bool operator()(const E &a, const E &b) const { return sign * a.k <= sign * b.k; } };  // comparator with state
typedef std::multiset<E> Bag;
template <class C> static int best(const Bag &m, bool maxFirst) { return maxFirst ? m.rbegin()->k : m.begin()->k; }
template <class Q> static void verify(Q &q, const Bag &m, bool maxf) {
    MC_EQ((size_t)q.size(), m.size(), ""); MC_EQ(q.empty(), m.empty(), "");
    if (!m.empty()) { const Q &c = q; MC_EQ(q.top().k, best<int>(m, maxf), "top"); MC_REQ(m.count(q.top()) >= 1, "top is not one of the queued elements"); MC_REQ(&c.top() == &q.top(), "const top"); }
}
template <class Q> static void takeTop(Q &q, Bag &m, bool maxf, bool bu, std::string *order = nullptr) {
    E t = q.top(); MC_EQ(t.k, best<int>(m, maxf), "top"); auto i = m.find(t); MC_REQ(i != m.end(), "top is not queued"); m.erase(i);
    if (bu) q.pop_bottom_up_heuristic(); else q.pop(); if (order) *order += std::to_string(t.k) + ",";
    verify(q, m, maxf);
}
template <class Q> static void drain(Q &q, Bag &m, bool maxf, bool choice, bool canBu) { while (!m.empty()) { bool bu = canBu && choice && choose(2); takeTop(q, m, maxf, bu); } }
template <class C> static void seq(const std::vector<int> &sizes, int depth, int nv, bool maxf, bool canBu) {
    int is = pick(sizes); PriorityQueue<E, C> q(is); Bag m; int tag = 0; note("initial size %d", is);
    for (int s = 0; s < depth; s++) {
        int op = choose(2 * nv + (canBu ? 5 : 4));
        if (op < nv) { E e(op, tag++); note("push %d", op); q.push(e); m.insert(e); }
        else if (op == nv) { if (m.empty()) throw Prune(); note("pop"); takeTop(q, m, maxf, false); }
        else if (op <= 2 * nv) { if (m.empty()) throw Prune(); int v = op - nv - 1; E e(v, tag++); note("replaceTop %d", v); auto i = m.find(q.top()); MC_REQ(i != m.end(), "top not queued"); m.erase(i); q.replaceTop(e); m.insert(e); }
        else if (op == 2 * nv + 1) { if (m.empty()) throw Prune(); note("push(top())"); E e = q.top(); q.push(q.top()); m.insert(e); 
            // two equal copies now: give the bag distinguishable handling by counting
            MC_EQ((size_t)q.size(), m.size(), ""); while (!m.empty()) { E t = q.top(); auto i = m.find(t); MC_REQ(i != m.end(), "top not queued"); MC_EQ(t.k, best<int>(m, maxf), "top"); m.erase(i); q.pop(); } }
        else if (op == 2 * nv + 2) { note("clear"); q.clear(); m.clear(); }
        else if (op == 2 * nv + 3) { if (!m.empty()) throw Prune(); int r = choose(3); note("reserve %d", r); q.reserve(r); }
        else { if (m.empty()) throw Prune(); note("pop_bottom_up"); takeTop(q, m, maxf, true); }
        verify(q, m, maxf);
        Bag c; for (E *p = q.PQ_Begin(); p != q.PQ_End(); ++p) c.insert(*p); MC_REQ(c == m, "stored elements differ");
        std::string st; for (auto &e : m) st += std::to_string(e.k) + "#" + std::to_string(e.tag) + ","; state(st);
    }
    std::string o; while (!m.empty()) takeTop(q, m, maxf, false, &o); outcome(o);
}
template <class C> static void allOrders(int n, int nvals, bool maxf, bool perm, bool repl, bool canBu) {
    PriorityQueue<E, C> q(1 + choose(2) * 15); Bag m; std::vector<int> left; for (int i = 0; i < n; i++) left.push_back(i);
    std::string o; for (int i = 0; i < n; i++) { int v; if (perm) { int j = choose((int)left.size()); v = left[j]; left.erase(left.begin() + j); } else v = choose(nvals); E e(v, i); q.push(e); m.insert(e); o += std::to_string(v) + ","; verify(q, m, maxf); step(); }
    note("pushed %s", o.c_str());
    if (repl) { int v = choose(n + 1) * 2 - 1; E e(v, 99); note("replaceTop %d", v); m.erase(m.find(q.top())); q.replaceTop(e); m.insert(e); verify(q, m, maxf); }
    state(o); drain(q, m, maxf, !repl, canBu); outcome(o);
}
// values that are elements of the queue itself: pushed again, used to replace the top, or the top changed in place and put back
template <class C> static void selfref(int depth, int nv, bool maxf, bool canBu) {
    PriorityQueue<E, C> q(choose(2) ? 4 : 1); Bag m; int tag = 0;
    for (int s = 0; s < depth; s++) {
        int op = choose(nv + 4); if (op >= nv && m.empty()) throw Prune();
        if (op < nv) { E e(op, tag++); note("push %d", op); q.push(e); m.insert(e); }
        else if (op == nv) { note("pop"); takeTop(q, m, maxf, canBu && (s & 1)); }
        else { int i = op == nv + 1 ? 0 : choose((int)m.size()); E e = q.PQ_Begin()[i];
            if (op == nv + 2) { note("push of element %d", i); q.push(q.PQ_Begin()[i]); m.insert(e); }
            else { m.erase(m.find(q.top())); if (op == nv + 1) { e = E(choose(2 * nv + 1) - 1, tag++); note("top changed to %d, replaceTop(top())", e.k); q.top() = e; } else note("replaceTop of element %d", i); q.replaceTop(q.PQ_Begin()[i]); m.insert(e); } }
        verify(q, m, maxf); Bag c; for (E *p = q.PQ_Begin(); p != q.PQ_End(); ++p) c.insert(*p); MC_REQ(c == m, "stored elements differ");
        std::string st; for (auto &e : m) st += std::to_string(e.k) + "#" + std::to_string(e.tag) + ","; state(st);
    }
    drain(q, m, maxf, false, canBu);
}
// growth: macro pushes far past several reallocations, in several arrival patterns
template <class T> static void grow(const std::vector<int> &ns) {
    int n = pick(ns), pat = choose(5), ctor = choose(4); PriorityQueue<T> *q = ctor == 0 ? new PriorityQueue<T>() : new PriorityQueue<T>(ctor == 1 ? 1 : ctor == 2 ? 0 : 7); std::unique_ptr<PriorityQueue<T>> hold(q);
    note("n=%d pattern=%d ctor=%d", n, pat, ctor); std::multiset<long> m;
    for (long i = 0; i < n; i++) { long v = pat == 0 ? i : pat == 1 ? n - i : pat == 2 ? (i * 7919) % n : pat == 3 ? i % 3 : (i & 1 ? i : -i); q->push(T(v)); m.insert(v); if (i % 97 == 0) MC_EQ((long)q->top(), *m.rbegin(), ""); if (pat == 4 && i % 5 == 4) { q->pop(); m.erase(std::prev(m.end())); } step(); }
    MC_EQ((size_t)q->size(), m.size(), ""); bool bu = choose(2); size_t k = 0;
    while (!m.empty()) { MC_EQ((long)q->top(), *m.rbegin(), "after " << k << " pops"); if (k % 10 == 3) { long v = *m.begin() - 1; m.erase(std::prev(m.end())); m.insert(v); q->replaceTop(T(v)); if (k > 4 * (size_t)n) break; } else { if (bu && k % 2) q->pop_bottom_up_heuristic(); else q->pop(); m.erase(std::prev(m.end())); } ++k; step(); }
    if (m.empty()) MC_REQ(q->empty(), ""); state(hashbytes(&n, 4, pat * 100 + ctor)); outcome(k);
}
struct Big { long v; char pad[3000]; Big(long x = 0) : v(x) {} operator long() const { return v; } bool operator<=(const Big &o) const { return v <= o.v; } };
static void selfcheck() { // the queue's own consistency check accepts every valid queue
    PriorityQueue<int> q; std::multiset<int> m; for (int s = 0; s < (thorough() ? 8 : 6); s++) { int op = choose(4); if (op < 3) { q.push(op); m.insert(op); note("push %d", op); } else { if (m.empty()) throw Prune(); q.pop(); m.erase(std::prev(m.end())); note("pop"); } q.selfVerify(); state(hashbytes(&op, 4, s)); }
}
static void stateful() { int sg = choose(2) ? 1 : -1; PriorityQueue<E, Run> q(Run(sg), 1); Bag m; for (int i = 0; i < 5; i++) { E e(choose(3), i); note("push %d (sign %d)", e.k, sg); q.push(e); m.insert(e); verify(q, m, sg > 0); state(hashbytes(&e, sizeof e)); } drain(q, m, sg > 0, true, true); }
std::vector<Config> configs() {
    bool T = thorough(); std::string r = "all sequences of push/pop/bottom-up pop/replaceTop/clear/reserve with identified elements against a multiset";
    return {{"seq_le", [=] { seq<LE>({1, 3}, T ? 7 : 6, 3, true, true); }, r}, {"seq_ge", [=] { seq<GE>({0, 1, 4}, T ? 6 : 5, 3, false, true); }, r}, {"seq_lt", [=] { seq<LT>({1, 2}, T ? 6 : 5, 3, true, false); }, r + " (strict comparator)"},
            {"perm_drain", [=] { allOrders<LE>(T ? 7 : 6, 0, true, true, false, true); }, "all insertion orders of n distinct values, drained with every mix of pop kinds"},
            {"perm_replace", [=] { allOrders<LE>(T ? 9 : 8, 0, true, true, true, true); }, "all insertion orders of n distinct values, then every top replacement"},
            {"ties_drain", [=] { allOrders<GE>(T ? 8 : 7, 3, false, false, false, true); }, "all value sequences with ties"}, {"ties_replace", [=] { allOrders<LT>(T ? 10 : 9, 3, true, false, true, false); }, "all value sequences with ties, strict comparator"},
            {"self_le", [=] { selfref<LE>(T ? 6 : 5, 2, true, true); }, "sequences of pushes, pops and top replacements whose value is an element of the queue"}, {"self_lt", [=] { selfref<LT>(T ? 6 : 5, 2, true, false); }, "the same with a strict comparator"},
            {"grow_int", [=] { grow<long>({1, 2, 127, 128, 129, 255, 256, 257, 1025, T ? 200000 : 70000}); }, "long queues across reallocation sizes"}, {"grow_big", [=] { grow<Big>({1, 2, 3, 9, 33}); }, "elements larger than the default allocation"},
            {"selfcheck", [] { selfcheck(); }, "built-in consistency check"}, {"stateful", [] { stateful(); }, "comparator object with state"}};
}
LH_MAIN
