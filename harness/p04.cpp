#include "lh.hpp"
#include <Lintel/Deque.hpp>
#include <deque>
using namespace mc;
typedef Deque<Tok> D;
static void verifyFast(D &d, const std::deque<int> &m) {
    MC_EQ(d.size(), m.size(), ""); MC_EQ(d.empty(), m.empty(), ""); MC_REQ(d.capacity() >= m.size(), "capacity");
    if (!m.empty()) { MC_EQ(d.front().v, m.front(), "front"); MC_EQ(d.back().v, m.back(), "back"); d.front().check("front"); d.back().check("back"); }
    for (size_t i = 0; i < m.size(); i++) { d.at(i).check("at"); MC_EQ(d.at(i).v, m[i], "at " << i); }
    size_t n = 0; for (D::iterator i = d.begin(); i != d.end(); ++i, ++n) { MC_REQ(n < m.size(), "iteration too long"); (*i).check("iterated"); MC_EQ((*i).v, m[n], "iterator " << n); MC_EQ(i->v, m[n], "->"); }
    MC_EQ(n, m.size(), "iteration");
    MC_EQ(Tok::nlive, (long)m.size(), "live elements");
}
static void verifyIter(D &d, const std::deque<int> &m) {
    long n = m.size(); std::vector<D::iterator> its; D::iterator x = d.begin(); for (long i = 0; i <= n; i++) { its.push_back(x); if (i < n) x++; }
    MC_REQ(its[n] == d.end(), "end"); MC_REQ((n == 0) == (d.begin() == d.end()), "");
    D::iterator y = d.end(); for (long i = n; i-- > 0;) { D::iterator z = y--; MC_REQ(z == its[i + 1], "post-decrement"); MC_REQ(y == its[i], "decrement"); MC_EQ((*y).v, m[i], ""); D::iterator w = its[i + 1]; MC_REQ(--w == its[i], "pre-decrement"); }
    for (long i = 0; i <= n; i++) for (long j = 0; j <= n; j++) {
        D::iterator a = its[i], b = its[j];
        MC_EQ(a == b, i == j, i << "," << j); MC_EQ(a != b, i != j, i << "," << j); MC_EQ(a < b, i < j, i << "," << j); MC_EQ(a > b, i > j, i << "," << j); MC_EQ(a <= b, i <= j, i << "," << j); MC_EQ(a >= b, i >= j, i << "," << j);
        MC_EQ((long)(b - a), j - i, "distance " << i << "," << j);
        MC_REQ(a + (j - i) == b, "it+" << (j - i) << " from " << i); MC_REQ(a - (i - j) == b, "it-" << (i - j) << " from " << i);
        D::iterator c = a; c += j - i; MC_REQ(c == b, "it+=" << (j - i) << " from " << i); c = a; c -= i - j; MC_REQ(c == b, "it-=" << (i - j) << " from " << i);
        if (j < n) { MC_EQ((*(a + (j - i))).v, m[j], ""); c = a; MC_EQ((c += (j - i))->v, m[j], ""); }
        c = a; if (i < n) { D::iterator q = c++; MC_REQ(q == a && c == its[i + 1], "post-increment"); }
    }
}
static std::string key(D &d, const std::deque<int> &m) { std::string s = std::to_string(d.capacity()) + ":"; for (int v : m) s += std::to_string(v) + ","; return s; }
// every (capacity, offset, size) ring position, then every operation sequence
static void ring(const std::vector<int> &caps, int depth) {
    Tok::reset();
    { int cap = pick(caps); int off = choose(cap + 1), n = choose(cap + 1);
    note("capacity %d offset %d size %d", cap, off, n);
    D d(cap + 1); std::deque<int> m; int v = 1;
    MC_EQ(d.capacity(), (size_t)cap, "");
    for (int i = 0; i < off; i++) { d.push_back(Tok(60)); d.pop_front(); }
    for (int i = 0; i < n; i++) { d.push_back(Tok(v)); m.push_back(v); v++; }
    verifyFast(d, m); verifyIter(d, m);
    for (int s = 0; s < depth; s++) {
        switch (choose(9)) {
            case 0: { note("push_back(%d)", v); d.push_back(Tok(v)); m.push_back(v); v++; break; }
            case 1: { if (m.empty()) throw Prune(); note("pop_front"); d.pop_front(); m.pop_front(); break; }
            case 2: { int k = cap - (int)m.size() % (cap + 1) + choose(2); note("push %d", k); for (int i = 0; i < k; i++) { d.push_back(Tok(v)); m.push_back(v); v++; } break; }
            case 3: { if (m.size() < 2) throw Prune(); note("pop all but one"); while (m.size() > 1) { d.pop_front(); m.pop_front(); } break; }
            case 4: { note("clear"); d.clear(); m.clear(); break; }
            case 5: { std::vector<Tok> t; for (int i = 0; i < 3; i++) { t.push_back(Tok(v)); m.push_back(v); v++; } note("push_back(vector of 3)"); d.push_back(t); break; }
            case 6: { int ns = 1 + choose(3) * 2; if (!m.empty()) { bool th = false; try { d.reserve(ns); } catch (AssertBoostException &) { th = true; } MC_EQ(th, true, "reserve on non-empty is refused"); note("reserve refused"); }
                      else { note("reserve(%d)", ns); d.reserve(ns); MC_EQ(d.capacity(), (size_t)ns, ""); } break; }
            case 7: { if (m.empty()) throw Prune(); int which = choose(2); note("push_back(own %s)", which ? "back" : "front"); int e = which ? m.back() : m.front(); d.push_back(which ? d.back() : d.front()); m.push_back(e); break; }
            case 8: { if (m.empty()) throw Prune(); note("write through iterator and at()"); *(d.begin()) = Tok(v); m.front() = v; d.at(m.size() - 1) = Tok(v + 1); m.back() = v + 1; v += 2; break; }
        }
        verifyFast(d, m); if (s == depth - 1 || m.size() < 6) verifyIter(d, m); state(key(d, m)); outcome(key(d, m));
    }
    }
    MC_EQ(Tok::nlive, 0L, "elements alive after the deque is gone");
}
// long push/pop rhythms: push a, pop b repeatedly across several growths
static void rhythm(int rounds) {
    Tok::reset();
    { int cap = 1 + choose(9), a = 1 + choose(9), b = choose(9); if (b > a) throw Prune();
    D d(cap + 1); std::deque<int> m; int v = 0; note("capacity %d push %d pop %d x%d", cap, a, b, rounds);
    for (int r = 0; r < rounds; r++) { for (int i = 0; i < a; i++) { d.push_back(Tok(v)); m.push_back(v); v++; step(); } for (int i = 0; i < b; i++) { MC_EQ(d.front().v, m.front(), ""); d.pop_front(); m.pop_front(); step(); } verifyFast(d, m); if (m.size() < 30 || r == rounds - 1) verifyIter(d, m); }
    state(key(d, m)); outcome(key(d, m)); }
    MC_EQ(Tok::nlive, 0L, "elements alive after the deque is gone");
}
static void plainDefault() { // default construction, trivially copyable elements, long life
    Deque<int> d; std::deque<int> m; MC_EQ(d.size(), (size_t)0, ""); int v = 0;
    for (int s = 0; s < 6; s++) { int op = choose(5); int k = op == 0 ? 1 : op == 1 ? 7 : op == 2 ? 100 : op == 3 ? -1 : -6;
        note("%+d", k); if (k > 0) for (int i = 0; i < k; i++) { d.push_back(v); m.push_back(v); v++; } else for (; k < 0 && !m.empty(); k++) { MC_EQ(d.front(), m.front(), ""); d.pop_front(); m.pop_front(); }
        MC_EQ(d.size(), m.size(), ""); for (size_t i = 0; i < m.size(); i++) MC_EQ(d.at(i), m[i], ""); size_t n = 0; for (Deque<int>::iterator i = d.begin(); i != d.end(); ++i) MC_EQ(*i, m[n++], ""); MC_EQ(n, m.size(), "");
        state(hashbytes(&s, 4, m.size() * 1000003 + (m.empty() ? 0 : m[0]))); }
}
// large rings: every position around 7-, 8- and 16-bit sizes, growing while the contents wrap around the end
static void large() {
    static const std::vector<size_t> N = {62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 510, 512, 1023, 1024, 1025, 32767, 32768, 65534, 65535, 65536, 65537, 131072, 200000}; size_t cap = pick(N); int oc = choose(5); size_t off = oc == 0 ? 0 : oc == 1 ? 1 : oc == 2 ? cap / 2 : oc == 3 ? cap - 1 : cap; int how = choose(3); note("capacity %zu offset %zu, growth %d", cap, off, how);
    Deque<uint64_t> d(cap + 1); std::deque<uint64_t> m; uint64_t v = 1; MC_EQ(d.capacity(), cap, "capacity"); auto push = [&] { d.push_back(v * 2654435761u); m.push_back(v * 2654435761u); v++; };
    auto verify = [&](const char *w) { MC_EQ(d.size(), m.size(), w); MC_EQ(d.empty(), m.empty(), w); MC_REQ(d.capacity() >= m.size(), w << ": capacity"); if (m.empty()) return; MC_EQ(d.front(), m.front(), w); MC_EQ(d.back(), m.back(), w); size_t i = 0; for (auto x : m) { MC_EQ(d.at(i), x, w << ": position " << i); i++; } i = 0; auto q = m.begin(); for (Deque<uint64_t>::iterator k = d.begin(); k != d.end(); ++k, ++q) { MC_REQ(++i <= m.size(), w << ": iteration too long"); MC_EQ(*k, *q, w << ": iterated"); } MC_EQ(i, m.size(), w);
        i = m.size(); for (Deque<uint64_t>::iterator k = d.end(); i-- > 0;) { --k; MC_EQ(*k, m[i], w << ": backwards"); } long n = (long)m.size(); for (long a : {0L, 1L, n / 2, n - 1, n}) for (long b : {0L, 1L, 127L, 128L, 255L, 256L, 65535L, 65536L, n / 2, n - 1, n}) if (a >= 0 && b <= n) { auto x = d.begin() + a, y = d.begin() + b; MC_EQ((long)(y - x), b - a, w << ": distance"); MC_REQ(x + (b - a) == y && y - (b - a) == x, w << ": iterator arithmetic"); MC_EQ(x < y, a < b, w); MC_EQ(x == y, a == b, w); if (b < n) MC_EQ(*y, m[b], w << ": " << b << " from the front"); } };
    for (size_t i = 0; i < off; i++) { d.push_back(7); d.pop_front(); } for (size_t i = 0; i < cap; i++) push(); MC_EQ(d.capacity(), cap, "filling does not grow"); verify("full");
    if (how == 0) push(); else if (how == 1) { std::vector<uint64_t> t; for (int i = 0; i < 300; i++) { t.push_back(v * 2654435761u); m.push_back(v * 2654435761u); v++; } d.push_back(t); } else { for (size_t i = 0; i < cap; i++) push(); } verify("grown");
    size_t k = m.size() / 3 * 2; for (size_t i = 0; i < k; i++) { MC_EQ(d.front(), m.front(), "popped"); d.pop_front(); m.pop_front(); } for (size_t i = 0; i < k; i++) push(); verify("wrapped again"); if (how == 2) { d.clear(); m.clear(); verify("cleared"); push(); verify("after clearing"); } state(cap * 15 + oc * 3 + how); }
std::vector<Config> configs() {
    bool T = thorough();
    return {{"ring", [=] { ring({1, 2, 3, 4, 5, 6, 7, 8}, T ? 4 : 3); }, "every capacity 1..8, every ring offset and fill, then every operation sequence; all iterator pairs checked"},
            {"deep", [=] { ring({1, 2, 3}, T ? 6 : 4); }, "capacities 1..3, longer operation sequences"},
            {"rhythm", [=] { rhythm(T ? 60 : 25); }, "push a pop b repeatedly from every small capacity"}, {"large", [] { large(); }, "capacities around powers of two to 200000, five offsets, three ways to grow"}, {"default", [] { plainDefault(); }, "default-constructed deque of int"}};
}
LH_MAIN
