#include "lh.hpp"
#include <Lintel/HashTable.hpp>
#include <memory>
using namespace mc;
struct Ent { int k, tag; Ent(int a = -1, int b = -1) : k(a), tag(b) {} bool operator<(const Ent &o) const { return k != o.k ? k < o.k : tag < o.tag; } bool operator==(const Ent &o) const { return k == o.k && tag == o.tag; } };
struct EEq { bool operator()(const Ent &a, const Ent &b) const { return a.k == b.k; } };
template <int H> struct EH { uint32_t operator()(const Ent &e) const { return H == 0 ? (uint32_t)e.k : H == 1 ? 3u : H == 2 ? (uint32_t)(e.k & 1) : (uint32_t)e.k * 0x9e3779b1u; } };
typedef std::vector<Ent> Bag;   // sorted
static bool bagRemove(Bag &b, const Ent &e) { auto i = std::lower_bound(b.begin(), b.end(), e); if (i == b.end() || !(*i == e)) return false; b.erase(i); return true; }
static void bagAdd(Bag &b, const Ent &e) { b.insert(std::lower_bound(b.begin(), b.end(), e), e); }
static size_t countKey(const Bag &b, int k) { size_t n = 0; for (auto &e : b) n += e.k == k; return n; }

template <int H> struct M2 {
    typedef HashTable<Ent, EH<H>, EEq> T;
    static Bag contents(T &t, size_t max) { Bag b; for (typename T::iterator i = t.begin(); i != t.end(); ++i) { b.push_back(*i); MC_REQ(b.size() <= max, "iteration visits too many entries"); } std::sort(b.begin(), b.end()); return b; }
    static void verify(T &t, const Bag &m, bool full) {
        const T &ct = t;
        MC_EQ((size_t)t.size(), m.size(), ""); MC_EQ(t.empty(), m.empty(), "");
        MC_REQ(contents(t, m.size()) == m, "iteration does not give the stored entries");
        Bag b; for (typename T::const_iterator i = ct.begin(); i != ct.end(); i++) { b.push_back(*i); MC_REQ(b.size() <= m.size(), "const iteration too long"); } std::sort(b.begin(), b.end()); MC_REQ(b == m, "const iteration");
        // chain starts/ends alternate properly
        int starts = 0, ends = 0; bool expectStart = true;
        for (typename T::iterator i = t.begin(); i != t.end(); ++i) { bool s = i.atStartOfChain(), e = i.atEndOfChain(); MC_EQ(s, expectStart, "chain start"); starts += s; ends += e; expectStart = e; }
        MC_EQ(starts, ends, "chain starts and ends");
        typename T::iterator e = t.end(); MC_REQ(e.atStartOfChain() && e.atEndOfChain(), "end is at chain boundary");
        for (int k = 0; k < 3; k++) {
            size_t n = countKey(m, k); Ent *p = t.lookup(Ent(k, 77)); const Ent *cp = ct.lookup(Ent(k));
            MC_EQ(p != nullptr, n > 0, "lookup " << k); MC_EQ(cp != nullptr, n > 0, "const lookup " << k);
            if (p) { MC_REQ(std::binary_search(m.begin(), m.end(), *p), "lookup returned an entry that is not stored"); MC_EQ(p->k, k, ""); }
            typename T::iterator f = t.find(Ent(k)); MC_EQ(f != t.end(), n > 0, "find " << k);
            if (f != t.end()) { MC_REQ(f->k == k && std::binary_search(m.begin(), m.end(), *f), "find");
                // from a found position the scan continues through distinct stored entries and ends
                Bag rest; for (typename T::iterator i = f; i != t.end(); ++i) { rest.push_back(*i); MC_REQ(rest.size() <= m.size(), "scan from found entry too long"); } std::sort(rest.begin(), rest.end()); MC_REQ(std::includes(m.begin(), m.end(), rest.begin(), rest.end()), "scan from found entry"); }
        }
        t.verifyFreeListSize();
        Stats st; t.chainLengthStats(st); MC_EQ((size_t)st.total(), m.size(), "chain lengths");
        if (full) {
            if (m.empty()) { MC_REQ(t.randomlookup(0, 0) == nullptr && t.randomlookup(5, 0xffffffffu) == nullptr, "random lookup on empty"); }
            else { Bag got; uint32_t E = (uint32_t)(t.capacity() / 2) + 1, L = (uint32_t)m.size();
                for (uint32_t a = 0; a < E; a++) for (uint32_t b2 = 0; b2 < L; b2++) { Ent *p = t.randomlookup(a, b2); MC_REQ(p && std::binary_search(m.begin(), m.end(), *p), "random lookup result is not stored"); bagAdd(got, *p); }
                Ent *x = t.randomlookup(0xffffffffu, 0xffffffffu); MC_REQ(x && std::binary_search(m.begin(), m.end(), *x), "random lookup with extreme words");
                got.erase(std::unique(got.begin(), got.end()), got.end()); Bag um = m; um.erase(std::unique(um.begin(), um.end()), um.end());
                MC_REQ(got == um, "random lookup cannot reach every entry"); }
        }
    }
    // multi-entry table plus an interruptible scan
    static void body(const std::vector<int> &prefills, int depth, bool scan, bool rnd = true) {
        T t; Bag m; int tag = 1; int pf = pick(prefills);
        for (int i = 0; i < pf; i++) { t.add(Ent(100 + i, 0)); bagAdd(m, Ent(100 + i, 0)); } if (pf) note("prefill %d", pf);
        if (pf && choose(2)) { note("remove every third"); for (int i = 0; i < pf; i += 3) { t.remove(Ent(100 + i)); bagRemove(m, Ent(100 + i, 0)); } }
        typename T::iterator it = t.begin(); std::set<Ent> through(m.begin(), m.end()), seen; bool scanning = false; size_t cap = t.capacity();
        auto dropThrough = [&](const Ent &e) { through.erase(e); };
        auto observeRemoved = [&](int k) { // exactly one entry with key k went
            Bag now_ = contents(t, m.size()); Bag gone; std::set_difference(m.begin(), m.end(), now_.begin(), now_.end(), std::back_inserter(gone));
            MC_EQ(gone.size(), (size_t)1, "entries removed"); MC_EQ(gone[0].k, k, "removed key"); MC_EQ(now_.size() + 1, m.size(), ""); bagRemove(m, gone[0]); dropThrough(gone[0]); };
        for (int s = 0; s < depth; s++) {
            int op = choose(scan ? 15 : 11);
            if (op < 3) { Ent e(op, tag++); note("add(%d #%d)", e.k, e.tag); Ent *p = t.add(e); MC_REQ(p && *p == e, "add returns the stored entry"); bagAdd(m, e); }
            else if (op < 6) { int k = op - 3; size_t n = countKey(m, k); note("remove(%d)", k); bool r = t.remove(Ent(k, 55), false); MC_EQ(r, n > 0, "remove result"); if (n) observeRemoved(k); }
            else if (op < 8) { int k = op - 6; size_t n = countKey(m, k); bool rep = false; Ent e(k, tag++); note("addOrReplace(%d #%d)", k, e.tag); Ent *p = t.addOrReplace(e, rep); MC_EQ(rep, n > 0, "replaced flag"); MC_REQ(p && *p == e, "addOrReplace returns the new data");
                if (n) { Bag now_ = contents(t, m.size()); Bag gone; std::set_difference(m.begin(), m.end(), now_.begin(), now_.end(), std::back_inserter(gone)); MC_REQ(gone.size() == 1 && gone[0].k == k, "replace takes the place of one entry"); bagRemove(m, gone[0]); dropThrough(gone[0]); } bagAdd(m, e); }
            else if (op == 8) { if (m.size() < 2) throw Prune(); note("erase second in iteration, iterator already moved on");
                typename T::iterator i = t.begin(); ++i; typename T::iterator dead = i; Ent e = *dead; i++; Bag after; for (typename T::iterator j = i; j != t.end(); ++j) after.push_back(*j);
                t.erase(dead); bagRemove(m, e); dropThrough(e);
                Bag after2; for (; i != t.end(); ++i) { after2.push_back(*i); MC_REQ(after2.size() <= m.size(), "iteration after erase too long"); } MC_REQ(after == after2, "erasing the previous entry disturbed the iteration"); }
            else if (op == 9) { if (m.empty()) throw Prune(); note("erase each entry of key 0 by scanning"); 
                for (typename T::iterator i = t.begin(); i != t.end();) { typename T::iterator c = i++; if (c->k == 0) { Ent e = *c; t.erase(c); bagRemove(m, e); dropThrough(e); } } MC_EQ(countKey(m, 0), (size_t)0, "scan missed an entry"); }
            else if (op == 10) { note("clear"); t.clear(); m.clear(); through.clear(); }
            else if (op == 11) { note("reset scan"); it.reset(); MC_REQ(it == t.begin(), "reset iterator differs from begin()"); scanning = true; cap = t.capacity(); through = std::set<Ent>(m.begin(), m.end()); seen.clear(); }
            else { // scan one chain, resuming after arbitrary updates
                if (!scanning) throw Prune();
                if (t.capacity() != cap) { scanning = false; throw Prune(); }
                int chains = op - 11; note("partialReset and scan %d chain(s)", chains);
                it.partialReset(); MC_REQ(it.atStartOfChain(), "partial reset is not at a chain start");
                size_t guard = 0;
                for (int c = 0; c < chains && it != t.end(); c++) do { Ent e = *it; MC_REQ(std::binary_search(m.begin(), m.end(), e), "scan returned an entry that is not stored"); MC_REQ(seen.insert(e).second || !through.count(e), "scan visited entry twice"); ++it; MC_REQ(++guard <= m.size(), "scan too long"); } while (it != t.end() && !it.atStartOfChain());
                if (it == t.end()) { for (auto &e : through) MC_REQ(seen.count(e), "scan missed entry " << e.k << " #" << e.tag << " present throughout"); scanning = false; }
            }
            if (t.capacity() != cap) scanning = false;
            verify(t, m, rnd && s == depth - 1);
            std::string st; for (auto &e : m) st += std::to_string(e.k) + "#" + std::to_string(e.tag) + ","; state(st); outcome(st);
        }
    }
};
// many entries with duplicate keys: iteration, erasing by iterator, a scan resumed after every chain
template <int H> static void many() {
    typedef HashTable<Ent, EH<H>, EEq> T; static const std::vector<int> N = {255, 256, 257, 1000, 4095, 65535, 65536, 65537, 100000}; int n = pick(N), dup = 1 + choose(3), how = choose(3); note("%d entries, %d per key, %d", n, dup, how); T t; std::vector<char> in(n, 1), seen; for (int i = 0; i < n; i++) t.add(Ent(i / dup * 4 + 1, i));
    auto id = [&](const Ent &e) { MC_REQ(e.tag >= 0 && e.tag < n && e.k == e.tag / dup * 4 + 1, "an entry that was never stored"); return e.tag; };
    auto check = [&](const char *w) { size_t want = 0, got = 0; for (char c : in) want += c; MC_EQ((size_t)t.size(), want, w); seen.assign(n, 0); for (typename T::iterator i = t.begin(); i != t.end(); ++i) { int x = id(*i); MC_REQ(in[x], w << ": removed entry " << x << " iterated"); MC_REQ(!seen[x], w << ": entry " << x << " iterated twice"); seen[x] = 1; got++; } MC_EQ(got, want, w << ": entries iterated");
        for (int i = 0; i < n; i += dup) { bool any = false; for (int j = i; j < i + dup && j < n; j++) any |= in[j]; Ent *p = t.lookup(Ent(i / dup * 4 + 1, 0)); MC_EQ(p != nullptr, any, w << ": lookup of " << i); if (p) MC_REQ(in[id(*p)], w); } MC_REQ(!t.lookup(Ent(2, 0)) && !t.lookup(Ent(n * 4 + 1, 0)), w << ": missing key"); t.verifyFreeListSize(); };
    check("filled"); if (how == 0) { for (int i = 0; i < n; i += 3) { size_t before = t.size(); MC_REQ(t.remove(Ent(i / dup * 4 + 1, 0), false), "remove"); MC_EQ((size_t)t.size() + 1, before, "one removed"); } std::vector<char> now_(n, 0); for (typename T::iterator i = t.begin(); i != t.end(); ++i) now_[id(*i)] = 1; std::map<int, int> left; for (int i = 0; i < n; i++) left[i / dup]++; for (int i = 0; i < n; i += 3) left[i / dup]--; for (int i = 0; i < n; i++) left[i / dup] -= now_[i]; for (auto &x : left) MC_EQ(x.second, 0, "entries of key " << x.first); in = now_; check("removed"); }
    else if (how == 1) { for (typename T::iterator i = t.begin(); i != t.end();) { typename T::iterator c = i++; int x = id(*c); MC_REQ(in[x], "erased entry seen again"); if (x % 2) { t.erase(c); in[x] = 0; } } check("erased while iterating"); }
    else { typename T::iterator it = t.begin(); it.reset(); std::vector<char> vis(n, 0); size_t guard = 0; while (it != t.end()) { do { int x = id(*it); MC_REQ(!vis[x], "scan visited entry " << x << " twice"); vis[x] = 1; ++it; MC_REQ(++guard <= (size_t)n, "scan too long"); } while (it != t.end() && !it.atStartOfChain()); it.partialReset(); } MC_EQ(guard, (size_t)n, "entries scanned"); }
    for (int i = 0; i < n; i++) if (!in[i]) { t.add(Ent(i / dup * 4 + 1, i)); in[i] = 1; } check("filled again"); t.clear(); in.assign(n, 0); check("cleared"); state(n * 9 + dup * 3 + how); }
std::vector<Config> configs() {
    bool T = thorough(); std::vector<Config> c;
    std::string r = "all sequences of add/remove/addOrReplace/erase-while-iterating/clear on a table with duplicate keys, iteration, lookup, find and random lookup compared with a multiset";
    std::string rs = r + "; interleaved with an interruptible scan";
    c.push_back({"multi_ident", [=] { M2<0>::body({0}, T ? 6 : 5, false); }, r});
    c.push_back({"multi_const", [=] { M2<1>::body({0}, T ? 6 : 5, false); }, r});
    c.push_back({"random_prefilled", [=] { M2<3>::body({1, 9, 10, 46, 47}, T ? 3 : 2, false); }, r});
    c.push_back({"random_prefilled_parity", [=] { M2<2>::body({1, 9, 10, 46, 47}, T ? 3 : 2, false); }, r});
    c.push_back({"multi_parity_prefilled", [=] { M2<2>::body({1, 8, 9, 10}, T ? 5 : 4, false, false); }, r});
    c.push_back({"multi_mult_prefilled", [=] { M2<3>::body({1, 9, 10, 46}, T ? 5 : 4, false, false); }, r});
    c.push_back({"scan_ident", [=] { M2<0>::body({3, 6, 12}, T ? 6 : 4, true, false); }, rs});
    c.push_back({"scan_const", [=] { M2<1>::body({4}, T ? 6 : 5, true, false); }, rs});
    c.push_back({"scan_parity", [=] { M2<2>::body({5, 12}, T ? 6 : 4, true, false); }, rs});
    c.push_back({"many_ident", [] { many<0>(); }, "up to 100000 entries, one to three per key: removal, erasing by iterator, resumed scans"}); c.push_back({"many_mult", [] { many<3>(); }, "the same, keys spread"});
    return c;
}
LH_MAIN
