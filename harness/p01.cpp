#include "lh.hpp"
#include <Lintel/HashMap.hpp>
#include <Lintel/HashUnique.hpp>
using namespace mc;

struct HIdent { uint32_t operator()(const int k) const { return (uint32_t)k; } };
struct HConst { uint32_t operator()(const int) const { return 7; } };
struct HPar { uint32_t operator()(const int k) const { return (uint32_t)(k & 1) + 0xfffffff0u; } };
struct HBig { uint32_t operator()(const int k) const { return (uint32_t)k * 2654435761u; } };

// ---- int-keyed maps with tracked values
template <class H> struct MapM {
    typedef HashMap<int, Tok, H> Map;
    typedef std::map<int, int> Model;
    static void verify(Map &m, const Model &mod, const char *which) {
        const Map &cm = m;
        MC_EQ((size_t)cm.size(), mod.size(), which);
        MC_EQ(cm.empty(), mod.empty(), which);
        static const int probe[] = {-1, 0, 1, 2, 3, 4, 5, 23, 100, 105, 99999};
        auto look = [&](int k) {
            auto it = mod.find(k); bool in = it != mod.end();
            Tok *p = m.lookup(k); const Tok *cp = cm.lookup(k);
            MC_REQ((p != nullptr) == in, which << " key " << k); MC_REQ((cp != nullptr) == in, which << " key " << k);
            MC_EQ(cm.exists(k), in, which << " key " << k);
            if (in) { MC_EQ(p->v, it->second, which << " key " << k); MC_EQ(cp->v, it->second, which << " key " << k);
                p->check("looked up"); MC_EQ(cm.cGet(k).v, it->second, which); MC_EQ(cm.dGet(k).v, it->second, which);
                auto f = m.find(k); MC_REQ(f != m.end(), which); MC_EQ(f->first, k, which); MC_EQ(f->second.v, it->second, which);
                auto cf = cm.find(k); MC_REQ(cf != cm.end(), which); MC_EQ(cf->second.v, it->second, which); }
            else { MC_EQ(cm.dGet(k).v, 0, which << " default"); MC_REQ(m.find(k) == m.end(), which << " key " << k); MC_REQ(cm.find(k) == cm.end(), which << " key " << k); }
        };
        for (int k : probe) look(k);
        for (auto &kv : mod) look(kv.first);
        Model seen; size_t n = 0;
        for (typename Map::iterator i = m.begin(); i != m.end(); ++i) { MC_REQ(++n <= mod.size(), which << " iteration too long"); seen[i->first] = i->second.v; }
        MC_REQ(seen == mod && n == mod.size(), which << " iteration differs");
        n = 0; for (typename Map::const_iterator i = cm.begin(); i != cm.end(); i++) { MC_REQ(++n <= mod.size(), which << " const iteration too long"); auto f = mod.find(i->first); MC_REQ(f != mod.end() && f->second == i->second.v, which); }
        MC_EQ(n, mod.size(), which);
        std::vector<int> ks = cm.keys(); std::sort(ks.begin(), ks.end()); std::vector<int> ek; for (auto &kv : mod) ek.push_back(kv.first);
        MC_REQ(ks == ek, which << " keys()");
        m.getHashTable().verifyFreeListSize();
        Stats st; m.chainLengthStats(st); MC_EQ((size_t)st.total(), mod.size(), which << " chain lengths");
    }
    static void body(const std::vector<int> &prefills, bool holes, int depth, int nkeys, bool two) {
        {
        Tok::reset();
        Map a; Map *b = new Map(); Model ma, mb; int nextv = 1; bool fresh = true;
        int pf = pick(prefills);
        if (pf < 0) { note("a(target chain length %g)", pf == -1 ? 1.0 : 0.5); a = Map(pf == -1 ? 1.0 : 0.5); pf = 0; }
        if (pf) { note("prefill %d", pf); fresh = false; for (int i = 0; i < pf; i++) { a[100 + i] = Tok(40); ma[100 + i] = 40; } }
        if (holes && pf) {
            int h = choose(4);
            std::vector<int> rm;
            if (h == 1) rm = {0}; if (h == 2) rm = {pf - 1, 0}; if (h == 3) for (int i = 0; i < pf; i += 2) rm.push_back(i);
            for (int i : rm) { a.remove(100 + i); ma.erase(100 + i); }
            note("holes pattern %d", h);
        }
        for (int s = 0; s < depth; s++) {
            // 0..nkeys-1: put; ..: remove; then specials
            int nops = 2 * nkeys + 6 + (two ? 5 : 0);
            int op = choose(nops);
            if (op < nkeys) { int v = nextv++; note("a[%d]=%d", op, v); fresh = false; a[op] = Tok(v); ma[op] = v; }
            else if ((op -= nkeys) < nkeys) { note("a.remove(%d)", op); bool r = a.remove(op, false); bool e = ma.erase(op) > 0; MC_EQ(r, e, "remove result"); }
            else switch (op - nkeys) {
                case 0: { note("a[0] (default if absent)"); fresh = false; Tok &t = a[0]; if (!ma.count(0)) ma[0] = 0; MC_EQ(t.v, ma[0], "indexed access"); break; }
                case 1: { note("a.addUnlessExist(1)"); bool r = a.addUnlessExist(1); bool e = !ma.count(1); if (e) { ma[1] = 0; fresh = false; } MC_EQ(r, e, "addUnlessExist"); break; }
                case 2: { note("a.clear()"); a.clear(); ma.clear(); fresh = true; break; }
                case 3: { if (!fresh) throw Prune(); static const int rs[] = {0, 1, 11, 60}; int r = rs[choose(4)]; note("a.reserve(%d)", r); a.reserve(r); break; }
                case 4: { if (ma.empty()) throw Prune(); typename Map::iterator i = a.begin(); int k = i->first; note("erase(begin) key %d", k); a.erase(i); ma.erase(k); break; }
                case 5: { if (!ma.count(2)) throw Prune(); note("erase(find 2)"); a.erase(a.find(2)); ma.erase(2); break; }
                case 6: { note("b = copy of a"); delete b; b = new Map(a); mb = ma; break; }
                case 7: { note("a = b"); a = *b; ma = mb; fresh = false; break; }
                case 8: { int v = nextv++; note("b[0]=%d", v); (*b)[0] = Tok(v); mb[0] = v; break; }
                case 9: { note("b.remove(1)"); MC_EQ(b->remove(1, false), mb.erase(1) > 0, "b remove"); break; }
                case 10: { note("a = a; b.clear()"); Map &r = a; a = r; b->clear(); mb.clear(); break; }
            }
            verify(a, ma, "a"); if (two) verify(*b, mb, "b");
            std::string st; for (auto &kv : ma) st += std::to_string(kv.first) + ":" + std::to_string(kv.second) + ","; st += "|"; if (two) for (auto &kv : mb) st += std::to_string(kv.first) + ":" + std::to_string(kv.second) + ",";
            state(st); outcome(st);
            // values of removed entries are released: no live token carries a value that is in neither map
            for (int v = 1; v < nextv && v < 40; v++) {
                long want = 0; for (auto &kv : ma) want += kv.second == v; for (auto &kv : mb) want += kv.second == v;
                MC_EQ(Tok::perval[v], want, "live copies of value " << v);
            }
        }
        delete b;
        }
        // only the shared default value may remain
        MC_REQ(Tok::nlive <= 1 && Tok::nlive >= 0, "elements leaked or destroyed twice: " << Tok::nlive);
    }
};
// throwing removal: must_exist
template <class H> static void mustExist() {
    HashMap<int, int, H> m; std::set<int> mod;
    for (int s = 0; s < 3; s++) {
        int op = choose(6);
        if (op < 3) { m[op] = op; mod.insert(op); note("put %d", op); continue; }
        int k = op - 3; bool threw = false, r = false; note("remove must exist %d", k);
        try { r = m.remove(k); } catch (AssertBoostException &) { threw = true; }
        MC_EQ(threw, !mod.count(k), "missing-key removal is refused"); if (!threw) { MC_EQ(r, true, ""); mod.erase(k); }
        bool t2 = false; try { m.cGet(k); } catch (AssertBoostException &) { t2 = true; } MC_EQ(t2, !mod.count(k), "const get of missing key is refused");
        MC_EQ((size_t)m.size(), mod.size(), "");
        state(hashbytes(&op, sizeof op, mod.size()));
    }
}
// ---- HashUnique with payload not part of the key
struct KP { int k, p; KP(int a = 0, int b = 0) : k(a), p(b) {} };
template <class H> struct KPH { uint32_t operator()(const KP &x) const { return H()(x.k); } };
struct KPE { bool operator()(const KP &a, const KP &b) const { return a.k == b.k; } };
template <class H> static void uniq(const std::vector<int> &prefills, int depth) {
    typedef HashUnique<KP, KPH<H>, KPE> U; typedef std::map<int, int> Model;
    U a; U *b = new U(); Model ma, mb; int nextp = 1; bool fresh = true;
    struct D { U *&b; ~D() { delete b; } } d{b};
    int pf = pick(prefills); for (int i = 0; i < pf; i++) { a.add(KP(100 + i, 0)); ma[100 + i] = 0; fresh = false; } if (pf) note("prefill %d", pf);
    auto verify = [&](U &u, const Model &m, const char *w) {
        const U &cu = u; MC_EQ((size_t)cu.size(), m.size(), w);
        for (int k = -1; k < 4; k++) MC_EQ(cu.exists(KP(k, 999)), m.count(k) > 0, w << " key " << k);
        Model seen; size_t n = 0; for (typename U::iterator i = u.begin(); i != u.end(); ++i) { MC_REQ(++n <= m.size(), w); seen[i->k] = i->p; }
        MC_REQ(n == m.size() && seen == m, w << " contents");
        n = 0; for (typename U::const_iterator i = cu.begin(); i != cu.end(); ++i) { MC_REQ(++n <= m.size(), w); } MC_EQ(n, m.size(), w);
    };
    for (int s = 0; s < depth; s++) {
        int op = choose(16);
        if (op < 3) { int p = nextp++; note("a.add(%d,%d)", op, p); bool r = a.add(KP(op, p)); bool e = !ma.count(op); if (e) ma[op] = p; MC_EQ(r, e, "add result"); fresh = false; }
        else if (op < 6) { int k = op - 3, p = nextp++; note("a.addOrReplace(%d,%d)", k, p); bool r = a.addOrReplace(KP(k, p)); MC_EQ(r, ma.count(k) > 0, "addOrReplace result"); ma[k] = p; fresh = false; }
        else if (op < 9) { int k = op - 6; note("a.remove(%d)", k); a.remove(KP(k, 0), false); ma.erase(k); }
        else if (op == 9) { note("a.clear()"); a.clear(); ma.clear(); fresh = true; }
        else if (op == 10) { if (!fresh) throw Prune(); note("a.reserve(30)"); a.reserve(30); }
        else if (op == 11) { note("b=copy a"); delete b; b = new U(a); mb = ma; }
        else if (op == 12) { note("a=b"); a = *b; ma = mb; fresh = false; }
        else if (op == 13) { int p = nextp++; note("b.add(2,%d)", p); bool e = !mb.count(2); if (e) mb[2] = p; MC_EQ(b->add(KP(2, p)), e, "b.add"); }
        else if (op == 14) { note("b.remove(1)"); b->remove(KP(1), false); mb.erase(1); }
        else { if (!ma.count(1)) { bool t = false; try { a.remove(KP(1)); } catch (AssertBoostException &) { t = true; } MC_EQ(t, true, "missing-key removal is refused"); } else { a.remove(KP(1)); ma.erase(1); } note("a.remove(1) strict"); }
        verify(a, ma, "a"); verify(*b, mb, "b");
        std::string st; for (auto &kv : ma) st += std::to_string(kv.first) + ":" + std::to_string(kv.second) + ","; st += "|"; for (auto &kv : mb) st += std::to_string(kv.first) + ":" + std::to_string(kv.second) + ",";
        state(st); outcome(st);
    }
}
// ---- string keys with the library's own hash; growth through several sizes with removals in between
static void growth(int maxn) {
    // shape: grow to n, remove a pattern, grow again by m; every (n, pattern, m)
    HashMap<std::string, int> m; std::map<std::string, int> mod;
    static const int ns[] = {1, 2, 9, 10, 11, 12, 45, 46, 47, 48, 213, 214, 215, 216, 865, 866, 867, 868, 3085, 3086, 3087, 3088};
    int cnt = 0; for (int n : ns) if (n <= maxn) cnt++;
    int n = ns[choose(cnt)], pat = choose(5), extra = choose(4), second = choose(3);
    note("n=%d pattern=%d extra=%d second=%d", n, pat, extra, second);
    auto key = [](int i) { return std::string(i % 7, 'a' + i % 3) + std::to_string(i); };
    for (int i = 0; i < n; i++) { m[key(i)] = i; mod[key(i)] = i; step(); }
    auto rm = [&](int i) { bool r = m.remove(key(i), false); MC_EQ(r, mod.erase(key(i)) > 0, "remove " << i); step(); };
    if (pat == 1) for (int i = 0; i < n; i += 2) rm(i); if (pat == 2) for (int i = 0; i < n; i++) rm(i); if (pat == 3) for (int i = n; i-- > n / 2;) rm(i); if (pat == 4) { rm(0); rm(n - 1); }
    static const int ex[] = {0, 1, 13, 200};
    for (int i = 0; i < ex[extra]; i++) { m[key(100000 + i)] = i; mod[key(100000 + i)] = i; step(); }
    if (second == 1) { HashMap<std::string, int> c(m); m.clear(); for (auto &kv : mod) MC_REQ(c.lookup(kv.first) && *c.lookup(kv.first) == kv.second, "copy lost " << kv.first); MC_EQ((size_t)c.size(), mod.size(), "copy"); m = c; }
    if (second == 2) { m.clear(); mod.clear(); m.reserve(n); for (int i = 0; i < n; i++) { m[key(i)] = -i; mod[key(i)] = -i; } }
    MC_EQ((size_t)m.size(), mod.size(), "");
    for (auto &kv : mod) { int *p = m.lookup(kv.first); MC_REQ(p && *p == kv.second, "key " << kv.first); }
    MC_REQ(!m.exists("zzz") && !m.exists(""), "phantom key");
    size_t c = 0; for (auto i = m.begin(); i != m.end(); ++i) { auto f = mod.find(i->first); MC_REQ(f != mod.end() && f->second == i->second, "phantom " << i->first); MC_REQ(++c <= mod.size(), "iteration too long"); } MC_EQ(c, mod.size(), "iteration");
    state(hashbytes(&n, sizeof n, pat * 1000 + extra * 10 + second)); outcome(mod.size());
}
std::vector<Config> configs() {
        bool T = thorough(); std::vector<Config> c;
        std::string r = "all sequences of put/remove/index/addUnlessExist/clear/reserve/erase/copy/assign on two maps, every observation compared with std::map after every step";
        c.push_back({"must_exist", [] { mustExist<HIdent>(); }, "removal of missing keys"});
        c.push_back({"map_const_hash", [=] { MapM<HConst>::body({0}, false, T ? 6 : 5, 3, true); }, r});
        c.push_back({"map_ident_hash", [=] { MapM<HIdent>::body({0}, false, T ? 6 : 4, 4, true); }, r});
        c.push_back({"map_parity_hash", [=] { MapM<HPar>::body({0, -1, -2}, false, T ? 6 : 4, 3, true); }, r});
        c.push_back({"map_const_deep", [=] { MapM<HConst>::body({0}, false, T ? 8 : 6, 3, false); }, r + " (one map, deeper)"});
        c.push_back({"map_prefilled_const", [=] { MapM<HConst>::body({8, 9, 10, 11, 46}, true, T ? 5 : 3, 3, true); }, r + " from prefilled tables with holes"});
        c.push_back({"map_prefilled_ident", [=] { MapM<HIdent>::body({4, 8, 9, 10, 11, 45, 46}, true, T ? 5 : 3, 3, true); }, r + " from prefilled tables with holes"});
        c.push_back({"map_prefilled_big", [=] { MapM<HBig>::body({9, 10, 46, 213, 214}, true, T ? 4 : 3, 3, true); }, r + " from prefilled tables with holes"});
        c.push_back({"unique_const", [=] { uniq<HConst>({0}, T ? 6 : 5); }, "all HashUnique operation sequences on two sets"});
        c.push_back({"unique_par", [=] { uniq<HPar>({0, 9, 10}, T ? 6 : 4); }, "all HashUnique operation sequences on two sets"});
        c.push_back({"growth", [=] { growth(T ? 4000 : 900); }, "string keys: grow, remove a pattern, grow again, copy or clear, across every table size step"});
        return c;
}
LH_MAIN
