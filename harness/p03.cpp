#include "lh.hpp"
#include <Lintel/RotatingHashMap.hpp>
using namespace mc;
typedef std::map<int, int> Model;
template <int H> struct KH { uint32_t operator()(const int k) const { return H == 0 ? (uint32_t)k : 5u; } };
template <int H> static void body(const std::vector<int> &prefills, int depth, int nkeys) {
    Tok::reset();
    typedef RotatingHashMap<int, Tok, KH<H>> R;
    {
    R r; Model rec, old; int nextv = 1;
    int pf = pick(prefills); for (int i = 0; i < pf; i++) { r[100 + i] = Tok(40); rec[100 + i] = 40; } if (pf) note("prefill %d", pf);
    if (pf && choose(2)) { r.rotate(); old.swap(rec); rec.clear(); note("rotate"); }
    auto verify = [&]() {
        MC_EQ(r.size_recent(), rec.size(), ""); MC_EQ(r.size_old(), old.size(), ""); MC_EQ(r.size(), rec.size() + old.size(), ""); MC_EQ(r.empty(), rec.empty() && old.empty(), "");
        auto one = [&](int k) { MC_EQ(r.existsNoPromote(k), rec.count(k) || old.count(k), "key " << k); MC_EQ(r.exists_recent(k), rec.count(k) > 0, "key " << k); MC_EQ(r.exists_old(k), old.count(k) > 0, "key " << k); };
        for (int k = -1; k < nkeys; k++) one(k); for (auto &kv : rec) one(kv.first); for (auto &kv : old) one(kv.first);
        Model w; size_t n = 0; size_t max = rec.size() + old.size();
        r.walk([&](const int &k, Tok &v) { MC_REQ(++n <= max, "walk too long"); MC_REQ(w.insert(std::make_pair(k, v.v)).second, "walk visited key " << k << " twice"); });
        Model e = rec; e.insert(old.begin(), old.end()); MC_REQ(w == e, "walk contents differ");
        for (int v = 1; v < nextv && v < 40; v++) { long want = 0; for (auto &kv : e) want += kv.second == v; MC_EQ(Tok::perval[v], want, "live copies of value " << v); }
    };
    auto get = [&](int k) -> int * { auto i = rec.find(k); if (i != rec.end()) return &i->second; auto j = old.find(k); if (j == old.end()) return nullptr; int v = j->second; old.erase(j); return &(rec[k] = v); };
    auto handoff = [&](Model &got) { return [&](const int &k, Tok &v) { v.check("handed off"); MC_REQ(got.insert(std::make_pair(k, v.v)).second, "key " << k << " handed off twice"); }; };
    for (int s = 0; s < depth; s++) {
        int op = choose(4 * nkeys + 5);
        if (op < nkeys) { int v = nextv++; note("r[%d]=%d", op, v); Tok &t = r[op]; int *p = get(op); MC_EQ(t.v, p ? *p : 0, "indexed access"); t = Tok(v); rec[op] = v; }
        else if (op < 2 * nkeys) { int k = op - nkeys; note("lookup(%d)", k); Tok *t = r.lookup(k); int *p = get(k); MC_EQ(t != nullptr, p != nullptr, "lookup"); if (p) { MC_EQ(t->v, *p, "looked up value"); t->check("looked up"); } }
        else if (op < 3 * nkeys) { int k = op - 2 * nkeys; note("exists(%d)", k); bool b = r.exists(k); MC_EQ(b, get(k) != nullptr, "exists"); }
        else if (op < 4 * nkeys) { int k = op - 3 * nkeys; note("remove(%d)", k); bool in = rec.count(k) || old.count(k); bool b = r.remove(k, false); MC_EQ(b, in, "remove"); rec.erase(k); old.erase(k); if (!in) { bool t = false; try { r.remove(k); } catch (AssertBoostException &) { t = true; } MC_EQ(t, true, "missing-key removal is refused"); } }
        else switch (op - 4 * nkeys) {
            case 0: { note("rotate()"); r.rotate(); old.swap(rec); rec.clear(); break; }
            case 1: { note("rotate(fn)"); Model got; r.rotate(handoff(got)); MC_REQ(got == old, "rotation handed off the wrong entries"); old.swap(rec); rec.clear(); break; }
            case 2: { note("flushRotate()"); r.flushRotate(); old.clear(); rec.clear(); break; }
            case 3: { note("flushRotate(fn)"); Model got; r.flushRotate(handoff(got)); Model e = rec; e.insert(old.begin(), old.end()); MC_REQ(got == e, "flush handed off the wrong entries"); rec.clear(); old.clear(); break; }
            case 4: { note("walk and change values"); r.walk([&](const int &, Tok &v) { v = Tok(50); }); for (auto &kv : rec) kv.second = 50; for (auto &kv : old) kv.second = 50; break; }
        }
        verify();
        std::string st; for (auto &kv : rec) st += std::to_string(kv.first) + ":" + std::to_string(kv.second) + ","; st += "|"; for (auto &kv : old) st += std::to_string(kv.first) + ":" + std::to_string(kv.second) + ","; state(st); outcome(st);
    }
    }
    MC_EQ(Tok::nlive, 0L, "values leaked or destroyed twice");
}
static void strings() {
    RotatingHashMap<std::string, std::string> r; std::map<std::string, std::string> rec, old; static const char *ks[] = {"", "a", "bb"};
    for (int s = 0; s < (thorough() ? 6 : 5); s++) {
        int op = choose(7);
        if (op < 3) { std::string k = ks[op], v = "v" + std::to_string(s); note("r[%s]=%s", k.c_str(), v.c_str()); r[k] = v; old.erase(k); rec[k] = v; }
        else if (op < 6) { std::string k = ks[op - 3]; note("lookup %s", k.c_str()); std::string *p = r.lookup(k); bool in = rec.count(k) || old.count(k); MC_EQ(p != nullptr, in, ""); if (in) { if (old.count(k)) { rec[k] = old[k]; old.erase(k); } MC_EQ(*p, rec[k], ""); } }
        else { note("rotate"); r.rotate(); old = rec; rec.clear(); }
        MC_EQ(r.size_recent(), rec.size(), ""); MC_EQ(r.size_old(), old.size(), "");
        std::string st; for (auto &kv : rec) st += kv.first + ":" + kv.second + ","; st += "|"; for (auto &kv : old) st += kv.first + ":" + kv.second; state(st); outcome(st);
    }
}
// many keys: everything not used since the last rotation is handed off, everything else kept
static void many() {
    static const std::vector<int> N = {255, 256, 257, 1000, 4096, 65537}; int n = pick(N), how = choose(4), drop = choose(2); note("%d keys, kept by %d", n, how); RotatingHashMap<int, int> r; std::map<int, int> rec, old; auto check = [&](const char *w) { MC_EQ(r.size_recent(), rec.size(), w); MC_EQ(r.size_old(), old.size(), w); std::map<int, int> all(rec), got; all.insert(old.begin(), old.end()); r.walk([&](const int &k, int &v) { MC_REQ(got.insert(std::make_pair(k, v)).second, w << ": key " << k << " walked twice"); }); MC_REQ(got == all, w << ": contents"); };
    for (int i = 0; i < n; i++) { r[i * 7] = i; rec[i * 7] = i; } check("filled"); r.rotate(); old.swap(rec); check("rotated");
    for (int i = 0; i < n; i += 3) { int k = i * 7; int v = old[k]; old.erase(k); rec[k] = v; if (how == 0) MC_EQ(r[k], v, "indexed"); else if (how == 1) { int *p = r.lookup(k); MC_REQ(p && *p == v, "looked up"); } else if (how == 2) MC_REQ(r.exists(k), "exists"); else { MC_REQ(r.existsNoPromote(k), "exists"); rec.erase(k); old[k] = v; } }
    check("used"); if (drop) { for (int i = 1; i < n; i += 3) { MC_REQ(r.remove(i * 7, false), "removed"); old.erase(i * 7); } check("removed"); } MC_REQ(!r.remove(3, false) && !r.exists(3) && !r.lookup(n * 7), "missing key");
    std::map<int, int> gone; r.rotate([&](const int &k, int &v) { MC_REQ(gone.insert(std::make_pair(k, v)).second, "handed off twice"); }); MC_REQ(gone == old, "handed off " << gone.size() << " instead of " << old.size()); old.swap(rec); rec.clear(); check("second rotation"); r[1] = 2; rec[1] = 2; check("added"); gone.clear(); r.flushRotate([&](const int &k, int &v) { MC_REQ(gone.insert(std::make_pair(k, v)).second, "handed off twice"); }); rec.insert(old.begin(), old.end()); MC_REQ(gone == rec, "flush"); rec.clear(); old.clear(); check("flushed"); state(n * 8 + how * 2 + drop); }
std::vector<Config> configs() {
    bool T = thorough(); std::string r = "all sequences of index/lookup/exists/remove/rotate/flush/walk compared with two reference generations after every step";
    return {{"ident2", [=] { body<0>({0}, T ? 7 : 5, 2); }, r}, {"const3", [=] { body<1>({0}, T ? 6 : 5, 3); }, r},
            {"prefilled_ident", [=] { body<0>({9, 10, 11, 47}, T ? 4 : 3, 3); }, r}, {"prefilled_const", [=] { body<1>({3, 10, 11}, T ? 5 : 3, 3); }, r}, {"many", [] { many(); }, "up to 65537 keys, four ways to use them between rotations"}, {"strings", [] { strings(); }, "string keys and values"}};
}
LH_MAIN
