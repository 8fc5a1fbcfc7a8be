#include "lh.hpp"
#include <Lintel/StatsCube.hpp>
#include <Lintel/HashTupleStats.hpp>
#include <cmath>
#include <memory>
#include <map>
using namespace mc; using std::string; using std::vector; using boost::tuples::tuple; using namespace lintel;
typedef vector<int> Key; typedef vector<double> Bag; static const int ANY = -99;
template <class C> struct Put { static void to(C &c, const int *k) { c.get_head() = k[0]; Put<typename C::tail_type>::to(c.get_tail(), k + 1); } static void from(const C &c, Key &k) { k.push_back(c.get_head()); Put<typename C::tail_type>::from(c.get_tail(), k); } };
template <> struct Put<boost::tuples::null_type> { static void to(const boost::tuples::null_type &, const int *) {} static void from(const boost::tuples::null_type &, Key &) {} };
template <class T> T mk(const Key &k) { T t; Put<typename T::inherited>::to(t, k.data()); return t; }
template <class T> Key un(const T &t) { Key k; Put<typename T::inherited>::from(t, k); return k; }
template <class T> Key unAny(const tuples::BitsetAnyTuple<T> &t) { Key k = un(t.data); for (size_t i = 0; i < k.size(); i++) if (t.any[i]) k[i] = ANY; return k; }
static string show(const Key &k) { string s = "("; for (int v : k) s += (v == ANY ? string("*") : std::to_string(v)) + " "; return s + ")"; }
static bool same(const Stats &s, const Bag &b) { if (s.count() != b.size()) return false; if (b.empty()) return true; double t = 0, q = 0, mn = HUGE_VAL, mx = -HUGE_VAL; for (double v : b) { t += v; q += v * v; mn = std::min(mn, v); mx = std::max(mx, v); } return std::fabs(s.total() - t) < 1e-9 && std::fabs(s.total_sq() - q) < 1e-9 && s.min() == mn && s.max() == mx; }
static string show(const Stats &s) { std::ostringstream o; o << s.count() << " values, total " << s.total() << ", from " << s.min() << " to " << s.max(); return o.str(); }
static string show(const Bag &b) { std::ostringstream o; o << "{"; for (double v : b) o << v << " "; o << "}"; return o.str(); }
typedef std::map<Key, Bag> Ref; typedef std::map<Key, int> Seen;
static bool less(const Key &a, const Key &b) { for (size_t i = 0; i < a.size(); i++) { if (a[i] == b[i]) continue; if (a[i] == ANY) return false; if (b[i] == ANY) return true; return a[i] < b[i]; } return false; }
struct Walker { const Ref *ref; Seen seen; Key last; bool ordered, have; string what; Walker(const Ref &r, bool o, string w) : ref(&r), ordered(o), have(false), what(w) {}
    void see(const Key &k, const Stats &s) { step(); auto it = ref->find(k); MC_REQ(it != ref->end(), what << " visits " << show(k) << ", which should not be there"); MC_REQ(++seen[k] == 1, what << " visits " << show(k) << " twice"); MC_REQ(same(s, it->second), what << " at " << show(k) << " has " << show(s) << " instead of " << show(it->second)); if (ordered && have) MC_REQ(less(last, k), what << " visits " << show(k) << " after " << show(last)); last = k; have = true; }
    void end() { for (auto &p : *ref) MC_REQ(seen.count(p.first), what << " leaves out " << show(p.first)); } };
template <class T> void walkBase(const HashTupleStats<T> &h, const Ref &ref) { MC_EQ(h.size(), ref.size(), "size"); for (int o = 0; o < 2; o++) { Walker w(ref, o, o ? "ordered walk" : "walk"); auto f = [&](const T &k, Stats &s) { w.see(un(k), s); }; if (o) h.walkOrdered(f); else h.walk(f); w.end(); } }
static Ref cross(const Ref &base, size_t dim, bool zeros, vector<std::set<int>> vals) { Ref r; vector<Key> ks(1); for (size_t i = 0; i < dim; i++) { vector<Key> n; for (auto &k : ks) for (int v : vals[i]) { Key x(k); x.push_back(v); n.push_back(x); } ks.swap(n); } for (auto &k : ks) { auto it = base.find(k); r[k] = it != base.end() ? it->second : zeros ? Bag(1, 0.0) : Bag(); } return r; }
static vector<std::set<int>> coords(const Ref &base, size_t dim) { vector<std::set<int>> v(dim); for (auto &p : base) for (size_t i = 0; i < dim; i++) v[i].insert(p.first[i]); return v; }
// which: 0 any generalisation, 1 all, 2 only where a bit mask of positions is wild, 3 only some values
static bool allowed(int which, const Key &k) { bool any = false; int mask = 0; for (size_t i = 0; i < k.size(); i++) if (k[i] == ANY) { any = true; mask |= 1 << i; } if (which == 0) return any; if (which == 1) return true; if (which == 2) return mask == 1 || mask == 0; return k[0] != 1; }
static Ref cubeOf(const Ref &base, int which, size_t dim, bool mean) { Ref r; for (auto &p : base) for (int m = 0; m < 1 << dim; m++) { Key k(p.first); for (size_t i = 0; i < dim; i++) if (m >> i & 1) k[i] = ANY; if (!allowed(which, k)) continue; Bag &b = r[k]; if (mean) { double t = 0; for (double v : p.second) t += v; b.push_back(t / p.second.size()); } else b.insert(b.end(), p.second.begin(), p.second.end()); } return r; }
template <class T> void walkCube(StatsCube<T> &c, const Ref &ref) { MC_EQ(c.size(), ref.size(), "cube size"); for (int o = 0; o < 2; o++) { Walker w(ref, o, o ? "ordered cube walk" : "cube walk"); auto f = [&](const typename StatsCube<T>::MyAny &k, Stats &s) { w.see(unAny(k), s); }; if (o) c.walkOrdered(f); else c.walk(f); w.end(); } }
static void addRef(Ref &a, const Ref &b) { for (auto &p : b) { Bag &x = a[p.first]; x.insert(x.end(), p.second.begin(), p.second.end()); } }
static long live; struct CountedStats : Stats { CountedStats() { live++; } ~CountedStats() { live--; } };
template <class T> void body(int depth, int values, bool histories) {
    live = 0; { size_t dim = boost::tuples::length<T>::value; std::function<Stats *()> mkS = [] { return new CountedStats(); };
    int which = choose(4); bool mean = choose(2), ctor = choose(2); auto opt = [which](bool any, const typename StatsCube<T>::MyAny &k) { Key x = unAny(k); bool had = false; for (int v : x) had |= v == ANY; MC_EQ(any, had, "generalised flag at " << show(x)); return allowed(which, x); }; auto addf = [mean](Stats &into, const Stats &v) { if (mean) StatsCubeFns::addMean(into, v); else StatsCubeFns::addFullStats(into, v); };
    std::unique_ptr<StatsCube<T>> cp; if (ctor) cp.reset(new StatsCube<T>(opt, addf, mkS, mkS)); else if (which == 0 && !mean) cp.reset(new StatsCube<T>()); else { cp.reset(new StatsCube<T>()); cp->setOptionalCubeFn(opt); cp->setCubeStatsAddFn(addf); } StatsCube<T> &c = *cp; Ref base, cube; int serial = 0;
    auto add = [&] { Key k; for (size_t i = 0; i < dim; i++) k.push_back(choose(values)); double v = ++serial * 1.5 - 2; note("add %s %g", show(k).c_str(), v); if (serial % 3 == 0) c.base_data[mk<T>(k)].add(v); else c.add(mk<T>(k), v); base[k].push_back(v); };
    int n = choose(depth + 1); for (int i = 0; i < n; i++) add();
    if (!histories) { walkBase(c.base_data, base); int z = choose(4); if (z == 3) { Walker w(cross(base, dim, false, coords(base, dim)), false, ""); Ref cr = cross(base, dim, true, coords(base, dim)); Walker w1(cr, false, "walk with zeros"); c.base_data.walkZeros([&](const T &k, Stats &s) { w1.see(un(k), s); }, true); w1.end(); return; }
        Ref src = z == 0 ? base : cross(base, dim, z == 2, coords(base, dim)); if (mean && z == 1) return; if (z == 0) c.cube(); else if (z == 2 || choose(2)) c.zeroCube(z == 2); else { typename StatsCube<T>::HashUniqueTuple hut; c.base_data.fillHashUniqueTuple(hut); c.zeroCube(c.base_data, hut, false); } note("cube %d", z); cube = cubeOf(src, which, dim, mean); walkCube(c, cube); walkBase(c.base_data, base); state(dim * 1000 + which * 100 + z * 10 + mean); string st; for (auto &p : cube) st += show(p.first) + show(p.second); state(st); if (z != 2 && !mean) { typename StatsCube<T>::MyAny all; all.any.set(); Bag b; for (auto &p : src) b.insert(b.end(), p.second.begin(), p.second.end()); if (which < 2) { Stats &s = c.getCubeEntry(all); MC_REQ(same(s, b), "total entry has " << show(s) << " instead of " << show(b)); } } }
    else { int ops = 1 + choose(3); for (int o = 0; o < ops; o++) { int op = choose(6); note("operation %d", op); switch (op) {
            case 0: c.cube(); addRef(cube, cubeOf(base, which, dim, mean)); break;
            case 1: { int pos = choose(dim), val = choose(values); auto f = [&](const T &k) { return un(k)[pos] == val; }; c.base_data.prune(f); for (auto it = base.begin(); it != base.end();) if (it->first[pos] == val) it = base.erase(it); else ++it; break; }
            case 2: { int pos = choose(dim), val = choose(2) ? ANY : 0; c.prune([&](const typename StatsCube<T>::MyAny &k) { return unAny(k)[pos] == val; }); for (auto it = cube.begin(); it != cube.end();) if (it->first[pos] == val) it = cube.erase(it); else ++it; break; }
            case 3: c.clear(false); cube.clear(); break;
            case 4: c.clear(); base.clear(); cube.clear(); break;
            case 5: add(); break; } walkBase(c.base_data, base); walkCube(c, cube); string st; for (auto &p : cube) st += show(p.first) + show(p.second); for (auto &p : base) st += show(p.first); state(st); } }
    } MC_EQ(live, 0l, "statistics left over"); }
// walking only chosen coordinate values
template <class T> void chosen(int depth) { size_t dim = boost::tuples::length<T>::value; HashTupleStats<T> h; Ref base; int n = choose(depth + 1); for (int i = 0; i < n; i++) { Key k; for (size_t d = 0; d < dim; d++) k.push_back(choose(2)); h.add(mk<T>(k), i + 1); base[k].push_back(i + 1); } HashTupleStats<T> sel; vector<std::set<int>> vals(dim); int m = 1 + choose(2); for (int i = 0; i < m; i++) { Key k; for (size_t d = 0; d < dim; d++) { k.push_back(choose(3)); vals[d].insert(k[d]); } sel.add(mk<T>(k), 1); } typename HashTupleStats<T>::HashUniqueTuple hut; sel.fillHashUniqueTuple(hut); bool z = choose(2); Ref r = cross(base, dim, z, vals); Walker w(r, false, "walk over chosen values"); h.walkZeros([&](const T &k, Stats &s) { w.see(un(k), s); }, hut, z); w.end(); state(n * 10 + m); }
// many entries pruned
static void prunemany() { typedef tuple<int, int> T; int n = 1 + choose(150), mod = 1 + choose(7), r = choose(mod); HashTupleStats<T> h; Ref base; for (int i = 0; i < n; i++) { Key k{i % 13, i * 7}; h.add(mk<T>(k), i); base[k].push_back(i); } int calls = 0; h.prune([&](const T &k) { calls++; int s = 0; for (int v : un(k)) s += v; return s % mod == r; }); for (auto it = base.begin(); it != base.end();) if ((it->first[0] + it->first[1]) % mod == r) it = base.erase(it); else ++it; walkBase(h, base); state(n * 100 + mod * 10 + r); }
typedef tuple<int> T1; typedef tuple<int, int> T2; typedef tuple<int, int, int> T3; typedef tuple<int, int, int, int> T4;
vector<Config> configs() {
    bool T = thorough(); vector<Config> v; auto add = [&](string n, std::function<void()> b, const char *r) { v.push_back({n, b, r}); }; const char *r = "all addition sequences over the key domain, plain, zero-filled and counted cubes, four rules for which generalisations to keep, combining all values or means", *h = "all histories of additions, cubing, pruning of base and cube, clearing";
    add("one", [T] { body<T1>(T ? 6 : 5, 3, false); }, r); add("two", [T] { body<T2>(T ? 5 : 3, T ? 2 : 3, false); }, r); add("three", [T] { body<T3>(T ? 4 : 3, 2, false); }, r); add("four", [T] { body<T4>(2, 2, false); }, r); if (T) add("two_wide", [] { body<T2>(4, 3, false); }, r);
    add("history_one", [T] { body<T1>(T ? 4 : 3, 3, true); }, h); add("history_two", [T] { body<T2>(T ? 3 : 2, 2, true); }, h); if (T) add("history_three", [] { body<T3>(2, 2, true); }, h);
    add("chosen", [T] { chosen<T2>(T ? 4 : 3); }, "all tables and chosen coordinate values, including unused ones"); add("prune_many", prunemany, "up to 150 entries, all residue classes of up to 7 pruned");
    return v; }
LH_MAIN
