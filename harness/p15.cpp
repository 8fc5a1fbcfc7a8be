#include "lh.hpp"
#include <Lintel/Stats.hpp>
#include <Lintel/StatsRW.hpp>
#include <Lintel/StatsMaker.hpp>
#include <Lintel/StatsSeriesGroup.hpp>
#include <cmath>
#include <cfloat>
#include <memory>
using namespace mc; using std::string; using std::vector;
typedef vector<double> Bag;
static bool near(double a, double b, double tol) { return a == b || std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
static string show(const Bag &b) { std::ostringstream o; o << "{"; for (size_t i = 0; i < b.size() && i < 24; i++) o << b[i] << " "; o << "}"; return o.str(); }
struct Ref { double n, sum, sq, mean, var, mn, mx; };
static Ref refOf(const Bag &b) { Ref r = {(double)b.size(), 0, 0, 0, 0, HUGE_VAL, -HUGE_VAL}; for (double v : b) { r.sum += v; r.sq += v * v; r.mn = std::min(r.mn, v); r.mx = std::max(r.mx, v); } if (b.size()) { r.mean = r.sum / r.n; for (double v : b) r.var += (v - r.mean) * (v - r.mean); r.var /= r.n; } return r; }
// the number that follows a word of a printed report; NaN if the word is not there
static double word(const string &t, const string &w) { size_t p = t.find(w + " "); size_t e = t.find(w + "="); if (p == string::npos && e == string::npos) return NAN; return strtod(t.c_str() + (p == string::npos ? e : p) + w.size() + 1, 0); }
static void printed(const Stats &s, const Ref &r, const char *what) {
    std::ostringstream a, b, c, d; s.printRome(choose(1), a); s.printTabular(2, b); s.printText(c); d << s; MC_EQ(c.str(), d.str(), "stream output"); string all[3] = {a.str(), b.str(), c.str()};
    for (int k = 0; k < 3; k++) { string &t = all[k]; auto w = [&](const char *nm, double v) { double g = word(t, nm); MC_REQ(near(g, v, 1e-4), what << ": printed " << nm << " is " << g << ", not " << v << " in " << t); }; w("count", r.n); if (r.n) { w("min", r.mn); w("max", r.mx); w("mean", r.mean); w("stddev", std::sqrt(r.var)); if (k < 2) { w("variance", r.var); w("total", r.sum); w("total_sq", r.sq); w("conf95", 1.96 * std::sqrt(r.var) / std::sqrt(r.n)); } } }
    string t = s.debugString(); MC_REQ(near(word(t, "count"), r.n, 0), t); if (r.n) MC_REQ(near(word(t, "mean"), r.mean, 1e-4) && near(word(t, "stddev"), std::sqrt(r.var), 1e-4) && near(word(t, "var"), r.var, 1e-4) && near(word(t, "min"), r.mn, 1e-4) && near(word(t, "max"), r.mx, 1e-4), what << ": " << t); }
static void same(const Stats &s, const Bag &b, const char *what, bool print = false) {
    Ref r = refOf(b); MC_EQ(s.count(), (unsigned long)b.size(), what << " count of " << show(b)); MC_EQ(s.countll(), (unsigned long long)b.size(), what << " count of " << show(b)); MC_REQ(near(s.total(), r.sum, 1e-12), what << " total " << s.total() << " of " << show(b)); MC_REQ(near(s.total_sq(), r.sq, 1e-12), what << " total of squares " << s.total_sq() << " of " << show(b));
    MC_EQ(s.min(), r.mn, what << " minimum of " << show(b)); MC_EQ(s.max(), r.mx, what << " maximum of " << show(b)); MC_REQ(near(s.mean(), r.mean, 1e-12), what << " mean " << s.mean() << " of " << show(b)); MC_REQ(std::fabs(s.variance() - r.var) <= 1e-11 * (1 + r.sq), what << " variance " << s.variance() << " instead of " << r.var << " of " << show(b)); double sd = std::sqrt(r.var);
    MC_REQ(std::fabs(s.stddev() - sd) <= 1e-5 * (1 + std::sqrt(r.sq)), what << " standard deviation " << s.stddev() << " of " << show(b)); if (b.size()) { double c = 1.96 * sd / std::sqrt(r.n); MC_REQ(near(s.conf95(), c, 1e-5), what << " confidence interval " << s.conf95() << " of " << show(b)); if (r.mean != 0) MC_REQ(near(s.relconf95(), c / r.mean, 1e-4), what << " relative confidence interval of " << show(b)); }
    if (print) printed(s, r, what); }
static const double V[] = {-2, 0.5, 3, 0, -0.25, 1048576};
// accumulators: every history of adds, merges (also with itself) and resets
static void hist(int k, int depth, int nv) {
    vector<std::unique_ptr<Stats> > s; vector<Bag> m(k); for (int i = 0; i < k; i++) s.emplace_back(new Stats);
    int n = choose(depth + 1); for (int d = 0; d < n; d++) { int i = choose(k), op = choose(nv + k + 2); if (op < nv) { if (op & 1) s[i]->addTimeSeq(V[op], 100 - d); else s[i]->add(V[op]); m[i].push_back(V[op]); note("s%d.add(%g)", i, V[op]); }
        else if (op < nv + k) { int j = op - nv; s[i]->add(*s[j]); Bag c = m[j]; m[i].insert(m[i].end(), c.begin(), c.end()); note("s%d.add(s%d)", i, j); } else if (op == nv + k) { s[i]->reset(); m[i].clear(); note("s%d.reset()", i); } else { s[i].reset(s[(i + 1) % k]->another_new()); m[i].clear(); note("s%d = s%d.another_new()", i, (i + 1) % k); }
        string st; for (auto &b : m) st += show(b); state(st); }
    for (int i = 0; i < k; i++) same(*s[i], m[i], "accumulator", true); }
// many values: every grouping of a sequence into accumulators that are merged in every order
static void grouping(int len) {
    Bag all; vector<Bag> groups(1); for (int i = 0; i < len; i++) { double v = V[choose(3)] * (1 + i % 3); all.push_back(v); groups.back().push_back(v); if (i + 1 < len && choose(2)) groups.push_back(Bag()); }
    vector<Stats> s(groups.size()); for (size_t i = 0; i < groups.size(); i++) for (double v : groups[i]) s[i].add(v); Stats fwd, bwd; for (size_t i = 0; i < s.size(); i++) fwd.add(s[i]); for (size_t i = s.size(); i-- > 0;) bwd.add(s[i]); for (size_t st = 1; st < s.size(); st *= 2) for (size_t i = 0; i + st < s.size(); i += 2 * st) s[i].add(s[i + st]);
    same(fwd, all, "merged forward"); same(bwd, all, "merged backward"); same(s[0], all, "merged pairwise"); state(show(all)); }
// extreme values and long runs
static void extreme() {
    static const double X[] = {DBL_MIN, -DBL_MIN, 4.9e-324, 1e150, -1e150, 1e-200, -3, 7}; Stats s; Bag b; int n = 1 + choose(4); for (int i = 0; i < n; i++) { double v = X[choose(8)]; s.add(v); b.push_back(v); } Ref r = refOf(b); MC_EQ(s.min(), r.mn, show(b)); MC_EQ(s.max(), r.mx, show(b)); MC_EQ(s.count(), (unsigned long)n, show(b)); MC_REQ(near(s.total(), r.sum, 1e-12), show(b)); MC_REQ(near(s.total_sq(), r.sq, 1e-12), show(b)); state(show(b)); }
static void runs() { Stats s, t; Bag b; int reps[] = {1, 2, 40, 1000}; int n = 1 + choose(3); for (int i = 0; i < n; i++) { double v = V[choose(5)]; int k = reps[choose(4)]; for (int j = 0; j < k; j++) { s.add(v); b.push_back(v); } Stats u; for (int j = 0; j < k; j++) u.add(v); t.add(u); } same(s, b, "run", true); same(t, b, "merged run"); state(show(b) + std::to_string(b.size())); }
// scaling by a power of two scales every figure exactly (also figures far from 1), and adding an accumulator to itself repeats the data
static void scaled() {
    static const double U[] = {-2, 1, 3, 0}; Bag b; int n = 1 + choose(3), e = 5 * (choose(25) - 12), k = choose(thorough() ? 50 : 42); double sc = std::ldexp(1., e); Stats s; for (int i = 0; i < n; i++) { b.push_back(U[choose(4)]); s.add(b.back() * sc); } note("%d values times 2^%d, doubled %d times", n, e, k); for (int i = 0; i < k; i++) s.add(s); Ref r = refOf(b); double m = std::ldexp(1., k), sd = std::sqrt(r.var), cf = 1.96 * sd / std::sqrt(r.n * m);
    auto eq = [&](double got, double want, double tol, const char *what) { MC_REQ(std::fabs(got - want) <= tol * std::fabs(want), what << " " << got << " instead of " << want << " of " << show(b) << " times 2^" << e << " doubled " << k << " times"); }; double w = std::max(sd, 1e-7); // a standard deviation of 0 may be off by rounding
    eq((double)s.countll(), r.n * m, 0, "count"); eq((double)s.count(), r.n * m, 0, "count"); eq(s.total(), r.sum * sc * m, 1e-12, "total"); eq(s.total_sq(), r.sq * sc * sc * m, 1e-12, "total of squares"); eq(s.mean(), r.mean * sc, 1e-12, "mean"); eq(s.min(), r.mn * sc, 0, "minimum"); eq(s.max(), r.mx * sc, 0, "maximum");
    if (sd > 0) { eq(s.variance(), r.var * sc * sc, 1e-9, "variance"); eq(s.stddev(), sd * sc, 1e-9, "standard deviation"); eq(s.conf95(), cf * sc, 1e-9, "confidence interval"); if (r.mean != 0) eq(s.relconf95(), cf / r.mean, 1e-9, "relative confidence interval"); } else MC_REQ(std::fabs(s.stddev()) <= 3 * w * sc, "standard deviation of equal values " << s.stddev());
    std::ostringstream a, t, x; s.printRome(0, a); s.printTabular(1, t); x << s; for (const string &o : {a.str(), t.str(), x.str()}) { bool txt = o == x.str(); eq(word(o, "count"), r.n * m, 1e-4, "printed count"); eq(word(o, "mean"), r.mean * sc, 1e-4, "printed mean"); eq(word(o, "min"), r.mn * sc, 1e-4, "printed minimum"); eq(word(o, "max"), r.mx * sc, 1e-4, "printed maximum"); if (sd > 0) eq(word(o, "stddev"), sd * sc, 1e-4, "printed standard deviation"); if (txt) continue; eq(word(o, "total"), r.sum * sc * m, 1e-4, "printed total"); eq(word(o, "total_sq"), r.sq * sc * sc * m, 1e-4, "printed total of squares"); if (sd > 0) { eq(word(o, "variance"), r.var * sc * sc, 1e-4, "printed variance"); eq(word(o, "conf95"), cf * sc, 1e-4, "printed confidence interval"); } }
    { string t = s.debugString(); eq(word(t, "count"), r.n * m, 1e-4, "described count"); eq(word(t, "mean"), r.mean * sc, 1e-4, "described mean"); if (sd > 0) eq(word(t, "stddev"), sd * sc, 1e-4, "described standard deviation"); } state(show(b) + std::to_string(e) + " " + std::to_string(k)); }
// ---- intervals
static void group(int depth) {
    static const double IV[] = {1, 0.5, 2.5}, DT[] = {0, 0.25, 0.5, 1, 3, 5.5}, T0[] = {0, -3, 1000.25}; double iv = IV[choose(3)], now = T0[choose(3)], first = 0; StatsSeriesGroup g("grp", iv); bool started = false; Bag all; vector<Bag> per;
    if (choose(2)) { g.setSeriesStart(now); started = true; first = now; per.assign(1, Bag()); note("start at %g, intervals of %g", now, iv); }
    int n = choose(depth + 1); for (int d = 0; d < n; d++) { int op = choose(8); if (op == 7) { g.reset(); all.clear(); per.clear(); started = false; note("reset"); } else if (op == 6) { if (!started) continue; bool f = false; try { g.addTimeSeq(1, now - 0.125); } catch (AssertBoostException &) { f = true; } MC_REQ(f, "a value from the past was accepted"); }
        else { now += DT[op]; double v = V[d % 5]; g.addTimeSeq(v, now); note("add %g at %g", v, now); if (!started) { started = true; first = now; per.assign(1, Bag()); } size_t ix = (size_t)std::floor((now - first) / iv); if (per.size() <= ix) per.resize(ix + 1); per[ix].push_back(v); all.push_back(v); }
        state(show(all) + std::to_string(per.size())); }
    same(g, all, "whole series"); MC_EQ((size_t)g.getSeriesLength(), per.size(), "intervals"); for (size_t i = 0; i < per.size(); i++) same(g.getSeriesStat(i), per[i], ("interval " + std::to_string(i)).c_str());
    for (int i : {-1, (int)per.size(), 1000}) { bool f = false; try { g.getSeriesStat(i); } catch (AssertBoostException &) { f = true; } MC_REQ(f, "interval " << i << " of " << per.size() << " accepted"); }
    std::ostringstream o; g.printRome(0, o); size_t cnt = 0; for (size_t p = 0; (p = o.str().find("{ count ", p)) != string::npos; p++) { double c = atof(o.str().c_str() + p + 8); MC_EQ(c, cnt == 0 ? (double)all.size() : (double)per[cnt - 1].size(), "printed count " << cnt << " in " << o.str()); ++cnt; } MC_EQ(cnt, per.size() + 1, "printed intervals");
    if (per.size()) { size_t i = 0; for (size_t p = 0; (p = o.str().find("interval_start ", p)) != string::npos; p++, i++) MC_REQ(near(atof(o.str().c_str() + p + 15), first + i * iv, 1e-5), "printed start of interval " << i << " in " << o.str()); MC_EQ(i, per.size(), "printed interval starts in " << o.str()); MC_REQ(near(word(o.str(), "seriesStart"), first, 1e-5) && near(word(o.str(), "seriesEnd"), now, 1e-5) && near(word(o.str(), "seriesInterval"), iv, 1e-5), "first " << first << ", last " << now << " of " << o.str()); } }
// ---- read / write / all
static void rw(int depth) {
    int have = choose(9); bool series = have == 8; Stats *p[3]; for (int i = 0; i < 3; i++) p[i] = series ? (Stats *)new StatsSeriesGroup("rw", 2) : have >> i & 1 ? new Stats : nullptr; StatsRW s(p[0], p[1], p[2]); Bag m[3]; bool only = false; double now = 5;
    int n = choose(depth + 1); for (int d = 0; d < n; d++) { int mode = choose(3); double v = V[choose(2) + 1] + d; now += choose(2) * 1.5; note("add %g as %d at %g", v, mode, now); s.add(v, mode == 0 ? StatsRW::Read : mode == 1 ? StatsRW::Write : StatsRW::All, now); if (mode == 2 && !only) { only = true; m[2].clear(); } if (mode < 2) m[mode].push_back(v); if (mode == 2 || !only) m[2].push_back(v); state(show(m[0]) + show(m[1]) + show(m[2])); }
    static const char *nm[] = {"reads", "writes", "all"}; for (int i = 0; i < 3; i++) if (p[i]) same(*p[i], m[i], nm[i]); else m[i].clear();
    if (!series) { std::ostringstream a, b; s.printRome(0, a); s.printTabular(0, b); static const char *ra[] = {"{ read {", "{ write {", "{ all {"}, *rb[] = {"read begin", "write begin", "all begin"}; bool justall = m[0].empty() && m[1].empty() && m[2].size(); for (int i = 0; i < 3; i++) { size_t x = a.str().find(justall && i == 2 ? "{ count" : ra[i]), y = b.str().find(justall && i == 2 ? "count" : rb[i]); MC_EQ(x != string::npos, m[i].size() > 0, nm[i] << " printed: " << a.str()); MC_EQ(y != string::npos, m[i].size() > 0, nm[i] << " in table: " << b.str()); if (x != string::npos) { MC_EQ(word(a.str().substr(x), "count"), (double)m[i].size(), nm[i] << " in " << a.str()); MC_REQ(near(word(a.str().substr(x), "mean"), refOf(m[i]).mean, 1e-4), nm[i] << " in " << a.str()); MC_EQ(word(b.str().substr(y), "count"), (double)m[i].size(), nm[i] << " in " << b.str()); } } } }
vector<Config> configs() {
    bool T = thorough(); vector<Config> v; auto add = [&](const char *n, std::function<void()> b, const char *r) { v.push_back({n, b, r}); };
    add("one", [T] { hist(1, T ? 6 : 5, 5); }, "all histories of one accumulator to the depth over five values"); add("two", [T] { hist(2, T ? 5 : 4, 3); }, "all histories of two accumulators with merges in every direction"); add("three", [T] { hist(3, T ? 4 : 3, 3); }, "the same over three"); add("grouping", [T] { grouping(T ? 8 : 6); }, "every grouping of every short sequence, merged in three orders"); add("extreme", extreme, "tiny and huge values"); add("scaled", scaled, "one to three values times 2^-60..2^60, doubled up to 41 (thorough 49) times by merging with itself"); add("runs", runs, "long runs of equal values"); add("intervals", [T] { group(T ? 5 : 4); }, "all timed histories over three interval lengths and starts"); add("readwrite", [T] { rw(T ? 5 : 4); }, "all histories of read, write and combined values with missing accumulators and interval groups");
    return v; }
LH_MAIN
