#include "lh.hpp"
#include <Lintel/StatsSequence.hpp>
#include <Lintel/StatsSeries.hpp>
#include <Lintel/StatsEMA.hpp>
#include <Lintel/StatsMaker.hpp>
#include <Lintel/StatsSeriesGroup.hpp>
#include <Lintel/StatsQuantile.hpp>
#include <cmath>
#include <memory>
using namespace mc; using std::string; using std::vector;
typedef vector<double> Bag;
static const double V[] = {-2, 0.5, 3, 0, -0.25};
static bool near(double a, double b, double tol) { return a == b || std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
static string show(const Bag &b) { std::ostringstream o; o << "{"; for (size_t i = 0; i < b.size() && i < 40; i++) o << b[i] << " "; o << "}"; return o.str(); }
static void base(const Stats &s, const Bag &b) { double t = 0, mn = HUGE_VAL, mx = -HUGE_VAL; for (double v : b) { t += v; mn = std::min(mn, v); mx = std::max(mx, v); } MC_EQ(s.count(), (unsigned long)b.size(), show(b)); MC_REQ(near(s.total(), t, 1e-12), "total of " << show(b)); MC_EQ(s.min(), mn, show(b)); MC_EQ(s.max(), mx, show(b)); if (b.size()) MC_REQ(near(s.mean(), t / b.size(), 1e-12), "mean of " << show(b)); }
// ---- sequences
static void seqcheck(StatsSequence &s, const Bag &b, size_t cap, int mode, double width) {
    base(s, b); size_t ppb = 1; while (b.size() > ppb * cap) ppb *= 2; size_t nb = b.size() / ppb; MC_EQ((size_t)s.getPointsPerBucket(), ppb, "points per bucket after " << b.size() << " values, room for " << cap); MC_EQ((size_t)s.maxSeqNum(), nb, "buckets after " << b.size() << " values, room for " << cap);
    for (size_t i = 0; i < nb; i++) { double w = mode == 2 ? -HUGE_VAL : 0; for (size_t j = 0; j < ppb; j++) { double v = b[i * ppb + j]; if (mode == 2) w = std::max(w, v); else w += v; } if (mode == 1) w /= ppb; MC_REQ(near(s.get(i), w, 1e-12), "bucket " << i << " is " << s.get(i) << " instead of " << w << ", mode " << mode << ", of " << show(b)); }
    bool f = false; try { s.get(nb); } catch (AssertBoostException &) { f = true; } MC_REQ(f, "bucket " << nb << " accepted");
    std::ostringstream o; s.printRome(0, o); string t = o.str(); size_t p = t.find("{ intervalWidth "), q = t.find("values ("); MC_REQ(p != string::npos && q != string::npos, t); MC_REQ(near(atof(t.c_str() + p + 16), width * ppb, 1e-5), t); const char *c = t.c_str() + q + 8; for (size_t i = 0; i < nb; i++) { char *e; double v = strtod(c, &e); MC_REQ(e != c && near(v, s.get(i), 1e-4), "printed bucket " << i << " in " << t); c = e; } }
static void seq(int depth, size_t mult) {
    size_t cap = 2 * (1 + choose(3)); int mode = choose(3); static const StatsSequence::mode M[] = {StatsSequence::MergeSum, StatsSequence::MergeMean, StatsSequence::MergeMax}; double width = choose(2) ? 2.5 : 1; StatsSequence s(cap, M[choose(2) ? mode : 0]); s.setMergeMode(M[mode]); s.setIntervalWidth(width); Bag b;
    int n = choose(depth + 1); for (int d = 0; d < n; d++) { int op = choose(4); if (op == 3) { s.reset(); b.clear(); note("reset"); } else for (size_t r = 0; r < mult; r++) { double v = V[op] - 4 * (mode == 2) + (double)((r * 7 + d) % 5); s.addTimeSeq(v, d); b.push_back(v); } state(show(b)); } seqcheck(s, b, cap, mode, width); }
static void seqlong() { size_t cap = 2 * (1 + choose(6)); int mode = choose(3); static const StatsSequence::mode M[] = {StatsSequence::MergeSum, StatsSequence::MergeMean, StatsSequence::MergeMax}; StatsSequence s(cap, M[mode]); Bag b; int n = thorough() ? 600 : 200; for (int i = 0; i < n; i++) { double v = mode == 2 ? -100 + (i * 37) % 53 : (i * 37) % 53 - 20; s.add(v); b.push_back(v); if (i < 80 || i % 8 < 2) seqcheck(s, b, cap, mode, 1); } state(cap * 3 + mode); }
static void seqbad() { for (int c : {0, 1, 3, 7}) { bool f = false; try { StatsSequence s(c); } catch (AssertBoostException &) { f = true; } MC_REQ(f, "room for " << c << " accepted"); } StatsSequence s(4); s.add(1); for (int i = 0; i < 2; i++) { bool f = false; try { if (i) s.setIntervalWidth(3); else s.setMergeMode(StatsSequence::MergeMax); } catch (AssertBoostException &) { f = true; } MC_REQ(f, "changed after a value"); } }
// ---- autocovariance
static void series(int depth) {
    unsigned ml = 1 + choose(4); StatsSeries s(ml); std::unique_ptr<Stats> other(s.another_new()); StatsSeries &t = dynamic_cast<StatsSeries &>(*other); StatsSeries &u = choose(2) ? t : s; Bag b; MC_EQ(u.maxlag(), ml, "");
    int n = choose(depth + 1); for (int d = 0; d < n; d++) { int op = choose(4); if (op == 3) { u.reset(); b.clear(); note("reset"); } else { u.add(V[op]); b.push_back(V[op]); note("add %g", V[op]); } state(show(b)); }
    base(u, b); if (b.empty()) return; double m = 0; for (double v : b) m += v; m /= b.size(); double c0 = 0; for (unsigned lag = 0; lag <= ml; lag++) { double c = 0; for (size_t i = 0; i + lag < b.size(); i++) c += (b[i] - m) * (b[i + lag] - m); c /= b.size(); if (!lag) c0 = c; double g = u.autocovariance(lag); MC_REQ(std::fabs(g - c) < 1e-9, "autocovariance " << g << " instead of " << c << " at lag " << lag << " of " << show(b)); if (c0 > 1e-9) MC_REQ(std::fabs(u.autocorrelation(lag) - c / c0) < 1e-9, "autocorrelation at lag " << lag << " of " << show(b)); }
    bool f = false; try { u.autocovariance(ml + 1); } catch (AssertBoostException &) { f = true; } MC_REQ(f, "lag " << ml + 1 << " accepted"); }
// ---- moving averages
static void ema(int depth) {
    static const double R[] = {0.5, 0.25, 0.4, 0.125, 0.9}; vector<double> r; int k = 1 + choose(3); for (int i = 0; i < k; i++) r.push_back(R[choose(5)]); std::unique_ptr<StatsEMA> s(k == 1 && choose(2) ? new StatsEMA(r[0]) : new StatsEMA(r)); Bag b, e(k, 0.0);
    int n = choose(depth + 1); for (int d = 0; d < n; d++) { double v = V[choose(3)]; s->add(v); b.push_back(v); double sum = 0; for (double x : b) sum += x; for (int i = 0; i < k; i++) e[i] = (double)b.size() <= 1 / r[i] ? sum / b.size() : e[i] + r[i] * (v - e[i]); double lo = e[0], hi = e[0]; for (int i = 0; i < k; i++) { MC_REQ(near(s->getEMA(i), e[i], 1e-9), "average " << i << " is " << s->getEMA(i) << " instead of " << e[i] << " at rate " << r[i] << " of " << show(b)); lo = std::min(lo, e[i]); hi = std::max(hi, e[i]); } MC_REQ(near(s->minEMA(), lo, 1e-9) && near(s->maxEMA(), hi, 1e-9), "least or greatest average of " << show(b)); state(show(b)); }
    base(*s, b); bool f = false; try { s->getEMA(k); } catch (AssertBoostException &) { f = true; } MC_REQ(f, "average " << k << " accepted"); }
static void emabad() { for (double x : {0.0, 1.0, -0.5, 2.0}) { bool f = false; try { StatsEMA s(x); } catch (AssertBoostException &) { f = true; } MC_REQ(f, "rate " << x << " accepted"); } bool f = false; try { StatsEMA s((vector<double>())); } catch (AssertBoostException &) { f = true; } MC_REQ(f, "no rates accepted"); }
// ---- statistics by name
static int kindOf(Stats *s) { if (dynamic_cast<StatsSequence *>(s)) return 1; if (dynamic_cast<StatsHistogramUniform *>(s)) return 2; if (dynamic_cast<StatsHistogramLog *>(s)) return 3; return 0; }
static void reg(const string &n, int kind) { if (kind == 0) StatsMaker::setModeSimple(n); else if (kind == 1) StatsMaker::setModeSequence(n, 4); else StatsMaker::setModeHistogram(n, kind == 2 ? StatsHistogram::Uniform : StatsHistogram::Log, 4, 1, 9); }
static void naming(int regs) {
    static long serial; string u = "u" + std::to_string(getpid()) + "x" + std::to_string(serial++); static const char *N[] = {"", "-a", "-a-b", "-a--b", "-a-", "-ab", "-a-b-c"}; int def = choose(2); reg("default", def); std::map<string, int> m; int n = choose(regs + 1); for (int i = 0; i < n; i++) { string nm = u + N[choose(5)]; int k = choose(3); reg(nm, k); m[nm] = k; note("%s is kind %d", nm.c_str(), k); }
    for (int pass = 0; pass < 2; pass++) for (auto suf : N) { string nm = u + suf, t = nm; int w = -1; for (;;) { if (m.count(t)) { w = m[t]; break; } size_t p = t.rfind('-'); if (p == string::npos) break; while (p > 0 && t[p - 1] == '-') --p; t = t.substr(0, p); if (t.empty()) break; } if (w < 0) w = def; std::unique_ptr<Stats> s(StatsMaker::make(nm)), s2(StatsMaker::make(nm)); MC_REQ(s.get() != s2.get(), "one object made twice"); MC_EQ(kindOf(s.get()), w, "kind made for " << nm << " (default " << def << ")"); s->add(3); MC_EQ(s->count(), 1ul, nm); step(); }
    for (string bare : {"-", "--x", "default-x"}) { std::unique_ptr<Stats> s(StatsMaker::make(bare)); MC_EQ(kindOf(s.get()), def, "kind made for " << bare); }
    std::unique_ptr<StatsRW> rw(StatsMaker::makeRW(u + "-a")); rw->add(1, StatsRW::Read); string st = std::to_string(def); for (auto &p : m) st += p.first.substr(u.size()) + char('0' + p.second) + ","; state(st); reg("default", 0); }
vector<Config> configs() {
    bool T = thorough(); vector<Config> v; auto add = [&](const char *n, std::function<void()> b, const char *r) { v.push_back({n, b, r}); };
    add("sequence", [T] { seq(T ? 8 : 6, 1); }, "all short value sequences and resets with room for 2 to 6, three merge modes"); add("sequence_blocks", [T] { seq(T ? 6 : 5, 5); }, "the same with five values per step"); add("sequence_long", seqlong, "every length to 200 (thorough 600) with room for 2 to 12"); add("sequence_refused", seqbad, "odd or no room and late settings are refused"); add("series", [T] { series(T ? 8 : 7); }, "all value sequences and resets, every lag of up to 4"); add("ema", [T] { ema(T ? 8 : 6); }, "all value sequences with one to three rates of five"); add("ema_refused", emabad, "rates outside 0 to 1 are refused"); add("naming", [T] { naming(T ? 4 : 3); }, "all registrations of up to three names of five and kinds, seven names made");
    return v; }
LH_MAIN
