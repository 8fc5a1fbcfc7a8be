#include "lh.hpp"
#include <Lintel/StatsHistogram.hpp>
#include <cmath>
#include <memory>
using namespace mc; using std::string; using std::vector;
struct Pt { double at, val; };
typedef vector<Pt> Bag;
static string show(const Bag &b) { std::ostringstream o; o.precision(17); o << "{"; for (size_t i = 0; i < b.size() && i < 40; i++) { o << b[i].at; if (b[i].val != b[i].at) o << ":" << b[i].val; o << " "; } o << "}"; return o.str(); }
static bool near(double a, double b, double tol) { return a == b || std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
static bool refuses(std::function<void()> g) { try { g(); } catch (AssertBoostException &) { return true; } return false; }
struct Acc { std::function<double(unsigned)> value; };
static string bounds(const StatsHistogram &h) { std::ostringstream o; o << h.numBins() << " bins from " << h.low() << " to " << h.high() << " counts"; for (unsigned i = 0; i < h.numBins(); i++) o << " " << h[i]; return o.str(); }
// rel: relative tolerance for values on bin bounds (0: bounds are exactly representable)
static void check(const StatsHistogram &h, const Bag &b, double rel, bool cover, const Acc *acc) {
    unsigned n = h.numBins(); MC_EQ(h.count(), (unsigned long)b.size(), "count"); double t = 0, mn = HUGE_VAL, mx = -HUGE_VAL; for (auto &p : b) { t += p.val; mn = std::min(mn, p.val); mx = std::max(mx, p.val); } MC_EQ(h.min(), mn, ""); MC_EQ(h.max(), mx, ""); if (b.size()) MC_REQ(near(h.mean(), t / b.size(), 1e-12), "mean");
    double tol = rel * (std::fabs(h.low()) + std::fabs(h.high())); MC_REQ(near(h.binlow(0), h.low(), 1e-9) && near(h.binhigh(n - 1), h.high(), 1e-9), "bounds of the first and last bin in " << bounds(h)); unsigned long sum = 0, cum = 0;
    for (unsigned i = 0; i < n; i++) { double lo = i ? h.binlow(i) : h.low(), hi = i + 1 < n ? h.binhigh(i) : h.high(); MC_REQ(lo < hi && near(h.binWidth(i), hi - lo, 1e-9), "width of bin " << i << " in " << bounds(h)); if (i) MC_REQ(near(h.binhigh(i - 1), lo, 1e-9), "gap below bin " << i); MC_REQ(h.bincenter(i) > lo && h.bincenter(i) < hi, "center of bin " << i);
        unsigned long in = 0, may = 0; double v = 0; for (auto &p : b) { double x = p.at; bool first = i == 0 && x < h.low() + tol && !cover, last = i == n - 1 && x >= h.high() - tol && !cover; bool def = (x >= lo + tol || first) && (x < hi - tol || last), mb = (x >= lo - tol || first) && (x < hi + tol || last); if (rel == 0) { def = mb = (x >= lo || (i == 0 && !cover)) && (x < hi || (i == n - 1 && !cover)); } in += def; may += mb; if (def) v += p.val; }
        MC_REQ(h[i] >= in && h[i] <= may, "bin " << i << " from " << lo << " to " << hi << " counts " << h[i] << " instead of " << in << " of " << show(b) << " in " << bounds(h)); sum += h[i]; if (acc && in == may) MC_REQ(near(acc->value(i), v, 1e-12), "bin " << i << " accumulated " << acc->value(i) << " instead of " << v << " of " << show(b)); step(); }
    MC_EQ(sum, (unsigned long)b.size(), "total over the bins of " << show(b) << " in " << bounds(h)); MC_REQ(refuses([&] { h[n]; }), "bin " << n << " of " << n << " accepted"); if (acc) MC_REQ(refuses([&] { acc->value(n); }), "bin " << n << " of " << n << " accepted");
    if (b.empty()) { MC_EQ(h.percentile(0.5), 0.0, "percentile of nothing"); return; }
    unsigned long best = 0; for (unsigned i = 0; i < n; i++) best = std::max(best, h[i]); bool mode = false; for (unsigned i = 0; i < n; i++) if (h[i] == best && near(h.mode(), h.bincenter(i), 1e-9)) mode = true; MC_REQ(mode, "mode " << h.mode() << " in " << bounds(h));
    bool lg = h.getType() == "log"; double prev = -HUGE_VAL; size_t N = b.size(); for (size_t k = 0; k <= 4 * N; k++) { double p = k / (4.0 * N), target = k / 4.0, v = h.percentile(p); bool ok = false; cum = 0; for (unsigned i = 0; i < n; i++) { double up = cum + h[i]; if (h[i] && target >= cum - 1e-9 && target <= up + 1e-9) { double f = (target - cum) / h[i], w = lg ? h.binlow(i) * std::pow(h.binhigh(i) / h.binlow(i), f) : h.binlow(i) + f * h.binWidth(i); if (near(v, w, 1e-7)) ok = true; } cum = (unsigned long)up; } MC_REQ(ok, "percentile " << p << " is " << v << " in " << bounds(h)); MC_REQ(v >= prev - 1e-9, "percentile " << p << " is below an earlier one"); prev = v; } MC_REQ(refuses([&] { h.percentile(1.01); }) && refuses([&] { h.percentile(-0.01); }), "percentile outside 0 to 1 accepted"); }
static void printed(const StatsHistogram &h, const Bag &b) {
    std::ostringstream o; h.printRome(1, o); string t = o.str(); size_t p = t.find("binCounts ("); MC_REQ(p != string::npos, t); std::istringstream in(t.substr(p + 11)); for (unsigned i = 0; i < h.numBins(); i++) { unsigned long c = ~0ul; in >> c; MC_EQ(c, h[i], "printed bin " << i << " in " << t); }
    std::ostringstream o2; h.printHistogramRandomInput(o2); std::istringstream i2(o2.str()); unsigned n = 0; i2 >> n; MC_EQ(n, h.numBins(), o2.str()); for (unsigned i = 0; i < n; i++) { double hi = 0; unsigned long c = ~0ul; i2 >> hi >> c; MC_REQ(c == h[i] && near(hi, h.binhigh(i), 1e-4), "line " << i << " in " << o2.str()); }
    if (b.empty()) return; std::ostringstream o3; h.printTabular(0, o3); t = o3.str(); p = t.find("binCounts begin"); MC_REQ(p != string::npos, t); p = t.find('\n', p); std::istringstream i3(t.substr(p)); unsigned long cum = 0; for (unsigned i = 0; i < n; i++) { double hi, f, g, w; unsigned long c, s; i3 >> hi >> c >> s >> f >> g >> w; cum += h[i]; MC_REQ(i3 && c == h[i] && s == cum && near(hi, h.binhigh(i), 1e-4) && near(f, (double)c / b.size(), 1e-4) && near(g, (double)cum / b.size(), 1e-4) && near(w, h.binWidth(i), 1e-4), "line " << i << " in " << t); } }
static void shape(const StatsHistogram &h) { std::unique_ptr<Stats> s(h.another_new()); StatsHistogram &g = dynamic_cast<StatsHistogram &>(*s); MC_REQ(g.numBins() == h.numBins() && near(g.low(), h.low(), 1e-9) && near(g.high(), h.high(), 1e-9) && g.getType() == h.getType() && g.count() == 0, "a new one like " << bounds(h) << " is " << bounds(g)); for (unsigned i = 0; i < g.numBins(); i++) MC_EQ(g[i], 0ul, "bin " << i << " of a new one"); MC_REQ(g.isScalable() == h.isScalable() && g.isGrowable() == h.isGrowable(), "kind of a new one"); if (g.count() == 0) { double m = (g.low() + g.high()) / 2; g.add(m); Bag b{{m, m}}; check(g, b, 1e-9, false, nullptr); } }
enum Kind { Fixed, Scale, Grow };
// values at, just inside and just outside bounds, and far away
static vector<double> values(double lo, double w, unsigned n, Kind k) { double hi = lo + w * n; auto below = [k](double x) { return k == Fixed && x != 0 ? nextafter(x, -HUGE_VAL) : x - 1e-6; }; vector<double> v{lo, hi, below(lo), below(hi), lo + w, below(lo + w), lo + w * (n / 2) + w / 2}; if (k != Fixed) { v.push_back(lo - w * 3); v.push_back(hi + w * 5); v.push_back(lo - w * n * 3.5); v.push_back(hi + w * n * 6); } else { v.push_back(lo - 100); v.push_back(hi + 100); } return v; }
static void uniform(int depth, bool accum, bool exactw) {
    static const double LO[] = {0, -4, 2.5}, W[] = {1, 0.25}, LOX[] = {0, 0.1, -1.3}, WX[] = {0.1, 1.0 / 3}; Kind kind = accum ? (Kind)choose(2) : (Kind)choose(3); static const unsigned A[] = {1, 2, 3, 6, 4, 5}; unsigned asked = A[choose(thorough() ? 6 : 4)]; unsigned even = (asked + 1) / 2 * 2; double lo = exactw ? LO[choose(3)] : LOX[choose(3)], w = exactw ? W[choose(2)] : WX[choose(2)]; double hi = lo + w * even;
    std::unique_ptr<StatsHistogramUniform> s(accum ? new StatsHistogramUniformAccum(asked, lo, hi, kind == Scale) : new StatsHistogramUniform(asked, lo, hi, kind == Scale, kind == Grow)); StatsHistogramUniform &h = *s; Acc a; if (accum) a.value = [&](unsigned i) { return dynamic_cast<StatsHistogramUniformAccum &>(h).value(i); }; MC_EQ(h.numBins(), even, "bins"); MC_REQ(h.isScalable() == (kind == Scale) && h.isGrowable() == (kind == Grow), "kind"); vector<double> vs = values(lo, w, even, kind); Bag b;
    int n = choose(depth + 1); for (int d = 0; d < n; d++) { int op = choose(vs.size() + 1); if (op == (int)vs.size()) { note("reset"); h.reset(); b.clear(); for (unsigned i = 0; i < h.numBins(); i++) MC_EQ(h[i], 0ul, "bin " << i << " after a reset"); if (accum) for (unsigned i = 0; i < h.numBins(); i++) MC_EQ(a.value(i), 0.0, "bin " << i << " after a reset"); MC_EQ(h.numRescales(), 0u, "rescales after a reset"); continue; }
        double x = vs[op], v = accum && choose(2) ? 10 + d : x; note("add %.17g (%g)", x, v); unsigned wasn = h.numBins(); double wasw = h.binWidth(), wl = h.low(), wh = h.high(); bool out = x < wl || x >= wh; unsigned wasr = h.numRescales(); if (v != x || (n + d) % 2) h.add(x, v); else h.add(x); b.push_back({x, v}); if (kind != Grow) MC_EQ(h.numBins(), wasn, "bins"); if (kind != Scale) MC_REQ(h.binWidth() == wasw, "bin width changed"); if (kind == Fixed || !out) MC_REQ(h.low() == wl && h.high() == wh && h.numBins() == wasn, "bounds changed without need"); else { MC_REQ(h.low() <= x + 1e-9 && (h.high() > x || (!exactw && h.high() > x - 1e-9)), x << " is outside " << bounds(h)); MC_REQ(h.low() <= wl + 1e-9 && h.high() >= wh - 1e-9, "range shrank"); } if (kind == Scale) MC_EQ(h.numRescales(), wasr + out, "rescales"); state(bounds(h)); }
    check(h, b, exactw ? 0 : 1e-9, kind != Fixed, accum ? &a : nullptr); if (accum) MC_REQ(!b.empty() || h.count() == 0, ""); printed(h, b); shape(h); }
// every value one representable step below the upper bound, for many ranges and bin counts
static void topedge() { unsigned n = 2 * (1 + choose(60)); static const double LO[] = {0, 0.1, -1, 1e-3, -0.7, 3}; double lo = LO[choose(6)]; int d = 1 + choose(40); double hi = lo + d / 7.0; bool ac = choose(2); std::unique_ptr<StatsHistogramUniform> s(ac ? new StatsHistogramUniformAccum(n, lo, hi) : new StatsHistogramUniform(n, lo, hi)); Bag b; for (double x = nextafter(hi, -HUGE_VAL), k = 0; k < 4; k++, x = nextafter(x, -HUGE_VAL)) { s->add(x); b.push_back({x, x}); } for (double x = nextafter(lo, HUGE_VAL), k = 0; k < 2; k++, x = nextafter(x, HUGE_VAL)) { s->add(x); b.push_back({x, x}); } for (unsigned i = 1; i < n; i++) { double x = s->binlow(i); s->add(x); b.push_back({x, x}); } MC_EQ((*s)[n - 1] >= 4, true, bounds(*s)); unsigned long t = 0; for (unsigned i = 0; i < n; i++) t += (*s)[i]; MC_EQ(t, (unsigned long)b.size(), bounds(*s)); state(n * 10000 + d); check(*s, b, 1e-9, false, nullptr); }
static void logh(int depth, int mode) { // mode 0 fixed, 1 scalable, 2 accumulating
    static const unsigned A[] = {1, 2, 3, 6, 4, 5}; unsigned asked = A[choose(thorough() ? 6 : 4)], even = (asked + 1) / 2 * 2; static const double LO[] = {1, 0.5, 10}, R[] = {16, 1000, 3}; double lo = LO[choose(3)], hi = lo * R[choose(3)]; bool sc = mode == 1; std::unique_ptr<StatsHistogramLog> s(mode == 2 ? new StatsHistogramLogAccum(asked, lo, hi) : new StatsHistogramLog(asked, lo, hi, sc)); StatsHistogramLog &h = *s; Acc a; if (mode == 2) a.value = [&](unsigned i) { return dynamic_cast<StatsHistogramLogAccum &>(h).value(i); }; MC_EQ(h.numBins(), even, "bins"); MC_EQ(h.isScalable(), sc, "kind"); double q = std::pow(hi / lo, 1.0 / even); vector<double> vs{lo, hi, nextafter(lo, 0), nextafter(hi, 0), lo * q * 1.01, lo * q * 0.99, std::sqrt(lo * hi) * 1.1, lo / 3, hi * 3}; if (sc) { vs.push_back(lo / (hi / lo) / (hi / lo) * 0.9); vs.push_back(hi * hi / lo * 1.1); } Bag b;
    int n = choose(depth + 1); for (int d = 0; d < n; d++) { int op = choose(vs.size() + 1); if (op == (int)vs.size()) { h.reset(); b.clear(); note("reset"); for (unsigned i = 0; i < even; i++) MC_EQ(h[i], 0ul, "bin " << i << " after a reset"); if (mode == 2) for (unsigned i = 0; i < even; i++) MC_EQ(a.value(i), 0.0, ""); continue; } double x = vs[op], v = mode == 2 && choose(2) ? 10 + d : x; note("add %.17g (%g)", x, v); bool out = x < h.low() || x >= h.high(); unsigned wr = h.numRescales(); double wl = h.low(), wh = h.high(); if (v != x || (n + d) % 2) h.add(x, v); else h.add(x); b.push_back({x, v}); MC_EQ(h.numBins(), even, "bins"); if (sc) MC_EQ(h.numRescales(), wr + out, "rescales"); if (!sc || !out) MC_REQ(h.low() == wl && h.high() == wh, "bounds changed without need"); else MC_REQ(h.low() <= x * (1 + 1e-9) && h.high() > x * (1 - 1e-9), x << " is outside " << bounds(h)); state(bounds(h)); }
    check(h, b, 1e-9, sc, mode == 2 ? &a : nullptr); printed(h, b); shape(h); }
static void group(int depth) { static const StatsHistogram::HistMode M[] = {StatsHistogram::Uniform, StatsHistogram::Log, StatsHistogram::UniformAccum, StatsHistogram::LogAccum}; vector<double> r{1, 4, 64, 100}; int k = 1 + choose(3); r.resize(k + 1); vector<StatsHistogram::HistMode> m; vector<int> nb; bool same = choose(2); for (int i = 0; i < k; i++) { m.push_back(same && i ? m[0] : M[choose(4)]); nb.push_back(same ? 3 : 2 + i * 2); } std::unique_ptr<StatsHistogramGroup> g(same ? new StatsHistogramGroup(m[0], 3, r) : new StatsHistogramGroup(m, nb, r)); vector<Bag> b(k + 2); vector<double> vs{0.5, 1, 2, 4, 10, 64, 70, 100, 200}; int n = choose(depth + 1); unsigned long total = 0; for (int d = 0; d < n; d++) { int op = choose(10); if (op == 9) { g->reset(); for (auto &x : b) x.clear(); total = 0; note("reset"); continue; } double x = vs[op]; size_t w = 0; while (w <= (size_t)k && x >= r[w]) w++; bool ac = w >= 1 && w <= (size_t)k && m[w - 1] >= StatsHistogram::UniformAccum; double v = ac && choose(2) ? 7 : x; note("add %g (%g)", x, v); if (v == x && (n + d) % 2) g->add(x); else g->add(x, v); b[w].push_back({x, v}); total++; }
    MC_EQ(g->count(), total, ""); MC_EQ(g->getLow().count(), (unsigned long)b[0].size(), "values below"); MC_EQ(g->getHigh().count(), (unsigned long)b[k + 1].size(), "values above"); string st; for (int i = 0; i < k; i++) { const StatsHistogram &h = g->getHistogram(i); Acc a; if (auto p = dynamic_cast<const StatsHistogramUniformAccum *>(&h)) a.value = [p](unsigned j) { return p->value(j); }; else if (auto p = dynamic_cast<const StatsHistogramLogAccum *>(&h)) a.value = [p](unsigned j) { return p->value(j); }; check(h, b[i + 1], 1e-9, false, a.value ? &a : nullptr); st += bounds(h); } state(st); MC_REQ(refuses([&] { g->getHistogram(k); }), "member " << k << " accepted"); std::ostringstream o; g->printRome(0, o); MC_REQ(o.str().find("histogramGroup") != string::npos, o.str()); }
static void refused() { MC_REQ(refuses([] { StatsHistogramUniform h(0, 0, 1); }) && refuses([] { StatsHistogramUniform h(4, 1, 0); }) && refuses([] { StatsHistogramUniform h(4, 0, 1, true, true); }) && refuses([] { StatsHistogramLog h(0, 1, 2); }) && refuses([] { StatsHistogramLog h(4, 0, 2); }) && refuses([] { StatsHistogramLog h(4, 3, 2); }), "a bad shape accepted"); StatsHistogramUniform u(4, 0, 1); MC_REQ(refuses([&] { u.add(0.5, 0.6); }), "a separate value accepted"); StatsHistogramLog l(4, 1, 2); MC_REQ(refuses([&] { l.add(0.0); }) && refuses([&] { l.add(-1.0); }), "value 0 accepted"); Bag b; check(u, b, 0, false, nullptr); check(l, b, 1e-9, false, nullptr); }
vector<Config> configs() {
    bool T = thorough(); vector<Config> v; auto add = [&](string n, std::function<void()> b, const char *r) { v.push_back({n, b, r}); }; const char *r = "all add and reset sequences over values at, just inside, just outside and far from bin bounds, bin counts of 1 to 6, several ranges";
    add("uniform", [T] { uniform(T ? 4 : 3, false, true); }, r); add("uniform_rounded", [T] { uniform(T ? 4 : 3, false, false); }, r); add("uniform_accum", [T] { uniform(T ? 3 : 2, true, true); }, r); add("uniform_accum_rounded", [T] { uniform(T ? 3 : 2, true, false); }, r); add("top_edge", topedge, "the last values below the upper bound and every bin bound, 60 bin counts, 240 ranges");
    for (int m = 0; m < 3; m++) add(m == 0 ? "log" : m == 1 ? "log_scaled" : "log_accum", [T, m] { logh(m == 2 ? (T ? 3 : 2) : T ? 4 : 3, m); }, r); add("group", [T] { group(T ? 4 : 3); }, "all groups of up to three histograms of four kinds, all add and reset sequences"); add("refused", refused, "bad shapes and values are refused, empty histograms");
    return v; }
LH_MAIN
