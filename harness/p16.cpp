#include "lh.hpp"
#include <Lintel/StatsQuantile.hpp>
#include <cmath>
#include <memory>
using namespace mc; using std::string; using std::vector;
typedef vector<double> Bag;
static string show(const Bag &b) { std::ostringstream o; o << b.size() << " values {"; for (size_t i = 0; i < b.size() && i < 60; i++) o << b[i] << " "; o << "}"; return o.str(); }
static bool near(double a, double b, double tol) { return a == b || std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
// all quantiles at ranks 1..N and in between; err<0: exact only
static void check(const StatsQuantile &s, const Bag &b, double err, bool exact) {
    size_t n = b.size(); MC_EQ((size_t)s.countll(), n, "count"); double q0 = s.getQuantile(0.5); if (!n) { MC_REQ(q0 != q0, "median of nothing is " << q0); return; }
    Bag o(b); std::sort(o.begin(), o.end()); MC_EQ(s.min(), o[0], "least"); MC_EQ(s.max(), o[n - 1], "greatest"); double t = 0; for (double v : b) t += v; if (std::isfinite(t)) MC_REQ(near(s.mean(), t / n, 1e-12), "mean " << s.mean() << " of " << show(b)); if (err < 0 && !exact) { for (int i = 0; i <= 20; i++) { double v = s.getQuantile(i / 20.0); MC_REQ(std::binary_search(o.begin(), o.end(), v), v << " was never added: " << show(b)); } return; }
    double last = -HUGE_VAL; size_t st = n <= 40 ? 1 : n / 40; for (size_t j = 0; j <= n; j++) for (int h = 0; h < 2; h++) { if (j == n && h) continue; if (j % st && j > 3 && j + 3 < n) continue; double phi = std::min(1.0, (j + 0.5 * h) / n), v = s.getQuantile(phi); step();
        double lo, hi; if (exact) lo = hi = h ? j + 1 : std::max<double>(j, 1); else { lo = std::ceil((phi - err) * n - 1e-9); hi = std::ceil((phi + err) * n + 1e-9); lo = std::max(lo, 1.0); hi = std::min<double>(hi, n); }
        size_t a = std::lower_bound(o.begin(), o.end(), v) - o.begin() + 1, z = std::upper_bound(o.begin(), o.end(), v) - o.begin(); MC_REQ(a <= z, "quantile " << phi << " is " << v << ", never added: " << show(b)); MC_REQ(a <= hi && z >= lo, "quantile " << phi << " is " << v << " at positions " << a << " to " << z << " instead of " << lo << " to " << hi << " of " << show(b)); MC_REQ(v >= last, "quantile " << phi << " is " << v << ", below an earlier one, " << last); last = v; } }
struct Par { double e; int nb; };
static bool exactNow(StatsQuantile &s, const Bag &b) { return b.size() <= (size_t)s.getBufferSize() * s.getNBuffers(); }
static void addblock(StatsQuantile &s, Bag &b, int k, int zeros, int order) { for (int i = 0; i < k; i++) { int at = order == 0 ? i : order == 1 ? k - 1 - i : (i * 7) % k; bool z = order == 2 && k % 7 == 0 ? i < zeros : at < zeros; s.add(z ? 0 : 1); b.push_back(z ? 0 : 1); } }
// every 0/1 arrival pattern up to the number of low values per block
static void thresholds(Par p, int levels, int maxn, bool lazy) {
    StatsQuantile s(p.e, p.nb, 10, lazy); Bag b; int k = s.getBufferSize(), n = std::min(maxn, p.nb / k); int len = 1 + choose(n); vector<int> lev; for (int i = 0; i < levels; i++) lev.push_back(levels == 1 ? 0 : i * k / (levels - 1)); if (levels >= 5) { lev[1] = 1; lev[levels - 2] = k - 1; }
    int extra = choose(3); for (int i = 0; i < len; i++) { int z = lev[choose(levels)]; addblock(s, b, k, z, i % 3); } int part = extra == 0 ? 0 : extra == 1 ? 1 : k - 1; part = std::min<int>(part, p.nb - b.size()); if (part) { int z = choose(2) ? part : 0; addblock(s, b, part, z, 0); }
    state(show(b)); check(s, b, p.e, exactNow(s, b)); }
// block orders of all-distinct values: each block is one of the n! runs of the sorted input, or interleaved strides
static void arrival(Par p, int bl) {
    StatsQuantile s(p.e, p.nb, 10, choose(2)); Bag b; int N = p.nb - choose(2) * (p.nb / 7), per = (N + bl - 1) / bl; vector<int> left; for (int i = 0; i < bl; i++) left.push_back(i); int stride = choose(2), in = choose(3); bool ask = choose(2);
    while (!left.empty()) { int c = choose(left.size()), blk = left[c]; left.erase(left.begin() + c); for (int i = 0; i < per; i++) { int pos = in == 1 ? per - 1 - i : in == 2 ? (i % 2 ? per - 1 - i / 2 : i / 2) : i; int v = stride ? pos * bl + blk : blk * per + pos; if (v >= N) continue; s.add(v * 1.5 - 20); b.push_back(v * 1.5 - 20); if (ask && b.size() % 13 == 0) { s.getQuantile(0.37); } } if (left.size() < 2) check(s, b, p.e, exactNow(s, b)); }
    state(show(b)); }
static const double V[] = {3, -1, 3, HUGE_VAL, 0.25, -HUGE_VAL};
// every short sequence of values, queries between, within memory: exact
static void exactseq(int depth) { bool lazy = choose(2); StatsQuantile s(0.1, 100, 10, lazy); Bag b; int n = choose(depth + 1); for (int i = 0; i < n; i++) { int op = choose(6); if (op == 5) { check(s, b, -1, true); note("ask"); } else { s.add(V[op]); b.push_back(V[op]); note("add %g", V[op]); } state(show(b)); } check(s, b, -1, true); }
static void growth(int mode) { static const int NB[] = {2, 3, 5, 9, 12, 16}; int nb = NB[choose(6)], k = 10 + choose(3); StatsQuantile s("", nb, k); Bag b; int per = 1 + 5 * choose(3); MC_EQ(s.getBufferSize(), k, ""); MC_EQ(s.getNBuffers(), nb, ""); size_t mem = s.memoryUsage(); for (int i = 0; i < nb * k * 2 + 30; i++) { double v = mode == 0 ? i : mode == 1 ? -i : (i * 37) % 101; s.add(v); b.push_back(v); if (i % per == 0 || std::abs(i - nb * k) < 3) check(s, b, -1, exactNow(s, b)); } state(nb * 100 + k); MC_REQ(s.memoryUsage() >= mem, "memory use fell"); }
// histories over two or three objects: add, merge, reset, ask
static void histories(int depth, double ea, double eb, int nba, int nbb) {
    std::unique_ptr<StatsQuantile> s[2]; Bag b[2]; double e[2] = {ea, eb}; int lz = choose(3); s[0].reset(new StatsQuantile(ea, nba, 10, lz != 1)); s[1].reset(new StatsQuantile(eb, nbb, 10, lz != 2)); double err[2] = {0, 0}; bool mem[2] = {true, true}; double slack[2] = {0, 0}; // slack: rank error (in values) brought in by merging
    int n = 1 + choose(depth); for (int d = 0; d < n; d++) { int op = choose(5), o = choose(2), k = s[o]->getBufferSize(); int cap = o ? nbb : nba;
        if (op <= 2) { int cnt = op == 0 ? 1 : op == 1 ? k : 2 * s[o]->getNBuffers() * k + 3; if ((int)b[o].size() + cnt > cap) throw Prune(); for (int i = 0; i < cnt; i++) { double v = op == 1 ? (d % 2 ? -i : i) : op == 0 ? 2.5 : (i * 29) % 64; s[o]->add(v); b[o].push_back(v); } note("add %d values to %d", cnt, o); }
        else if (op == 3) { if ((int)(b[0].size() + b[1].size()) > cap) throw Prune(); note("merge %d into %d", 1 - o, o); slack[o] += (slack[1 - o]) + (exactNow(*s[1 - o], b[1 - o]) && mem[1 - o] ? 0 : e[1 - o] * b[1 - o].size()); if (!(mem[1 - o] && exactNow(*s[1 - o], b[1 - o]))) mem[o] = false; s[o]->add((const Stats &)*s[1 - o]); b[o].insert(b[o].end(), b[1 - o].begin(), b[1 - o].end()); check(*s[1 - o], b[1 - o], e[1 - o] + slack[1 - o] / std::max<size_t>(1, b[1 - o].size()), mem[1 - o] && exactNow(*s[1 - o], b[1 - o])); }
        else { s[o]->reset(); b[o].clear(); slack[o] = 0; mem[o] = true; note("reset %d", o); }
        for (int q = 0; q < 2; q++) { if (d + 1 < n && (op + d) % 2) continue; double n_ = std::max<size_t>(1, b[q].size()); check(*s[q], b[q], e[q] + slack[q] / n_, mem[q] && exactNow(*s[q], b[q])); } state(show(b[0]) + show(b[1])); } (void)err; }
// merging two of the same error gives at most double
static void doubling(Par p, int levels, int maxb) {
    StatsQuantile a(p.e, p.nb), c(p.e, p.nb); Bag x, y; int k = a.getBufferSize(), half = std::min(p.nb / 2 / k, maxb); int na = choose(half + 1), nc = choose(half + 1); for (int i = 0; i < na; i++) addblock(a, x, k, choose(levels) * k / (levels - 1), i % 3); for (int i = 0; i < nc; i++) addblock(c, y, k, choose(levels) * k / (levels - 1), i % 3); bool was = x.empty(); bool ec = exactNow(c, y); a.add((const Stats &)c); x.insert(x.end(), y.begin(), y.end()); check(c, y, p.e, ec); check(a, x, was ? p.e : 2 * p.e, was ? ec : ec && exactNow(a, x)); int more = std::min<int>(k + 1, p.nb - x.size()); if (more > 0) { addblock(a, x, more, choose(2) ? more : 0, 0); check(a, x, was ? p.e : 2 * p.e, ec && exactNow(a, x)); } state(show(x)); }
// printed tables
static void tables() { int n = choose(60) * 7, nr = choose(2) ? 10 : 1 + choose(7); double mul = choose(2) ? 8 : 1; StatsQuantile s(0.05, 1000, nr); Bag b; for (int i = 0; i < n; i++) { s.add((i * 37) % 100); b.push_back((i * 37) % 100); } std::ostringstream o; s.printTextRanges(o, choose(2) ? -1 : nr, mul); string t = o.str(); if (!n) { MC_REQ(t.find("0 data points") == 0, t); return; } MC_REQ(t.find(std::to_string(n) + " data points") == 0, t); int seen = 0; size_t p = t.find("data points:"); MC_REQ(nr < 2 || p != string::npos, t); string r = t.substr(p + 12); for (size_t i = 0; i < r.size(); i++) if (r[i] == '%') r.replace(0, i + 2, string(i + 2, ' ')); std::istringstream in(t.substr(p + 12)); string w; while (in >> w) { if (w.find("%:") != string::npos) continue; seen++; MC_REQ(near(atof(w.c_str()), mul * s.getQuantile((double)seen / nr), 1e-7), "printed quantile " << seen << " of " << nr << ": " << w << " in " << t); } MC_EQ(seen, nr - 1, t);
    std::ostringstream o2; s.printTextTail(o2, mul); t = o2.str(); p = 0; int tails = 0; while ((p = t.find("%: ", p)) != string::npos) { size_t q = t.rfind(' ', p); double f = atof(t.c_str() + q + 1) / 100, v = atof(t.c_str() + p + 3); tails++; MC_REQ(near(v, mul * s.getQuantile(f), 1e-7), "printed tail " << f << " is " << v << " in " << t); p += 3; } MC_REQ(n < 110 || tails >= 2, t);
    std::ostringstream o3; s.printRome(1, o3); t = o3.str(); p = t.find("quantiles ("); MC_REQ(p != string::npos, t); std::istringstream in3(t.substr(p + 11)); string br; double f, v; int at = 0; while (at < nr - 1 && in3 >> br && br == "{" && in3 >> f >> v >> br) { at++; MC_REQ(near(f, 100.0 * at / nr, 1e-4) && near(v, s.getQuantile((double)at / nr), 1e-4), "printed quantile " << f << " is " << v << " in " << t); } MC_EQ(at, nr - 1, t); state(n * 10 + nr); }
static void refused() { auto f = [](std::function<void()> g) { try { g(); } catch (AssertBoostException &) { return true; } return false; }; MC_REQ(f([] { StatsQuantile s(0.3); }), "error 0.3 accepted"); MC_REQ(f([] { StatsQuantile s("", 1, 10); }), "one buffer accepted"); StatsQuantile s(0.1, 100); for (int i = 0; i < 101; i++) s.add(i); MC_REQ(f([&] { s.getQuantile(0.5); }), "more than the declared number accepted"); double v = s.getQuantile(0.5, true); MC_REQ(v >= 30 && v <= 70, v); StatsQuantile t(0.1, 100); t.add(1); MC_REQ(f([&] { t.getQuantile(1.01); }) && f([&] { t.getQuantile(-0.01); }), "quantile outside 0 to 1 accepted"); Stats plain; plain.add(1); MC_REQ(f([&] { t.add((const Stats &)plain); }), "merging something else accepted"); }
vector<Config> configs() {
    bool T = thorough(); vector<Config> v; auto add = [&](string n, std::function<void()> b, const char *r) { v.push_back({n, b, r}); };
    static const Par P[] = {{0.1, 100}, {0.15, 150}, {0.19, 300}, {0.05, 500}, {0.19, 2000}};
    const char *tr = "all low/high arrival patterns up to the number of low values per buffer-sized block (from the stated number of levels), every length, every rank asked";
    add("exact", [T] { exactseq(T ? 8 : 6); }, "all value sequences with duplicates and infinities, asked in between, every rank");
    add("threshold_100", [T] { thresholds(P[0], T ? 8 : 5, 5, true); }, tr); add("threshold_150", [T] { thresholds(P[1], T ? 4 : 3, T ? 10 : 8, false); }, tr); add("threshold_300", [T] { thresholds(P[2], 2, T ? 14 : 12, true); }, tr); if (T) add("threshold_300_3", [T] { thresholds(P[2], 3, 11, true); }, tr); add("threshold_500", [T] { thresholds(P[3], T ? 3 : 2, T ? 10 : 11, true); }, tr); if (T) add("threshold_2000", [T] { thresholds(P[4], 2, 18, true); }, tr);
    for (int i = 0; i < 5; i++) add("arrival_" + std::to_string(P[i].nb), [i, T] { arrival(P[i], T ? 7 : 5); }, "all orders of five (thorough seven) runs or strides of distinct values, three orders within, with or without asking in between");
    for (int i = 0; i < 3; i++) add("growth_" + std::to_string(i), [i] { growth(i); }, "2 to 16 buffers filled twice over, asked throughout");
    add("history", [T] { histories(T ? 6 : 4, 0.1, 0.1, 500, 500); }, "all add, merge, reset sequences over two equal collectors"); add("history_mixed", [T] { histories(T ? 6 : 4, 0.1, 0.05, 600, 300); }, "the same with different declared errors and sizes");
    add("merge", [T] { doubling(P[1], 3, T ? 5 : 4); }, "all low/high patterns in two collectors, merged, then more added"); add("merge_300", [T] { doubling(P[2], 2, T ? 8 : 6); }, "the same");
    add("tables", tables, "printed tables and tails of 0 to 413 values agree with the quantiles asked directly"); add("refused", refused, "settings out of range are refused");
    return v; }
LH_MAIN
