// P28: least squares, elimination, inverse error function, integrality and approximate comparison against exact or independent oracles.
#include "lh.hpp"
#include <Lintel/LeastSquares.hpp>
#include <Lintel/Matrix.hpp>
#include <Lintel/MathSpecialFunctions.hpp>
#include <Lintel/Double.hpp>
#include <cmath>
#include <climits>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace mc; using std::string; using std::vector; typedef long double LD;
static bool refused(std::function<void()> f) { try { f(); } catch (AssertBoostException &) { return true; } return false; }
static bool close(LD a, LD b, LD tol) { return a == b || fabsl(a - b) <= tol * (1 + fabsl(a) + fabsl(b)); }
// ---- least squares. x, y small integers, weights quarters: the reference is exact in integers
struct Pt { int x, y, w4; };
static void checkFit(LeastSquares &ls, const vector<Pt> &p, double ox, double oy) {
    MC_EQ(ls.size(), p.size(), "number of points"); string txt; for (auto &q : p) txt += "(" + std::to_string(q.x) + "," + std::to_string(q.y) + ")*" + std::to_string(q.w4) + "/4 "; bool vary = false; for (auto &q : p) vary |= q.x != p[0].x;
    if (!vary) { MC_REQ(refused([&] { ls.fitLinearVertical(); }), "a line was fitted to " << txt << "offset " << ox); return; }
    long long w = 0, x = 0, y = 0, xx = 0, xy = 0; for (auto &q : p) { w += q.w4; x += q.w4 * q.x; y += q.w4 * q.y; xx += q.w4 * q.x * q.x; xy += q.w4 * q.x * q.y; } LD sl = (LD)(w * xy - x * y) / (w * xx - x * x), ic = ((LD)y - sl * x) / w;
    LeastSquares::Linear l = ls.fitLinearVertical(); MC_REQ(close(l.slope, sl, 1e-7), "slope " << l.slope << " instead of " << (double)sl << " for " << txt << "offset " << ox << "," << oy); LD tol = 1e-6 * (fabs(ox) + fabs(oy) + 1) * 1e-6; for (auto &q : p) { LD want = ic + sl * q.x + oy; MC_REQ(fabsl(l.get(q.x + ox) - want) <= 1e-7 * (1 + fabsl(want - oy)) + tol, "the line is at " << l.get(q.x + ox) << " instead of " << (double)want << " for " << txt << "offset " << ox << "," << oy); }
    MC_REQ(close(l.intercept + l.slope * 3.0, l.get(3), 1e-12), "get"); state(txt); }
static const double OX[] = {0, 1.25e9, -3e6, 0.1}, OY[] = {0, 1e6};
static void fit(int maxn, const vector<int> &xs, const vector<int> &ys, const vector<int> &ws, bool offs) {
    double ox = offs ? OX[choose(4)] : 0, oy = offs ? OY[choose(2)] : 0; LeastSquares ls; vector<Pt> p; if (choose(2)) { ls.add(7, 8, 9); ls.add(1, 2); ls.clear(); note("clear"); }
    MC_REQ(refused([&] { ls.fitLinearVertical(); }), "a line was fitted to no points"); int n = choose(maxn + 1); for (int i = 0; i < n; i++) { Pt q = {pick(xs), pick(ys), pick(ws)}; if (q.w4 == 4 && (i & 1)) ls.add(q.x + ox, q.y + oy); else ls.add(q.x + ox, q.y + oy, q.w4 / 4.0); p.push_back(q); note("add %g %g weight %g", q.x + ox, q.y + oy, q.w4 / 4.0); }
    if (n >= 2) checkFit(ls, p, ox, oy); else MC_REQ(refused([&] { ls.fitLinearVertical(); }), "a line was fitted to " << n << " points"); if (n) for (double bad : {0.0, -1.0}) MC_REQ(refused([&] { ls.add(1, 1, bad); }), "weight " << bad << " accepted"); MC_EQ(ls.size(), (size_t)n, "points");
    std::ostringstream o; o << ls; std::istringstream in(o.str()); double a, b, c; size_t k = 0; while (in >> a >> b >> c) { MC_REQ(k < p.size() && a == p[k].x + ox && b == p[k].y + oy && c == p[k].w4 / 4.0, "printed point " << k << " in " << o.str()); k++; } MC_EQ(k, p.size(), "printed points"); }
// ---- elimination: exact fractions as reference
typedef vector<vector<LD> > Mx;
static int rankOf(Mx m, int cols) { int r = 0, n = m.size(); for (int c = 0; c < cols && r < n; c++) { int b = r; for (int i = r; i < n; i++) if (fabsl(m[i][c]) > fabsl(m[b][c])) b = i; if (fabsl(m[b][c]) < 1e-8) continue; std::swap(m[b], m[r]); for (int i = 0; i < n; i++) if (i != r) { LD f = m[i][c] / m[r][c]; for (size_t j = 0; j < m[i].size(); j++) m[i][j] -= f * m[r][j]; } r++; } return r; }
static void resizing(int depth) { // memory in use is that of the last size, none afterwards
    vector<std::pair<int, int> > dims; string txt; int n = 1 + choose(depth); for (int i = 0; i < n; i++) { int r = choose(4), c = pick(vector<int>{0, 1, 3, 40}); dims.push_back({r, c}); txt += " " + std::to_string(r) + "x" + std::to_string(c); step(); } note("sizes%s", txt.c_str()); state(txt); auto used = __sanitizer_get_current_allocated_bytes; size_t before = used(), fresh, now, after; bool zero = true;
    { Matrix m(dims.back().first, dims.back().second); fresh = used() - before; } { Matrix m(dims[0].first, dims[0].second); for (size_t k = 0;; k++) { for (int i = 0; i < dims[k].first; i++) for (int j = 0; j < dims[k].second; j++) { zero &= m.get(i, j) == 0.0; m.set(i, j, 7 + k); } if (k + 1 == dims.size()) break; m.resize(dims[k + 1].first, dims[k + 1].second); } now = used() - before; } after = used() - before;
    MC_REQ(zero, "a new or resized matrix is not all zero, sizes" << txt); MC_EQ(now, fresh, "bytes held after sizes" << txt); MC_EQ(after, 0u, "bytes held after the matrix is gone, sizes" << txt); }
static void elim(int rows, int cols, const vector<int> &vals, bool cmaxfree) {
    Matrix m(rows, cols); if (choose(2)) { for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) m.set(i, j, 9); m.resize(1, 2); m.resize(rows, cols); for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) MC_EQ(m.get(i, j), 0.0, "resized matrix"); }
    Mx a(rows, vector<LD>(cols)); string txt; for (int i = 0; i < rows; i++) { for (int j = 0; j < cols; j++) { int v = pick(vals); a[i][j] = v; m.set(i, j, v); txt += std::to_string(v) + " "; } txt += "/ "; } int lim = std::min(rows, cols), k = cmaxfree ? choose(cols + 2) - 1 : lim; if (k == 0) k = cmaxfree ? 0 : lim; note("%s first %d columns", txt.c_str(), k);
    int got = m.gaussEliminate(k); if (k == -1) k = lim; MC_EQ(got, rankOf(a, k), "columns eliminated of the first " << k << " of " << txt); Mx r(rows, vector<LD>(cols)); string res; for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) { r[i][j] = m.get(i, j); res += std::to_string((double)r[i][j]) + " "; }
    for (int i = got; i < rows; i++) for (int j = 0; j < k; j++) MC_REQ(fabsl(r[i][j]) < 1e-9, "row " << i << " keeps column " << j << ": " << txt << " became " << res); if (got == k) for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) MC_REQ(fabsl(r[i][j] - (i == j)) < 1e-9, "not the identity: " << txt << " became " << res);
    int ra = rankOf(a, cols); Mx both = a; both.insert(both.end(), r.begin(), r.end()); MC_EQ(rankOf(r, cols), ra, "rank of all of " << txt << " after elimination: " << res); MC_EQ(rankOf(both, cols), ra, "row space of " << txt << " changed to " << res); state(txt + std::to_string(k)); }
// larger systems: solutions of A x = b with known x
static void solve(int n) { vector<int> perm(n); vector<int> left; for (int i = 0; i < n; i++) left.push_back(i); for (int i = 0; i < n; i++) { int c = choose(left.size()); perm[i] = left[c]; left.erase(left.begin() + c); } int kind = choose(4); double sc = choose(2) ? 1 : 4096; Matrix m(n, n + 1); Mx a(n, vector<LD>(n)); for (int i = 0; i < n; i++) { LD b = 0; for (int j = 0; j < n; j++) { double v = kind == 0 ? perm[i] == j : kind == 1 ? (perm[i] >= j) * (1 + j) : kind == 2 ? 1.0 / (perm[i] + j + 1) : (perm[i] == j ? 10 : (i * 7 + j * 3) % 5); v *= j == 0 ? sc : 1; a[i][j] = v; m.set(i, j, v); b += v * (j + 1); } m.set(i, n, b); }
    int got = m.gaussEliminate(n); MC_EQ(got, n, "columns eliminated"); for (int i = 0; i < n; i++) { double x = m.get(i, n); MC_REQ(fabs(x - (i + 1)) < (kind == 2 ? 1e-4 : 1e-8), "unknown " << i << " is " << x << ", kind " << kind); for (int j = 0; j < n; j++) MC_REQ(fabs(m.get(i, j) - (i == j)) < 1e-6, "not the identity"); } state(kind * 100000 + (long)perm[0] * 1000 + n); }
// ---- inverse error function and normal distribution
static void erfs(int N) {
    int kind = choose(4), i = choose(kind == 0 ? N + 1 : kind == 1 ? 53 : kind == 2 ? 60 : 8); double y = kind == 0 ? (double)i / N : kind == 1 ? 1 - std::ldexp(1., -1 - i) : kind == 2 ? std::ldexp(1., -2 - 5 * i) : 0; if (kind == 3) { static const double X[] = {1, 1.5, HUGE_VAL, 1 + 2.3e-16, 1e300, 2, 1.0000001, 7}; y = X[i]; } if (choose(2)) y = -y; note("y=%.17g", y); double x = inverseErf(y);
    if (fabs(y) >= 1) { MC_REQ(x != x, "inverse error function of " << y << " is " << x); return; } LD back = erfl((LD)x); MC_REQ(fabsl(back - y) <= 3e-14L * fabsl(y), "the error function of " << x << ", given for " << y << ", is " << (double)back); MC_REQ(y == 0 || (x < 0) == (y < 0), "sign"); MC_REQ(inverseErf(-y) == -x || std::fabs(inverseErf(-y) + x) <= 1e-11 * std::fabs(x), "not odd at " << y);
    double p = (y + 1) / 2; if (p > 1e-13 && p < 1 - 1e-13) { double z = inverseUnitNormalCDF(p); LD q = (1 + erfl((LD)z / sqrtl(2))) / 2; MC_REQ(fabsl(q - p) < 1e-12L, "the inverse normal distribution of " << p << " is " << z << ", whose probability is " << (double)q); } state((long)(y * 1e9)); }
static void normal(int N) { double x = (choose(2 * N + 1) - N) * (10.0 / N); LD e = erfl((LD)x / sqrtl(2)); MC_REQ(fabsl(unitNormalCDF(x) - (1 + e) / 2) < 1e-14, "normal distribution at " << x << " is " << unitNormalCDF(x)); MC_REQ(fabsl(probAbsNormal(x) - (1 - fabsl(e))) < 1e-14, "two-sided probability at " << x << " is " << probAbsNormal(x)); MC_REQ(fabsl(unitNormalPDF(x) - expl(-(LD)x * x / 2) / sqrtl(2 * acosl(-1.L))) < 1e-14, "normal density at " << x << " is " << unitNormalPDF(x)); state((long)(x * 1e6)); }
// ---- integrality and conversion: integers of every size plus a fraction
static double number() { int e = choose(63), s = choose(3) - 1, f = choose(13), sg = choose(2); static const double F[] = {0, 1 / 32., -1 / 32., 1 / 17., -1 / 17., 1 / 16., -1 / 16., 1 / 15., 0.25, 0.5, -0.25, 1e-9, 0.49999999999999994}; double d = std::ldexp(1., e) * (s == 0 ? 1 : 1.5) + (s == 1 ? 1 : 0); if (e == 0) d = s; d += F[f]; return sg ? -d : d; }
static void integral() { double d = number(); note("%.20g", d); double mag = fabs(d); LD frac = fabsl((LD)d - roundl((LD)d)); if (mag < 562949953421312.0 || mag > 562949953421312.0 * (1 + 1e-15)) { bool want = mag < 562949953421312.0 && frac < 1 / 16.L; for (size_t sz : {sizeof(long), sizeof(long long)}) MC_EQ(isDoubleIntegral(d, sz), want, "integrality of " << std::to_string(d)); }
    long long w = llroundl((LD)d); if (mag < 9e18) { MC_EQ(convertDoubleLong(d), (long)w, "conversion of " << std::to_string(d)); MC_EQ(convertDoubleLongLong(d), w, "conversion of " << std::to_string(d)); } state((long)w); for (size_t bad : {(size_t)0, (size_t)1, (size_t)5, (size_t)16}) MC_REQ(refused([&] { isDoubleIntegral(d, bad); }), "size " << bad << " accepted"); }
static void limits() { static const double X[] = {9223372036854775808.0, 9.3e18, 1e300, HUGE_VAL}; double d = X[choose(4)]; if (choose(2)) d = -d; MC_REQ(!isDoubleIntegral(d, sizeof(long)) && !isDoubleIntegral(d, sizeof(long long)), d << " fits a long"); state((long)(d > 0)); }
// ---- approximate comparison
static void approx() { static const double B[] = {0, 1, -1, 3.5, 1e10, -1e10, 1e-10, 1e-200, 1e200, 5e-324}; static const double R[] = {0, 1e-16, 1e-13, 9e-13, 2e-12, 1e-11, 1e-7, 1e-3, 0.4, 1}; Double::default_epsilon = 1e-12; int set = choose(4); if (set == 1) Double::setEpsilonDigits(6); else if (set == 2) Double::setEpsilonBits(20); else if (set == 3) Double::setEpsilonDigits(12); LD eps = set == 0 || set == 3 ? 1e-12L : set == 1 ? 1e-6L : 1 / 1048576.0L; MC_REQ(fabsl(Double::default_epsilon - eps) < 1e-9L * eps, "epsilon " << Double::default_epsilon);
    double a = B[choose(10)], b = choose(2) ? B[choose(10)] : a + R[choose(10)] * (a == 0 ? 1 : a); if (choose(2)) std::swap(a, b); note("%.20g %.20g", a, b); LD m = std::min(fabsl((LD)a), fabsl((LD)b)), d = fabsl((LD)a - b); LD rel = m == 0 ? d : d / m; bool eq = Double::eq(a, b); if (fabsl(rel - eps) > 1e-3L * eps) MC_EQ(eq, rel < eps, "equality of " << a << " and " << b); MC_EQ(Double::eq(b, a), eq, "equality is not symmetric"); MC_EQ(Double::lt(a, b), a < b && !eq, "less"); MC_EQ(Double::gt(a, b), a > b && !eq, "greater"); MC_EQ(Double::leq(a, b), a < b || eq, "less or equal"); MC_EQ(Double::geq(a, b), a > b || eq, "greater or equal"); MC_EQ(Double::lt(a, b) + Double::gt(a, b) + eq, 1, "one of three of " << a << " and " << b); MC_EQ(Double::abs(a), fabs(a), "absolute value"); Double::default_epsilon = 1e-12; state(hashbytes(&a, 8, 1) ^ hashbytes(&b, 8, set)); }
vector<Config> configs() {
    bool T = thorough(); vector<Config> v; auto add = [&](string n, std::function<void()> b, const char *r) { v.push_back({n, b, r}); };
    const char *f = "all point sets (and sets after a clear) up to the size over small grids, against integer sums";
    add("fit", [T] { fit(T ? 5 : 4, {-1, 0, 2, 5}, {-1, 0, 3}, {4}, false); }, f); add("fit_weights", [T] { fit(T ? 4 : 3, {-1, 0, 2}, {0, 1, 3}, {1, 4, 8}, false); }, f); add("fit_offset", [T] { fit(T ? 4 : 3, {-1, 0, 2}, {0, 1, 3}, {1, 4}, true); }, "the same moved far from the origin");
    const char *g = "all matrices of the shape over the values and every number of leading columns, against rank and row space";
    add("elim_22", [] { elim(2, 2, {-2, -1, 0, 1, 3}, true); }, g); add("elim_23", [T] { elim(2, 3, T ? vector<int>{-2, -1, 0, 1, 3, 7} : vector<int>{-2, -1, 0, 1, 3}, true); }, g); add("elim_32", [] { elim(3, 2, {-2, -1, 0, 1, 3}, true); }, g); add("elim_33", [T] { elim(3, 3, T ? vector<int>{-2, 0, 1, 3} : vector<int>{-1, 0, 2}, true); }, g); add("elim_34", [T] { elim(3, 4, T ? vector<int>{-1, 0, 2} : vector<int>{0, 1}, true); }, g); add("elim_43", [T] { elim(4, 3, T ? vector<int>{-1, 0, 2} : vector<int>{0, 1}, true); }, g); add("elim_11", [] { elim(1, 1, {-2, 0, 1}, true); }, g); add("elim_14", [] { elim(1, 4, {-2, 0, 1}, true); }, g); add("elim_41", [] { elim(4, 1, {-2, 0, 1}, true); }, g); add("elim_44", [T] { elim(4, 4, {0, 1}, T); }, g);
    add("resize", [T] { resizing(T ? 4 : 3); }, "every sequence of up to 3 (4) sizes out of 16"); add("solve", [T] { solve(T ? 7 : 5); }, "systems with known solutions in every order of their equations");
    add("erf", [T] { erfs(T ? 20000 : 5000); }, "every multiple of 1/5000 (1/20000), all powers of two, 1 minus powers of two, and values outside"); add("normal", [T] { normal(T ? 20000 : 3000); }, "the normal distribution on a grid"); add("integral", integral, "integers of every size with fractions around the thresholds"); add("limits", limits, "numbers too large"); add("approx", approx, "pairs of values around the tolerance, four tolerances");
    return v; }
LH_MAIN
