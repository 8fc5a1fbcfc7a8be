#include "lh.hpp"
#include <Lintel/unstable/InterpolationSearch.hpp>
using namespace mc; using std::string; using std::vector;
template <class T> struct Cmp { bool operator()(const T &a, const T &b) const { return a < b; } };
template <class T> static const char *nm() { return sizeof(T) == 1 ? "8" : sizeof(T) == 2 ? "16" : sizeof(T) == 4 ? "32" : "64"; }
static uint64_t calls, limit;
// any estimator that keeps its promise (an offset inside the range) must do
struct AnyEst { template <class T> size_t operator()(const T &, const T &, const T &, size_t lastp) const { if (++calls > limit) fail("p12.cpp:terminates", "too many estimates"); return (size_t)choose((int)lastp + 1); } };
template <class T> struct CountEst { lintel::EstimateOffset<T> e; size_t operator()(const T &v, const T &f, const T &l, size_t lastp) const { if (++calls > limit) fail("p12.cpp:terminates", "too many estimates"); size_t r = e(v, f, l, lastp); MC_REQ(r <= lastp, "estimate " << r << " past " << lastp); return r; } };
template <class T> static void one(const vector<T> &a, T v) {
    T *p = new T[a.size()]; std::copy(a.begin(), a.end(), p); T *e = p + a.size(), *w = std::lower_bound(p, e, v); calls = 0; limit = 4 * a.size() + 64; auto bad = [&](const char *how, T *r) { std::ostringstream os; os << how << " " << nm<T>() << " bit: sought " << (long long)v << " in ["; for (size_t i = 0; i < a.size() && i < 20; i++) os << (long long)a[i] << " "; os << "] of " << a.size() << ": " << (r - p) << " instead of " << (w - p); delete[] p; fail("p12.cpp:lower bound", os.str()); };
    T *r = lintel::interpolationLowerBound(p, e, v); if (r != w) bad("default", r);
    calls = 0; r = lintel::detail::interpolationLowerBound<2, 4, 0>(p, e, v, CountEst<T>(), Cmp<T>()); if (r != w) bad("<2,4,0>", r); calls = 0; r = lintel::detail::interpolationLowerBound<1, 1, 0>(p, e, v, CountEst<T>(), Cmp<T>()); if (r != w) bad("<1,1,0>", r); calls = 0; r = lintel::detail::interpolationLowerBound<2, 4, 3>(p, e, v, CountEst<T>(), Cmp<T>()); if (r != w) bad("<2,4,3>", r); delete[] p; step(); }
template <class T> static vector<T> keys() { T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); T m = lo / 2 + hi / 2; vector<T> k = {lo, (T)(lo + 1), (T)(lo / 2 + 3), (T)(m - 1), m, (T)(m + 1), (T)(m + 2), (T)(hi / 2 + 7), (T)(hi - 1), hi}; std::sort(k.begin(), k.end()); k.erase(std::unique(k.begin(), k.end()), k.end()); return k; }
template <class T> static void small(int len) { vector<T> k = keys<T>(), a; int n = choose(len + 1), at = 0; for (int i = 0; i < n; i++) { at += choose((int)k.size() - at); a.push_back(k[at]); } for (auto v : k) { one<T>(a, v); if (v != std::numeric_limits<T>::max()) one<T>(a, (T)(v + 1)); if (v != std::numeric_limits<T>::min()) one<T>(a, (T)(v - 1)); } state(hashbytes(a.data(), a.size() * sizeof(T), sizeof(T))); }
static void smalls(int len) { switch (choose(8)) { case 0: small<int8_t>(len); break; case 1: small<uint8_t>(len); break; case 2: small<int16_t>(len); break; case 3: small<uint16_t>(len); break; case 4: small<int32_t>(len); break; case 5: small<uint32_t>(len); break; case 6: small<int64_t>(len); break; default: small<uint64_t>(len); } }
// long arrays made of runs
template <class T> static void runs(int nr) {
    static const int L[] = {1, 2, 100, 255, 256, 257, 700}; vector<T> k = keys<T>(), a; int at = 0; int n = 1 + choose(nr); vector<T> probe; for (int i = 0; i < n; i++) { at += choose((int)k.size() - at); int len = L[choose(thorough() ? 7 : 5)], stepk = choose(2); T v = k[at]; for (int j = 0; j < len; j++) { a.push_back(v); if (stepk && v != std::numeric_limits<T>::max() && (at + 1 == (int)k.size() || v + 1 < k[at + 1])) v++; } probe.push_back(k[at]); probe.push_back(v); }
    for (size_t i = 1; i < a.size(); i++) if (a[i] < a[i - 1]) throw Prune(); for (auto v : probe) { one<T>(a, v); if (v != std::numeric_limits<T>::max()) one<T>(a, (T)(v + 1)); if (v != std::numeric_limits<T>::min()) one<T>(a, (T)(v - 1)); } for (auto v : k) one<T>(a, v); state(a.size()); }
static void longs(int nr) { switch (choose(3)) { case 0: runs<int32_t>(nr); break; case 1: runs<uint64_t>(nr); break; default: runs<int64_t>(nr); } }
template <size_t I, size_t B, size_t S> static void anyest(int maxn) {
    int n = choose(maxn + 1), p = choose(n + 1); int *a = new int[n]; for (int i = 0; i < n; i++) a[i] = i < p ? 1 : 3; calls = 0; limit = 4 * n + 16; note("%d keys below, %d not below", p, n - p); int *r = lintel::detail::interpolationLowerBound<I, B, S>(a, a + n, 2, AnyEst(), Cmp<int>()); long g = r - a; delete[] a; MC_EQ(g, (long)p, "position among " << n); outcome(calls); state(n * 64 + p); }
template <class T> static void estimate() { vector<T> k = keys<T>(); int i = choose((int)k.size()), j = i + choose((int)k.size() - i); lintel::EstimateOffset<T> e; for (size_t lp : {size_t(0), size_t(1), size_t(2), size_t(255), size_t(1) << 20, (size_t(1) << 31) + 1, size_t(1) << 40}) for (T v : k) if (v > k[i] && v <= k[j]) { size_t r = e(v, k[i], k[j], lp); MC_REQ(r <= lp, "estimate " << r << " of " << lp); step(); } }
vector<Config> configs() {
    bool T = thorough(); vector<Config> v; auto add = [&](const char *n, std::function<void()> b, const char *r) { v.push_back({n, b, r}); };
    add("small", [T] { smalls(T ? 9 : 7); }, "all sorted arrays to the length over ten keys including the type limits, for eight types, every key and its neighbours, four step settings"); add("runs", [T] { longs(T ? 4 : 3); }, "long arrays of runs of equal or consecutive keys around the binary-search threshold");
    add("any_estimate", [T] { anyest<2, 4, 0>(T ? 20 : 15); }, "every estimate the estimator may return, all positions"); add("any_estimate_11", [T] { anyest<1, 1, 0>(T ? 20 : 15); }, "the same with single steps"); add("any_estimate_21", [T] { anyest<2, 1, 2>(T ? 20 : 15); }, "the same with other steps"); add("estimate", [] { switch (choose(4)) { case 0: estimate<int32_t>(); break; case 1: estimate<uint64_t>(); break; case 2: estimate<int64_t>(); break; default: estimate<int8_t>(); } }, "estimates stay in range for all triples of boundary keys");
    return v; }
LH_MAIN
