#include "lh.hpp"
#include <Lintel/Clock.hpp>
#include <cmath>
using namespace mc; typedef Clock::Tfrac T;
static const uint32_t S[] = {0, 1, 2, 1000000000u, 1242413341u, 0x7ffffffeu, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu};
static uint64_t up(uint64_t x, uint64_t per) { return (uint64_t)((((unsigned __int128)x << 32) + per - 1) / per); }
static uint64_t down(T t, uint64_t per) { return (uint64_t)(((unsigned __int128)(uint32_t)t * per) >> 32); }
[[noreturn]] static void bad(const char *what, unsigned long long a, unsigned long long b, unsigned long long got, unsigned long long want) { char m[300]; snprintf(m, 300, "%s of %llu, %llu gives %llu instead of %llu", what, a, b, got, want); fail(std::string("p13.cpp:") + what, m); }
#define EQ(what, a, b, got, want) do { unsigned long long g_ = (got), w_ = (want); if (g_ != w_) bad(what, a, b, g_, w_); } while (0)
static void sub(uint32_t s, uint32_t x, uint64_t per, bool micro) {
    T t = micro ? Clock::secMicroToTfrac(s, x) : Clock::secNanoToTfrac(s, x), w = ((T)s << 32) + up(x, per); EQ(micro ? "seconds and microseconds" : "seconds and nanoseconds", s, x, t, w); EQ("seconds part", s, x, Clock::TfracToSec(t), s); EQ("sub-second part", s, x, micro ? Clock::TfracToMicroSec(t) : Clock::TfracToNanoSec(t), x); }
static void micros() { uint32_t lo = choose(1000) * 1000; for (uint32_t u = lo; u < lo + 1000; u++) for (uint32_t s : S) { sub(s, u, 1000000, true); T t = Clock::secMicroToTfrac(s, u); EQ("whole microseconds", s, u, Clock::TfracToTll(t), (uint64_t)s * 1000000 + u); struct timeval tv = Clock::TfracToStructTimeval(t); EQ("timeval seconds", s, u, tv.tv_sec, s); EQ("timeval microseconds", s, u, tv.tv_usec, u); } step(1000); state(lo); }
static void nanos(int parts) { uint64_t n = 1000000000ull / parts; uint64_t lo = choose(parts) * n; uint32_t s = S[choose(thorough() ? 10 : 2) ? 6 : 0]; for (uint64_t u = lo; u < lo + n; u++) sub(s, (uint32_t)u, 1000000000, false); step(n); state(lo + s); }
static void nano_edges() { uint32_t s = S[choose(10)]; for (uint32_t b : {0u, 1000u, 500000000u, 999999000u, 999000000u, 1000000u}) for (uint32_t k = 0; k < 1000; k++) sub(s, b + k, 1000000000, false); step(6000); }
// every fraction of a second
static void one(T t) {
    uint32_t us = Clock::TfracToMicroSec(t), ns = Clock::TfracToNanoSec(t); EQ("microseconds of", t >> 32, (uint32_t)t, us, down(t, 1000000)); EQ("nanoseconds of", t >> 32, (uint32_t)t, ns, down(t, 1000000000)); EQ("seconds of", t >> 32, (uint32_t)t, Clock::TfracToSec(t), t >> 32);
    double d = Clock::TfracToDouble(t), w = (double)t / 4294967296.0; if (d != w) { fail("p13.cpp:to double", "not the nearest double for " + std::to_string(t)); } if (t < (1ull << 53)) EQ("from double of", t >> 32, (uint32_t)t, Clock::secondsToTfrac(d), t); }
static void fractions(int parts) { uint64_t n = (1ull << 32) / parts, lo = choose(parts) * n; T s = thorough() ? (T)S[choose(3)] : 0; for (uint64_t f = lo; f < lo + n; f++) { if (!thorough() && ((f + 1) & 31) > 2) continue; one((s << 32) + f); step(); } state(lo + s); }
static void edges() { T s = S[choose(10)]; for (uint32_t b : {0u, 0x7ffffe00u, 0xfffffc00u, 4294u * 7, 0x10000000u}) for (uint32_t k = 0; k < 1024; k++) { T t = (s << 32) + b + k; one(t); double d = Clock::TfracToDouble(t); if (s < 0xffffffffu && d < 4294967295.0) { T r = Clock::secondsToTfrac(d); T e = r > t ? r - t : t - r; MC_REQ(e <= 1024, "double round trip of " << t << " gives " << r); } MC_EQ(Clock::int64TfracToDouble((int64_t)t), (int64_t)t >= 0 ? (double)(int64_t)t / 4294967296.0 : -((double)(uint64_t)-(int64_t)t / 4294967296.0), "signed"); step(); } }
// doubles next to every boundary of rounding: the nearest fixed-point value
static void doubles() {
    static const double B[] = {0, 1, 2, 3, 1000, 1242413341.0, 2147483647.0, 2147483648.0, 4294967294.0}; double b = B[choose(9)]; int k = choose(64); for (int f = -2048 + 64 * k; f < -2048 + 64 * k + 64; f++) { double x = b + f / (4294967296.0 * 8); for (int dir = -1; dir <= 1; dir++) { double d = dir < 0 ? std::nextafter(x, -1.0) : dir > 0 ? std::nextafter(x, 1e300) : x; if (d < 0 || d >= 4294967295.0) continue; T w = (T)llroundl((long double)d * 4294967296.0L); if ((long double)d * 4294967296.0L >= 9.2e18L) w = (T)(roundl((long double)d * 4294967296.0L)); T r = Clock::secondsToTfrac(d); if (r != w) { char m[200]; snprintf(m, 200, "%.17g seconds gives %llu instead of %llu", d, (unsigned long long)r, (unsigned long long)w); fail("p13.cpp:nearest", m); }
        for (T base : {(T)1 << 40, ((T)5 << 32) + 17, (T)0xfffffffffull << 28}) { T p = Clock::TfracOffsetDouble(base, d), q = Clock::TfracOffsetDouble(base, -d); MC_EQ(p, (T)(base + w), "offset forward " << d); MC_EQ(q, (T)(base - w), "offset backward " << d); } step(); } } }
static void refused() { for (double d : {4294967295.0, 4294967296.0, 1e30, HUGE_VAL, (double)NAN}) { bool f = false; try { Clock::secondsToTfrac(d); } catch (AssertBoostException &) { f = true; } MC_REQ(f, d << " accepted"); } }
std::vector<Config> configs() {
    bool TT = thorough(); std::vector<Config> v; auto add = [&](const char *n, std::function<void()> b, const char *r) { v.push_back({n, b, r}); };
    add("micros", micros, "every microsecond of a second with ten boundary seconds, against exact integer arithmetic"); add("nanos", [] { nanos(2000); }, "every nanosecond of a second, with second 0 and 2^31-1"); add("nano_edges", nano_edges, "nanoseconds near edges with ten boundary seconds"); add("fractions", [] { fractions(2048); }, TT ? "every one of the 2^32 fractions of a second with three seconds" : "every fraction of a second (in units of 2^-32) within one unit of a multiple of 32 units"); add("edges", edges, "fractions near edges with boundary seconds"); add("doubles", doubles, "floating values around every rounding boundary, offsets both ways"); add("refused", refused, "out of range values are refused");
    return v; }
LH_MAIN
