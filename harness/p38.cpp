// P38: the time read with the cycle counter, on a virtual machine whose counter, time of day and scaling files are the explorer's.
#include "clockworld.hpp"
#include <Lintel/Clock.hpp>
#include <dirent.h>
#include <sys/stat.h>
#include <dlfcn.h>
#include <cmath>
using namespace mc; using std::string; using std::vector; typedef uint64_t u64;
// ---- the machine's frequency scaling files live in a scratch folder
static const char *cpuRoot = "/sys/devices/system/cpu"; static string scratch; static bool noDir;
static string mapped(const char *p) { if (!world::on || strncmp(p, cpuRoot, strlen(cpuRoot))) return p; return (noDir ? scratch + "/none" : scratch + "/cpu") + (p + strlen(cpuRoot)); }
#define REAL(f) ((decltype(&f))dlsym(RTLD_NEXT, #f))
extern "C" {
DIR *opendir(const char *p) { return REAL(opendir)(mapped(p).c_str()); }
FILE *fopen(const char *p, const char *m) { return REAL(fopen)(mapped(p).c_str(), m); }
FILE *fopen64(const char *p, const char *m) { return REAL(fopen64)(mapped(p).c_str(), m); }
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); return REAL(open)(mapped(p).c_str(), fl, mode); }
int openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); return REAL(openat)(d, mapped(p).c_str(), fl, mode); }
int access(const char *p, int m) noexcept { return REAL(access)(mapped(p).c_str(), m); }
}
static u64 tf(u64 us) { return (us / 1000000 << 32) + (u64)std::ceil((us % 1000000) * 4294967296.0 / 1e6); }
static void reset(double rate, u64 cc, u64 tod, u64 jit) { world::rate = rate; world::ccCost = cc; world::todCost = tod; world::offset = 0; world::todJump = 0; world::t = 1ull << 40; world::quantum = 1; world::jit = jit; world::hook = nullptr; world::logging = false; world::ops = 0; world::log.clear(); world::ntod = 0; }
struct On { On() { world::on = true; } ~On() { world::on = false; } };
static string fmt(u64 v) { char b[60]; snprintf(b, sizeof b, "%llu.%09llu", (unsigned long long)(v >> 32), (unsigned long long)((v & 0xffffffff) * 1e9 / 4294967296.0)); return b; }
// ---- one clock's expected behaviour
struct Spec { bool slow = false, have = false, bad = false; u64 calTod = 0, calCc = 0, lastRead = 0, interval = 0; string lab; int good = 0, refused = 0;
    bool must(u64 cur) const { return slow || !have || bad || cur <= lastRead || cur - calCc > interval; }
    void judge(u64 got, const vector<world::Ev> &log, double rate, u64 limit) {
        MC_REQ(log.size() && log[0].kind == 'c' || slow, lab << ": the counter is not what is read first"); u64 cur = log.size() ? log[0].v : 0; int tods = 0; size_t at = 0; for (size_t i = 0; i < log.size(); i++) if (log[i].kind == 't') { ++tods; at = i; }
        bool must = this->must(cur); lab += must ? " (system)" : " (counter)"; MC_EQ(tods > 0, must, lab << ": the system's time was asked");
        if (!must) { lastRead = cur; double exp = (cur - calCc) * (4294967296.0 / (rate * 1e6)); double diff = (double)(int64_t)(got - calTod) - exp; MC_REQ(std::fabs(diff) <= 2 + exp * 1e-9, lab << ": got " << fmt(got) << " where " << (cur - calCc) << " cycles have passed since " << fmt(calTod) << " (off by " << diff << ")"); return; }
        MC_EQ(tods, 1, lab << ": times the system's time was asked"); MC_EQ(fmt(got), fmt(tf(log[at].v)), lab << ": reading"); if (slow) return;
        MC_REQ(at > 0 && log[at - 1].kind == 'c' && at + 1 < log.size() && log[at + 1].kind == 'c', lab << ": the counter is not read before and after the system's time"); u64 s = log[at - 1].v, e = log[at + 1].v;
        if (e > s && e - s < limit) { have = true; bad = false; calTod = tf(log[at].v); calCc = lastRead = s + (e - s) / 2; ++good; } else { bad = true; ++refused; } } };
static u64 __attribute__((noipa)) readClock(Clock *c) { return c->todccTfrac(); } // apart: the compiler believes that reading the counter changes no memory
static double rateOf() { return Clock::clock_rate; }
static void calibrate(double rate, u64 cc, u64 tod) { static bool done = false; if (done) { u64 lim = Clock::max_recalibrate_measure_time; (void)lim; return; } done = true; reset(rate, cc, tod, 7); On on; Clock::allowUnsafeFrequencyScaling(Clock::AUFSO_Yes); Clock::calibrateClock(); world::jit = 0; }
// ---- every sequence of readings: passing time, counters that stand still, run back or jump, slow and broken measurements, set intervals, several clocks
static void readings(int depth, int nclock, bool wide) {
    calibrate(2500, 40, 100); reset(2500, 40, 100, 0); On on; u64 limit = Clock::max_recalibrate_measure_time; double rate = rateOf(); vector<Clock *> c; vector<Spec> s(nclock); struct Del { vector<Clock *> &c; ~Del() { for (auto k : c) delete k; } } del{c};
    for (int i = 0; i < nclock; i++) { c.push_back(new Clock); s[i].interval = (u64)(1e-3 * 1e6 * rate); } string trace; u64 force = 0, forceFirst = 0; int meas = 0; bool first = false;
    world::hook = [&](char k) {
        if (k == 't' && world::log.size() && world::log.back().kind == 'c') { u64 b = world::log.back().v; trace += meas == 0 ? "" : meas == 1 ? " just in time" : meas == 2 ? " slow" : meas == 3 ? " counter stands" : meas == 4 ? " very slow" : " counter back"; force = meas == 0 ? 0 : meas == 1 ? b + limit - 1 : meas == 2 ? b + limit : meas == 3 ? b : meas == 4 ? b + limit * 1000 : b - 5000; }
        else if (k == 'c' && force) { if (meas == 1 || meas == 2 || meas == 4) world::t = force - world::ccCost - world::offset; else world::offset = (int64_t)(force - world::t - world::ccCost); force = 0; }
        else if (k == 'c' && first) { first = false; if (forceFirst) { world::t = forceFirst - world::ccCost - world::offset; forceFirst = 0; } } };
    for (int d = 0; d < depth; d++) {
        int i = nclock > 1 ? choose(nclock) : 0; Spec &q = s[i]; u64 I = q.interval, now = world::t + world::offset + world::ccCost; first = true; forceFirst = 0; auto to = [&](u64 v) { forceFirst = std::max(v, now); }; auto jumpTo = [&](u64 v) { world::offset = (int64_t)(v - world::t - world::ccCost); }; const char *w = "";
        int op = choose(wide ? 15 : 11); switch (op) {
        case 0: w = "at once"; break;
        case 1: w = "half the interval later"; to(q.calCc + I / 2); break;
        case 2: w = "at the end of the interval"; to(q.calCc + I - 2); break;
        case 3: w = "past the interval"; to(q.calCc + I + 2); break;
        case 4: w = "one turn of the low half later"; to(q.calCc + (1ull << 32) + I / 2); break;
        case 5: w = "the counter at its last reading"; jumpTo(q.lastRead ? q.lastRead : now); break;
        case 6: w = "the counter back to the calibration"; jumpTo(q.have ? q.calCc : now); break;
        case 7: w = "the counter far back"; jumpTo(now - (3ull << 31)); break;
        case 8: w = "the counter ahead on another processor"; jumpTo(now + I / 3); break;
        case 9: w = "the system's time ahead"; world::todJump += 10000000; break;
        case 10: { w = "interval set"; double sec = pick(vector<double>{1e-3, 2e-4, 5e-2}); world::hook = world::hook; c[i]->setRecalibrateIntervalSeconds(sec); q.interval = (u64)(sec * 1e6 * rate); q.bad = true; break; }
        case 11: w = "one tick past its last reading"; jumpTo(q.lastRead ? q.lastRead + 1 : now); break;
        case 12: w = "the counter just before the calibration"; jumpTo(q.have ? q.calCc - 1 : now); break;
        case 13: w = "long after"; to(q.calCc + (7ull << 33) + 5); break;
        case 14: w = "the interval again"; to(q.calCc + 2 * I); break; }
        trace += string("; clock ") + std::to_string(i) + " " + w; { u64 cur = forceFirst ? forceFirst : world::t + world::offset + world::ccCost; meas = q.must(cur) ? choose(wide ? 6 : 4) : 0; } world::log.clear(); world::logging = true; u64 got = readClock(c[i]); world::logging = false; world::on = false; q.lab = trace; note("%s: %s", trace.c_str(), fmt(got).c_str()); q.judge(got, world::log, rate, limit); trace += q.bad ? " refused" : ""; step();
        MC_EQ((long)c[i]->nrecalibrate, (long)q.good, trace << ": successful recalibrations"); MC_EQ(c[i]->bad_get_tod_cycle_gap ? (long)c[i]->bad_get_tod_cycle_gap->count() : 0L, (long)q.refused, trace << ": refused measurements"); world::on = true; }
    world::hook = nullptr; world::on = false; string st; for (auto &q : s) st += std::to_string(q.calCc) + "," + std::to_string(q.bad) + "," + std::to_string(q.lastRead) + "," + std::to_string(q.calTod) + ";"; state(st); outcome(trace); }
// ---- calibration with one disturbance at every operation
static void calib(int kinds, int stride) {
    double rate = pick(vector<double>{800, 2500}); u64 cc = 400, tod = 900; static std::map<double, u64> total; u64 &n = total[rate]; if (!n) iso::run([&] { reset(rate, cc, tod, 7); On on; Clock::allowUnsafeFrequencyScaling(Clock::AUFSO_Yes); Clock::calibrateClock(); world::on = false; iso::say('O', std::to_string(world::ops)); }, nullptr), n = 0;
    if (!n) { string o; iso::run([&] { reset(rate, cc, tod, 7); world::on = true; Clock::allowUnsafeFrequencyScaling(Clock::AUFSO_Yes); Clock::calibrateClock(); world::on = false; iso::say('O', std::to_string(world::ops)); }, &o); n = strtoull(o.c_str(), 0, 10); MC_REQ(n > 100, "calibration did not finish: '" << o << "'"); }
    u64 at = (u64)choose((int)std::min<u64>(n / stride, 65000)) * stride; int kind = choose(kinds); static const char *names[] = {"held up for 200 us", "held up for 20 ms", "another processor's counter, 1 ms behind", "another processor's counter, 1 ms ahead", "another processor's counter, 10 s ahead", "held up for 3 us", "another processor's counter, 10 s behind"};
    string out; int st = iso::run([&] { reset(rate, cc, tod, 7); u64 k = 0; world::hook = [&](char) { if (k++ == at) switch (kind) { case 0: world::t += 200 * rate; break; case 1: world::t += 20000 * rate; break; case 2: world::offset -= 1000 * rate; break; case 3: world::offset += 1000 * rate; break; case 4: world::offset += (int64_t)(1e7 * rate); break; case 5: world::t += 3 * rate; break; case 6: world::offset -= (int64_t)(1e7 * rate); break; } }; world::on = true; Clock::allowUnsafeFrequencyScaling(Clock::AUFSO_Yes); Clock::calibrateClock(); world::on = false; char b[160]; snprintf(b, sizeof b, "%.17g %llu %.0f", Clock::clock_rate, (unsigned long long)Clock::max_recalibrate_measure_time, (world::t - (1ull << 40)) / rate); iso::say('O', b); }, &out);
    double got = 0, us = 0; unsigned long long lim = 0; sscanf(out.c_str(), "%lf %llu %lf", &got, &lim, &us); string lab = "a processor of " + std::to_string((int)rate) + " MHz " + names[kind] + " at operation " + std::to_string(at); note("%s: %s", lab.c_str(), out.c_str()); state(lab); step(); outcome(out); MC_EQ(st, 0, lab << ": status of the calibrating process");
    MC_REQ(std::fabs(got / rate - 1) < 0.02, lab << ": rate found is " << got); MC_REQ(us < 400000, lab << ": calibration took " << us << " us"); MC_REQ(lim >= cc + tod && lim <= 3 * (cc + tod + 30), lab << ": longest measurement accepted is " << lim << " where one usually takes " << cc + tod); }
// ---- scaling modes and machines
struct Cpu { const char *name, *lo, *hi, *gov; };
static void put(const string &p, const char *s) { FILE *f = REAL(fopen)(p.c_str(), "w"); if (!f) { perror(p.c_str()); _exit(98); } fputs(s, f); fputs("\n", f); fclose(f); }
static void modes() {
    static const vector<vector<Cpu>> machines = {{{"cpu0", "8", "9", "performance"}}, {{"cpu0", "9", "9", "ondemand"}}, {{"cpu0", "8", "9", "ondemand"}}, {{"cpu0", 0, 0, 0}}, {{"cpu0", "9", "9", 0}}, {{"cpu0", 0, 0, "performance"}}, {{"cpu0", "8", "9", "performance"}, {"cpu1", "9", "9", "x"}}, {{"cpu0", "9", "9", "x"}, {"cpu1", "9", "10", "x"}}, {{"cpu0", "9", "10", "x"}, {"cpu1", "9", "9", "x"}}, {{"cpu0", "9", "9", "x"}, {"cpu12", 0, 0, 0}}, {{"cpu0", "9", "99", "x"}}, {{"cpu0", "9", "9", "x"}, {"cpufreq", "8", "9", "x"}, {"cpuidle", 0, 0, 0}, {"node0", "1", "2", "x"}, {"present", 0, 0, 0}}, {{"cpu0", "8", "9", "performances"}}, {}};
    static const bool scaling[] = {false, false, true, true, false, false, false, true, true, true, true, false, true, true};
    int m = choose((int)machines.size()); Clock::AllowUnsafeFreqScalingOpt mode = (Clock::AllowUnsafeFreqScalingOpt)choose(7); bool setMode = mode != 6; if (!setMode) mode = Clock::AUFSO_No; bool late = choose(2), implicit = choose(2); string lab = "machine " + std::to_string(m) + " mode " + std::to_string(mode) + (setMode ? "" : " by default") + (late ? ", mode changed later" : "") + (implicit ? ", calibrated by the first clock" : ""); bool scale = scaling[m];
    string out; int st = iso::run([&] {
        char d[] = "/tmp/mcp38.XXXXXX"; if (!mkdtemp(d)) _exit(98); scratch = d; noDir = machines[m].empty(); if (!noDir) { mkdir((scratch + "/cpu").c_str(), 0755); for (auto &c : machines[m]) { string b = scratch + "/cpu/" + c.name; mkdir(b.c_str(), 0755); mkdir((b + "/cpufreq").c_str(), 0755); if (c.lo) put(b + "/cpufreq/scaling_min_freq", c.lo); if (c.hi) put(b + "/cpufreq/scaling_max_freq", c.hi); if (c.gov) put(b + "/cpufreq/scaling_governor", c.gov); } }
        FILE *err = tmpfile(); fflush(stderr); int keep = dup(2), keep1 = dup(1); fflush(stdout); dup2(fileno(err), 2); dup2(fileno(err), 1); string res; auto text = [&] { fflush(stderr); fflush(stdout); string s; char b[4096]; ssize_t n; off_t at = 0; while ((n = pread(fileno(err), b, sizeof b, at)) > 0) { s.append(b, n); at += n; } return s; };
        auto fin = [&] { world::on = false; dup2(keep, 2); dup2(keep1, 1); string cmd; for (auto &c : machines[m]) { string b = scratch + "/cpu/" + c.name; for (const char *f : {"min_freq", "max_freq", "governor"}) unlink((b + "/cpufreq/scaling_" + f).c_str()); rmdir((b + "/cpufreq").c_str()); rmdir(b.c_str()); } rmdir((scratch + "/cpu").c_str()); rmdir(scratch.c_str()); };
        reset(2500, 400, 900, 7); world::on = true; bool failed = false; Clock *c = 0; string msg;
        try { if (setMode) Clock::allowUnsafeFrequencyScaling(mode); if (!implicit) { Clock::calibrateClock(); Clock::calibrateClock(); } c = new Clock(implicit); } catch (const AssertBoostException &e) { failed = true; msg = e.msg; }
        size_t warned = text().size(); bool info = failed || !(Clock::getFrequencyScalingInfo().first != mode || (mode != Clock::AUFSO_Yes && mode != Clock::AUFSO_UseTod && Clock::getFrequencyScalingInfo().second != scale)); bool lateWarn = true; world::jit = 0;
        try { if (!failed && late) { Clock::allowUnsafeFrequencyScaling(mode); lateWarn = text().size() == warned; if (mode != Clock::AUFSO_UseTod) { Clock::allowUnsafeFrequencyScaling(mode == Clock::AUFSO_Slow ? Clock::AUFSO_Yes : Clock::AUFSO_Slow); lateWarn = lateWarn && text().size() > warned && Clock::getFrequencyScalingInfo().first == mode; } }
            bool expFail = mode == Clock::AUFSO_No && scale; Spec s; s.slow = mode == Clock::AUFSO_UseTod || (scale && (mode == Clock::AUFSO_Slow || mode == Clock::AUFSO_WarnSlow)); s.interval = failed || s.slow ? 0 : (u64)(1e-3 * 1e6 * rateOf()); s.lab = lab; vector<std::pair<u64, vector<world::Ev>>> r;
            if (!failed) for (int i = 0; i < 6; i++) { world::t += i == 3 ? 100 : i == 4 ? 3000000 : 600000; world::log.clear(); world::logging = true; u64 g = readClock(c); world::logging = false; r.push_back({g, world::log}); }
            fin(); MC_EQ(failed, expFail, lab << ": refused (" << msg << ")"); if (!failed) { MC_EQ(warned > 0, scale && (mode == Clock::AUFSO_WarnFast || mode == Clock::AUFSO_WarnSlow), lab << ": warned"); MC_REQ(info, lab << ": what the clock says about its mode and about scaling is wrong"); MC_REQ(lateWarn, lab << ": a later change of the mode is not refused with a warning, or the same mode set again is"); MC_REQ(Clock::isCalibrated(), lab << ": not calibrated"); if (mode != Clock::AUFSO_UseTod) MC_REQ(std::fabs(rateOf() / 2500 - 1) < 0.02, lab << ": rate " << rateOf()); for (auto &x : r) { s.lab = lab; s.judge(x.first, x.second, rateOf(), Clock::max_recalibrate_measure_time); } } iso::say('O', failed ? "refused" : s.slow ? "slow" : "fast"); }
        catch (const AssertBoostException &e) { fin(); mc::fail("refused", lab + ": a reading was refused: " + e.msg); } }, &out);
    note("%s: %s", lab.c_str(), out.c_str()); state(lab); step(); outcome(out); MC_EQ(st, 0, lab << ": status of the reading process"); }
// ---- without calibration
static void uncalibrated() { int k = choose(4); string out; int st = iso::run([&] { reset(2500, 400, 900, 7); world::on = true; bool failed = false; bool was = Clock::isCalibrated(); try { switch (k) { case 0: { Clock c; break; } case 1: { Clock c(false); break; } case 2: { Clock::allowUnsafeFrequencyScaling(Clock::AUFSO_Yes); Clock c(true); Clock d; break; } case 3: { Clock::allowUnsafeFrequencyScaling(Clock::AUFSO_Yes); Clock::calibrateClock(); u64 o = world::ops; Clock c; Clock d(true); Clock::calibrateClock(); if (world::ops != o) mc::fail("again", "calibrated again"); break; } } } catch (const AssertBoostException &e) { failed = true; } world::on = false; MC_REQ(!was, "calibrated before anything happened"); MC_EQ(failed, k < 2, "form " << k << ": a clock without calibration was refused"); MC_EQ(Clock::isCalibrated(), k >= 2, "form " << k << ": calibrated"); }, &out); MC_EQ(st, 0, "status"); state((u64)k); step(); }
// ---- clocks of threads: one thread is stopped at a chosen operation of its calibration while another asks for the same
struct Other { volatile int tid = 0, done = 0; bool cal = false, failed = false; Clock *a = 0, *b = 0; u64 got = 0; };
static void *other(void *p) { Other *o = (Other *)p; o->tid = syscall(SYS_gettid); try { Clock::perThreadInit(); o->cal = Clock::isCalibrated(); o->a = &Clock::perThread(); o->b = &Clock::perThread(); o->got = readClock(o->a); } catch (const AssertBoostException &) { o->failed = true; } o->done = 1; return 0; }
static void awaitOther(Other &o) { for (int i = 0; i < 20000 && !o.done; i++) { if (o.tid && i > 20) { char f[60]; snprintf(f, sizeof f, "/proc/self/task/%d/stat", (int)o.tid); int fd = syscall(SYS_openat, AT_FDCWD, f, O_RDONLY); char b[200]; ssize_t n = syscall(SYS_read, fd, b, sizeof b - 1); syscall(SYS_close, fd); if (n > 0) { b[n] = 0; const char *q = strrchr(b, ')'); if (q && q[2] == 'S') return; } } struct timespec ts = {0, 50000}; syscall(SYS_nanosleep, &ts, 0); } }
static void threads() {
    int n = choose(24); int again = choose(3); string out; string lab = "thread stopped at operation " + std::to_string(n * n * 40) + ", " + std::to_string(again) + " more threads later"; int st = iso::run([&] {
        reset(2500, 400, 900, 7); Other o; pthread_t t; bool started = false; u64 k = 0, at = (u64)n * n * 40; world::hook = [&](char) { if (k++ == at && !started) { started = true; pthread_create(&t, 0, other, &o); awaitOther(o); } }; bool early; try { world::on = true; early = false; try { Clock::perThread(); } catch (const AssertBoostException &) { early = true; } Clock::allowUnsafeFrequencyScaling(Clock::AUFSO_Yes); Clock::perThreadInit(); bool cal = Clock::isCalibrated(); Clock *a = &Clock::perThread(), *b = &Clock::perThread(); double r1 = rateOf(); if (!started) { started = true; pthread_create(&t, 0, other, &o); } pthread_join(t, 0); world::hook = nullptr; vector<Other> more(again); u64 ops = 0; for (auto &m : more) { pthread_t x; pthread_create(&x, 0, other, &m); pthread_join(x, 0); } ops = world::ops; Clock::perThreadInit(); bool quiet = world::ops == ops; double r2 = rateOf(); u64 g = readClock(a), truth = tf(world::base + (u64)((long double)world::t / 2500)); world::on = false;
            MC_REQ(early, lab << ": a thread's clock was given before any initialisation"); MC_REQ(cal && r1 > 0 && r1 == r2, lab << ": rate " << r1 << " then " << r2); MC_REQ(quiet, lab << ": initialised again"); MC_REQ(a == b, lab << ": a thread has two clocks"); MC_REQ(std::fabs((double)(int64_t)(g - truth)) < 4295.0 * 100, lab << ": reading " << fmt(g) << " at " << fmt(truth)); more.push_back(o); std::set<Clock *> seen{a}; for (auto &m : more) { MC_REQ(m.done && !m.failed, lab << ": a thread was refused"); MC_REQ(m.cal, lab << ": initialisation returned in another thread before the calibration was over"); MC_REQ(m.a == m.b && seen.insert(m.a).second, lab << ": threads share a clock or have two"); MC_REQ(m.got, "no reading"); } iso::say('O', std::to_string(seen.size())); }
        catch (const AssertBoostException &e) { world::on = false; mc::fail("refused", lab + ": " + e.msg); } }, &out); note("%s: %s", lab.c_str(), out.c_str()); state(lab); step(); outcome(out); MC_EQ(st, 0, lab << ": status"); }
// ---- the latency of the system's time
static void latency() { double rate = 2500; u64 q = pick(vector<u64>{1, 10, 15000}); u64 cost = pick(vector<u64>{60, 100, 240, 700, 1300, 2400, 2600, 5100, 26000}); int back = choose(4); reset(rate, 10, cost, 0); world::quantum = q; u64 k = 0, n = pick(vector<u64>{1, 3, 7, 20, 50}); world::hook = [&](char c) { if (c == 't' && ++k == n) { if (back == 1) world::todJump -= 3 * q; if (back == 2) world::t += 40 * 2500; if (back == 3) world::todJump += 1000 * q; } }; double got; { On on; got = Clock::estimateTodTfracLatency(); } world::hook = nullptr; string lab = "a time of day that takes " + std::to_string(cost) + " cycles in steps of " + std::to_string(q) + " us, disturbed in way " + std::to_string(back) + " at call " + std::to_string(n); note("%s: %g", lab.c_str(), got); state(lab); step(); double want = cost / rate / 1e6; MC_REQ(got > want / 3 && got < std::max(want * 2.2, 1.1e-6 * q * (want > q * 1e-6 ? 1 : 1) * (want * 2 > q * 1e-6 ? 2 : 0) + want), lab << ": estimated " << got << " seconds where it takes " << want); }
vector<Config> configs() { bool T = thorough(); vector<Config> v; auto add = [&](const char *n, std::function<void()> b, const char *r) { v.push_back({n, b, r}); };
    add("readings", [T] { readings(T ? 5 : 4, 1, false); }, "every sequence of readings of one clock with what happens to the machine's clocks before and during each"); add("readings_wide", [T] { readings(T ? 4 : 3, 1, true); }, "shorter sequences, more that can happen"); add("two_clocks", [T] { readings(T ? 4 : 3, 2, false); }, "two clocks in turn");
    add("calibration", [T] { calib(7, T ? 1 : 3); }, "one disturbance at every (quick: third) operation of a calibration"); add("modes", modes, "every scaling mode on every kind of machine"); add("uncalibrated", uncalibrated, "clocks made before calibration"); add("latency", latency, "estimated cost of the system's time");
    add("threads", threads, "clocks of threads, a second thread asking while the first is at chosen points of its calibration");
    return v; }
LH_MAIN
