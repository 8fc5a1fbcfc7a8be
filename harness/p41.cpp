// P41: drawRandomLogNormal, run as a program: arguments, fitted distribution, numbers drawn.
#include "lh.hpp"
#include <sys/mman.h>
#include <sys/resource.h>
#include <climits>
#include <limits>
#include <algorithm>
#include <cmath>
using namespace mc; using std::string; using std::vector;
struct Run { int status; string out, err; };
static string slurp(int fd) { string s; char b[4096]; ssize_t n; lseek(fd, 0, SEEK_SET); while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); return s; }
// the program in a process of its own; 3 s of processor time are more than it ever needs
struct Started { pid_t pid; vector<string> args; int fo, fe; };
static Started launch(const vector<string> &args, int slot = 0) {
    static int f[16][2]; static pid_t owner; if (owner != getpid()) { for (auto &x : f) { x[0] = memfd_create("o", 0); x[1] = memfd_create("e", 0); } owner = getpid(); } int fo = f[slot][0], fe = f[slot][1]; if (ftruncate(fo, 0) || ftruncate(fe, 0)) abort(); lseek(fo, 0, SEEK_SET); lseek(fe, 0, SEEK_SET);
    fflush(stdout); fflush(stderr); pid_t pid = fork(); if (pid < 0) { perror("fork"); _exit(98); }
    if (!pid) { dup2(fo, 1); dup2(fe, 2); rlimit r{3, 3}; setrlimit(RLIMIT_CPU, &r); signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); vector<char *> av; av.push_back(strdup("drawRandomLogNormal")); for (auto &a : args) av.push_back(strdup(a.c_str())); av.push_back(nullptr); execv(getenv("MC_PROGRAM"), av.data()); _exit(99); }
    return {pid, args, fo, fe}; }
static Run finish(const Started &x) {
    int st; while (waitpid(x.pid, &st, 0) < 0 && errno == EINTR) {} step(); string lab; for (auto &a : x.args) lab += " " + (a.empty() ? string("''") : a);
    MC_REQ(!(WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGXCPU)), "drawRandomLogNormal" << lab << " did not end within 3 s of processor time"); MC_REQ(WIFEXITED(st) && WEXITSTATUS(st) != 99, "drawRandomLogNormal" << lab << " was killed by signal " << WTERMSIG(st));
    return {WEXITSTATUS(st), slurp(x.fo), slurp(x.fe)}; }
static Run program(const vector<string> &args) { return finish(launch(args)); }
static string num(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
// ---- arguments
static bool number(const string &s) { char *e; strtod(s.c_str(), &e); return e != s.c_str(); }
static void arguments(int maxn) {
    static const vector<string> tok{"1", "-v", "0.25", "x", "0", "-1", "", "3", "1e9"}; static const vector<string> few{"1", "-v", "3"}; int n = choose(maxn + 3); vector<string> a; string lab; for (int i = 0; i < n; i++) { a.push_back(pick(n > maxn ? few : tok)); lab += " " + (a.back().empty() ? string("''") : a.back()); } note("%s", lab.c_str()); state(lab);
    Run r = program(a); size_t at = n && a[0] == "-v" ? 1 : 0; size_t k = n - at; bool bad = k < 3 || k > 4; if (!bad) { for (size_t i = 0; i < k; i++) bad |= !number(a[at + i]); for (size_t i = 0; i < 3; i++) bad |= strtod(a[at + i].c_str(), nullptr) <= 0; }
    if (bad) { MC_EQ(r.status, 1, "arguments" << lab << ": exit status"); MC_REQ(r.err.find("Usage:") != string::npos, "arguments" << lab << ": no usage message: " << r.err); MC_EQ(r.out, string(), "arguments" << lab << ": output"); outcome("usage"); return; }
    MC_REQ(r.status == 0 || r.status == 2, "arguments" << lab << ": exit status " << r.status); MC_EQ(r.out.empty(), r.status == 2 || k == 3, "arguments" << lab << ": something printed ('" << r.out << "')"); MC_EQ(r.err.empty(), r.status == 0 && !at, "arguments" << lab << ": something on the error output (" << r.err << ")"); outcome(r.status ? "none" : "fit"); }
// ---- the fit
struct Fit { int status; double m, s, b; };
static Fit fitted(const vector<string> &a) { vector<string> v{"-v"}; v.insert(v.end(), a.begin(), a.end()); Run r = program(v); Fit f{r.status, 0, 0, 0}; if (r.status) return f; size_t at = r.err.find("Solved log parameters:"); MC_REQ(at != string::npos, "no parameters printed: " << r.err); MC_EQ(sscanf(r.err.c_str() + at, "Solved log parameters: Mean %lf, stddev %lf limit %lf", &f.m, &f.s, &f.b), 3, "parameters in " << r.err); return f; }
// mean and deviation, by integrating over the logarithm, in units of exp(ref)
static void moments(double m, double s, double b, double ref, double &mean, double &sd) {
    if (!(b < m + 2 * s * s + 14 * s)) b = m + 2 * s * s + 14 * s; double z = (b - m) / s, lo, hi = b; lo = z > 0 ? m - 14 * s : b - s * (z + sqrt(z * z + 200)); const int N = 20000; long double t0 = 0, t1 = 0, t2 = 0; double top = z > 0 ? 0 : z * z / 2;
    for (int i = 0; i <= N; i++) { double y = lo + (hi - lo) * i / N, q = (y - m) / s, w = exp(top - q * q / 2) * (i == 0 || i == N ? 1 : i % 2 ? 4 : 2), x = exp(y - ref); t0 += w; t1 += w * x; t2 += (long double)w * x * x; }
    mean = t1 / t0; sd = sqrt((double)(t2 / t0 - (t1 / t0) * (t1 / t0))); }
// largest deviation of a log-normal distribution of mean 1 cut off at l: that of the power law it turns into
static double largest(double l) { double k = 1 / (l - 1); return l * sqrt(k / (k + 2)) / (k + 1); }
static void fits(bool T) {
    double scale = pick(T ? vector<double>{1, 1e-6, 0.001, 0.3, 17, 1000, 1e6, 1e12} : vector<double>{1, 0.001, 17, 1e6}), l = pick(T ? vector<double>{2, 0.2, 0.999, 1, 1.003, 1.01, 1.03, 1.1, 1.25, 1.5, 1.75, 2.5, 3, 5, 10, 30, 100, 1e4, 1e7, INFINITY} : vector<double>{2, 0.5, 1, 1.01, 1.1, 1.5, 3, 10, 100, 1e5, INFINITY});
    double f = pick(T ? vector<double>{0.5, 0.05, 0.1, 0.2, 0.3, 0.4, 0.6, 0.65, 0.7, 0.75, 0.8, 0.85, 0.9, 0.94, 0.97, 1.03, 1.06, 1.1, 1.2, 1.5, 2, 4, 30, 1000} : vector<double>{0.5, 0.05, 0.2, 0.7, 0.9, 0.97, 1.03, 1.2, 2, 1000}); double unit = l <= 1 ? 1 : std::isinf(l) ? 1 : std::min(largest(l), 30.), sd = f * unit; bool none = l <= 1 || (l < 1e3 && f > 1.02), must = !none && ((l <= 100 && f <= 0.9) || (std::isinf(l) && f <= 4));
    string lab = "mean " + num(scale) + " deviation " + num(sd * scale) + " limit " + num(l * scale); note("%s", lab.c_str()); state(lab); Fit r = fitted({num(scale), num(sd * scale), num(l * scale)});
    if (none) { MC_EQ(r.status, 2, lab << ": no such distribution, exit status"); outcome("none"); return; } if (must) MC_EQ(r.status, 0, lab << ": there is such a distribution, exit status"); if (r.status) { MC_EQ(r.status, 2, lab << ": exit status"); outcome("not found"); return; }
    MC_REQ(r.s > 0, lab << ": deviation of the logarithm " << r.s); if (!std::isinf(l)) MC_REQ(fabs(r.b - log(l * scale)) < 1e-5, lab << ": limit of the logarithm " << r.b); double m, s; moments(r.m, r.s, log(l * scale), log(scale), m, s);
    MC_REQ(fabs(m - 1) <= 0.01 * sd && fabs(s / sd - 1) <= 0.01, lab << ": the distribution found (logarithm " << r.m << " +- " << r.s << ") has mean " << m * scale << " and deviation " << s * scale); outcome("found"); }
// ---- numbers drawn
static void draws(bool T) {
    double scale = pick(T ? vector<double>{1000, 1, 1e7} : vector<double>{1000}), l = pick(T ? vector<double>{2, 1.02, 1.1, 1.5, 3, 10, 100, INFINITY} : vector<double>{2, 1.05, 1.5, 10, INFINITY}), f = pick(T ? vector<double>{0.5, 0.1, 0.3, 0.7, 0.8, 0.9, 0.95, 0.97, 0.99, 0.995, 0.998} : vector<double>{0.5, 0.2, 0.7, 0.9, 0.97, 0.998}); int n = T ? 4000 : 900;
    double sd = f * (std::isinf(l) ? 1 : largest(l)); string lab = "mean " + num(scale) + " deviation " + num(sd * scale) + " limit " + num(l * scale); note("%s", lab.c_str()); state(lab); vector<string> a{num(scale), num(sd * scale), num(l * scale)}; Fit r = fitted(a); if (r.status) { MC_EQ(r.status, 2, lab << ": exit status"); outcome("none"); return; }
    vector<double> v; a.push_back(""); vector<Started> run; size_t next = 0; auto seedOf = [n](int i) {  return i < n - 6 ? i : (int[]){-1, -77, 123456789, INT_MAX, INT_MIN, 65536}[i - n + 6]; };
    for (int i = 0; i < n; i++) { while (next < (size_t)n && next < (size_t)i + 10) { a[3] = std::to_string(seedOf(next)); run.push_back(launch(a, 1 + next % 12)); ++next; } int seed = seedOf(i); a[3] = std::to_string(seed); Run x = finish(run[i]); MC_EQ(x.status, 0, lab << " integer " << seed << ": exit status"); double d; char nl; MC_REQ(sscanf(x.out.c_str(), "%lf%c", &d, &nl) == 2 && nl == '\n' && x.out.find('\n') + 1 == x.out.size(), lab << " integer " << seed << ": output '" << x.out << "'");
        MC_REQ(d >= 0 && d <= l * scale * (1 + 1e-12) + 5.1e-7, lab << " integer " << seed << ": " << d << " is out of range"); if (i % 97 == 0 || i >= n - 6) { vector<string> w{"-v"}; w.insert(w.end(), a.begin(), a.end()); Run y = program(i % 2 ? a : w); MC_EQ(y.out, x.out, lab << " integer " << seed << ": number printed when run again"); } if (i < n - 6) v.push_back(d); }
    // the share of numbers below each of them, against the distribution
    std::sort(v.begin(), v.end()); double worst = 0, where = 0, z = (log(l * scale) - r.m) / r.s; for (size_t i = 0; i < v.size(); i++) { double F = std::isinf(l) ? erfc(-(log(v[i]) - r.m) / r.s / sqrt(2)) / 2 : erfc(-(log(v[i]) - r.m) / r.s / sqrt(2)) / erfc(-z / sqrt(2)); if (z < -15) { double u = log(l * scale) - log(v[i]); F = exp(z * u / r.s - u * u / 2 / r.s / r.s) * z / (z - u / r.s); } double e = std::max(fabs(F - double(i) / v.size()), fabs(F - double(i + 1) / v.size())); if (e > worst) worst = e, where = v[i]; }
    outcome(worst < 0.02 ? "close" : "near"); if (getenv("P41_SHOW")) { FILE *f = fopen(getenv("P41_SHOW"), "a"); fprintf(f, "%.4f %s\n", worst, lab.c_str()); fclose(f); }
    MC_REQ(worst < 0.07, lab << ": the share of numbers up to " << where << " is off by " << worst); }
vector<Config> configs() {
    bool T = thorough(); vector<Config> v; auto add = [&](const char *n, std::function<void()> b, const char *r) { v.push_back({n, b, r}); };
    add("arguments", [T] { arguments(T ? 5 : 4); }, "every list of up to 4 (5) arguments over 9 words"); add("fits", [T] { fits(T); }, "scales x limits x deviations, the largest possible one known in closed form"); add("draws", [T] { draws(T); }, "the numbers of every integer below the bound, per distribution");
    return v; }
LH_MAIN
