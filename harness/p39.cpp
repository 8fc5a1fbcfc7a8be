// P39: checked system calls under every answer of the system, exact reads under every way the data arrives, assertions that throw.
#include "lh.hpp"
#include <Lintel/Posix.hpp>
#include <Lintel/AssertException.hpp>
#include <sys/syscall.h>
using namespace mc; using std::string; using std::vector;
// ---- the system's side: while `on`, calls on the calls' table are recorded and answered by the script
static bool on; struct Call { string name; long a, b, c; }; static vector<Call> calls; struct Answer { long ret; int err; }; static std::function<Answer(const Call &)> answer; static int anFd, anOut[2]; static int anStat;
static long reply(const char *n, long a, long b, long c) { Call k{n, a, b, c}; calls.push_back(k); Answer r = answer(k); if (r.ret == -1) errno = r.err; return r.ret; }
extern "C" {
ssize_t read(int fd, void *b, size_t n) { return on ? reply("read", fd, (long)b, n) : syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { return on ? reply("write", fd, (long)b, n) : syscall(SYS_write, fd, b, n); }
int close(int fd) { return on ? reply("close", fd, 0, 0) : syscall(SYS_close, fd); }
int dup2(int a, int b) noexcept { return on ? reply("dup2", a, b, 0) : syscall(SYS_dup2, a, b); }
int pipe(int *p) noexcept { if (!on) return syscall(SYS_pipe, p); long r = reply("pipe", (long)p, 0, 0); if (r == 0) { p[0] = anOut[0]; p[1] = anOut[1]; } return r; }
int open(const char *p, int flags, ...) { if (on) return reply("open", (long)p, flags, 0); va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); return syscall(SYS_openat, AT_FDCWD, p, flags, mode); }
off_t lseek(int fd, off_t o, int w) noexcept { return on ? reply("lseek", fd, o, w) : syscall(SYS_lseek, fd, o, w); }
pid_t waitpid(pid_t p, int *st, int o) { if (!on) return syscall(SYS_wait4, p, st, o, 0); long r = reply("waitpid", p, (long)st, o); if (r > 0 && st) *st = anStat; return r; }
int kill(pid_t p, int s) noexcept { return on ? reply("kill", p, s, 0) : syscall(SYS_kill, p, s); } // never the real one while scripted
}
#include <dlfcn.h>
extern "C" pid_t fork(void) noexcept { static pid_t (*real)(void) = (pid_t (*)(void))dlsym(RTLD_NEXT, "fork"); return on ? reply("fork", 0, 0, 0) : real(); } // the real one outside of the script
struct Scope { Scope() { calls.clear(); on = true; } ~Scope() { on = false; } };
struct Out { bool failed; string msg; long ret; };
template <class F> static Out run(F f) { Out o{false, "", 0}; try { Scope s; o.ret = f(); } catch (const AssertBoostException &e) { o.failed = true; o.msg = e.msg; } on = false; return o; }
static const int errs[] = {EBADF, EIO, EINVAL, ENOSPC, EPIPE, EMFILE, ENOMEM, EPERM, ESRCH, ECHILD, EAGAIN, ENOENT};
static void judge(const string &lab, const Out &o, const vector<Call> &want, bool fail, int err, long ret) {
    note("%s", lab.c_str()); state(lab); step(); MC_EQ(calls.size(), want.size(), lab << ": number of calls made"); for (size_t i = 0; i < want.size(); i++) { MC_EQ(calls[i].name, want[i].name, lab << ": the call made"); MC_EQ(calls[i].a, want[i].a, lab << ": first argument"); MC_EQ(calls[i].b, want[i].b, lab << ": second argument"); MC_EQ(calls[i].c, want[i].c, lab << ": third argument"); }
    MC_EQ(o.failed, fail, lab << ": assertion failed"); if (fail) { if (err) MC_REQ(o.msg.find(strerror(err)) != string::npos, lab << ": the message '" << o.msg << "' does not name the error '" << strerror(err) << "'"); } else MC_EQ(o.ret, ret, lab << ": result"); }
static void wrappers() {
    static char buf[64]; int e = choose((int)(sizeof errs / sizeof *errs) + 1); bool bad = e > 0; int err = bad ? errs[e - 1] : 0; errno = choose(2) ? EDOM : 0; int fd = pick(vector<int>{0, 1, 3, 77, 1 << 20}); string lab; long r = 0; auto ans = [&](long good) { r = good; answer = [=](const Call &) { return Answer{bad ? -1 : good, err}; }; }; auto L = [&](const string &n) { return n + (bad ? string(" failing with ") + strerror(err) : " giving " + std::to_string(r)); };
    switch (choose(10)) {
    case 0: { ans(0); Out o = run([&] { posix::close(fd); return 0L; }); judge(L("close"), o, {{"close", fd, 0, 0}}, bad, err, 0); break; }
    case 1: { int to = pick(vector<int>{0, 2, 9}); ans(to); Out o = run([&] { posix::dup2(fd, to); return 0L; }); judge(L("duplicate"), o, {{"dup2", fd, to, 0}}, bad, err, 0); break; }
    case 2: { ans(0); int p[4] = {-5, -6, -7, -8}; anOut[0] = fd; anOut[1] = fd + 1; Out o = run([&] { posix::pipe(p + 1); return 0L; }); judge(L("pipe"), o, {{"pipe", (long)(p + 1), 0, 0}}, bad, err, 0); MC_REQ(p[0] == -5 && p[3] == -8 && (bad || (p[1] == fd && p[2] == fd + 1)), "the pipe's ends"); break; }
    case 3: { const char *name = pick(vector<const char *>{"", "/a b", "x%dy"}); int fl = pick(vector<int>{O_RDONLY, O_WRONLY, O_RDWR | O_APPEND}); ans(fd); Out o = run([&] { return (long)posix::open(name, fl); }); judge(L(string("open ") + name), o, {{"open", (long)name, fl, 0}}, bad, err, fd); break; }
    case 4: { size_t n = pick(vector<size_t>{0, 1, 64, 1ul << 31, 1ul << 33}); ans(n ? choose(2) ? (long)n : (long)n / 2 : 0); Out o = run([&] { return (long)posix::read(fd, buf, n); }); judge(L("read of " + std::to_string(n)), o, {{"read", fd, (long)buf, (long)n}}, bad, err, r); break; }
    case 5: { size_t n = pick(vector<size_t>{0, 1, 64, 1ul << 31, 1ul << 33}); ans(n ? choose(2) ? (long)n : (long)n / 2 : 0); Out o = run([&] { return (long)posix::write(fd, buf, n); }); judge(L("write of " + std::to_string(n)), o, {{"write", fd, (long)buf, (long)n}}, bad, err, r); break; }
    case 6: { long at = pick(vector<long>{0, -3, 5, 1L << 31, (1L << 32) - 1, 1L << 40}); int wh = pick(vector<int>{SEEK_SET, SEEK_CUR, SEEK_END}); ans(pick(vector<long>{0, 7, 1L << 31, 0xffffffffL, 1L << 40})); Out o = run([&] { return (long)posix::lseek(fd, at, wh); }); judge(L("seek to " + std::to_string(at)), o, {{"lseek", fd, at, wh}}, bad, err, r); break; }
    case 7: { int st = -1, pid = pick(vector<int>{-1, 0, -20, 4321}), op = pick(vector<int>{0, WNOHANG, WUNTRACED}); anStat = pick(vector<int>{0, 256, 9}); bool nul = choose(2); ans(pick(vector<long>{0, 4321, 4194303})); Out o = run([&] { return (long)posix::waitpid(pid, nul ? 0 : &st, op); }); judge(L("wait for " + std::to_string(pid)), o, {{"waitpid", pid, nul ? 0 : (long)&st, op}}, bad, err, r); if (!bad && r && !nul) MC_EQ(st, anStat, "status of the awaited process"); break; }
    case 8: { ans(pick(vector<long>{0, 1, 4194303})); Out o = run([&] { return (long)posix::fork(); }); judge(L("fork"), o, {{"fork", 0, 0, 0}}, bad, err, r); break; }
    case 9: { int pid = pick(vector<int>{-1, 0, 4321}), sig = pick(vector<int>{0, SIGTERM, 64}); ans(0); Out o = run([&] { return (long)posix::kill(pid, sig); }); judge(L("signal to " + std::to_string(pid)), o, {{"kill", pid, sig, 0}}, bad, err, 0); break; } }
}
// a stream of `len` bytes that arrives in pieces chosen by the explorer, ends, or breaks
struct Stream { int len, at = 0; char *lo, *hi; string lab; int err = 0; bool ended = false; vector<int> pieces; };
static Answer deliver(Stream &s, const Call &k, bool faults) {
    char *b = (char *)k.b; long n = k.c; if (k.name != "read" || k.a != 42) { s.lab += " [another call: " + k.name + "]"; return {0, 0}; } on = false; char t[80]; snprintf(t, sizeof t, " [%ld at %ld]", n, (long)(b - s.lo)); s.lab += t; on = true;
    if (b < s.lo || n < 0 || b + n > s.hi) { on = false; fail("beyond", "read(" + std::to_string(n) + " bytes at offset " + std::to_string(b - s.lo) + ") goes beyond the " + std::to_string(s.hi - s.lo) + " bytes wanted;" + s.lab); }
    long can = std::min<long>(n, s.len - s.at); on = false; int c = choose(faults ? (int)can + (can ? 1 : 2) : std::max<int>(1, (int)can)); on = true;
    if (faults && c == can + (can ? 0 : 1)) { s.err = EIO; return {-1, EIO}; } if (can == 0) { s.ended = true; return {0, 0}; } long k2 = can - c; for (long i = 0; i < k2; i++) b[i] = (char)(1 + s.at + i); s.at += k2; s.pieces.push_back(k2); return {k2, 0}; }
static void exact(int maxn, bool faults) {
    int want = choose(maxn + 1), len = choose(maxn + 3); bool one = choose(2); vector<char> mem(want + 16, 'g'); Stream s; s.len = len; s.lo = mem.data() + 8; s.hi = s.lo + want; answer = [&](const Call &k) { return deliver(s, k, faults); };
    Out o = run([&] { if (one) { posix::read0(42, s.lo, want); return (long)want; } return (long)posix::readN(42, s.lo, want); }); string lab = string(one ? "exact read" : "read") + " of " + std::to_string(want) + " from " + std::to_string(len) + ";" + s.lab; note("%s", lab.c_str()); state(lab); step(); outcome(lab);
    for (int i = 0; i < 8; i++) MC_REQ(mem[i] == 'g' && s.hi[i] == 'g', lab << ": memory outside the buffer was written"); long got = s.at; for (long i = 0; i < got; i++) MC_EQ((int)s.lo[i], (int)(char)(1 + i), lab << ": byte " << i);
    if (s.err) { MC_REQ(o.failed && o.msg.find(strerror(s.err)) != string::npos, lab << ": the error is not reported: '" << o.msg << "'"); return; }
    if (one) { MC_EQ(calls.size(), (size_t)1, lab << ": calls"); MC_EQ(o.failed, got != want, lab << ": refused"); }
    else { MC_REQ(!o.failed, lab << ": refused: " << o.msg); MC_EQ(o.ret, (long)std::min(want, len), lab << ": result"); MC_EQ(got, (long)std::min(want, len), lab << ": bytes taken from the stream"); } }
// the same over a real pipe: what follows the wanted bytes stays in it
static void realPipe() { int p[2]; posix::pipe(p); int a = choose(6), b = choose(6), want = choose(9); string d; for (int i = 0; i < a + b; i++) d += (char)('A' + i); MC_EQ(posix::write(p[1], d.data(), a), (ssize_t)a, "write"); MC_EQ(posix::write(p[1], d.data() + a, b), (ssize_t)b, "write"); posix::close(p[1]);
    char buf[16]; memset(buf, '.', sizeof buf); ssize_t got = posix::readN(p[0], buf, want); int e = std::min(want, a + b); MC_EQ(got, (ssize_t)e, "read of " << want << " from a pipe holding " << a + b); MC_EQ(string(buf, 16), d.substr(0, e) + string(16 - e, '.'), "buffer"); string rest(16, 0); ssize_t r = posix::readN(p[0], &rest[0], 16); MC_EQ(rest.substr(0, r), d.substr(e), "what is left in the pipe"); posix::close(p[0]); bool f = false; try { posix::close(p[0]); } catch (const AssertBoostException &x) { f = x.msg.find(strerror(EBADF)) != string::npos; } MC_REQ(f, "closing a closed descriptor is not refused"); state((uint64_t)(a * 100 + b * 10 + want)); step(); }
// ---- assertions that throw
struct Sub : AssertExceptionT { Sub(const string &c, const string &m, const char *f, int l) : AssertExceptionT(c, m, f, l) {} };
static int evals, fmts; static bool cond(bool v) { ++evals; return v; } static const char *arg(const char *s) { ++fmts; return s; }
static void throwing() {
    int form = choose(5); bool ok = choose(2); int len = pick(vector<int>{0, 1, 2, 7, 100, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 5000, 70000}); char fill = pick(vector<char>{'x', '%', '\n', (char)0xe9}); string text(len, fill); evals = fmts = 0; string got, c, file; int line = -1, at = 0, type = 0; string wantMsg;
    try { switch (form) {
        case 0: at = __LINE__; AssertException(cond(ok) || evals < 0); break;
        case 1: at = __LINE__; AssertExceptionMsg(cond(ok) || evals < 0, ("%s", arg(text.c_str()))); break;
        case 2: at = __LINE__; SubtypeAssertException(Sub, cond(ok) || evals < 0); break;
        case 3: at = __LINE__; SubtypeAssertExceptionMsg(Sub, cond(ok) || evals < 0, ("%d|%s|%5.1f%%", -12, arg(text.c_str()), 2.25)); break;
        case 4: at = __LINE__; AssertExceptionMsg(cond(ok) || evals < 0, ("%*s|%s", len, "r", arg("end"))); break; } }
    catch (const Sub &e) { type = 2; got = e.message; c = e.condition; file = e.filename; line = e.lineno; } catch (const AssertExceptionT &e) { type = 1; got = e.message; c = e.condition; file = e.filename; line = e.lineno; }
    if (form == 1) wantMsg = text; if (form == 3) wantMsg = "-12|" + text + "|  2.2%"; if (form == 4) wantMsg = string(std::max(0, len - 1), ' ') + "r|end"; string lab = "form " + std::to_string(form) + (ok ? " holding" : " failing") + ", text of " + std::to_string(len); note("%s", lab.c_str()); state(lab + fill); step();
    MC_EQ(evals, 1, lab << ": evaluations of the condition"); bool m = form == 1 || form == 3 || form == 4; MC_EQ(fmts, m && !ok ? 1 : 0, lab << ": message arguments evaluated"); MC_EQ(type, ok ? 0 : form == 2 || form == 3 ? 2 : 1, lab << ": exception thrown");
    if (!ok) { MC_EQ(c, string("cond(ok) || evals < 0"), lab << ": condition"); MC_EQ(file, string(__FILE__), lab << ": file"); MC_EQ(line, at, lab << ": line"); MC_EQ(got.size(), wantMsg.size(), lab << ": size of the message"); MC_REQ(got == wantMsg, lab << ": message differs: '" << got.substr(0, 60) << "...'"); } }
vector<Config> configs() {
    bool T = thorough(); vector<Config> v; auto add = [&](const char *n, std::function<void()> b, const char *r) { v.push_back({n, b, r}); };
    add("wrappers", wrappers, "every call with success and twelve errors, argument values and an old error left over"); add("exact", [T] { exact(T ? 10 : 7, false); }, "every way a stream arrives in pieces"); add("exact_faults", [T] { exact(T ? 9 : 6, true); }, "the same with an error at every call"); add("pipe", realPipe, "a real pipe"); add("throwing", throwing, "every form of throwing assertion and message lengths around the powers of two");
    return v; }
LH_MAIN
