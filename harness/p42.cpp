// P42: platform details (getDeptoolInfo) and process sizes (ProcessStatistics).
#define LINTEL_UNSTABLE_PROCESS_STATISTICS_NOWARN
#include "lh.hpp"
#include <Lintel/TestUtil.hpp>
#include <Lintel/PThread.hpp>
#include <Lintel/unstable/ProcessStatistics.hpp>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <stdarg.h>
#include <algorithm>
#include <memory>
using namespace mc; using std::string; using std::vector; using namespace lintel; using namespace lintel::process_statistics;
static string scratch() { static string d; if (d.empty()) { const char *e = getenv("MC_SCRATCH"); d = string(e && *e ? e : "/tmp") + "/mcp42." + std::to_string(getpid()); mkdir(d.c_str(), 0700); } return d; }
static void put(const string &f, const string &t, int mode = 0600) { FILE *h = fopen(f.c_str(), "w"); if (!h) abort(); fwrite(t.data(), 1, t.size(), h); fclose(h); chmod(f.c_str(), mode); }
static string get(const string &f) { string s; FILE *h = fopen(f.c_str(), "r"); if (!h) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }
static int lowestFd() { int f = dup(2); close(f); return f; }
struct Ask { string os, version, arch; bool failed; int fds; bool child; };
// the question, asked in a process of its own whose environment and programs are the ones given
static Ask ask(const char *bos, const char *um, const char *dt, const string &dir) {
    string out; int st = iso::run([&] { auto se = [](const char *k, const char *v) { if (v) setenv(k, v, 1); else unsetenv(k); }; se("BUILD_OS", bos); se("UNAME_M", um); se("DEPTOOL", dt); setenv("PATH", dir.c_str(), 1); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); close(nul);
        int before = lowestFd(); string s; try { DeptoolInfo i = getDeptoolInfo(); s = "R\n" + i.os + "\n" + i.version + "\n" + i.arch + "\n" + i.osVersion() + "\n" + i.osVersionArch() + "\n" + (i.haveAllInfo() ? "1" : "0") + "\n"; } catch (AssertBoostException &) { s = "F\n"; }
        s += std::to_string(lowestFd() - before) + "\n" + (waitpid(-1, nullptr, WNOHANG) == -1 && errno == ECHILD ? "0" : "1") + "\n"; iso::say('O', s); }, &out);
    MC_REQ(WIFEXITED(st) && WEXITSTATUS(st) == 0 && !out.empty(), "the question ended with status " << st); vector<string> l; for (size_t a = 0, b; (b = out.find('\n', a)) != string::npos; a = b + 1) l.push_back(out.substr(a, b - a));
    if (l[0] == "F") return {"", "", "", true, 0, false}; Ask r{l[1], l[2], l[3], false, atoi(l[7].c_str()), l[8] == "1"};
    MC_EQ(l[4], r.os + "-" + r.version, "system and version together"); MC_EQ(l[5], r.os + "-" + r.version + "-" + r.arch, "system, version and architecture together"); MC_EQ(l[6], string(r.os.empty() || r.version.empty() || r.arch.empty() ? "0" : "1"), "whether everything is there"); return r; }
static void expect(const string &lab, const Ask &r, const string &bos, const string &arch) { size_t d = bos.find('-'); MC_EQ(r.failed, d == string::npos, lab << ": refused"); if (r.failed) return; MC_EQ(r.os, bos.substr(0, d), lab << ": system"); MC_EQ(r.version, bos.substr(d + 1), lab << ": version"); MC_EQ(r.arch, arch, lab << ": architecture"); MC_EQ(r.fds, 0, lab << ": files left open"); MC_REQ(!r.child, lab << ": a process was left behind"); }
static const vector<const char *> BOS{nullptr, "debian-7.0", "", "a-b-c", "nodash", "-x", "x-"};
static void environment() {
    string d = scratch(); const char *bos = pick(BOS), *um = pick(vector<const char *>{nullptr, "x86_64", ""}), *dt = pick(vector<const char *>{nullptr, "", "tool"}); int have = choose(3); string tool = d + "/tool", log = d + "/log"; unlink(log.c_str());
    string body = "#!/bin/sh\necho \"$0 $*\" >> " + log + "\necho 'export BUILD_OS=\"ubuntu-24.04\";'; echo 'export UNAME_M=\"sparc\";'\n"; unlink((d + "/deptool").c_str()); unlink((d + "/perl").c_str()); if (have != 0) put(d + "/deptool", body, 0700); if (have != 2) put(d + "/perl", have ? body : "#!/bin/sh\necho \"$0 $*\" >> " + log + "\necho no such file >&2\nexit 2\n", 0700);
    string lab = string("BUILD_OS ") + (bos ? bos : "unset") + " UNAME_M " + (um ? um : "unset") + " DEPTOOL " + (dt ? dt : "unset") + (have == 0 ? ", no deptool" : have == 1 ? "" : ", no perl"); note("%s", lab.c_str()); state(lab); Ask r = ask(bos, um, dt && *dt ? tool.c_str() : dt, d); string ran = get(log); step();
    if (bos && *bos && um && *um) { MC_EQ(ran, string(), lab << ": programs run"); expect(lab, r, bos, um); outcome("environment"); return; }
    bool viaPerl = dt && *dt; string want = viaPerl ? d + "/perl " + tool + " getenv for-sh\n" : d + "/deptool getenv for-sh\n"; bool there = viaPerl ? have != 2 : have != 0; MC_EQ(ran, there ? want : string(), lab << ": programs run"); if (have == (viaPerl ? 2 : 0) || (viaPerl && have == 0)) { MC_REQ(!r.failed, lab << ": refused"); MC_EQ(r.os + r.version + r.arch, string(), lab << ": platform"); MC_EQ(r.fds, 0, lab << ": files left open"); MC_REQ(!r.child, lab << ": a process was left behind"); outcome("absent"); return; }
    expect(lab, r, "ubuntu-24.04", "sparc"); outcome("deptool"); }
static void output(int maxl) {
    string d = scratch(); struct K { const char *name; string text; }; static const vector<K> kinds{{"os", "export BUILD_OS=\"ubuntu-24.04\";\n"}, {"arch", "export UNAME_M=\"x86_64\";\n"}, {"other", "export PROJECTS=\"/p\";\n"}, {"empty", "\n"}, {"198", string(198, 'y') + "\n"}, {"199", string(199, 'y') + "\n"}, {"200", string(200, 'y') + "\n"}, {"397", string(397, 'z') + "\n"}, {"1000", "export X=\"" + string(1000, '"') + "\";\n"}, {"long before os", string(199, 'q') + "export BUILD_OS=\"no-no\";\n"}, {"osx", "export BUILD_OSX=\"q-1\";\n"}, {"long os", "export BUILD_OS=\"" + string(300, 'l') + "-1\";\n"}, {"unquoted", "export BUILD_OS=\"u-1;\n"}, {"empty arch", "export UNAME_M=\"\";\n"}, {"trailing", "export UNAME_M=\"x86\"64\";\n"}, {"nodash", "export BUILD_OS=\"nodash\";\n"}};
    int n = choose(maxl + 1); string text, lab = "deptool printing", os, arch; bool bad = false, open = false; for (int i = 0; i < n; i++) { const K &k = kinds[choose(kinds.size())]; text += k.text; lab += string(" [") + k.name + "]"; string nm = k.name; if (nm == "os") os = "ubuntu-24.04"; else if (nm == "arch") arch = "x86_64"; else if (nm == "long os") os = string(300, 'l') + "-1"; else if (nm == "nodash") os = "nodash"; else if (nm == "unquoted" || nm == "empty arch" || nm == "trailing") bad = true; }
    int rc = choose(2); note("%s exit %d", lab.c_str(), rc); state(lab + (rc ? " 1" : " 0")); put(d + "/out", text); put(d + "/deptool", "#!/bin/sh\n" + string(text.empty() ? "" : "/bin/cat " + d + "/out\n") + "exit " + std::to_string(rc) + "\n", 0700); (void)open;
    Ask r = ask(nullptr, nullptr, nullptr, d); step(); if (n == 0 && rc) { outcome("nothing"); return; } // as good as absent
    if (bad || os.empty() || arch.empty()) { MC_REQ(r.failed, lab << ": accepted as " << r.os << "/" << r.version << "/" << r.arch); outcome("refused"); return; } expect(lab, r, os, arch); outcome("taken"); }
// ---- sizes
static const long PAGE = sysconf(_SC_PAGESIZE); enum { BLOCK = 512 };
static bool statm(pid_t p, size_t &a, size_t &r) { char f[64]; snprintf(f, sizeof f, "/proc/%d/statm", (int)p); int fd = open(f, O_RDONLY); if (fd < 0) return false; char b[256]; ssize_t n = read(fd, b, sizeof b - 1); close(fd); if (n <= 0) return false; b[n] = 0; unsigned long x, y; if (sscanf(b, "%lu %lu", &x, &y) != 2) return false; a = x * PAGE; r = y * PAGE; return true; }
struct Other { pid_t pid; int to, from; };
static Other startOther() { int a[2], b[2]; if (pipe(a) || pipe(b)) abort(); pid_t p = fork(); if (!p) { close(a[1]); close(b[0]); char *m = nullptr; char c; while (read(a[0], &c, 1) == 1) { if (c == 'm' && !m) m = (char *)mmap(0, BLOCK * PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (c == 't' && m) for (long i = 0; i < BLOCK; i++) ((volatile char *)m)[i * PAGE] = 1; if (c == 'u' && m) { munmap(m, BLOCK * PAGE); m = nullptr; } if (write(b[1], &c, 1) != 1) break; } _exit(0); } close(a[0]); close(b[1]); return {p, a[1], b[0]}; }
static void tell(Other &o, char c) { char r; if (write(o.to, &c, 1) != 1 || read(o.from, &r, 1) != 1) mc::fail("harness", "the observed process is gone"); }
static void sizes(int depth) { vector<int> ops; bool over = false; for (int i = 0; i < depth; i++) { int op = choose(over ? 5 : 10); ops.push_back(over && op == 4 ? 10 : op); if (op == 9) over = true; step(); }
    string trace; for (int op : ops) trace += ' ' + std::to_string(op); note("changes and questions:%s", trace.c_str()); state(trace); int st = iso::run([&] {
    Other o = startOther(); tell(o, 'x'); int fd0 = lowestFd(); bool gone = false; string log; { std::unique_ptr<ProcessStatistics> ps(new ProcessStatistics(o.pid)); size_t ca, cr; if (!statm(o.pid, ca, cr)) mc::fail("harness", "no statm"); bool known = true;
      for (int op : ops) { size_t a = 0, r = 0, got = 0; bool failed = false, there = statm(o.pid, a, r); auto t = [&](std::function<size_t()> f) { try { got = f(); } catch (AssertBoostException &) { failed = true; } };
        switch (op) {
            case 0: case 1: log += op ? " resident" : " address"; t([&] { return ps->get(op ? ResidentSize : AddressSize); }); MC_EQ(failed, !there, log << ": refused"); if (!failed) { ca = a; cr = r; known = true; MC_EQ(got, op ? r : a, log << ": size"); } else known = false; break;
            case 2: log += " refresh"; t([&] { ps->invalidate(); return 0; }); MC_EQ(failed, !there, log << ": refused"); ca = a; cr = r; known = !failed; break;
            case 3: case 4: { bool w = op == 4; log += w ? " once-resident" : " once-address"; t([&] { return ProcessStatistics::getOnce(w ? ResidentSize : AddressSize, o.pid); }); MC_EQ(failed, !there, log << ": refused"); if (!failed) MC_EQ(got, w ? r : a, log << ": size"); break; }
            case 5: tell(o, 'm'); log += " map"; break; case 6: tell(o, 't'); log += " touch"; break; case 7: tell(o, 'u'); log += " unmap"; break;
            case 8: log += " again"; ps.reset(new ProcessStatistics(o.pid)); ca = a; cr = r; known = true; break;
            case 9: log += " end"; { char c; close(o.to); while (read(o.from, &c, 1) > 0) {} waitpid(o.pid, nullptr, 0); gone = true; } break; default: break; }
        if (known) { MC_EQ(ps->getCached(AddressSize), ca, log << ": cached address size"); MC_EQ(ps->getCached(ResidentSize), cr, log << ": cached resident size"); } }
      bool f = false; try { ps->getCached(Invalid); } catch (AssertBoostException &) { f = true; } MC_REQ(f, "an invalid kind of size was accepted"); MC_REQ(ps->supported(AddressSize) && ps->supported(ResidentSize) && !ps->supported(Invalid), "kinds supported"); }
    MC_EQ(lowestFd(), fd0, log << ": files left open"); if (!gone) { close(o.to); waitpid(o.pid, nullptr, 0); } }, nullptr); MC_EQ(st, 0, "status of the observing process"); }
static void own() { int how = choose(3); step(); state(std::to_string(how)); note("own size, way %d", how); int st = iso::run([&] { string lab = how == 0 ? "own size" : how == 1 ? "own size by number" : "own size once"; pid_t me = how == 1 ? getpid() : 0; ProcessStatistics ps(me); auto ask = [&](StatType w) { return how == 2 ? ProcessStatistics::getOnce(w) : ps.get(w); }; size_t a0 = ask(AddressSize), r0 = ask(ResidentSize), a, r; statm(getpid(), a, r); auto near = [](size_t x, size_t y) { return (x > y ? x - y : y - x) <= 1024 * (size_t)PAGE; };
    MC_REQ(near(a0, a) && near(r0, r), lab << ": " << a0 << " and " << r0 << " instead of " << a << " and " << r); size_t len = 32 * BLOCK * PAGE; char *m = (char *)mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); MC_REQ(near(ask(AddressSize), a0 + len) && near(ask(ResidentSize), r0), lab << " after mapping"); for (size_t i = 0; i < len; i += PAGE) ((volatile char *)m)[i] = 1; MC_REQ(near(ask(AddressSize), a0 + len) && near(ask(ResidentSize), r0 + len), lab << " after touching"); munmap(m, len); MC_REQ(near(ask(AddressSize), a0) && near(ask(ResidentSize), r0), lab << " after unmapping"); }); MC_EQ(st, 0, "status of the observing process");
    bool f = false; try { ProcessStatistics x(0x3ffffff); } catch (AssertBoostException &) { f = true; } MC_REQ(f, "the size of no process was accepted"); }
// ---- processors: what the operating system lists is the file given
static string cpuinfo; static const char *redirect(const char *f) { return f && !cpuinfo.empty() && !strcmp(f, "/proc/cpuinfo") ? cpuinfo.c_str() : f; }
#define NEXT(f) static auto real = (decltype(&f))dlsym(RTLD_NEXT, #f)
extern "C" { FILE *fopen(const char *f, const char *m) { NEXT(fopen); return real(redirect(f), m); } FILE *fopen64(const char *f, const char *m) { NEXT(fopen64); return real(redirect(f), m); }
int open(const char *f, int fl, ...) { NEXT(open); va_list v; va_start(v, fl); int m = va_arg(v, int); va_end(v); return real(redirect(f), fl, m); } int open64(const char *f, int fl, ...) { NEXT(open64); va_list v; va_start(v, fl); int m = va_arg(v, int); va_end(v); return real(redirect(f), fl, m); } }
static void processors(int maxl) {
    static const vector<string> lines{"processor\t: 0", "processor\t: 17", "", "vendor_id\t: GenuineIntel", "model name\t: processor\t: 3", "flags\t\t: " + string(9000, 'f') + "processor\t: 4"}; static const vector<const char *> envs{nullptr, "1", "8", "1000", "0", "", "x", "4 ", "-1"};
    const char *env = pick(envs); string text, lab = string("NUMBER_OF_PROCESSORS ") + (env ? env : "unset"); int n = choose(maxl + 1), count = 0; for (int i = 0; i < n; i++) { int k = choose(lines.size()); count += k < 2; text += lines[k] + "\n"; lab += " [" + lines[k].substr(0, 14) + "]"; } if (n && choose(2)) { text.erase(text.size() - 1); lab += " unended"; } note("%s", lab.c_str()); state(lab); step();
    int want = env ? (!strcmp(env, "1") ? 1 : !strcmp(env, "8") ? 8 : !strcmp(env, "1000") ? 1000 : -1) : count ? count : -1; string f = scratch() + "/cpuinfo"; put(f, text); int st = iso::run([&] { cpuinfo = f; if (env) setenv("NUMBER_OF_PROCESSORS", env, 1); else unsetenv("NUMBER_OF_PROCESSORS"); int fd0 = lowestFd();
        auto ask = [] { try { return PThreadMisc::getNCpus(); } catch (AssertBoostException &) { return -1; } }; MC_EQ(ask(), want, lab << ": number of processors"); if (want > 0) { MC_EQ(lowestFd(), fd0, lab << ": files left open"); setenv("NUMBER_OF_PROCESSORS", "77", 1); put(f, "processor\t: 0\n"); MC_EQ(ask(), want, lab << ": number of processors asked again"); } }); MC_EQ(st, 0, "status of the process"); outcome(want > 0 ? "number" : "refused"); }
vector<Config> configs() {
    bool T = thorough(); vector<Config> v; auto add = [&](const char *n, std::function<void()> b, const char *r) { v.push_back({n, b, r}); };
    add("environment", environment, "every setting of the three variables x programs present"); add("output", [T] { output(T ? 4 : 3); }, "every output of up to 3 (4) lines of 16 kinds x exit status"); add("sizes", [T] { sizes(T ? 6 : 4); }, "every sequence of changes of another process's memory and questions"); add("processors", [T] { processors(T ? 5 : 4); }, "every processor list of up to 4 (5) lines of 6 kinds, last line ended or not, x settings of the variable"); add("own", own, "the process's own sizes");
    return v; }
int main(int argc, char **argv) { lh_init(); return mc::run_main(argc, argv, configs); }
