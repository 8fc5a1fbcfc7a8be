// E1: stateless exhaustive exploration of choice sequences over real code.
// A harness body draws every decision from mc::choose(n); run_main enumerates all choice sequences.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <set>
#include <sstream>
#include <algorithm>
#include <exception>
#include <typeinfo>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>

inline int mc_engine_depth = 0;          // >0: inside the exploration engine (not the code under test)
struct McEngine { McEngine() { ++mc_engine_depth; } ~McEngine() { --mc_engine_depth; } };
namespace mc {

struct Violation { std::string key, msg; };
struct Cut {};                         // first pass: the prefix being collected is complete
struct Prune {};                       // abandon this execution (counted separately)

static const size_t kMaxChoices = 1 << 14;
static const size_t kStateSlots = 1 << 22;
static const int kMaxWorkers = 16;

struct WorkerShm {
    volatile uint32_t nchoices;
    volatile uint16_t choices[kMaxChoices];
    volatile uint64_t execs, transitions, pruned;
    volatile double exec_start;
    volatile uint32_t maxlen;
    volatile int state;                // 0 idle, 1 running an execution
    volatile uint32_t nkept;
    char key[512]; char msg[4096]; volatile int violated;
    volatile uint32_t vn; uint16_t vchoices[kMaxChoices];
};
struct Shared {
    volatile int stop;
    volatile uint64_t next_prefix;
    volatile uint64_t nstates, nfull, noutcomes;
    WorkerShm w[kMaxWorkers];
    volatile uint64_t states[kStateSlots];
    volatile uint64_t outcomes[kStateSlots / 4];
};

struct G {
    Shared *sh = nullptr; WorkerShm *me = nullptr;
    std::vector<uint16_t> pre; std::vector<uint16_t> fan; std::vector<uint16_t> cur;
    bool tracing = false; bool thorough = false;
    std::vector<std::string> notes;
    std::set<std::string> known; std::set<std::string> known_hit;
    uint64_t seed = 1; bool memo = false; bool cutok = true, hascut = false; size_t cut = (size_t)-1;
};
inline G &g() { static G &x = *new G; return x; }
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline bool thorough() { return g().thorough; }
inline bool tracing() { return g().tracing; }

inline void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char *fmt, ...) {
    McEngine eng; if (!g().tracing) return;
    char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    g().notes.push_back(buf);
    printf("  %s\n", buf); fflush(stdout);
}
[[noreturn]] inline void fail(const std::string &key, const std::string &msg) { throw Violation{key, msg}; }

inline int choose(int n) {
    McEngine eng; G &G_ = g();
    if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); abort(); }
    if (n == 1) return 0;                           // no decision: not recorded
    size_t i = G_.cur.size();
    int c = 0;
    if (i < G_.pre.size()) {
        c = G_.pre[i];
        if (c >= n) { fprintf(stderr, "mc: replay diverged: choice %d of %d at %zu\n", c, n, i); _exit(97); }
    }
    if (i >= G_.cut) { G_.hascut = true; throw Cut(); }
    if (i >= kMaxChoices) { fprintf(stderr, "mc: too many choices\n"); _exit(97); }
    G_.cur.push_back((uint16_t)c); G_.fan.push_back((uint16_t)n);
    if (G_.me) { G_.me->choices[i] = (uint16_t)c; G_.me->nchoices = (uint32_t)(i + 1); }
    return c;
}
template <class T> inline const T &pick(const std::vector<T> &v) { return v[choose((int)v.size())]; }

inline void step(uint64_t n = 1) { McEngine eng; if (g().me) g().me->transitions += n; }
inline uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
inline uint64_t hashbytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; } return mix(h); }
inline uint64_t hashstr(const std::string &s) { return hashbytes(s.data(), s.size()); }
inline bool insert_set(volatile uint64_t *tab, size_t slots, uint64_t h, volatile uint64_t *cnt, volatile uint64_t *full) {
    if (!h) h = 1;
    size_t i = mix(h) & (slots - 1);
    for (int probe = 0; probe < 64; probe++, i = (i + 1) & (slots - 1)) {
        uint64_t v = tab[i];
        if (v == h) return false;
        if (v == 0) {
            if (__sync_bool_compare_and_swap(&tab[i], 0, h)) { __sync_fetch_and_add(cnt, 1); return true; }
            if (tab[i] == h) return false;
        }
    }
    if (full) __sync_fetch_and_add(full, 1);
    return true;
}
// distinct (reference-model) states seen; also a transition
inline void state(uint64_t h) { McEngine eng; step(); Shared *s = g().sh; if (s) insert_set(s->states, kStateSlots, h, &s->nstates, &s->nfull); }
inline void state(const std::string &s) { state(hashstr(s)); }
inline void outcome(uint64_t h) { McEngine eng; Shared *s = g().sh; if (s) insert_set(s->outcomes, kStateSlots / 4, h, &s->noutcomes, nullptr); }
inline void outcome(const std::string &s) { outcome(hashstr(s)); }

#define MC_REQ(cond, ...) do { if (!(cond)) { std::ostringstream mc_os_; mc_os_ << __VA_ARGS__; \
    mc::fail(mc::keyof(#cond, __FILE__, __LINE__), std::string(#cond) + ": " + mc_os_.str()); } } while (0)
#define MC_EQ(a, b, ...) do { auto mc_a_ = (a); auto mc_b_ = (b); if (!(mc_a_ == mc_b_)) { std::ostringstream mc_os_; \
    mc_os_ << "got " << mc_a_ << " expected " << mc_b_ << " " << __VA_ARGS__; \
    mc::fail(mc::keyof(#a " == " #b, __FILE__, __LINE__), std::string(#a " == " #b) + ": " + mc_os_.str()); } } while (0)
inline std::string keyof(const char *c, const char *f, int) {
    const char *b = strrchr(f, '/'); return std::string(b ? b + 1 : f) + ":" + c; }

struct Config { std::string name; std::function<void()> body; std::string rule; double maxsec = 400; };

inline std::string jesc(const std::string &s) {
    std::string o; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
    return o; }

// runs one execution with prefix pre; returns true if violated
inline bool run_one(const Config &cfg, const std::vector<uint16_t> &pre, std::string &key, std::string &msg) {
    G &G_ = g();
    G_.pre = pre; G_.cur.clear(); G_.fan.clear(); G_.notes.clear();
    if (G_.me) { G_.me->nchoices = 0; G_.me->exec_start = now(); G_.me->state = 1; }
    bool bad = false; G_.hascut = false;
    try { cfg.body(); }
    catch (const Cut &) {}
    catch (const Violation &v) { bad = true; key = v.key; msg = v.msg; }
    catch (const Prune &) { if (G_.me) G_.me->pruned++; }
    catch (const std::exception &e) { bad = true; key = std::string("exception:") + typeid(e).name(); msg = std::string("unexpected exception: ") + e.what(); }
    catch (...) { bad = true; key = "exception:unknown"; msg = "unexpected exception of unknown type"; }
    if (G_.hascut) bad = false;
    if (G_.cur.size() < pre.size() && !bad) { fprintf(stderr, "mc: replay diverged: execution ended early\n"); _exit(97); }
    if (G_.me) { G_.me->execs++; G_.me->state = 0; if (G_.cur.size() > G_.me->maxlen) G_.me->maxlen = G_.cur.size(); }
    if (bad && G_.known.count(cfg.name + ":" + key)) { G_.known_hit.insert(cfg.name + ":" + key); bad = false;
        int fd = open((std::string(getenv("MC_KNOWN_HITS") ? getenv("MC_KNOWN_HITS") : "/dev/null")).c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
        if (fd >= 0) { std::string l = cfg.name + ":" + key + "\n"; if (write(fd, l.data(), l.size())) {} close(fd); } }
    return bad;
}
// advances pre to the next sequence whose positions < lo are fixed and positions >= hi are not branched; false at end
inline bool advance(std::vector<uint16_t> &pre, size_t lo, size_t hi) {
    G &G_ = g();
    pre = G_.cur;
    if (pre.size() > hi) pre.resize(hi);
    while (pre.size() > lo) {
        size_t i = pre.size() - 1;
        if (pre[i] + 1 < G_.fan[i]) { pre[i]++; return true; }
        pre.pop_back();
    }
    return false;
}
inline void record_violation(WorkerShm *w, const std::string &key, const std::string &msg, const std::vector<uint16_t> &c) {
    snprintf(w->key, sizeof w->key, "%s", key.c_str()); snprintf(w->msg, sizeof w->msg, "%s", msg.c_str());
    w->vn = c.size(); for (size_t i = 0; i < c.size(); i++) w->vchoices[i] = c[i];
    w->violated = 1;
}

struct Result { std::string name, rule; uint64_t execs = 0, transitions = 0, pruned = 0, states = 0, outcomes = 0, full = 0; uint32_t maxlen = 0;
    bool exhaustive = true; bool violated = false; std::string key, msg; std::vector<uint16_t> choices; double wall = 0; std::vector<std::string> samples; };

inline std::string join(const std::vector<uint16_t> &v) { std::string s; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += std::to_string(v[i]); } return s; }

inline Result explore(const Config &cfg, int jobs, double hang_s) {
    Result r; r.name = cfg.name; r.rule = cfg.rule; double t0 = now();
    size_t shsz = sizeof(Shared);
    Shared *sh = (Shared *)mmap(0, shsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); exit(3); }
    g().sh = sh;
    // phase 1 (one child): prefixes of length D;  phase 2: workers
    std::vector<std::vector<uint16_t>> prefixes; 
    auto supervise = [&](std::vector<pid_t> pids) {
        // returns when all children ended; handles crash and hang
        size_t live = pids.size();
        std::vector<bool> done(pids.size(), false);
        while (live) {
            for (size_t i = 0; i < pids.size(); i++) {
                if (done[i]) continue;
                int st; pid_t p = waitpid(pids[i], &st, WNOHANG);
                WorkerShm *w = &sh->w[i];
                if (p == pids[i]) {
                    done[i] = true; live--;
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !w->violated) {
                        if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { fprintf(stderr, "mc: worker reported divergence\n"); r.key = "ENGINE"; }
                        if (sh->stop && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) continue;
                        std::vector<uint16_t> c(w->choices, w->choices + w->nchoices);
                        char b[200];
                        if (WIFSIGNALED(st)) snprintf(b, sizeof b, "process died with signal %d", WTERMSIG(st));
                        else snprintf(b, sizeof b, "process exited with status %d%s", WEXITSTATUS(st), WEXITSTATUS(st) == 99 ? " (AddressSanitizer report)" : "");
                        record_violation(w, "crash", b, c); sh->stop = 1;
                    }
                } else if (w->state == 1 && w->exec_start > 0 && now() - w->exec_start > hang_s && !w->violated && !sh->stop) {
                    std::vector<uint16_t> c(w->choices, w->choices + w->nchoices);
                    record_violation(w, "hang", "execution did not end", c); sh->stop = 1;
                    kill(pids[i], SIGKILL);
                } else if (sh->stop && w->state == 1 && w->exec_start > 0 && now() - w->exec_start > hang_s) kill(pids[i], SIGKILL);
            }
            if (live) usleep(2000);
        }
        for (size_t i = 0; i < pids.size(); i++) {
            WorkerShm *w = &sh->w[i];
            if (w->violated && !r.violated) { r.violated = true; r.key = w->key; r.msg = w->msg; r.choices.assign(w->vchoices, w->vchoices + w->vn); }
        }
    };
    auto child_setup = [&](int i) {
        g().me = &sh->w[i];
        int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); if (!getenv("MC_STDERR")) dup2(fd, 2);
    };
    size_t D = 0;
    for (size_t d = 1;; d += 1) {
        int pfd[2]; if (pipe(pfd)) exit(3);
        fflush(0);
        pid_t p = fork();
        if (p == 0) {
            close(pfd[0]); child_setup(0); if (g().cutok) g().cut = d;
            FILE *o = fdopen(pfd[1], "w"); std::vector<uint16_t> pre; std::string k, m; size_t n = 0;
            for (;;) {
                bool bad = run_one(cfg, pre, k, m);
                if (bad) { record_violation(g().me, k, m, g().cur); break; }
                std::vector<uint16_t> c = g().cur; if (c.size() > d) c.resize(d);
                fprintf(o, "%s\n", join(c).c_str());
                if (++n > 70000) { fprintf(o, "over\n"); break; }
                if (!advance(pre, 0, d)) break;
            }
            fclose(o); _exit(0);
        }
        close(pfd[1]);
        // read in a helper-free way: reader drains pipe then supervise
        std::vector<std::vector<uint16_t>> ps; bool longer = false, over = false;
        {
            // a hang in phase 1 must be noticed: poll the pipe non-blocking while supervising
            fcntl(pfd[0], F_SETFL, O_NONBLOCK);
            std::string buf; char b[65536]; bool eof = false;
            while (!eof) {
                ssize_t n = read(pfd[0], b, sizeof b);
                if (n > 0) { buf.append(b, n); continue; }
                if (n == 0) { eof = true; break; }
                WorkerShm *w = &sh->w[0];
                if (w->state == 1 && w->exec_start > 0 && now() - w->exec_start > hang_s) {
                    std::vector<uint16_t> c(w->choices, w->choices + w->nchoices);
                    record_violation(w, "hang", "execution did not end", c); kill(p, SIGKILL);
                }
                usleep(1000);
            }
            std::istringstream is(buf); std::string line; over = buf.size() >= 5 && buf.compare(buf.size() - 5, 5, "over\n") == 0;
            while (std::getline(is, line)) { std::vector<uint16_t> c; std::istringstream ls(line); std::string t; while (std::getline(ls, t, ',')) c.push_back(atoi(t.c_str())); if (c.size() >= d) longer = true; ps.push_back(c); }
        }
        close(pfd[0]);
        supervise(std::vector<pid_t>(1, p));
        if (r.violated) break;
        if (over) break;             // too many: keep the complete set of shorter prefixes
        prefixes.swap(ps); D = d;
        if (!longer || prefixes.size() >= (size_t)jobs * 24 || d >= 12) break;
        double el = now() - t0; if (el > 5) break;
    }
    // phase-1 executions are re-run in phase 2: reset counters
    for (int i = 0; i < kMaxWorkers; i++) { sh->w[i].execs = sh->w[i].transitions = sh->w[i].pruned = 0; }
    if (!r.violated) {
        std::vector<pid_t> pids; fflush(0);
        for (int i = 0; i < jobs; i++) {
            pid_t p = fork();
            if (p == 0) {
                child_setup(i); std::string k, m;
                for (;;) {
                    uint64_t ix = __sync_fetch_and_add(&sh->next_prefix, 1);
                    if (ix >= prefixes.size() || sh->stop) break;
                    std::vector<uint16_t> pre = prefixes[ix]; size_t lo = pre.size();
                    for (;;) {
                        if (sh->stop) break;
                        if (run_one(cfg, pre, k, m)) { record_violation(g().me, k, m, g().cur); sh->stop = 1; break; }
                        if (g().me->execs % 256 == 0 && now() - t0 > cfg.maxsec) { sh->stop = 2; break; }
                        if (!advance(pre, lo, (size_t)-1)) break;
                    }
                }
                _exit(0);
            }
            pids.push_back(p);
        }
        supervise(pids);
        if (sh->stop == 2) r.exhaustive = false;
        (void)D;
    } else r.exhaustive = false;
    if (r.violated) r.exhaustive = false;
    for (int i = 0; i < kMaxWorkers; i++) { WorkerShm *w = &sh->w[i]; r.execs += w->execs; r.transitions += w->transitions; r.pruned += w->pruned; r.maxlen = std::max<uint32_t>(r.maxlen, (uint32_t)w->maxlen); }
    r.states = sh->nstates; r.outcomes = sh->noutcomes; r.full = sh->nfull;
    // samples: first, a middle and the last prefix re-run with tracing in a child
    std::vector<size_t> want; if (!r.violated && !prefixes.empty()) { want.push_back(prefixes.size() / 2); want.push_back(prefixes.size() - 1); }
    g().sh = nullptr; g().me = nullptr;
    munmap(sh, shsz);
    for (size_t ix : want) {
        int pfd[2]; if (pipe(pfd)) exit(3);
        fflush(0); pid_t p = fork();
        if (p == 0) {
            close(pfd[0]); int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); alarm(60);
            g().tracing = true; std::string k, m; run_one(cfg, prefixes[ix], k, m);
            std::string s; for (auto &n : g().notes) { if (s.size() > 1500) { s += " ..."; break; } if (!s.empty()) s += "; "; s += n; }
            if (s.empty()) s = "choices " + join(g().cur);
            if (write(pfd[1], s.data(), s.size())) {} _exit(0);
        }
        close(pfd[1]); std::string s; char b[4096]; ssize_t n; while ((n = read(pfd[0], b, sizeof b)) > 0) s.append(b, n); close(pfd[0]);
        int st; waitpid(p, &st, 0); r.samples.push_back(cfg.name + ": " + s);
    }
    r.wall = now() - t0;
    return r;
}

// re-run a violation in a fresh process; 1 confirmed, 0 not
inline int confirm(const char *self, const Config &cfg, Result &r, const std::string &dir, std::string &path) {
    path = dir + "/" + cfg.name + ".replay";
    std::string out = path + ".out";
    char lim[32]; snprintf(lim, sizeof lim, "%d", r.key == "hang" ? 60 : 120);
    fflush(0); pid_t p = fork();
    if (p == 0) {
        int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2);
        std::string c = join(r.choices);
        execl(self, self, "replay", cfg.name.c_str(), c.empty() ? "-" : c.c_str(), g().thorough ? "thorough" : "quick", (char *)0); _exit(96);
    }
    double t0 = now(); int st = 0; bool to = false;
    for (;;) { pid_t q = waitpid(p, &st, WNOHANG); if (q == p) break; if (now() - t0 > atoi(lim)) { kill(p, SIGKILL); waitpid(p, &st, 0); to = true; break; } usleep(5000); }
    bool ok = to || !(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 96));
    if (r.key == "hang" && !to && ok) { r.key = "crash"; }
    std::string tr; { FILE *f = fopen(out.c_str(), "r"); if (f) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0 && tr.size() < 20000) tr.append(b, n); fclose(f); } unlink(out.c_str()); }
    FILE *f = fopen(path.c_str(), "w");
    if (f) {
        fprintf(f, "config: %s\nviolation: %s\nmessage: %s\nchoices: %s\nreplay with: <harness> replay %s %s %s\n--- replay output ---\n%s\n%s", cfg.name.c_str(), r.key.c_str(), r.msg.c_str(),
                join(r.choices).c_str(), cfg.name.c_str(), r.choices.empty() ? "-" : join(r.choices).c_str(), g().thorough ? "thorough" : "quick", tr.c_str(), to ? "(timed out)\n" : "");
        fclose(f);
    }
    return ok;
}

inline int run_main(int argc, char **argv, const std::function<std::vector<Config>()> &mk) {
    setvbuf(stdout, 0, _IOLBF, 0);
    auto usage = [&]() { fprintf(stderr, "usage: %s explore quick|thorough OUT.json REPLAYDIR [jobs] [config]\n       %s replay CONFIG CHOICES quick|thorough\n", argv[0], argv[0]); return 2; };
    if (argc < 2) return usage();
    if (getenv("VERIF_SEED")) g().seed = strtoull(getenv("VERIF_SEED"), 0, 10);
    if (getenv("MC_KNOWN")) { std::istringstream is(getenv("MC_KNOWN")); std::string l; while (std::getline(is, l)) if (!l.empty()) g().known.insert(l); }
    if (!strcmp(argv[1], "replay") && argc >= 5) {
        g().thorough = !strcmp(argv[4], "thorough");
        std::vector<Config> cs = mk();
        for (auto &c : cs) if (c.name == argv[2]) {
            std::vector<uint16_t> pre; std::istringstream ls(argv[3]); std::string t; if (strcmp(argv[3], "-")) while (std::getline(ls, t, ',')) pre.push_back(atoi(t.c_str()));
            g().tracing = true; std::string k, m; bool bad = run_one(c, pre, k, m);
            if (bad) { printf("VIOLATED %s: %s\n", k.c_str(), m.c_str()); return 1; }
            printf("held\n"); return 0;
        }
        return usage();
    }
    if (strcmp(argv[1], "explore") || argc < 5) return usage();
    g().thorough = !strcmp(argv[2], "thorough");
    int jobs = argc > 5 ? atoi(argv[5]) : 8; if (jobs < 1) jobs = 1; if (jobs > kMaxWorkers) jobs = kMaxWorkers;
    std::vector<Config> cs = mk();
    char self[4096]; ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1); if (sl < 0) return 3; self[sl] = 0;
    std::vector<Result> rs; int rc = 0;
    for (auto &c : cs) {
        if (argc > 6 && c.name.find(argv[6]) == std::string::npos) continue;
        Result r = explore(c, jobs, getenv("MC_HANG") ? atof(getenv("MC_HANG")) : 20);
        std::string path; auto one = [](std::string t) { for (char &ch : t) if ((unsigned char)ch < 32 || (unsigned char)ch > 126) ch = ' '; return t; };   // reports are single lines
        if (r.violated) {
            if (!confirm(self, c, r, argv[4], path)) { printf("UNCONFIRMED config=%s key=%s msg=%s (see %s)\n", c.name.c_str(), one(r.key).c_str(), one(r.msg).c_str(), path.c_str()); rc = 3; r.violated = false; r.exhaustive = false; }
            else { printf("FOUND config=%s key=%s msg=%s replay=%s\n", c.name.c_str(), one(r.key).c_str(), one(r.msg).c_str(), path.c_str()); if (!rc) rc = 1; }
        }
        printf("config %-28s execs %10llu transitions %11llu states %9llu outcomes %8llu maxlen %u %s%s %.1fs\n", c.name.c_str(), (unsigned long long)r.execs, (unsigned long long)r.transitions,
               (unsigned long long)r.states, (unsigned long long)r.outcomes, r.maxlen, r.exhaustive ? "exhaustive" : "NOT-EXHAUSTIVE", r.full ? " (state set saturated)" : "", r.wall);
        r.msg = r.violated ? r.msg : ""; if (r.violated) r.samples.push_back("replay file " + path);
        if (r.violated) r.rule += ""; 
        rs.push_back(r); rs.back().choices.clear();
        if (r.violated) { rs.back().samples.clear(); rs.back().samples.push_back(path); }
    }
    FILE *f = fopen(argv[3], "w"); if (!f) { perror(argv[3]); return 3; }
    fprintf(f, "{\"configs\":[");
    for (size_t i = 0; i < rs.size(); i++) {
        Result &r = rs[i];
        fprintf(f, "%s{\"name\":\"%s\",\"rule\":\"%s\",\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"outcomes\":%llu,\"pruned\":%llu,\"max_choices\":%u,\"exhaustive\":%s,\"wall_s\":%.2f,\"violated\":%s,\"key\":\"%s\",\"msg\":\"%s\",\"samples\":[",
                i ? "," : "", jesc(r.name).c_str(), jesc(r.rule).c_str(), (unsigned long long)r.execs, (unsigned long long)r.transitions, (unsigned long long)r.states, (unsigned long long)r.outcomes, (unsigned long long)r.pruned,
                r.maxlen, r.exhaustive ? "true" : "false", r.wall, r.violated ? "true" : "false", jesc(r.key).c_str(), jesc(r.msg).c_str());
        for (size_t j = 0; j < r.samples.size(); j++) fprintf(f, "%s\"%s\"", j ? "," : "", jesc(r.samples[j]).c_str());
        fprintf(f, "]}");
    }
    fprintf(f, "]}\n"); fclose(f);
    return rc;
}
} // namespace mc

#ifndef MC_NO_ASAN_OPTIONS
extern "C" inline __attribute__((used, visibility("default"))) const char *__asan_default_options() {
    return "detect_leaks=0:print_legend=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:detect_container_overflow=0:max_allocation_size_mb=2000"; }
#endif
