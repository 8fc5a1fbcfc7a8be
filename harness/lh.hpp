// common bits for harnesses over Lintel
#pragma once
#include "mc.hpp"
#include <Lintel/AssertBoost.hpp>
#include <map>
// INVARIANT failures inside the library become exceptions; an unexpected one is a violation
inline void lh_init() { AssertBoostFnBefore(AssertBoostThrowExceptionFn); }
std::vector<mc::Config> configs();
#define LH_MAIN int main(int argc, char **argv) { lh_init(); return mc::run_main(argc, argv, configs); }
// element with tracked lifetime
struct Tok {
    static std::map<const Tok *, int> *live; static long nlive; static long perval[64];
    int v; const Tok *self;
    static void reset() { nlive = 0; memset(perval, 0, sizeof perval); }
    void born() { self = this; ++nlive; ++perval[v & 63]; }
    Tok() : v(0) { born(); }
    Tok(int x) : v(x) { born(); }
    Tok(const Tok &o) : v(o.v) { o.check("copied from"); born(); }
    Tok &operator=(const Tok &o) { check("assigned to"); o.check("assigned from"); --perval[v & 63]; v = o.v; ++perval[v & 63]; return *this; }
    ~Tok() { check("destroyed"); self = nullptr; --nlive; --perval[v & 63]; }
    void check(const char *w) const { if (self != this) { fprintf(stderr, "element %s while not alive\n", w); printf("element %s while not alive\n", w); fflush(stdout); abort(); } }
    bool operator==(const Tok &o) const { check("compared"); return v == o.v; }
    bool operator<(const Tok &o) const { check("compared"); o.check("compared"); return v < o.v; }
};
inline long Tok_nlive_() { return Tok::nlive; }
// run f in a child process (for library state that cannot be reset); a violation in it is rethrown here.
// Returns the exit status; text the child left with say() is stored in *out.
#include <sys/wait.h>
namespace iso {
    inline int &fd() { static int f = -1; return f; }
    inline void say(char kind, const std::string &s) { if (fd() < 0) return; std::string m(1, kind); uint32_t n = s.size(); m.append((char *)&n, 4); m += s; size_t at = 0; while (at < m.size()) { ssize_t k = write(fd(), m.data() + at, m.size() - at); if (k <= 0) break; at += k; } }
    inline int run(const std::function<void()> &f, std::string *out = nullptr) {
        int p[2]; if (pipe(p)) { perror("pipe"); _exit(98); } fflush(stdout); fflush(stderr);
        pid_t pid = fork(); if (pid < 0) { perror("fork"); _exit(98); }
        if (!pid) { close(p[0]); fd() = p[1];
            try { f(); } catch (const mc::Violation &v) { say('K', v.key); say('M', v.msg); _exit(0); }
            catch (const std::exception &e) { say('K', std::string("exception:") + typeid(e).name()); say('M', std::string("unexpected exception: ") + e.what()); _exit(0); }
            _exit(0); }
        close(p[1]); std::string b; char buf[65536]; ssize_t n; while ((n = read(p[0], buf, sizeof buf)) > 0) b.append(buf, n); close(p[0]);
        int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        std::string k, m, o; for (size_t at = 0; at + 5 <= b.size();) { uint32_t l; memcpy(&l, b.data() + at + 1, 4); std::string s = b.substr(at + 5, l); if (b[at] == 'K') k = s; else if (b[at] == 'M') m = s; else o += s; at += 5 + l; }
        if (out) *out = o; if (k.size()) mc::fail(k, m); return st; }
}
