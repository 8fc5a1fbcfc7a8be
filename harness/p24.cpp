// P24: what a failed assertion does: hooks before, report, hooks after, abort or exception. Every script runs in a child
// whose standard error and output are one pipe, so the order of hooks and report is part of the transcript.
#include "lh.hpp"
#include <boost/bind.hpp>
#include <iostream>
using namespace mc; using std::string; using std::vector;
enum Hk { BRec, ARec, ANoArg, BThrow, BThrowOnce, AThrow, BNest, ANest, NHook };
static const char *hkName[] = {"before: record", "after: record", "after: record without arguments", "before: throw", "before: throw the first time", "after: throw", "before: fails an assertion", "after: fails an assertion"};
static bool isBefore(int k) { return k == BRec || k == BThrow || k == BThrowOnce || k == BNest; }
enum As { FalseStr, True, FalseFmt, Fatal, Simple, Checked, TooMany, TooFew, BadFmt, FatalFmt, FatalTooFew, DebugFalse, DebugTrue, Empty, NAssert };
static const char *asName[] = {"false, text", "true", "false, format", "fatal error", "simple false", "checked false", "too many arguments", "too few arguments", "malformed format", "fatal error, format", "fatal error, too few arguments", "debug false", "debug true", "false, empty text"};
// ---- the child's side
static void put(const string &s) { size_t at = 0; while (at < s.size()) { ssize_t k = write(2, s.data() + at, s.size() - at); if (k <= 0) _exit(97); at += k; } }
static string esc(string s) { for (size_t i = 0; i < s.size(); i++) if (s[i] == '\n') s.replace(i, 1, "\\n"); return s; }
static int evals, msgs; static bool cond(bool v) { ++evals; return v; } static string msgText(const string &s) { ++msgs; return s; }
static boost::format msgFmt(const char *s) { ++msgs; return boost::format(s); }
static int thrownOnce;
static string fields(const char *e, const string &f, unsigned l, const string &m) { return string(e) + "|" + f + "|" + std::to_string(l) + "|" + esc(m); }
static const int nestLine = __LINE__ + 1;
static void nested() { try { INVARIANT(cond(false) && "inner", "inner message"); } catch (...) { put("@X nested failure caught\n"); } put("@X continued after nested failure\n"); }
static void hook(int idx, int kind, const char *e, const char *f, unsigned l, const string &m) {
    put("@H " + std::to_string(idx) + " " + fields(e, f, l, m) + "\n");
    if (kind == BThrow || kind == AThrow || (kind == BThrowOnce && !thrownOnce++)) AssertBoostThrowExceptionFn(e, f, l, m);
    if (kind == BNest || kind == ANest) nested(); }
template <int I> static void noArg() { put("@H " + std::to_string(I) + " -\n"); }
static void (*const noArgs[])() = {noArg<0>, noArg<1>, noArg<2>, noArg<3>, noArg<4>, noArg<5>, noArg<6>, noArg<7>};
static void reg(int idx, int kind) {
    if (kind == ANoArg) {
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
        AssertBoostFnAfter(noArgs[idx]);
#pragma GCC diagnostic pop
    } else { assert_hook_fn fn = boost::bind(hook, idx, kind, _1, _2, _3, _4); if (isBefore(kind)) AssertBoostFnBefore(fn); else AssertBoostFnAfter(fn); } }
// one row per kind of assertion: line, expression, message ("?" if left open), does it fail
struct Exp { int line; string expr, msg; bool fails; int ev; };
static Exp lastAssert(int kind, bool doit) { int L = 0;
    switch (kind) {
    case FalseStr: L = __LINE__; if (doit) INVARIANT(cond(false) || evals < 0, msgText("plain 100% text")); return {L, "cond(false) || evals < 0", "plain 100% text", true, 1};
    case True: L = __LINE__; if (doit) INVARIANT(cond(true), msgText("never")); return {L, "", "", false, 1};
    case FalseFmt: L = __LINE__; if (doit) INVARIANT(!cond(true), msgFmt("value %d of %s, %.2f") % -7 % string("two\nlines") % 2.5); return {L, "!cond(true)", "value -7 of two\nlines, 2.50", true, 1};
    case Fatal: L = __LINE__; if (doit) FATAL_ERROR(msgText("dead end")); return {L, "Fatal error", "dead end", true, 0};
    case Simple: L = __LINE__; if (doit) SINVARIANT(cond(false)); return {L, "cond(false)", "?", true, 1};
    case Checked: L = __LINE__; if (doit) CHECKED(cond(false), boost::format("checked %s") % 12); return {L, "cond(false)", "checked 12", true, 1};
    case TooMany: L = __LINE__; if (doit) INVARIANT(cond(false), boost::format("one %d") % 1 % 2); return {L, "cond(false)", "?", true, 1};
    case TooFew: L = __LINE__; if (doit) INVARIANT(cond(false), boost::format("two %d %d") % 1); return {L, "cond(false)", "?", true, 1};
    case BadFmt: L = __LINE__; if (doit) INVARIANT(cond(false), boost::format("bad %1$q%") % 1); return {L, "cond(false)", "?", true, 1};
    case FatalFmt: L = __LINE__; if (doit) FATAL_ERROR(msgFmt("fatal %s/%x") % "a" % 255); return {L, "Fatal error", "fatal a/ff", true, 0};
    case FatalTooFew: L = __LINE__; if (doit) FATAL_ERROR(boost::format("%s %s") % "x"); return {L, "Fatal error", "?", true, 0};
#if LINTEL_DEBUG
    case DebugFalse: L = __LINE__; if (doit) DEBUG_INVARIANT(cond(false), msgText("debug")); return {L, "cond(false)", "debug", true, 1};
    case DebugTrue: L = __LINE__; if (doit) DEBUG_INVARIANT(cond(true), msgText("debug")); return {L, "", "", false, 1};
#else
    case DebugFalse: L = __LINE__; if (doit) DEBUG_INVARIANT(cond(false), msgText("debug")); return {L, "", "", false, 0};
    case DebugTrue: L = __LINE__; if (doit) DEBUG_INVARIANT(cond(true), msgText("debug")); return {L, "", "", false, 0};
#endif
    case Empty: L = __LINE__; if (doit) INVARIANT(cond(false), msgText("")); return {L, "cond(false)", "", true, 1};
    } abort(); }
struct Op { int what, arg; };  // 0 register, 1 clear, 2 assert
static void onAbort(int) {}
static void child(const vector<Op> &ops, int disp) {
    AssertBoostClearFns(); if (disp == 1) signal(SIGABRT, SIG_IGN); else if (disp == 2) signal(SIGABRT, onAbort); int n = 0, k = 0;
    for (auto &o : ops) { if (o.what == 0) reg(n++, o.arg); else if (o.what == 1) AssertBoostClearFns(); else {
            if (k & 1) std::cout << "@O " << k << "\n"; else printf("@O %d\n", k); ++k; evals = msgs = 0; bool thrown = false;
            try { lastAssert(o.arg, true); } catch (const AssertBoostException &e) { thrown = true; string l = std::to_string(e.line); for (const string &t : {string(e.what()), e.summary()}) if (t.find(e.expression) == string::npos || t.find(e.filename) == string::npos || t.find(l) == string::npos || t.find(e.msg) == string::npos) put("@X description of the exception: " + esc(t) + "\n"); put("@C " + fields(e.expression.c_str(), e.filename, e.line, e.msg) + "\n"); } catch (const std::exception &e) { put(string("@X other exception ") + typeid(e).name() + "\n"); }
            put("@E " + std::to_string(evals) + " " + std::to_string(thrown ? 0 : msgs) + "\n"); } }
    fflush(stdout); std::cout.flush(); put("@Z\n"); _exit(0); }
// ---- the parent's side
static void script(const vector<Op> &ops, int disp) {
    string st; for (auto &o : ops) { st += char('a' + o.what); st += char('A' + o.arg); note("%s %s", o.what == 0 ? "hook" : o.what == 1 ? "clear hooks" : "assert", o.what == 0 ? hkName[o.arg] : o.what == 1 ? "" : asName[o.arg]); } if (disp) note("abort signal %s", disp == 1 ? "ignored" : "handled by a function that returns");
    int p[2]; if (pipe(p)) { perror("pipe"); _exit(98); } fflush(stdout); fflush(stderr); pid_t pid = fork(); if (pid < 0) { perror("fork"); _exit(98); }
    if (!pid) { close(p[0]); dup2(p[1], 1); dup2(p[1], 2); if (p[1] > 2) close(p[1]); signal(SIGABRT, SIG_DFL); std::set_terminate([] { put("@X terminate called\n"); _exit(96); }); alarm(20); child(ops, disp); }
    close(p[1]); string t; char buf[65536]; ssize_t n; while ((n = read(p[0], buf, sizeof buf)) > 0) t.append(buf, n); close(p[0]); int ws; while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
    // the transcript: marked lines, and the text in between
    struct It { bool mark; string s; }; vector<It> it; vector<std::pair<int, size_t> > outs; for (size_t at = 0; at < t.size();) { size_t e = t.find('\n', at); string l = t.substr(at, e == string::npos ? string::npos : e - at); at = e == string::npos ? t.size() : e + 1; if (l.size() > 2 && l.compare(0, 3, "@O ") == 0) outs.push_back({atoi(l.c_str() + 3), it.size()}); else if (l.size() && l[0] == '@') it.push_back({true, l}); else if (it.empty() || it.back().mark) it.push_back({false, l + "\n"}); else it.back().s += l + "\n"; }
    size_t at = 0; string seen; // message seen for the current failure
    auto want = [&](const string &w) { MC_REQ(at < it.size() && it[at].mark && it[at].s == w, "expected '" << w << "' in the transcript, found '" << (at < it.size() ? it[at].s : string("(end)")) << "':\n" << t); ++at; };
    auto withMsg = [&](const string &pre, const string &e, int line, const string &m) { string head = pre + e + "|" + __FILE__ + "|" + std::to_string(line) + "|"; if (m != "?" || seen.size()) return want(head + esc(m != "?" ? m : seen)); MC_REQ(at < it.size() && it[at].mark && it[at].s.compare(0, head.size(), head) == 0 && it[at].s.size() > head.size(), "expected '" << head << "...' in the transcript:\n" << t); seen = it[at].s.substr(head.size()); ++at; };
    auto report = [&](const string &e, int line, const string &m) { MC_REQ(at < it.size() && !it[at].mark, "the failure of '" << e << "' is not reported:\n" << t); const string &s = it[at].s; MC_REQ(s.find(e) != string::npos && s.find(__FILE__) != string::npos && s.find(std::to_string(line)) != string::npos && (m == "?" || s.find(m) != string::npos) && (seen.empty() || esc(s).find(seen) != string::npos), "the report '" << s << "' does not give all of " << e << ", " << __FILE__ << ", " << line << ", " << (m == "?" ? seen : m)); ++at; };
    struct H { int idx, kind; }; vector<H> hs; int nh = 0, once = 0, k = 0; bool dead = false;
    for (auto &o : ops) { if (dead) break; if (o.what == 0) hs.push_back({nh++, o.arg}); else if (o.what == 1) hs.clear(); else {
            Exp x = lastAssert(o.arg, false); seen = ""; bool thrown = false; int me = k++;
            if (x.fails) {
                for (int pass = 0; pass < 2 && !thrown && !dead; pass++) { if (pass == 1) { for (auto &q : outs) if (q.first == me) MC_REQ(q.second <= at, "output written before the failure comes after the report:\n" << t); MC_REQ(std::any_of(outs.begin(), outs.end(), [&](const std::pair<int, size_t> &q) { return q.first == me; }), "output written before the failure is lost:\n" << t); report(x.expr, x.line, x.msg); }
                    for (auto &h : hs) if (isBefore(h.kind) == (pass == 0)) { string pre = "@H " + std::to_string(h.idx) + " "; if (h.kind == ANoArg) want(pre + "-"); else withMsg(pre, x.expr, x.line, x.msg); if (h.kind == BThrow || h.kind == AThrow || (h.kind == BThrowOnce && !once++)) { thrown = true; break; } if (h.kind == BNest || h.kind == ANest) { seen = ""; report("cond(false) && \"inner\"", nestLine, "inner message"); dead = true; break; } } }
                if (!thrown) dead = true; else withMsg("@C ", x.expr, x.line, x.msg); }
            if (!dead) want("@E " + std::to_string(x.ev) + " 0"); } }
    if (!dead) want("@Z"); MC_REQ(at == it.size(), "the transcript goes on with '" << it[at].s << "':\n" << t);
    if (dead) MC_REQ(WIFSIGNALED(ws) && WTERMSIG(ws) == SIGABRT, "after a failed assertion the process ended with status " << ws << " instead of an abort:\n" << t); else MC_EQ(ws, 0, "exit status without a fatal failure:\n" << t);
    state(st); outcome(t.size()); step(); }
static void history(int depth, int nh, int na) { vector<Op> ops; int n = 1 + choose(depth); for (int i = 0; i < n; i++) { int c = choose(nh + na + 1); ops.push_back(c < nh ? Op{0, c} : c == nh ? Op{1, 0} : Op{2, c - nh - 1}); } if (ops.back().what != 2) throw Prune(); script(ops, 0); }
static void kinds(int two) { vector<Op> ops; int n = choose(2 + two); for (int i = 0; i < n; i++) ops.push_back({0, choose(NHook)}); ops.push_back({2, choose(NAssert)}); if (choose(2)) ops.push_back({2, choose(NAssert)}); script(ops, choose(two ? 1 : 3)); }
// many hooks, several failures in a row
static void many() { vector<Op> ops; int n = 1 + choose(8), mask = choose(1 << n), thr = choose(n + 1); for (int i = 0; i < n; i++) ops.push_back({0, mask >> i & 1 ? i == thr ? AThrow : ARec : i == thr ? BThrow : BRec}); int m = 1 + choose(3); for (int i = 0; i < m; i++) ops.push_back({2, i == 1 ? FalseFmt : FalseStr}); script(ops, 0); }
vector<Config> configs() {
    bool T = thorough(); vector<Config> v; auto add = [&](const char *n, std::function<void()> b, const char *r) { v.push_back({n, b, r}); };
    add("history", [T] { history(T ? 6 : 5, NHook, 2); }, "all histories of hook registrations, clearing and assertions to the depth"); add("kinds", [] { kinds(0); }, "every pair of assertion forms with up to one hook, for three dispositions of the abort signal"); add("pairs", [] { kinds(1); }, "every pair of assertion forms with every pair of hooks"); add("many", many, "up to eight hooks in every before/after pattern, one of them throwing");
    return v; }
LH_MAIN
