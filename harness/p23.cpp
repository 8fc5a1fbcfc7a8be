// P23: logging. Library statics are restored before every execution by the scheduler's snapshot, so each history starts fresh.
#include "lh.hpp"
#include "sched.hpp"
#include <Lintel/LintelLog.hpp>
#include <sys/time.h>
using namespace mc; using std::string; using std::vector; typedef LintelLog L;
static const char *CAT[] = {"a", "ab", "abc", "b", ""};
struct Set { string pat; bool wild; int lvl; bool hits(const string &c) const { return wild ? c.compare(0, pat.size(), pat) == 0 : c == pat; } };
static int level(const vector<Set> &h, const string &c) { int l = 0; for (auto &s : h) if (s.hits(c)) l = s.lvl; return l; }
struct Msg { string who, text; L::LogType type; bool operator==(const Msg &o) const { return who == o.who && text == o.text && type == o.type; } };
static vector<Msg> *got;
static void app1(const string &m, L::LogType t) { got->push_back({"1", m, t}); }
static void app2(const string &m, L::LogType t) { got->push_back({"2", m, t}); }
static void thrower(const string &m, L::LogType) { if (m == "throw") throw std::runtime_error("appender"); }
static void verify(const vector<Set> &h, const string &c, const string &what) {
    int want = level(h, c); L::Category cat(c); MC_EQ((int)L::getDebugLevel(cat), want, "level of '" << c << "' " << what);
    for (unsigned l : {0u, 1u, 2u, 3u, 5u, 254u, 255u, 256u, 1000u}) { bool w = (unsigned)want >= l; MC_EQ(L::wouldDebug(cat, l), w, "'" << c << "' at level " << l << " " << what); MC_EQ(L::wouldDebug(c, l), w, "'" << c << "' by name at level " << l << " " << what); got->clear(); LintelLogDebugLevelVariable(cat, l, "m"); MC_EQ(got->size(), (size_t)(w ? 2 : 0), "messages for '" << c << "' at level " << l << " " << what); if (w) MC_REQ((*got)[0] == (Msg{"1", "m", L::Debug}) && (*got)[1] == (Msg{"2", "m", L::Debug}), "appenders called wrongly"); }
    MC_EQ(L::wouldDebug(cat), want >= 1, c); step(); }
static void sev(const string &what) { static const L::LogType T[] = {L::Report, L::Debug, L::Info, L::Warn, L::Error}; for (int i = 0; i < 5; i++) { got->clear(); string m = "text %s %d\nsecond"; switch (i) { case 0: L::report(m); break; case 1: L::debug(m); break; case 2: L::info(m); break; case 3: L::warn(m); break; case 4: L::error(m); break; } MC_REQ(got->size() == 2 && (*got)[0] == (Msg{"1", m, T[i]}) && (*got)[1] == (Msg{"2", m, T[i]}), "severity " << i << " gave " << got->size() << " messages " << what); } }
struct Op { string d; std::function<void(vector<Set> &)> f; };
static void parse(const string &s, bool env) { if (!env) L::parseDebugString(s); else { setenv("LINTEL_LOG_DEBUG", s.c_str(), 1); L::parseEnv(); unsetenv("LINTEL_LOG_DEBUG"); } }
static vector<Op> ops() {
    vector<Op> v; for (int c = 0; c < 4; c++) { string n = CAT[c]; v.push_back({"create " + n, [n](vector<Set> &) { L::Category x(n); }}); }
    v.push_back({"known b,abc", [](vector<Set> &) { L::setKnownCategories({"b", "abc"}); }}); v.push_back({"ask ab", [](vector<Set> &h) { MC_EQ(L::wouldDebug("ab", 2), level(h, "ab") >= 2, "asked by name"); }});
    for (auto &p : vector<std::pair<string, int>>{{"a", 2}, {"ab", 1}, {"ab", 0}, {"abc", 255}, {"b", 5}}) v.push_back({"set " + p.first + " " + std::to_string(p.second), [p](vector<Set> &h) { L::setDebugLevel(p.first, p.second); h.push_back({p.first, false, p.second}); }});
    for (auto &p : vector<std::pair<string, int>>{{"", 3}, {"a", 1}, {"ab", 4}, {"ab", 0}, {"abcd", 5}}) v.push_back({"set " + p.first + "* " + std::to_string(p.second), [p](vector<Set> &h) { L::setDebugLevel(p.first + "*", p.second); h.push_back({p.first, true, p.second}); }});
    v.push_back({"parse a=3,ab*=2,b", [](vector<Set> &h) { parse("a=3,ab*=2,b", false); h.push_back({"a", false, 3}); h.push_back({"ab", true, 2}); h.push_back({"b", false, 1}); }});
    v.push_back({"environment *,abc=0,a*=255", [](vector<Set> &h) { parse("*,abc=0,a*=255", true); h.push_back({"", true, 1}); h.push_back({"abc", false, 0}); h.push_back({"a", true, 255}); }});
    v.push_back({"no environment", [](vector<Set> &) { unsetenv("LINTEL_LOG_DEBUG"); L::parseEnv(); }}); v.push_back({"reserve", [](vector<Set> &) { L::reserveCategories(5000); }});
    return v; }
static vector<Set> *hh; static string *what;
static void history(int n) { sched::Opt o; o.race_fail = false; o.preempt = 0; o.maxpoints = 5000000; vector<Op> all = ops(); vector<int> seq; for (int i = 0; i < n; i++) seq.push_back(choose((int)all.size())); int early = choose(2); string d; for (int k : seq) d += "; " + all[k].d; note("history%s", d.c_str());
    sched::run(o, [&] { got = new vector<Msg>; L::addAppender(app1); L::addAppender(app2); vector<Set> h; string w = "after"; for (int k : seq) { w += " " + all[k].d + ";"; all[k].f(h); if (early) { verify(h, "a", w); verify(h, "ab", w); } } for (int c = 0; c < 5; c++) verify(h, CAT[c], w); sev(w); }); state(d); outcome(d); }
static void refuse() { // a refused request leaves the log usable and other categories alone
    int bad = choose(8); sched::Opt o; o.race_fail = false; o.preempt = 0; o.maxpoints = 5000000; sched::run(o, [&] { got = new vector<Msg>; L::addAppender(app1); L::addAppender(app2); vector<Set> h; L::setDebugLevel("b", 2); h.push_back({"b", false, 2}); bool threw = false; string w = "after refusal " + std::to_string(bad); vector<string> made;
        try { switch (bad) { case 0: L::parseDebugString("a=1=2"); break; case 1: L::parseDebugString("a=x"); break; case 2: L::parseDebugString("a=256"); break; case 3: L::parseDebugString("a=-1"); break; case 4: L::addAppender(thrower); L::info("throw"); break; case 5: { L::Category c1("c1"), c2("c2"); L::reserveCategories(1); break; }
            case 6: for (int i = 0; i < 200000; i++) { L::Category c("cat" + std::to_string(i)); made.push_back("cat" + std::to_string(i)); } break; case 7: for (int i = 0; i < 200000; i++) { L::setDebugLevel("w" + std::to_string(i) + "*", 1); } break; } }
        catch (AssertBoostException &) { threw = true; } catch (std::exception &) { threw = true; } MC_REQ(threw, "accepted " << w); 
        if (bad < 6) { for (int c = 0; c < 4; c++) verify(h, CAT[c], w); } verify(h, "b", w); sev(w); if (bad == 6) { for (size_t i = 0; i < made.size(); i += 37) verify(h, made[i], w); L::setDebugLevel(made[5], 7); h.push_back({made[5], false, 7}); verify(h, made[5], w); verify(h, made[6], w); } step(); }); state(bad); }
static void many() { int k = choose(3); sched::Opt o; o.race_fail = false; o.preempt = 0; o.maxpoints = 5000000; sched::run(o, [&] { got = new vector<Msg>; L::addAppender(app1); L::addAppender(app2); if (k == 2) L::reserveCategories(20000); int n = k == 0 ? 300 : k == 1 ? 2900 : 15000; vector<L::Category> c; for (int i = 0; i < n; i++) { c.push_back(L::Category("n" + std::to_string(i))); if (i % 3 == 0) L::setDebugLevel("n" + std::to_string(i), i % 251); } MC_EQ(got->size(), (size_t)0, "warned with " << n << " categories"); std::set<unsigned> ids; for (int i = 0; i < n; i++) { ids.insert(c[i].id); MC_EQ((int)L::getDebugLevel(c[i]), i % 3 == 0 ? i % 251 : 0, "category " << i << " of " << n); } MC_EQ(ids.size(), (size_t)n, "identifiers shared"); for (int i = 0; i < 40; i++) L::setDebugLevel("n" + std::to_string(i) + "*", 9); for (int i = 0; i < n; i += 7) { MC_EQ((int)L::getDebugLevel(c[i]), 9, "wildcards for category " << i); } step(n); }); state(k); }
static timeval fake; extern "C" int gettimeofday(struct timeval *tv, void *) noexcept { *tv = fake; return 0; }
struct Cap : std::streambuf { string s; int overflow(int c) { if (c != EOF) s += (char)c; return c; } std::streamsize xsputn(const char *p, std::streamsize n) { s.append(p, n); return n; } };
static void console() { int how = choose(3), t = choose(5), us = choose(7); static const long US[] = {0, 1, 5, 99, 1000, 99999, 999999}; static const L::LogType T[] = {L::Report, L::Debug, L::Info, L::Warn, L::Error}; static const char *P[] = {"", "DEBUG", "INFO", "WARN", "ERROR"}; sched::Opt op; op.race_fail = false; op.preempt = 0;
    sched::run(op, [&] { fake.tv_sec = 1234567890; fake.tv_usec = US[us]; Cap *o = new Cap, *e = new Cap; std::streambuf *so = std::cout.rdbuf(o), *se = std::cerr.rdbuf(e); if (how == 1) L::addAppender(L::consoleAppender); if (how == 2) L::addAppender(L::consoleTimeAppender); L::log("the message", T[t]); std::cout.rdbuf(so); std::cerr.rdbuf(se); string oo = o->s, ee = e->s; char ts[64]; snprintf(ts, sizeof ts, " @1234567890.%06ld", US[us]); string want = t == 0 ? "the message\n" : string(P[t]) + (how == 2 ? ts : "") + ": the message\n"; MC_EQ(oo, t < 3 ? want : "", "standard output"); MC_EQ(ee, t < 3 ? "" : want, "standard error"); MC_EQ(L::logTypeToString(T[t]), string(P[t]), ""); }); step(); state(t * 100 + how * 10 + us); }
static void helper(int, int) {}
// the first mention of a category in a macro decides its level as any other creation does
static void macros() { int when = choose(4); sched::Opt o; o.race_fail = false; o.preempt = 0; o.maxpoints = 5000000; sched::run(o, [&] { got = new vector<Msg>; L::addAppender(app1); for (int i = 0; i < 4; i++) { if (i == when) L::setDebugLevel("macro*", 2); got->clear(); LintelLogDebug("macro1", "one"); LintelLogDebugLevel("macro1", 2, boost::format("two %d") % i); LintelLogDebugLevel("macro2", 3, "three"); MC_EQ(got->size(), (size_t)(i >= when ? 2 : 0), "round " << i << " set in " << when); if (i >= when) MC_REQ((*got)[0].text == "one" && (*got)[1].text == "two " + std::to_string(i), "messages"); step(); } helper(0, 0); }); state(when); }
// ---- threads
struct COp { int kind; string c; int lvl; bool res; int beg, end; };
static volatile int tick; static __attribute__((no_sanitize_thread, noinline)) void stamp(int &x) { x = tick = tick + 1; }
static const COp ALPHA[] = {{0, "a", 0, 0, 0, 0}, {0, "ab", 0, 0, 0, 0}, {1, "a", 2, 0, 0, 0}, {2, "a", 3, 0, 0, 0}, {1, "ab", 1, 0, 0, 0}, {3, "ab", 2, 0, 0, 0}, {4, "a", 2, 0, 0, 0}, {2, "", 5, 0, 0, 0}};
static bool explains(const vector<COp> &o, unsigned done, int lvl, const string &c, int fin) {
    bool any = false; for (size_t i = 0; i < o.size(); i++) if (!(done >> i & 1)) { any = true; bool first = true; for (size_t j = 0; j < o.size(); j++) if (j != i && !(done >> j & 1) && o[j].end < o[i].beg) first = false; if (!first) continue; int l = lvl; if (o[i].kind >= 3) { if (o[i].res != (lvl >= o[i].lvl)) continue; } else l = o[i].lvl; if (explains(o, done | 1u << i, l, c, fin)) return true; }
    return any ? false : lvl == fin; }
static void threads(const vector<vector<int>> &sc, bool fresh) {
    vector<COp> *all = new vector<COp>; tick = 0; if (!fresh) { L::Category x("a"); } for (auto &t : sc) for (int k : t) { all->push_back(ALPHA[k]); all->back().beg = all->back().end = 1 << 20; }
    vector<int> ids; int base = 0; for (auto &t : sc) { int b = base, n = (int)t.size(); base += n; ids.push_back(sched::spawn([=] { for (int i = b; i < b + n; i++) { COp &o = (*all)[i]; stamp(o.beg); switch (o.kind) { case 0: { L::Category x(o.c); } break; case 1: L::setDebugLevel(o.c, o.lvl); break; case 2: L::setDebugLevel(o.c + "*", o.lvl); break; case 3: o.res = L::wouldDebug(o.c, o.lvl); break; case 4: { L::Category x(o.c); o.res = L::wouldDebug(x, o.lvl); } break; } stamp(o.end); } })); } for (int i : ids) sched::join(i);
    string d; for (auto &t : sc) { d += "| "; for (int k : t) d += std::to_string(k) + " "; } uint64_t h = 0; std::set<unsigned> idset; int n = 0;
    for (const char *c : {"a", "ab", "b"}) { L::Category x(c), y(c); MC_EQ(x.id, y.id, "one category, two identifiers"); idset.insert(x.id); n++; int fin = L::getDebugLevel(x); h = mix(h ^ fin); vector<COp> p; for (auto &o : *all) if (o.kind == 2 ? string(c).compare(0, o.c.size(), o.c) == 0 : o.kind != 0 && o.c == c) p.push_back(o); if (!explains(p, 0, 0, c, fin)) fail("settings lost or misread", "category " + string(c) + " ends at " + std::to_string(fin) + " after " + d); } MC_EQ(idset.size(), (size_t)n, "identifiers shared " << d); for (auto &o : *all) h = mix(h ^ o.res); outcome(h); }
static void pairs(int nt, int nops, bool fresh, sched::Opt o) { vector<vector<int>> sc(nt); int last = -1; for (auto &t : sc) { int w = 0; for (int i = 0; i < nops; i++) { int c = choose(8); w = w * 8 + c; t.push_back(c); } if (w < last) throw Prune(); last = w; } sched::run(o, [=] { threads(sc, fresh); }); }
static void logging(int nt, int nm) { struct Rec { string cur; vector<string> done; int depth = 0; }; Rec *r = new Rec; auto ap = [r](const string &m, L::LogType) { MC_REQ(r->depth == 0, "appender called while another message is written"); r->depth++; r->cur = m; sched::point("in appender"); MC_REQ(r->cur == m, "messages mixed"); r->done.push_back(m); r->depth--; }; L::addAppender(ap); vector<int> ids; for (int t = 0; t < nt; t++) ids.push_back(sched::spawn([=] { for (int i = 0; i < nm; i++) { if (t == 1) L::setDebugLevel("x" + std::to_string(i), 1); L::warn(std::to_string(t) + ":" + std::to_string(i)); } if (t == 0) LintelLogDebug("nothing", "never"); })); for (int i : ids) sched::join(i); MC_EQ(r->done.size(), (size_t)nt * nm, "messages"); vector<int> nx(nt, 0); string o; for (auto &m : r->done) { int t = atoi(m.c_str()), i = atoi(m.substr(m.find(':') + 1).c_str()); MC_EQ(i, nx[t]++, "order of thread " << t); o += m + " "; } outcome(o); }
static void appenders() { vector<string> *a = new vector<string>, *b = new vector<string>; L::addAppender([a](const string &m, L::LogType) { a->push_back(m); }); int t1 = sched::spawn([=] { L::addAppender([b](const string &m, L::LogType) { b->push_back(m); }); L::info("t1"); }); int t2 = sched::spawn([] { L::info("t2"); L::info("t3"); }); sched::join(t1); sched::join(t2); MC_EQ(a->size(), (size_t)3, "messages to the first appender"); MC_REQ(b->size() >= 1 && b->size() <= 3, "messages to the second appender"); string o; for (auto &m : *a) o += m; for (auto &m : *b) o += m; outcome(o); }
vector<Config> configs() {
    bool T = thorough(); vector<Config> v; auto add = [&](string n, std::function<void()> b, const char *r) { v.push_back({n, b, r}); };
    add("histories", [T] { history(T ? 4 : 3); }, "all sequences of 20 category creations, name and wildcard settings, debug strings and environment settings; afterwards five categories at nine levels"); add("refusals", refuse, "eight refused requests, then everything still works"); add("many_categories", many, "hundreds to thousands of categories"); add("console", console, "appenders on standard streams, seven times of day"); add("macros", macros, "macro categories set before or after first use");
    sched::Opt o; o.race_fail = false; o.preempt = T ? 3 : 2; o.mem_points = true;
    static bool disc = false; if (!disc) { disc = true; sched::Opt d = o; d.preempt = 1; for (auto sc : vector<vector<vector<int>>>{{{0, 2}, {3, 5}}, {{4, 6}, {7, 5}}, {{3}, {4, 1}}}) for (bool f : {true, false}) sched::discover([=] { sched::run(d, [=] { threads(sc, f); }); }, d); }
    add("two_threads", [=] { pairs(2, 1, choose(2), o); }, "two threads, one of eight operations each"); add("two_threads_2", [=] { sched::Opt p = o; p.preempt = T ? 2 : 1; pairs(2, 2, choose(2), p); }, "two threads, two of eight operations each"); add("three_threads", [=] { sched::Opt p = o; p.preempt = 1; pairs(3, 1, true, p); }, "three threads, one of eight operations each");
    add("logging", [=] { sched::Opt p = o; sched::run(p, [=] { logging(2, 2); }); }, "two threads write messages"); add("logging_3", [=] { sched::Opt p = o; p.preempt = T ? 2 : 1; sched::run(p, [=] { logging(3, 1); }); }, "three threads write messages"); add("appenders", [=] { sched::run(o, [=] { appenders(); }); }, "an appender is added while others log");
    return v; }
int main(int argc, char **argv) { lh_init(); sched::init(); return mc::run_main(argc, argv, configs); }
