// P22: program options, against an independent parser; one child process per command line because options are process-wide
#include "lh.hpp"
#include <Lintel/ProgramOptions.hpp>
using namespace mc; using std::string; using std::vector; typedef vector<string> VS; namespace L = lintel;
static string join_(const VS &v) { string s; for (auto &x : v) s += "[" + x + "]"; return s; }
// ---- what a command line means
struct St { bool unum = false, ustr = false, flag = false, ulist = false, usec = false, quiet = false; int num = 7, sec = 9; string str = "dflt"; VS list{"d1", "d2"}; };
struct Opt { const char *name; char sh; int kind; bool hidden; }; // kind 0 int, 1 string, 2 flag, 3 list
static const Opt OPT[] = {{"num", 'n', 0, false}, {"str", 0, 1, false}, {"flag", 'f', 2, false}, {"list", 0, 3, false}, {"secret", 0, 0, true}, {"quiet", 0, 2, true}, {"help", 'h', 2, false}};
static const Opt *lng(const string &n) { for (auto &o : OPT) if (n == o.name) return &o; return nullptr; }
static const Opt *sht(char c) { for (auto &o : OPT) if (o.sh == c) return &o; return nullptr; }
static const Opt *isopt(const string &t) { if (t.size() > 2 && t.compare(0, 2, "--") == 0) return lng(t.substr(2, t.find('=') == string::npos ? string::npos : t.find('=') - 2)); if (t.size() > 1 && t[0] == '-') return sht(t[1]); return nullptr; }
struct Par { bool err = false, help = false, unsure = false; VS left; St s; };
static bool toint(const string &v, int &o) { char *e; if (v.empty() || isspace((unsigned char)v[0])) return false; long x = strtol(v.c_str(), &e, 10); if (*e || x > INT_MAX || x < INT_MIN) return false; o = (int)x; return true; }
static Par parse(const VS &a, const St &from) {
    Par p; p.s = from; bool seen[7] = {}; bool rest = false; VS list;
    for (size_t i = 0; i < a.size(); i++) { const string &t = a[i];
        if (rest) { p.left.push_back(t); continue; } if (t == "--") { rest = true; continue; }
        const Opt *o = isopt(t); if (!o) { p.left.push_back(t); continue; }
        bool l = t[1] == '-', adj = false; string v; if (l && t.find('=') != string::npos) { adj = true; v = t.substr(t.find('=') + 1); } if (!l && t.size() > 2) { adj = true; v = t.substr(2); }
        size_t k = o - OPT; if (o->kind == 2) { if (adj && l) { p.err = true; continue; } if (adj) { p.unsure = true; return p; } if (seen[k]) p.err = true; seen[k] = true; if (k == 2) p.s.flag = true; if (k == 5) p.s.quiet = true; if (k == 6) p.help = true; continue; }
        if (!adj) { if (i + 1 >= a.size()) { p.err = true; continue; } if (a[i + 1].size() > 1 && a[i + 1][0] == '-' && !isdigit(a[i + 1][1])) { p.unsure = true; return p; } v = a[++i]; }
        if (seen[k] && o->kind != 3) p.err = true; seen[k] = true; int x = 0;
        if (o->kind == 0 && !toint(v, x)) { p.err = true; continue; }
        switch (k) { case 0: p.s.unum = true; p.s.num = x; break; case 4: p.s.usec = true; p.s.sec = x; break; case 1: p.s.ustr = true; p.s.str = v; break; case 3: p.s.ulist = true; list.push_back(v); break; } }
    if (seen[3]) p.s.list = list; return p; }
// ---- the real thing
struct Cap : std::streambuf { string s; int overflow(int c) { if (c != EOF) s += (char)c; return c; } std::streamsize xsputn(const char *p, std::streamsize n) { s.append(p, n); return n; } };
static Cap *cap; static void cap_on() { cap = new Cap; std::cout.rdbuf(cap); } static void at_exit() { iso::say('O', cap->s); _exit(0); }
struct World { L::ProgramOption<int> num; L::ProgramOption<string> str; L::ProgramOption<bool> flag; L::ProgramOption<VS> list; L::TestingOption<int> sec; L::TestingOption<bool> quiet;
    World() : num("num,n", "number description", 7), str("str", "string description", "dflt"), flag("flag,f", "flag description"), list("list", "list description", VS{"d1", "d2"}), sec("secret", "SECRETTEXT", 9), quiet("quiet", "QUIETTEXT") {} };
static void same(World &w, const St &s, const string &what) {
    MC_EQ(w.num.used(), s.unum, "--num used " << what); MC_EQ(w.num.get(), s.num, "--num " << what); MC_EQ(w.str.used(), s.ustr, "--str used " << what); MC_EQ(w.str.get(), s.str, "--str " << what); MC_EQ(w.flag.used(), s.flag, "--flag " << what); MC_EQ(w.flag.get(), s.flag, "--flag " << what);
    MC_EQ(w.list.used(), s.ulist, "--list used " << what); MC_EQ(join_(w.list.get()), join_(s.list), "--list " << what); MC_EQ(w.sec.used(), s.usec, "hidden int used " << what); MC_EQ(w.sec.get(), s.sec, "hidden int " << what); MC_EQ(w.quiet.get(), s.quiet, "hidden flag " << what); }
static bool g_helped;
static void line(World &w, St &cur, const VS &a, bool allow, int how) {
    string what = "after " + join_(a); Par p = parse(a, cur); if (p.unsure) return; bool err = p.err || (!allow && p.left.size()); bool threw = false; string text; VS got;
    g_helped = !err && p.help;
    try { if (how == 0) got = L::parseCommandLine(a, allow); else { static vector<char *> av; av.clear(); av.push_back((char *)"prog"); for (auto &x : a) av.push_back((char *)x.c_str()); got = L::parseCommandLine((int)av.size(), av.data(), allow); } }
    catch (const boost::program_options::error &e) { threw = true; text = e.what(); } catch (const AssertBoostException &e) { threw = true; text = e.msg; }
    MC_EQ(threw, err, (err ? "accepted " : "refused ") << join_(a) << (allow ? " with further arguments allowed " : "") << text);
    if (threw) { same(w, cur, "after refusing " + join_(a)); if (!p.err && p.left.size()) MC_REQ(text.find("'" + p.left[0] + "'") != string::npos, "refusal '" << text << "' does not name '" << p.left[0] << "' of " << join_(a)); }
    else { MC_REQ(!p.help, "help did not end the program for " << join_(a)); MC_EQ(join_(got), join_(p.left), "arguments left " << what); cur = p.s; same(w, cur, what); }
    MC_EQ(cap->s, string(), "printed " << what); }
static const VS TOK = {"--num=3", "--num", "5", "-n4", "-n", "--flag", "-f", "--flag=1", "--str=a b=c", "--str", "--list=p", "--list", "--secret=6", "--secret", "--quiet", "--unknown", "--unknown=1", "-x", "x y", "", "-", "--", "--num=abc", "-3", "--help", "-h"};
static void checkhelp(const string &o) { for (const char *s : {"Usage: prog [options]", "--num", "-n", "--str", "-f", "--flag", "--list", "--help", "number description", "[7]", "[dflt]", "[[d1][d2]]", "flag description"}) MC_REQ(o.find(s) != string::npos, "help does not show " << s << ": " << o); for (const char *s : {"secret", "SECRETTEXT", "quiet", "QUIETTEXT"}) MC_REQ(o.find(s) == string::npos, "help shows hidden " << s); }
static void lines(const vector<VS> &ls, const vector<int> &allow, int how) {
    string out; bool *helped = (bool *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); 
    int st = iso::run([&] { cap_on(); L::setArgvZero("prog"); atexit(at_exit); World &w = *new World; St s; same(w, s, "at the start"); for (size_t i = 0; i < ls.size(); i++) { Par p = parse(ls[i], s); *helped = !p.unsure && p.help && !p.err && (allow[i] || p.left.empty()); line(w, s, ls[i], allow[i], how); step(); } _exit(3); }, &out);
    bool h = *helped; munmap(helped, 4096); string d; for (auto &l : ls) d += join_(l) + ";";
    if (!h) MC_REQ(WIFEXITED(st) && WEXITSTATUS(st) == 3, "ended early with status " << st << " on " << d); else { MC_REQ(WIFEXITED(st) && WEXITSTATUS(st) == 0, "help ended with status " << st << " on " << d); checkhelp(out); } state(d); }
static void one(int maxn) { int n = choose(maxn + 1); VS a; for (int i = 0; i < n; i++) a.push_back(pick(TOK)); int allow = choose(2), how = n < 3 ? choose(2) : 0; lines({a}, {allow}, how); }
static const vector<VS> SHORT = {{}, {"--num=3"}, {"-n", "4"}, {"--flag"}, {"--str=z", "--num=8"}, {"--list=p", "--list=q"}, {"--list=r"}, {"--secret=6", "--quiet"}, {"--num=1", "--num=2"}, {"--num=5", "--flag", "u"}, {"x", "--", "--num=3"}, {"--str="  "s", "--flag=2"}};
static void history(int n) { vector<VS> ls; vector<int> al; for (int i = 0; i < n; i++) { ls.push_back(pick(SHORT)); al.push_back(choose(2)); } lines(ls, al, 0); }
// programs that set options themselves, and options declared between parses
static void settings(int n) { vector<int> ops; for (int i = 0; i < n; i++) ops.push_back(choose(6)); int st = iso::run([&] { cap_on(); World &w = *new World; St s; bool late = false, lused = false; int lv = 11; L::ProgramOption<int> *lo = nullptr; string d;
    for (int o : ops) { d += " " + std::to_string(o); switch (o) { case 0: w.num.set(77); s.unum = true; s.num = 77; break; case 1: w.flag.set(true); s.flag = true; break; case 2: w.list.set(VS{"k"}); s.ulist = true; s.list = VS{"k"}; break;
        case 3: line(w, s, {"--num=3", "--list=v"}, false, 0); break; case 4: line(w, s, {}, false, 0); break;
        case 5: if (!late) { lo = new L::ProgramOption<int>("late", "late description", 11); late = true; MC_EQ(lo->get(), 11, "default"); } else { L::parseCommandLine(VS{"--late=" + std::to_string(++lv)}); lused = true; } break; }
        same(w, s, "after steps" + d); if (late) { MC_EQ(lo->get(), lv, "late option after steps" << d); MC_EQ(lo->used(), lused, "late option used after steps" << d); } step(); } _exit(3); }); MC_REQ(WIFEXITED(st) && WEXITSTATUS(st) == 3, "ended with status " << st); uint64_t h = n; for (int o : ops) h = mix(h ^ o); state(h); }
static const VS CFG = {"num=3", "num = 4", "str=a b", "list=p", "list=q", "# comment", "", "unknown=1", "num=abc", "str=c # tail", "[sec]"};
static void config(int maxn) { int n = choose(maxn + 1); VS ls; for (int i = 0; i < n; i++) ls.push_back(pick(CFG)); int file = choose(2), pre = choose(2);
    int st = iso::run([&] { cap_on(); World &w = *new World; St cur; if (pre) { line(w, cur, {"--num=9", "--flag", "--list=z"}, false, 0); } St s = cur; bool err = false, un = false, us = false; string section; VS list; 
        for (auto &l0 : ls) { string l = l0.substr(0, l0.find('#')); while (l.size() && l.back() == ' ') l.pop_back(); if (l.empty()) continue; if (l[0] == '[') { section = "sec."; continue; } size_t e = l.find('='); string k = l.substr(0, e), v = l.substr(e + 1); while (k.size() && k.back() == ' ') k.pop_back(); while (v.size() && v[0] == ' ') v.erase(0, 1); k = section + k; int x;
            if (k == "num") { if (un || !toint(v, x)) { err = true; continue; } un = true; s.unum = true; s.num = x; } else if (k == "str") { if (us) err = true; us = true; s.ustr = true; s.str = v; } else if (k == "list") { list.push_back(v); s.ulist = true; } else err = true; }
        if (list.size()) s.list = list; string text; for (auto &l : ls) text += l + "\n"; bool threw = false; string what = "after configuration " + join_(ls);
        try { if (file) { char f[] = "/tmp/p22.XXXXXX"; int fd = mkstemp(f); if (write(fd, text.data(), text.size())) {} close(fd); try { L::parseConfigFile(string(f)); } catch (...) { unlink(f); throw; } unlink(f); } else { std::istringstream is(text); L::parseConfigFile(is); } } catch (const boost::program_options::error &) { threw = true; } catch (const AssertBoostException &) { threw = true; }
        MC_EQ(threw, err, (err ? "accepted " : "refused ") << what); same(w, err ? cur : s, what); _exit(3); }); MC_REQ(WIFEXITED(st) && WEXITSTATUS(st) == 3, "ended with status " << st); string d; for (auto &l : ls) d += l + "\n"; state(d); step(); }
static void nofile() { iso::run([] { cap_on(); bool t = false; try { L::parseConfigFile(string("/nonexistent/config")); } catch (AssertBoostException &) { t = true; } MC_REQ(t, "missing configuration file not refused"); }); }
// ---- help text
static void wrapcheck(const string &in, const string &out, uint32_t w, const char *what) {
    size_t i = 0, line = 0; // line: start of the current output line
    size_t j = 0; for (; j < out.size(); j++) {
        if (out[j] == '\n') { MC_REQ(j - line <= w, what << ": line '" << out.substr(line, j - line) << "' is longer than " << w);
            if (i < in.size() && in[i] == '\n') { i++; line = j + 1; continue; }
            size_t from = i - (j - line); // the line's text starts here in the input
            MC_REQ(in.size() - from > w && in.substr(from, w + 1).find('\n') == string::npos, what << ": broke a line that fits: '" << out.substr(line, j - line) << "'");
            size_t best = 0; for (size_t k = from + w; k >= from + w / 2; k--) if (in[k] == ' ') { best = k; break; }
            if (best) { MC_EQ(i, best, what << ": broke '" << in.substr(from, w + 1) << "' elsewhere than at the last space"); MC_REQ(in[i] == ' ', what << ": lost a character"); i++; }
            else MC_EQ(j - line, (size_t)w, what << ": split a word early in '" << in.substr(from, w + 1) << "'");
            line = j + 1; continue; }
        MC_REQ(i < in.size() && out[j] == in[i], what << ": text changed: '" << in << "' to '" << out << "'"); i++; }
    MC_REQ(out.size() - line <= w, what << ": last line too long"); MC_EQ(i, in.size(), what << ": text lost from '" << in << "'"); }
static void wrap(int nwords) { static bool first = true; if (first) { setenv("COLUMNS", "80", 1); cap_on(); L::programOptionsUsage("p"); first = false; } static const int WID[] = {10, 11, 13, 16, 3, 80}; int wi = choose(6), w = WID[wi]; uint32_t eff = w < 10 ? 10 : w; setenv("COLUMNS", std::to_string(w).c_str(), 1);
    string a0; int n = choose(nwords + 1); for (int k = 0; k < n; k++) { if (k) a0 += choose(4) == 3 ? "\n" : choose(2) ? "  " : " "; static const int LEN[] = {0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 14, 21, 23, 33}; int l = LEN[choose(16)]; for (int c = 0; c < l; c++) a0 += (char)('a' + (k * 5 + c) % 26); }
    cap->s.clear(); L::programOptionsUsage(a0); string out = cap->s; size_t p = out.find("Allowed options:"); MC_REQ(p != string::npos, "no option list"); wrapcheck("Usage: " + a0 + " [options] \n", out.substr(0, p), eff, "usage"); step(); state(std::to_string(w) + a0); }
static void helptext() { int k = choose(5); iso::run([k] { cap_on(); setenv("COLUMNS", "20", 1); static const char *X[] = {"", "file...", "a long explanation of what the further arguments mean", "x\ny", "unbreakableunbreakableunbreakable"}; L::programOptionsHelp(X[k]); L::OptionsHelpAdder more("MORE"); L::setArgvZero("zero"); L::programOptionsUsage(); string out = cap->s; size_t p = out.find("Allowed options"); MC_REQ(p != string::npos, "no option list"); wrapcheck(string("Usage: zero [options] ") + X[k] + "MORE\n", out.substr(0, p), 20, "help"); }); state(k); step(); }
vector<Config> configs() {
    bool T = thorough(); vector<Config> v; auto add = [&](string n, std::function<void()> b, const char *r) { v.push_back({n, b, r}); };
    add("command_line", [T] { one(T ? 4 : 3); }, "every argument vector of up to three (thorough four) of 26 tokens, further arguments allowed or not, against an independent parser; refused lines leave options unchanged");
    add("histories", [T] { history(T ? 3 : 2); }, "every sequence of two (thorough three) command lines out of 12, each with further arguments allowed or not"); add("set_and_late", [T] { settings(T ? 5 : 4); }, "every sequence of four (thorough five) of set, parse, declaring an option later"); add("config_file", [T] { config(T ? 4 : 3); }, "every file of up to three (thorough four) of 11 lines, as stream and as file, after a command line or not"); add("no_file", nofile, "missing file"); add("usage_wrap", [T] { wrap(T ? 4 : 3); }, "usage texts of up to three (thorough four) words of 16 lengths and four separators at six widths"); add("help_text", helptext, "further help text");
    return v; }
LH_MAIN
