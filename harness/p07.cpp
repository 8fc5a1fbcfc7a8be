#include "lh.hpp"
#include "sched.hpp"
#include <Lintel/ConstantString.hpp>
using namespace mc; using std::string;
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static string show(const string &s) { string o = "\""; char b[8]; for (unsigned char c : s.substr(0, 40)) { if (c >= 32 && c < 127) o += c; else { snprintf(b, 8, "\\x%02x", c); o += b; } } return o + "\""; }
struct Live { ConstantString cs; string m; const char *p; };
static void one(const ConstantString &c, const string &m) {
    MC_EQ((size_t)c.size(), m.size(), show(m)); MC_EQ((size_t)c.length(), m.size(), show(m)); MC_EQ(c.empty(), m.empty(), show(m)); MC_REQ(memcmp(c.data(), m.data(), m.size()) == 0, "bytes of " << show(m)); MC_EQ((int)c.c_str()[m.size()], 0, "terminator of " << show(m)); MC_REQ(c.str() == m, show(m));
    for (size_t i = 0; i < m.size(); i++) MC_EQ((int)c[i], (int)m[i], "index"); }
static void two(const ConstantString &a, const ConstantString &b, const string &x, const string &y) {
    bool eq = x == y; int w = sgn(x.compare(y)); string d = show(x) + " vs " + show(y);
    MC_EQ(a == b, eq, d); MC_EQ(a != b, !eq, d); MC_EQ(a.equal(b), eq, d); MC_EQ(sgn(a.compare(b)), w, d); MC_EQ(a < b, w < 0, d); MC_EQ(a <= b, w <= 0, d); MC_EQ(a > b, w > 0, d); MC_EQ(a >= b, w >= 0, d);
    MC_EQ(sgn(a.compare(y)), w, d + " (ordinary string)"); MC_EQ(a != y, !eq, d + " (ordinary string)"); if (y.find('\0') == string::npos) MC_EQ(a != y.c_str(), !eq, d + " (C string)");
    if (eq) { MC_EQ(a.hash(), b.hash(), d); MC_REQ(a.c_str() == b.c_str(), d << " not the same storage"); } else MC_REQ(a.c_str() != b.c_str(), d << " share storage"); }
static std::vector<string> strings(const string &alpha, size_t len) { std::vector<string> r(1, ""), cur(1, ""); for (size_t l = 0; l < len; l++) { std::vector<string> nx; for (auto &s : cur) for (char c : alpha) nx.push_back(s + c); r.insert(r.end(), nx.begin(), nx.end()); cur = nx; } return r; }
// all creation histories over a few strings and all constructors
static void histories(int depth) {
    static const char *raw[] = {"", "a", "b", "ab"}; std::vector<string> S(raw, raw + 4); S.push_back(string("\0", 1)); S.push_back(string("a\0", 2)); S.push_back(string("a\0b", 3)); S.push_back("\xff"); S.push_back("abc\x80");
    std::vector<Live> live; 
    for (int i = 0; i < depth; i++) {
        int how = choose(live.empty() ? 4 : 6); 
        if (how == 3) { live.push_back({ConstantString(), "", nullptr}); note("default"); }
        else if (how == 4) { int k = choose((int)live.size()); ConstantString c(live[k].cs); live.push_back({c, live[k].m, nullptr}); note("copy of %d", k); }
        else if (how == 5) { int k = choose((int)live.size()); ConstantString c("tmp"); c = live[k].cs; live.push_back({c, live[k].m, nullptr}); note("assigned from %d", k); }
        else { const string &s = S[choose((int)S.size())]; note("create %s via %d", show(s).c_str(), how); if (how == 0) { string t(s); ConstantString c(t); live.push_back({c, s, nullptr}); t.assign("zzzz"); } else if (how == 1) { if (s.find('\0') != string::npos) throw Prune(); char b[16]; strcpy(b, s.c_str()); ConstantString c(b); memset(b, 'q', 16); live.push_back({c, s, nullptr}); } else { char b[16]; memset(b, 'r', 16); memcpy(b, s.data(), s.size()); ConstantString c((const void *)b, (uint32_t)s.size()); memset(b, 'q', 16); live.push_back({c, s, nullptr}); } }
        live.back().p = live.back().cs.c_str(); string d;
        for (auto &l : live) { one(l.cs, l.m); MC_REQ(l.p == l.cs.c_str(), "address changed"); d += show(l.m); }
        for (auto &l : live) two(l.cs, live.back().cs, l.m, live.back().m), two(live.back().cs, l.cs, live.back().m, l.m);
        state(d); }
    std::ostringstream os; os << live.back().cs; MC_REQ(os.str() == live.back().m, "printed as " << show(os.str()) << " instead of " << show(live.back().m)); outcome(live.size()); }
static void pairs(size_t len) { std::vector<string> v = strings(string("\0a\x7f\x80\xff", 5), len); int chunk = (int)choose(64); std::vector<ConstantString> c; for (auto &s : v) c.push_back(ConstantString(s)); for (size_t i = chunk; i < v.size(); i += 64) { one(c[i], v[i]); for (size_t j = 0; j < v.size(); j++) { two(c[i], c[j], v[i], v[j]); step(); } state(v[i]); } }
// every remaining free space near the end of a block against every new string length, then everything is verified
static void blocks() {
    int left = choose(40), n = choose(thorough() ? 64 : 20), second = choose(2); note("leave about %d bytes, then strings of %d", left, n); std::vector<Live> l; auto mk = [&](size_t len, int tag) { string s(len, 'x'); for (size_t i = 0; i < len; i++) s[i] = (char)(tag * 131 + i * 7 + (i >> 8)); if (len >= 4) memcpy(&s[0], &tag, 4); ConstantString c(s); l.push_back({c, s, c.c_str()}); };
    size_t used = 0, cap = 512 * 1024; int tag = 1; auto need = [](size_t len) { size_t x = len + 1; return x + (4 - x % 4) % 4 + 4; };
    while (cap - used > 16100) { mk(7900, tag++); used += need(7900); }
    for (size_t rest = cap - used - left; rest >= 8;) { size_t take = std::min<size_t>(rest, 8000) - 5; mk(take, tag++); used += need(take); if (cap - used <= (size_t)left) break; rest = cap - used - left; if (rest < 12) break; }
    mk(n, 1000 + n); mk(n + 1, 2000 + n); mk(0, 0); if (second) for (int i = 0; i < 70; i++) mk(8000 - i, 3000 + i); mk(n + 2, 4000); mk(3, 77);
    for (auto &x : l) { one(x.cs, x.m); MC_REQ(x.p == x.cs.c_str(), "address changed"); ConstantString again(x.m); two(x.cs, again, x.m, x.m); } state(left * 1000 + n * 2 + second); }
static void many() { int n = 1 << (4 + choose(thorough() ? 12 : 9)); note("%d strings", n); std::vector<Live> l; char b[16]; for (int i = 0; i < n; i++) { snprintf(b, 16, "%x", i * 2654435761u); ConstantString c(b); l.push_back({c, b, c.c_str()}); } for (auto &x : l) { one(x.cs, x.m); ConstantString again(x.m.data(), x.m.size()); two(x.cs, again, x.m, x.m); step(); } for (size_t i = 1; i < l.size(); i++) two(l[i].cs, l[i - 1].cs, l[i].m, l[i - 1].m);
    HashMap<ConstantString, int> h; (void)h; state(n); }
// long strings (a new string that no longer fits may be refused, but what is returned must be exact)
static void large() {
    static const std::vector<size_t> L = {126, 127, 128, 254, 255, 256, 257, 4095, 4096, 8100, 8191, 8192, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 200000}; size_t n = pick(L); int kind = choose(3); note("strings of %zu bytes, kind %d", n, kind); std::vector<Live> l;
    auto mk = [&](const string &s) { try { ConstantString c(s.data(), (uint32_t)s.size()); l.push_back({c, s, c.c_str()}); } catch (AssertBoostException &) { MC_REQ(s.size() > 8000, "a string of " << s.size() << " bytes is refused"); } };
    mk("first"); string base; for (size_t i = 0; i < n; i++) base += kind == 0 ? 'k' : kind == 1 ? (char)(i * 11 + (i >> 8) * 3) : (char)(i % 251 ? 'z' : 0); mk(base); std::vector<size_t> at = {0, 1, n / 2, n - 2, n - 1}; for (size_t d : {(size_t)255, (size_t)256, (size_t)65535, (size_t)65536}) if (d < n) at.push_back(d);
    if (n <= 20000) for (size_t p : at) { string t(base); t[p] = (char)(t[p] + 1); mk(t); } else { string t(base); t[n - 1] = (char)(t[n - 1] + 1); mk(t); }
    mk(base.substr(0, n - 1)); if (n > 256) mk(base.substr(0, n - 256)); if (n > 65536) mk(base.substr(0, n - 65536)); mk("last");
    for (auto &x : l) { MC_REQ(x.p == x.cs.c_str(), "address changed"); MC_EQ((size_t)x.cs.size(), x.m.size(), "length"); MC_REQ(memcmp(x.cs.data(), x.m.data(), x.m.size() + 1) == 0, "bytes of a string of " << x.m.size()); MC_REQ(x.cs.str() == x.m, "text of a string of " << x.m.size()); for (auto &y : l) two(x.cs, y.cs, x.m, y.m); ConstantString again(x.m.data(), (uint32_t)x.m.size()); two(x.cs, again, x.m, x.m); } state(n * 3 + kind); }
std::vector<Config> configs() {
    bool T = thorough(); std::vector<Config> v; sched::Opt o; o.preempt = 0;
    auto add = [&](const char *n, std::function<void()> b, const char *r) { v.push_back({n, [=] { sched::run(o, b); }, r}); };
    add("histories", [T] { histories(T ? 5 : 3); }, "every creation history to the depth over nine strings (with NUL and high bytes) and six ways to create; all handles compared after every step; fresh pool each time");
    add("pairs", [T] { pairs(T ? 4 : 3); }, "all ordered pairs of strings up to the length over {00,61,7f,80,ff}"); add("blocks", blocks, "every remaining space of a storage block against every new length"); add("large", large, "long strings around 8-, 13-, 15- and 16-bit lengths differing in one byte or by a whole power of two in length"); add("many", many, "pool growth over every table size");
    return v;
}
int main(int argc, char **argv) { lh_init(); sched::init(); return mc::run_main(argc, argv, configs); }
