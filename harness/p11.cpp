#include "lh.hpp"
#include <Lintel/BoyerMooreHorspool.hpp>
using namespace mc; using std::string; using std::vector; using lintel::BoyerMooreHorspool;
static string show(const string &s) { string o; char b[8]; for (unsigned char c : s) { snprintf(b, 8, "%02x", c); o += b; } return o; }
static char *page_end(const string &s) { // the text ends exactly at an unreadable page, and starts at another when it is a whole page long
    static char *a; if (!a) { a = (char *)mmap(0, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(a, 4096, PROT_NONE); mprotect(a + 8192, 4096, PROT_NONE); } char *p = a + 8192 - s.size(); memcpy(p, s.data(), s.size()); return p; }
static char *page_start(const string &s) { static char *a; if (!a) { a = (char *)mmap(0, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(a, 4096, PROT_NONE); mprotect(a + 8192, 4096, PROT_NONE); } char *p = a + 4096; memcpy(p, s.data(), s.size()); return p; }
static void chk(const BoyerMooreHorspool &m, const string &n, const string &h) {
    size_t w = h.find(n), r = m.find(page_end(h), h.size()); MC_REQ(r == (w == string::npos ? BoyerMooreHorspool::npos : w), "needle " << show(n) << " in " << show(h) << ": " << (long)r << " instead of " << (long)w); MC_EQ(m.matches(page_start(h), h.size()), w != string::npos, show(n) << " in " << show(h)); step(); }
static vector<string> strs(const string &al, int n) { vector<string> v(1, ""), c(1, ""); for (int l = 0; l < n; l++) { vector<string> x; for (auto &s : c) for (char ch : al) x.push_back(s + ch); v.insert(v.end(), x.begin(), x.end()); c = x; } return v; }
static void small(int letters, int nl, int hl) {
    static const char *maps[] = {"abc", "\0\x01\xff", "\x80\x7f\0", "\xff\xfe\x81"}; string al(maps[choose(4)], letters); static std::map<string, vector<string>> memo; vector<string> &H = memo[al]; if (H.empty()) H = strs(al, hl); string n; int len = 1 + choose(nl); for (int i = 0; i < len; i++) n += al[choose(letters)];
    note("needle %s", show(n).c_str()); char *exact = new char[n.size()]; memcpy(exact, n.data(), n.size()); BoyerMooreHorspool a(exact, n.size()), b(n); memset(exact, 'Q', n.size()); delete[] exact; for (auto &h : H) { chk(a, n, h); } for (size_t i = 0; i < H.size(); i += 7) chk(b, n, H[i]); state(n); }
// every byte value as the mismatching, last and only byte
static void bytes() { int c = choose(256), d = choose(256); string x(1, (char)c), y(1, (char)d); for (string n : {x, x + y, y + x + x, x + x + y, x + y + x}) { BoyerMooreHorspool m(n); for (string h : {string(), x, y, x + y, y + x, y + y + x + x, x + x + x + y, y + x + y + x + x + y, y + y + y + n, n + y, x + n + x}) chk(m, n, h); } state(c * 256 + d); }
// long texts: needle of every length at every offset, with every single-byte difference
static void longer() {
    int nl = 1 + choose(thorough() ? 300 : 70), shape = choose(4); string n; for (int i = 0; i < nl; i++) n += shape == 0 ? 'a' : shape == 1 ? (char)i : shape == 2 ? (char)(i % 3) : (char)(i == nl / 2 ? 1 : 255);
    BoyerMooreHorspool m(n); for (int off = 0; off < 2 * nl + 3; off++) { string f(off, shape == 1 ? '\xee' : n[n.size() - 1]); chk(m, n, f + n); chk(m, n, f + n + "tail"); chk(m, n, f + n.substr(0, nl - 1)); for (int k = 0; k < nl; k += 1 + nl / 12) { string t(n); t[k] ^= 0x40; chk(m, n, f + t + n.substr(nl / 2)); } } state(nl * 4 + shape); }
// one marking byte in a long needle, at every kind of place: how far the search may skip when it sees it
static void marker() { static const vector<int> L = {2, 3, 17, 64, 127, 128, 129, 130, 255, 256, 257, 258, 259, 300, 511, 512, 513, 514, 700, 1030}; int nl = pick(L); std::set<int> at; for (int d : {0, 1, 2, 3, nl / 2, nl - 1, nl - 2, nl - 127, nl - 128, nl - 129, nl - 130, nl - 254, nl - 255, nl - 256, nl - 257, nl - 258, nl - 259, nl - 512, nl - 513, nl - 514}) if (d >= 0 && d < nl) at.insert(d); vector<int> A(at.begin(), at.end()); int p = pick(A); bool two = choose(2); string n(nl, 'a'); n[p] = (char)0xb7; if (two) n[0] = 'c'; note("needle of %d, mark at %d", nl, p); BoyerMooreHorspool m(n);
    for (int off = 0; off <= nl + 2; off += nl > 140 && !thorough() && off > 300 && off + 300 < nl ? 3 : 1) { string f(off, 'a'); chk(m, n, f + n); chk(m, n, f + n + "aa"); string g(f); if (off) g[off / 2] = (char)0xb7; chk(m, n, g + n); chk(m, n, g + n.substr(1)); } state(nl * 4096 + p * 2 + two); }
static void empty() { for (int i = 0; i < 2; i++) { bool f = false; try { if (i) BoyerMooreHorspool m("", 0); else BoyerMooreHorspool m((string())); } catch (AssertBoostException &) { f = true; } MC_REQ(f, "empty needle accepted"); } }
vector<Config> configs() {
    bool T = thorough(); vector<Config> v; auto add = [&](const char *n, std::function<void()> b, const char *r) { v.push_back({n, b, r}); };
    add("two_letters", [T] { small(2, T ? 9 : 7, T ? 17 : 14); }, "all needles and haystacks to the lengths over two letters mapped to four byte sets, text against unreadable pages on both sides"); add("three_letters", [T] { small(3, T ? 6 : 5, T ? 10 : 8); }, "the same over three letters"); add("bytes", bytes, "all pairs of byte values in five needle shapes and eleven texts"); add("longer", longer, "needles of every length to the bound at every offset with single-byte differences");
    add("marker", marker, "needles of lengths around the powers of two with one marking byte at places around the same distances from the end, behind texts of every length");
    add("empty", empty, "empty needles are refused");
    return v; }
LH_MAIN
