#include "lh.hpp"
#include <Lintel/Base64.hpp>
using namespace mc; using std::string; using std::vector; using lintel::ASCIIbeticalB64; typedef ASCIIbeticalB64 B;
static const char D[] = "+,0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
static string show(const string &s) { string o; char b[8]; for (unsigned char c : s) { snprintf(b, 8, "%02x", c); o += b; } return o; }
static int bit(const string &s, long i) { return i < 0 || i >= (long)s.size() * 8 ? 0 : ((unsigned char)s[i / 8] >> (7 - i % 8)) & 1; }
static string ref(const string &s, int digits) { string r; for (int d = 0; d < digits; d++) { int v = 0; for (int k = 0; k < 6; k++) v = v * 2 + bit(s, d * 6 + k); r += D[v]; } return r; }
static string refback(const string &s, int digits) { string r; long off = (long)s.size() * 8 - (long)digits * 6; for (int d = 0; d < digits; d++) { int v = 0; for (int k = 0; k < 6; k++) v = v * 2 + bit(s, off + d * 6 + k); r += D[v]; } return r; }
template <class F> static string raw(int digits, F f) { char *p = new char[digits]; memset(p, '#', digits); f(p); string r(p, digits); delete[] p; return r; }
static void one(const string &s) {
    char *in = new char[s.size()]; memcpy(in, s.data(), s.size()); const void *v = in; size_t n = s.size(); int need = (int)(n * 8 + 5) / 6; string e = B::encode(v, n, 0), copy(e);
    MC_EQ(e, ref(s, need), "encoding " << show(s)); MC_REQ(B::encode(s, 0) == e, show(s)); string b = B::decode(copy); MC_REQ(b == s, show(s) << " decodes to " << show(b)); MC_REQ(B::decode(e.data(), e.size()) == s, show(s));
    for (int d = n > 200 ? need - 2 : 1; d <= need + 5; d++) { string w = ref(s, d); MC_EQ(B::encode(v, n, d), w, show(s) << " with " << d << " digits"); MC_EQ(B::encode(s, d), w, show(s)); MC_EQ(raw(d, [&](char *p) { B::encode(v, n, d, p); }), w, show(s) << " into a buffer of " << d); MC_EQ(raw(d, [&](char *p) { B::encode(s, d, p); }), w, show(s)); if (d >= need) { string l = B::decode(w); MC_REQ(l.size() == (size_t)d * 6 / 8 && l.substr(0, n) == s && l.find_first_not_of('\0', n) == string::npos, show(s) << " padded to " << d << " decodes to " << show(l)); }
        MC_EQ(raw(d, [&](char *p) { B::encodeBackward(v, n, d, p); }), refback(s, d), show(s) << " as a big-endian number in " << d << " digits"); step(); }
    delete[] in; }
static void bytes(int n) { string s; int len = choose(n + 1); for (int i = 0; i < len; i++) s += (char)choose(256); one(s); state(s); }
static void longer(int n) { static const unsigned char A[] = {0, 1, 0x3f, 0x80, 0xff, 0xaa}; string s; int len = choose(n + 1); for (int i = 0; i < len; i++) s += (char)A[choose(6)]; one(s); state(s); }
static void lengths() { static const vector<int> big = {254, 255, 256, 257, 258, 383, 384, 385, 510, 511, 512, 513, 767, 768, 1022, 1023, 1024, 1025, 1026, 4096}; int n = choose(200 + (int)big.size()), pat = choose(4); string s; if (n >= 200) n = big[n - 200]; for (int i = 0; i < n; i++) s += pat == 0 ? '\0' : pat == 1 ? '\xff' : pat == 2 ? (char)(i * 37 + 1) : (char)(1 << (i % 8)); one(s); state(n * 4 + pat); }
static vector<string> strs(const string &al, int n) { vector<string> v(1, ""), c(1, ""); for (int l = 0; l < n; l++) { vector<string> x; for (auto &s : c) for (char ch : al) x.push_back(s + ch); v.insert(v.end(), x.begin(), x.end()); c = x; } return v; }
static void order(int n) { static vector<string> v, e; if (v.empty()) { v = strs(string("\0\x01\x7f\x80\xff", 5), n); for (auto &s : v) e.push_back(B::encode(s.data(), s.size(), 0)); } int c = choose(64); for (size_t i = c; i < v.size(); i += 64) { for (size_t j = 0; j < v.size(); j++) { int a = v[i].compare(v[j]), b = e[i].compare(e[j]); MC_REQ((a < 0) == (b < 0) && (a > 0) == (b > 0), show(v[i]) << " vs " << show(v[j]) << ": " << e[i] << " vs " << e[j]); step(); } } }
static string refnum(uint64_t x, int d) { string r(d, D[0]); for (int i = d - 1; i >= 0; i--) { r[i] = D[x & 63]; x >>= 6; } return r; }
static void numbers() {
    int k = choose(65); uint64_t base = k == 64 ? 0 : 1ull << k; string prev; for (int o = -70; o <= 70; o++) { uint64_t x = base + (int64_t)o; if (thorough()) x ^= 0;
        for (int d = 0; d <= 14; d++) { int d64 = d ? d : 11, d32 = d ? d : 6; MC_EQ(B::encode(x, d), refnum(x, d64), x); MC_EQ(B::encode((int64_t)x, d), refnum(x, d64), x); MC_EQ(raw(d64, [&](char *p) { B::encode(x, d64, p); }), refnum(x, d64), x); MC_EQ(raw(d64, [&](char *p) { B::encode((int64_t)x, d64, p); }), refnum(x, d64), x);
            uint32_t y = (uint32_t)x; MC_EQ(B::encode(y, d), refnum(y, d32), y); MC_EQ(B::encode((int32_t)y, d), refnum(y, d32), y); MC_EQ(raw(d32, [&](char *p) { B::encode(y, d32, p); }), refnum(y, d32), y); MC_EQ(raw(d32, [&](char *p) { B::encode((int32_t)y, d32, p); }), refnum(y, d32), y); step(); }
        if (o > -70 && x) MC_REQ(B::encode(x - 1, 0) < B::encode(x, 0), "order at " << x); state(x); } }
static void huge() { static const vector<int> L = {21845, 21846, 32767, 32768, 49151, 49152, 49153, 65535, 65536, 65537, 131072}; int n = pick(L), pat = choose(2); string s; for (int i = 0; i < n; i++) s += pat ? (char)(i * 37 + (i >> 8) + 1) : '\xff'; int need = (n * 8 + 5) / 6; string w = ref(s, need); string e = B::encode(s, 0); MC_REQ(e == w, "encoding of " << n << " bytes"); MC_REQ(B::encode(s.data(), s.size(), need) == w, n << " bytes to a given size"); MC_REQ(B::decode(e) == s, n << " bytes decoded"); MC_REQ(raw(need, [&](char *p) { B::encodeBackward(s.data(), n, need, p); }) == refback(s, need), n << " bytes as a number"); state(n * 2 + pat); }
vector<Config> configs() {
    bool T = thorough(); vector<Config> v; auto add = [&](const char *n, std::function<void()> b, const char *r) { v.push_back({n, b, r}); };
    add("bytes", [T] { bytes(T ? 3 : 2); }, "all byte strings to the length, every requested digit count to five beyond need, both directions, exact-size buffers"); add("longer", [T] { longer(T ? 8 : 6); }, "all strings to the length over six boundary bytes"); add("lengths", lengths, "every length to 199, and lengths around powers of two to 4096, in four patterns; any string of 64K bytes and more"); add("huge", huge, "lengths around 64K and its base-64 fractions"); add("order", [T] { order(T ? 6 : 4); }, "all pairs of strings to the length over five bytes"); add("numbers", numbers, "numbers within 70 of every power of two, all digit counts");
    return v; }
LH_MAIN
