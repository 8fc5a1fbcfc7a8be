#include "lh.hpp"
#include <Lintel/StringUtil.hpp>
#include <Lintel/XMLUtil.hpp>
#include <arpa/inet.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
using namespace mc; using std::string; using std::vector;
static string show(const string &s) { string o = "\""; char b[8]; for (unsigned char c : s) { if (c >= 32 && c < 127) o += c; else { snprintf(b, 8, "\\x%02x", c); o += b; } } return o + "\""; }
template <class F> static bool fails(F f) { try { f(); } catch (AssertBoostException &) { return true; } return false; }
// every string over alpha of length <= len; the first two letters (and short strings) are separate executions
template <class F> static void all(const string &alpha, int len, F f) {
    int n = (int)alpha.size(), a = choose(n + 1); if (!a) { f(string()); return; } string s(1, alpha[a - 1]); if (len < 1) throw Prune();
    int b = choose(n + 1); if (!b || len < 2) { f(s); return; } s += alpha[b - 1]; note("strings starting %s", show(s).c_str());
    vector<int> ix; for (;;) { f(s); step(); if ((int)s.size() < len) { s += alpha[0]; ix.push_back(0); continue; } while (!ix.empty() && ix.back() == n - 1) { ix.pop_back(); s.resize(s.size() - 1); } if (ix.empty()) return; s[s.size() - 1] = alpha[++ix.back()]; } }
typedef __int128 I;
static string itoa_base(I v, int base) { if (v == 0) return "0"; bool neg = v < 0; if (neg) v = -v; string s; while (v) { s += "0123456789abcdef"[(int)(v % base)]; v /= base; } if (neg) s += '-'; std::reverse(s.begin(), s.end()); return s; }
// what the text denotes: 0 not a number, 1 a value
static int denotes(const string &s, int base, I &v) {
    size_t i = 0; bool neg = false; v = 0; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    if (base == 16 && i + 1 < s.size() && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) i += 2;
    if (i >= s.size()) return 0; for (; i < s.size(); i++) { int d = s[i] >= '0' && s[i] <= '9' ? s[i] - '0' : s[i] >= 'a' && s[i] <= 'f' ? s[i] - 'a' + 10 : s[i] >= 'A' && s[i] <= 'F' ? s[i] - 'A' + 10 : 99; if (d >= base) return 0; v = v * base + d; if (v > ((I)1 << 100)) v = (I)1 << 100; }
    if (neg) v = -v; return 1; }
template <class T> static void one_int(const string &s, int base) {
    I v; size_t lead = 0; if (base != 10) while (lead < s.size() && isspace((unsigned char)s[lead])) lead++; int d = denotes(s.substr(lead), base, v); // leading blanks may be refused or skipped
    bool ok = d && v >= (I)std::numeric_limits<T>::min() && v <= (I)std::numeric_limits<T>::max(); T r = 0; bool f = fails([&] { r = stringToInteger<T>(s, base); });
    if (f && (lead || (v == 0 && s[0] == '-'))) return;  // minus zero may be refused
    MC_REQ(f == !ok, show(s) << " base " << base << " width " << sizeof(T) << (std::numeric_limits<T>::is_signed ? " signed" : " unsigned") << (f ? " refused" : " accepted")); if (ok) MC_REQ((I)r == v, show(s) << " base " << base << " width " << sizeof(T) << " gives " << itoa_base(r, 10) << " instead of " << itoa_base(v, 10)); }
template <class T> static void text_int(const string &s) { one_int<T>(s, 10); one_int<T>(s, 8); one_int<T>(s, 16); }
template <class T> static void bounds() {
    for (int base : {8, 10, 16}) { vector<I> c; c.push_back(0); c.push_back(std::numeric_limits<T>::min()); c.push_back(std::numeric_limits<T>::max()); for (int b = 1; b < 90; b++) { c.push_back((I)1 << b); c.push_back(-((I)1 << b)); } I p = 1; for (int i = 0; i < 25; i++) { p *= 10; c.push_back(p); c.push_back(-p); }
        c.push_back((I)std::numeric_limits<T>::max() * 10); c.push_back((I)std::numeric_limits<T>::min() * 10); for (auto x : c) for (int d = -11; d <= 11; d++) { string t = itoa_base(x + d, base); one_int<T>(t, base); one_int<T>("0" + t, base); if (t[0] != '-') one_int<T>("+" + t, base); if (base == 16) { string u(t); for (auto &ch : u) ch = toupper(ch); one_int<T>(u, 16); one_int<T>(t[0] == '-' ? "-0x" + t.substr(1) : "0x" + t, 16); } one_int<T>(t + "0", base); one_int<T>(t + " ", base); one_int<T>(t + string(1, '\0'), base); one_int<T>(t + "x", base); step(); } } }
static void ints(int len) { all(string("0178-+ fFx.\0", 12), len, [](const string &s) { text_int<int8_t>(s); text_int<uint8_t>(s); text_int<int16_t>(s); text_int<uint16_t>(s); text_int<int32_t>(s); text_int<uint32_t>(s); text_int<int64_t>(s); text_int<uint64_t>(s); state(s); }); }
static void int_bounds() { switch (choose(8)) { case 0: bounds<int8_t>(); break; case 1: bounds<uint8_t>(); break; case 2: bounds<int16_t>(); break; case 3: bounds<uint16_t>(); break; case 4: bounds<int32_t>(); break; case 5: bounds<uint32_t>(); break; case 6: bounds<int64_t>(); break; default: bounds<uint64_t>(); }
    for (int b = -3; b < 40; b++) if (b != 8 && b != 10 && b != 16) MC_REQ(fails([&] { stringToInteger<int>("1", b); }), "unsupported base " << b); }
static string all256() { string a; for (int i = 0; i < 256; i++) a += (char)i; return a; }
static bool prn(unsigned char c) { return c >= 32 && c < 127; }
static void bytes_one(const string &s) {
    static const char *H = "0123456789abcdef"; string h; for (unsigned char c : s) { h += H[c >> 4]; h += H[c & 15]; } MC_EQ(hexstring(s), h, "hexstring"); MC_EQ(hexstring(s.data(), s.size()), h, "hexstring(pointer)"); MC_REQ(ishexstring(h), h); MC_REQ(hex2raw(h) == s, h); MC_REQ(hex2raw(h.data(), (uint32_t)h.size()) == s, h); MC_REQ(maybehex2raw(h) == s, h); string u(h); for (auto &c : u) c = toupper(c); MC_REQ(hex2raw(u) == s, u); MC_REQ(ishexstring(u), u); for (size_t i = 0; i < s.size(); i++) MC_EQ((int)unpackhex(h.data() + 2 * i), (int)(unsigned char)s[i], h);
    bool p = true, bl = true, sp = true; for (unsigned char c : s) { p &= prn(c); bl &= c == ' ' || c == '\t'; sp &= c == ' ' || (c >= 9 && c <= 13); }
    string want = p ? s : h; MC_REQ(maybehexstring(s) == want, show(s)); MC_REQ(maybehexstring(s.data(), s.size()) == want, show(s)); MC_EQ(stringIsBlank(s), bl, show(s)); MC_EQ(stringIsSpace(s), sp, show(s));
    string e = escapeUnprintable(s), d; for (size_t i = 0; i < e.size(); i++) { MC_REQ(prn(e[i]), "unprintable output for " << show(s)); if (e[i] != '%') d += e[i]; else if (i + 1 < e.size() && e[i + 1] == '%') { d += '%'; i++; } else { MC_REQ(i + 2 < e.size() && isxdigit(e[i + 1]) && isxdigit(e[i + 2]), show(e)); d += (char)strtol(e.substr(i + 1, 2).c_str(), 0, 16); i += 2; } } MC_REQ(d == s, show(s) << " escaped to " << show(e)); MC_EQ(htmlEscapeUnprintable(s), e, "deprecated name"); { string f; for (unsigned char c : s) { if (c == '%') f += "%%"; else if (prn(c)) f += c; else { f += '%'; f += H[c >> 4]; f += H[c & 15]; } } MC_EQ(e, f, "only unprintable bytes and percent are escaped"); }
    string q = mysqlEscape(s), m; for (size_t i = 0; i < q.size(); i++) { MC_REQ(q[i] != 0 && q[i] != '\'' && q[i] != '"' && q[i] != '\n' && q[i] != '\r' && q[i] != 26, "unescaped special byte for " << show(s)); if (q[i] != '\\') { m += q[i]; continue; } MC_REQ(++i < q.size(), show(q)); switch (q[i]) { case '0': m += '\0'; break; case 'n': m += '\n'; break; case 'r': m += '\r'; break; case 't': m += '\t'; break; case 'b': m += '\b'; break; case 'Z': m += 26; break; case '\'': case '"': case '\\': m += q[i]; break; default: fail("p09.cpp:mysql escape", show(s) + " escaped to " + show(q)); } } MC_REQ(m == s, show(s) << " escaped to " << show(q)); MC_REQ(mysqlEscape(s.data(), s.size()) == q, show(s));
    string lo, up; for (unsigned char c : s) { lo += (char)(c >= 'A' && c <= 'Z' ? c + 32 : c); up += (char)(c >= 'a' && c <= 'z' ? c - 32 : c); } MC_REQ(downcaseString(s) == lo, show(s)); MC_REQ(upcaseString(s) == up, show(s)); UCharStringAdaptor ua(s); MC_REQ(memcmp(ua.udata(), s.data(), s.size()) == 0, "udata"); }
static void bytes2() { static const string A = all256(); all(A, 2, [](const string &s) { bytes_one(s); state(s); }); }
static void bytesn(int len) { all(string("\0a%\\'\x1a\xff \nZ4", 11), len, [](const string &s) { bytes_one(s); state(s); }); }
static void hexin(int len) { all(string("0aFg/:@G`\0", 10), len, [](const string &s) { bool x = s.size() % 2 == 0; for (char c : s) x = x && isxdigit((unsigned char)c); MC_EQ(ishexstring(s), x, show(s)); MC_EQ(fails([&] { hex2raw(s); }), !x, show(s)); if (!x) MC_REQ(maybehex2raw(s) == s, show(s)); }); for (int c = 0; c < 256; c++) { char b[2] = {(char)c, '0'}, d[2] = {'0', (char)c}; bool x = strchr("0123456789abcdefABCDEF", c) && c; MC_EQ(fails([&] { unpackhex(b); }), !x, "byte " << c); MC_EQ(fails([&] { unpackhex(d); }), !x, "byte " << c); } }
static void ipv4() {
    static const int o[] = {0, 1, 7, 8, 9, 10, 63, 64, 99, 100, 127, 128, 199, 200, 249, 250, 254, 255}; int a = o[choose(18)], b = o[choose(18)]; auto chk = [&](int c, int d) { char t[32]; snprintf(t, 32, "%d.%d.%d.%d", a, b, c, d); uint32_t v = ((uint32_t)a << 24) | (b << 16) | (c << 8) | d; MC_EQ(ipv4tostring(v), string(t), "address text"); uint32_t r = 0; bool f = fails([&] { r = stringtoipv4(t); }); MC_REQ(!f && r == v, t << (f ? " refused" : " wrong value") << " " << r); step(); };
    if (thorough()) for (int c = 0; c < 256; c++) for (int d = 0; d < 256; d++) chk(c, d); else for (int c : o) for (int d = 0; d < 256; d++) chk(c, d);
    for (const char *t : {"", "a", "1.2.3.256", "1.2.3.4.5", "256.1.1.1", "1.2.3.", "-1.2.3.4", "1..2.3"}) MC_REQ(fails([&] { stringtoipv4(t); }), t << " accepted"); }
static void csv(int len) { all("a,\" \n\r;", len, [](const string &s) { string e = toCSVform(s), line = e + "," + e + ",z"; vector<string> f; string cur; bool q = false; size_t i = 0; bool start = true, bad = false;
    for (; i < line.size(); i++) { char c = line[i]; if (q) { if (c == '"') { if (i + 1 < line.size() && line[i + 1] == '"') { cur += '"'; i++; } else { q = false; bad |= i + 1 < line.size() && line[i + 1] != ','; } } else cur += c; } else if (c == '"' && start) { q = true; start = false; } else if (c == ',') { f.push_back(cur); cur.clear(); start = true; } else { bad |= c == '\n' || c == '\r'; cur += c; start = false; } }
    f.push_back(cur); MC_REQ(!bad && !q && f.size() == 3 && f[0] == s && f[1] == s && f[2] == "z", show(s) << " written as " << show(e)); if (s.find_first_of(",\"\n\r") == string::npos) MC_EQ(e, s, "plain text is unchanged"); state(s); }); }
static void splitting(int len) { all("abc", len, [](const string &s) { for (string sep : {"a", "b", "ab", "aa", "aba", "abc", "cc"}) { vector<string> v = split(s, sep); MC_REQ(join(sep, v) == s, show(s) << " split by " << sep << " and joined"); vector<string> w; size_t p = 0, n; while ((n = s.find(sep, p)) != string::npos) { w.push_back(s.substr(p, n - p)); p = n + sep.size(); } w.push_back(s.substr(p)); MC_REQ(v == w, show(s) << " split by " << sep << " gives " << v.size() << " fields"); vector<string> x(1, "keep"); split(s, sep, x); MC_REQ(x.size() == v.size() + 1 && x[0] == "keep", "appends"); } state(s); }); MC_REQ(fails([] { split("a", ""); }), "empty separator"); }
static void joining() { vector<string> F = {"", "a", "b", "ab", string("\0", 1), "\xff", "a b"}, v; int n = choose(5); for (int i = 0; i < n; i++) v.push_back(pick(F)); for (string sep : {string(","), string("\0,", 2), string("::")}) { string j = join(sep, v), w; for (size_t i = 0; i < v.size(); i++) w += (i ? sep : string()) + v[i]; MC_REQ(j == w, show(j)); if (n) MC_REQ(split(j, sep) == v, show(j)); } state(n); }
static void affix(int len) { static const string A("ab\0", 3); vector<string> v(1, ""), cur(1, ""); for (int l = 0; l < len; l++) { vector<string> nx; for (auto &s : cur) for (char c : A) nx.push_back(s + c); v.insert(v.end(), nx.begin(), nx.end()); cur = nx; } int part = choose(16); for (size_t i = part; i < v.size(); i += 16) for (auto &p : v) { bool a = p.size() <= v[i].size(), b = a; for (size_t k = 0; a && k < p.size(); k++) a = p[k] == v[i][k]; for (size_t k = 0; b && k < p.size(); k++) b = p[k] == v[i][v[i].size() - p.size() + k]; MC_EQ(prefixequal(v[i], p), a, show(v[i]) << " prefix " << show(p)); MC_EQ(suffixequal(v[i], p), b, show(v[i]) << " suffix " << show(p)); step(); } }
static void dbl_one(const string &s) { char *e; errno = 0; double w = strtod(s.c_str(), &e); bool ok = !s.empty() && e == s.c_str() + s.size(); double r = 0; bool f = fails([&] { r = stringToDouble(s); }); if (!ok) MC_REQ(f, show(s) << " accepted as a number"); else { if (f && (s.find_first_of(" xX") != string::npos || w == HUGE_VAL || w == -HUGE_VAL)) return; MC_REQ(!f, show(s) << " refused"); MC_REQ(memcmp(&r, &w, 8) == 0 || (w != w && r != r), show(s) << " gives " << r); } }
static void doubles(int len) { all(string("015.e-+x \0", 10), len, [](const string &s) { dbl_one(s); state(s); }); }
static void dbl_bounds() { int e = choose(2047); for (uint64_t m : {0ull, 1ull, 0xfffffffffffffull, 0x8000000000000ull, 0x5555555555555ull}) for (int sg = 0; sg < 2; sg++) { uint64_t b = ((uint64_t)sg << 63) | ((uint64_t)e << 52) | m; double d; memcpy(&d, &b, 8); char t[64]; for (const char *f : {"%.17g", "%.20e", "%.400f"}) { char big[900]; snprintf(big, 900, f, d); double r = stringToDouble(big); if (strcmp(f, "%.400f") || fabs(d) > 1e-300) { if (strcmp(f, "%.400f") == 0 && fabs(d) < 1e-290) continue; dbl_one(big); if (strcmp(f, "%.400f") || fabs(d) > 1e-250) MC_REQ(r == d, big << " reads back as " << r); } dbl_one(string(big) + "x"); dbl_one(string(big) + string("\0" "1", 2)); } (void)t; step(); } }
static void xmlattr(int len) { all("a&<\"'> ;\xe9", len, [](const string &s0) {
    string s; for (char c : s0) { if ((unsigned char)c == 0xe9) s += "\xc3\xa9"; else s += c; } xmlDocPtr doc = xmlNewDoc((const xmlChar *)"1.0"); xmlNodePtr n = xmlNewNode(0, (const xmlChar *)"n"); xmlDocSetRootElement(doc, n); xmlNewProp(n, (const xmlChar *)"other", (const xmlChar *)"o"); xmlNewProp(n, (const xmlChar *)"v", (const xmlChar *)s.c_str()); MC_REQ(lintel::strGetXMLAttr(n, "v") == s, show(s) << " read as " << show(lintel::strGetXMLAttr(n, "v"))); MC_EQ(lintel::strGetXMLAttr(n, "other"), string("o"), ""); MC_EQ(lintel::strGetXMLAttr(n, "missing"), string(""), "");
    xmlChar *mem; int sz; xmlDocDumpMemory(doc, &mem, &sz); xmlFreeDoc(doc); xmlDocPtr d2 = xmlReadMemory((char *)mem, sz, "x", 0, XML_PARSE_NOERROR | XML_PARSE_NOWARNING); xmlFree(mem); MC_REQ(d2, "document for " << show(s)); MC_REQ(lintel::strGetXMLAttr(xmlDocGetRootElement(d2), "v") == s, show(s) << " after writing and parsing"); xmlFreeDoc(d2); }); }
static void wide() { int a = 1 + choose(127); for (int b = 0; b < 128; b++) { string s; s += (char)a; s += (char)b; std::wstring w = string2wstring(s); MC_REQ(w.size() == 2 && w[0] == (wchar_t)a && w[1] == (wchar_t)b, show(s)); MC_REQ(wstring2string(w) == s, show(s)); w += (wchar_t)0x4e2d; MC_REQ(wstring2string(w, '?') == s + "?", show(s)); step(); } }
static void errs() { int e = choose(135); char b[256]; MC_EQ(stringError(e), string(strerror_r(e, b, 256)), "errno " << e); }
// long texts: lengths around powers of two, plain and special bytes at the ends, middle and everywhere
static void longs() {
    static const vector<int> L = {15, 16, 17, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 200000}; int n = pick(L), kind = choose(6); string s; static const char *sp = "%'\\\"\n,\xff \x1a"; note("text of %d bytes, kind %d", n, kind);
    for (int i = 0; i < n; i++) s += kind == 0 ? (char)('a' + i % 26) : kind == 1 ? (char)i : kind == 2 ? '\'' : kind == 3 ? sp[(i == 0 || i == n - 1 || i == n / 2) ? i % 9 : 0] : kind == 4 ? (i == n - 1 ? '\0' : 'Q') : ' ';
    bytes_one(s); string e = toCSVform(s); { bool need = s.find_first_of(",\"\n\r") != string::npos; if (!need && e[0] != '"') MC_REQ(e == s, "plain CSV field of " << n); else { MC_REQ(e.size() >= 2 && e[0] == '"' && e[e.size() - 1] == '"', "quoted CSV field of " << n); string d; for (size_t i = 1; i + 1 < e.size(); i++) { d += e[i]; if (e[i] == '"') { i++; MC_REQ(i + 1 < e.size() && e[i] == '"', "quote inside CSV field of " << n); } } MC_REQ(d == s, "CSV field of " << n); } }
    for (string sepr : {string("a"), string("ab"), string("'"), string("\xff"), s.substr(0, n / 2 + 1), s}) { vector<string> v = split(s, sepr), w; size_t p = 0, q; while ((q = s.find(sepr, p)) != string::npos) { w.push_back(s.substr(p, q - p)); p = q + sepr.size(); } w.push_back(s.substr(p)); MC_REQ(v == w, "split of " << n << " bytes gives " << v.size() << " fields"); MC_REQ(join(sepr, v) == s, "split and joined text of " << n); }
    for (int k : {0, 1, n / 2, n - 1, n}) { MC_REQ(prefixequal(s, s.substr(0, k)), "prefix of " << k); MC_REQ(suffixequal(s, s.substr(n - k)), "suffix of " << k); if (k) { string t = s.substr(0, k); t[k - 1] ^= 1; MC_REQ(!prefixequal(s, t), "wrong prefix of " << k); t = s.substr(n - k); t[0] ^= 1; MC_REQ(!suffixequal(s, t), "wrong suffix of " << k); } } MC_REQ(!prefixequal(s, s + "x") && !suffixequal(s, "x" + s), "longer affix");
    string h = hexstring(s); for (int k : {0, n, 2 * n - 1}) { string b(h); b[k] = 'g'; MC_REQ(!ishexstring(b) && fails([&] { hex2raw(b); }), "bad digit at " << k << " of " << 2 * n); } MC_REQ(!ishexstring(h + "0") && fails([&] { hex2raw(h + "0"); }), "odd hex text");
    for (bool neg : {false, true}) { string z(n, '0'); string t = (neg ? "-" : "") + z + "7"; one_int<int32_t>(t, 10); one_int<int64_t>(t, 8); one_int<int64_t>(t, 16); one_int<uint16_t>(z + "65536", 10); one_int<int64_t>("1" + z, 10); one_int<int64_t>("1" + z, 16); dbl_one(t); dbl_one("0." + z + "1"); dbl_one(z + "1x"); }
    if (kind != 1 && kind != 3 && kind != 4) { std::wstring w = string2wstring(s); MC_EQ(w.size(), s.size(), "wide length"); bool same = true; for (int i = 0; i < n; i++) same = same && w[i] == (wchar_t)s[i]; MC_REQ(same, "wide text of " << n); MC_REQ(wstring2string(w) == s, "wide text back of " << n); }
    if (kind == 0 || kind == 2 || kind == 5) { xmlDocPtr doc = xmlNewDoc((const xmlChar *)"1.0"); xmlNodePtr nd = xmlNewNode(0, (const xmlChar *)"n"); xmlDocSetRootElement(doc, nd); xmlNewProp(nd, (const xmlChar *)"v", (const xmlChar *)s.c_str()); MC_REQ(lintel::strGetXMLAttr(nd, "v") == s, "attribute of " << n); xmlFreeDoc(doc); }
    state(n * 6 + kind); }
vector<Config> configs() {
#ifdef __SANITIZE_ADDRESS__
    const int A = 1;   // memory-checked build: one letter shorter
#else
    const int A = 0;
#endif
    bool T = thorough(); vector<Config> v; auto add = [&](const char *n, std::function<void()> b, const char *r) { v.push_back({n, b, r}); };
    add("ints", [T, A] { ints((T ? 6 : 4) - A); }, "all texts to the length over digits, signs, blank, letters, point and NUL, for eight integer types and three bases, against exact parsing"); if (!A) add("int_bounds", int_bounds, "texts around every type limit, power of two and ten, with prefixes and trailing bytes");
    add("bytes2", bytes2, "all byte strings up to length two: hex, escapes, case, classification"); add("bytes_n", [T, A] { bytesn((T ? 6 : 4) - A); }, "all strings to the length over eleven special bytes"); add("hex_input", [T, A] { hexin((T ? 6 : 5) - A); }, "all candidate hex texts"); if (!A) add("ipv4", ipv4, "addresses over boundary octets, and refused texts"); add("csv", [T, A] { csv((T ? 8 : 6) - A); }, "all fields to the length against a CSV reader");
    add("split", [T, A] { splitting((T ? 12 : 9) - A); }, "all texts to the length over three letters, seven separators"); add("join", joining, "all field lists up to four fields"); add("affix", [T] { affix(T ? 6 : 5); }, "all pairs of strings to the length over {a,b,NUL}"); add("doubles", [T, A] { doubles((T ? 7 : 5) - A); }, "all texts to the length against strtod on the whole text"); if (!A) add("double_bounds", dbl_bounds, "every exponent of double with five mantissas, printed and read back"); add("xml", [T, A] { xmlattr((T ? 6 : 5) - A); }, "all attribute values to the length over markup characters"); add("long", longs, "texts with lengths around powers of two to 200000 bytes, six fillings, through every conversion"); add("wide", wide, "all pairs of ASCII characters"); add("errno", errs, "every errno");
    return v;
}
LH_MAIN
