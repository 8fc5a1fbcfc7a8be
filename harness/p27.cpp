#include "lh.hpp"
#include <Lintel/HashFns.hpp>
#include <memory>
using namespace mc; using std::string; using std::vector; using namespace lintel;
// Bob Jenkins, evahash (1996), written from the publication: 12-byte blocks, little-endian words
struct Eva { uint32_t a, b, c; void mix() { static const int s[9] = {-13, 8, -13, -12, 16, -5, -3, 10, -15}; uint32_t *v[3] = {&a, &b, &c}; for (int i = 0; i < 9; i++) { uint32_t &x = *v[i % 3]; uint32_t p = *v[(i + 1) % 3], q = *v[(i + 2) % 3]; x = x - p - q; x ^= s[i] < 0 ? q >> -s[i] : q << s[i]; } } };
static uint32_t ref(const unsigned char *k, size_t n, uint32_t init) { Eva e{0x9e3779b9u, 0x9e3779b9u, init}; size_t i = 0; auto word = [&](size_t at, size_t end) { uint32_t w = 0; for (int j = 0; j < 4; j++) if (at + j < end) w |= (uint32_t)k[at + j] << 8 * j; return w; }; for (; n - i >= 12; i += 12) { e.a += word(i, n); e.b += word(i + 4, n); e.c += word(i + 8, n); e.mix(); } e.c += (uint32_t)n; e.a += word(i, n); e.b += word(i + 4, n); uint32_t w = 0; for (int j = 0; j < 3; j++) if (i + 8 + j < n) w |= (uint32_t)k[i + 8 + j] << 8 * (j + 1); e.c += w; e.mix(); return e.c; }
static string hex(const string &s) { string o; char b[4]; for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); o += b; } return o; }
static const uint32_t INIT[] = {1972, 0, 1, 0x80000000u, 0xffffffffu, 0x12345678u};
static void one(const string &s, uint32_t init, size_t align) { uint32_t w = ref((const unsigned char *)s.data(), s.size(), init); std::unique_ptr<char[]> m(new char[s.size() + align]); memcpy(m.get() + align, s.data(), s.size()); MC_EQ(bobJenkinsHash(init, m.get() + align, s.size()), w, "hash of " << hex(s.substr(0, 64)) << " after " << init << ", alignment " << align); MC_EQ(hashBytes(m.get() + align, s.size(), init), w, "hash of bytes " << hex(s.substr(0, 64))); step();
    if (init == 1972) { MC_EQ(hashBytes(m.get() + align, s.size()), w, hex(s.substr(0, 64))); MC_EQ(lintel::hash(s), w, "hash of string " << hex(s.substr(0, 64))); MC_EQ(hashType(s), w, hex(s.substr(0, 64))); if (s.find('\0') == string::npos) { MC_EQ(hashType(s.c_str()), w, "hash of C string " << hex(s.substr(0, 64))); MC_EQ(lintel::hash((const char *)s.c_str()), w, hex(s.substr(0, 64))); } } state(w); }
static void bytes2() { int n = choose(3); string s; for (int i = 0; i < n; i++) s += (char)choose(256); for (uint32_t in : INIT) one(s, in, 0); }
static void lengths(int maxlen) { int len = choose(maxlen + 1), pat = choose(4), at = len ? choose(len) : 0, al = choose(5); string s; for (int i = 0; i < len; i++) s += pat == 0 ? '\0' : pat == 1 ? (char)0xff : pat == 2 ? (char)(i * 37 + 1) : (char)(i * 151); static const unsigned char X[] = {1, 0x80, 0x7f, 0xff, 0}; if (len) s[at] ^= X[choose(5)]; for (uint32_t in : INIT) one(s, in, al); }
static void shortall(int n, int alpha) { int len = choose(n + 1); string s; static const char A[] = {0, 'a', (char)0xff, (char)0x80}; for (int i = 0; i < len; i++) s += A[choose(alpha)]; one(s, 1972, 0); one(s, INIT[3], 1); }
static void biglen() { static const size_t B[] = {127, 255, 256, 511, 1000, 1023, 4095, 32767, 65535, 65536, 131071, 1u << 20, (1u << 24) - 1, 1u << 24}; size_t n = B[choose(thorough() ? 14 : 12)] + choose(30); bool nul = choose(2); uint32_t in = INIT[choose(3)]; size_t al = choose(2); note("%zu bytes, %s", n, nul ? "with zeros" : "no zeros"); string s(n, 'x'); for (size_t i = 0; i < n; i++) { s[i] = (char)(i * i + 3 * i + (i >> 8)); if (!nul && !s[i]) s[i] = 'y'; } one(s, in, al); }
static uint32_t mix3(uint32_t a, uint32_t b, uint32_t c) { Eva e{a, b, c}; e.mix(); return e.c; }
static void words() { static const uint32_t W[] = {0, 1, 0x80000000u, 0xffffffffu, 0x9e3779b9u, 1972, 0x7fffffff, 255, 0x00010000}; uint32_t a = W[choose(9)], b = W[choose(9)], c = W[choose(9)]; MC_EQ(BobJenkinsHashMix3(a, b, c), mix3(a, b, c), "mix of " << a << " " << b << " " << c); uint64_t v = ((uint64_t)b << 32) | a; MC_EQ(BobJenkinsHashMixULL(v, c), mix3(a, b, c), v); MC_EQ(BobJenkinsHashMixULL(v), mix3(a, b, 1972), v); MC_EQ(lintel::hash((uint64_t)v), mix3(a, b, 1972), v); MC_EQ(lintel::hash((int64_t)v), mix3(a, b, 1972), v); MC_EQ(lintel::hash((uint32_t)a), a, ""); MC_EQ(lintel::hash((int32_t)a), a, ""); MC_EQ(lintel::hash((uint16_t)a), a & 0xffff, ""); MC_EQ(lintel::hash((int16_t)a), a & 0xffff, ""); MC_EQ(lintel::hash((uint8_t)a), a & 0xff, ""); MC_EQ(lintel::hash((signed char)a), a & 0xff, ""); MC_EQ(lintel::hash((char)a), a & 0xff, ""); MC_EQ(lintel::hash((long long)v), mix3(a, b, 1972), ""); MC_EQ(lintel::hash((unsigned long)v), mix3(a, b, 1972), ""); MC_EQ(lintel::hash((bool)(a & 1)), a & 1, ""); PointerHash<int> ph; MC_EQ(ph((int *)v), mix3(a, b, 1972), "pointer"); PointerEqual<int> pe; MC_EQ(pe((int *)v, (int *)(uint64_t)c), v == c, "pointers"); state(v * 31 + c); }
struct Member { uint32_t v; uint32_t hash() const { return v ^ 0x55; } }; namespace other { struct Free { uint32_t v; }; inline uint32_t hashType(const Free &f) { return f.v + 7; } }
static void custom() { uint32_t v = choose(300) * 0x01234567u; MC_EQ(lintel::hash(Member{v}), v ^ 0x55, "own member"); MC_EQ(lintel::hash(other::Free{v}), v + 7, "own function"); boost::shared_ptr<int> a(new int(1)), b(new int(1)), c(a); SharedPointerHash<int> sh; SharedPointerEqual<int> se; uint64_t p = (uint64_t)a.get(); MC_EQ(sh(a), mix3((uint32_t)p, (uint32_t)(p >> 32), 1972), "shared pointer"); MC_REQ(sh(a) == sh(c) && se(a, c) && !se(a, b), "shared pointers"); uint32_t w = choose(7) * 0x11111111u; std::pair<other::Free, other::Free> pr(other::Free{v}, other::Free{w}), pq(pr); uint32_t f = v + 7; unsigned char fb[4] = {(unsigned char)f, (unsigned char)(f >> 8), (unsigned char)(f >> 16), (unsigned char)(f >> 24)}; MC_EQ(lintel::hash(pr), ref(fb, 4, w + 7), "pair"); MC_EQ(lintel::hash(pr), lintel::hash(pq), "equal pairs"); state(v); }
vector<Config> configs() { bool T = thorough(); vector<Config> v; auto add = [&](string n, std::function<void()> b, const char *r) { v.push_back({n, b, r}); }; add("two_bytes", bytes2, "all strings of up to two bytes, six previous values"); add("lengths", [T] { lengths(T ? 80 : 50); }, "every length, four patterns, every position altered five ways, five alignments, six previous values"); add("short", [T] { shortall(T ? 10 : 8, T ? 4 : 3); }, "all strings over a small alphabet"); add("long", biglen, "thirty lengths each from around every power of two up to 2^20 (2^24), with and without zero bytes"); add("words", words, "all triples of nine words, every integer type"); add("custom", custom, "own hash functions, pairs, shared pointers"); return v; }
LH_MAIN
