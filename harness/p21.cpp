#include "lh.hpp"
#include <Lintel/MersenneTwisterRandom.hpp>
#include <Lintel/MarsagliaRandom.hpp>
#include <cmath>
#include <map>
#include <memory>
#include <new>
#include <random>
using namespace mc; using std::string; using std::vector; using namespace lintel;
// ---- reference generators, independent of the code under test
struct RefMT { uint32_t s[624]; int i; void seed(uint32_t x) { std::mt19937 e(x); s[0] = x; for (i = 1; i < 624; i++) s[i] = 1812433253u * (s[i - 1] ^ (s[i - 1] >> 30)) + i; } void seed(const vector<uint32_t> &k) { seed(19650218u); int a = 1; size_t j = 0, n = std::max<size_t>(624, k.size()); for (; n; n--) { s[a] = (s[a] ^ ((s[a - 1] ^ (s[a - 1] >> 30)) * 1664525u)) + k[j] + (uint32_t)j; if (++a == 624) { s[0] = s[623]; a = 1; } if (++j == k.size()) j = 0; } for (n = 623; n; n--) { s[a] = (s[a] ^ ((s[a - 1] ^ (s[a - 1] >> 30)) * 1566083941u)) - a; if (++a == 624) { s[0] = s[623]; a = 1; } } s[0] = 0x80000000u; i = 624; }
    uint32_t next() { if (i == 624) { for (int k = 0; k < 624; k++) { uint32_t y = (s[k] & 0x80000000u) | (s[(k + 1) % 624] & 0x7fffffffu); s[k] = s[(k + 397) % 624] ^ (y >> 1) ^ (y & 1 ? 0x9908b0dfu : 0); } i = 0; } uint32_t y = s[i++]; y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; return y ^ (y >> 18); } };
static uint32_t mix3(uint32_t a, uint32_t b, uint32_t c) { static const int s[9] = {-13, 8, -13, -12, 16, -5, -3, 10, -15}; uint32_t v[3] = {a, b, c}; for (int i = 0; i < 9; i++) { uint32_t &x = v[i % 3], p = v[(i + 1) % 3], q = v[(i + 2) % 3]; x = x - p - q; x ^= s[i] < 0 ? q >> -s[i] : q << s[i]; } return v[2]; }
struct RefMicro { uint32_t v[4]; RefMicro(uint32_t seed) { static const uint32_t pi[8] = {0x243F6A88, 0x85A308D3, 0x13198A2E, 0x03707344, 0xA4093822, 0x299F31D0, 0x082EFA98, 0xEC4E6C89}; for (int i = 0; i < 4; i++) v[i] = mix3(pi[2 * i], pi[2 * i + 1], seed); } uint32_t next() { uint32_t t = v[0] ^ (v[0] << 15); v[0] = v[1]; v[1] = v[2]; v[2] = v[3]; return v[3] = (t ^ (t >> 4)) ^ (v[3] ^ (v[3] >> 21)); } };
struct RefMwc { vector<uint32_t> q; uint32_t c, i; uint64_t a; RefMwc(uint32_t seed, uint32_t n, uint64_t a_) : q(n), i(n - 1), a(a_) { RefMicro m(seed); for (auto &x : q) x = m.next(); for (;;) { uint32_t w = m.next(); if (w < 0xffffffffu / a * a) { c = w % a; break; } } } uint32_t next() { i = (i + 1) % q.size(); uint64_t t = a * q[i] + c; c = t >> 32; uint32_t x = (uint32_t)t + c; if (x < c) { x++; c++; } return q[i] = 0xfffffffeu - x; } };
static const uint32_t SEEDS[] = {1, 2, 5489, 0x7fffffffu, 0x80000000u, 0xffffffffu, 19650218, 42, 0x12345678, 3, 624, 0xdeadbeef};
static void twister(int n) { uint32_t s = SEEDS[choose(12)]; int how = choose(4); RefMT r; std::unique_ptr<MersenneTwisterRandom> g; if (how == 0) { g.reset(new MersenneTwisterRandom(s)); } else { g.reset(new MersenneTwisterRandom(SEEDS[(how * 5) % 12])); int used = how == 1 ? 0 : how == 2 ? 3 : 700; while (used--) g->randInt(); g->init(s); } r.seed(s); std::mt19937 e(s); MC_EQ(g->seedUsed(), s, "seed used"); for (int i = 0; i < n; i++) { uint32_t a = g->randInt(), b = r.next(), c = e(); MC_REQ(b == c, "reference"); MC_EQ(a, b, "draw " << i << " from seed " << s); step(); } MersenneTwisterRandom h(*g); for (int i = 0; i < 700; i++) MC_EQ(h.randInt(), g->randInt(), "copy"); state(s + how); }
static void array(int n) { static const int L[] = {1, 2, 3, 4, 7, 100, 622, 623, 624, 625, 626, 1247, 1248, 1300}; int len = L[choose(14)], pat = choose(3), how = choose(3); vector<uint32_t> k; for (int i = 0; i < len; i++) k.push_back(pat == 0 ? 0 : pat == 1 ? 0x123 + i * 0x111 : 0xffffffffu - i * 2654435761u); std::unique_ptr<MersenneTwisterRandom> g; if (how == 0) g.reset(new MersenneTwisterRandom(k)); else { g.reset(new MersenneTwisterRandom(7)); if (how == 2) for (int i = 0; i < 1000; i++) g->randInt(); g->initArray(k); } RefMT r; r.seed(k); for (int i = 0; i < n; i++) { MC_EQ(g->randInt(), r.next(), "draw " << i << " from an array of " << len); step(); } state(len * 10 + pat); }
static void arraybad() { bool f = false; try { MersenneTwisterRandom g((vector<uint32_t>())); } catch (AssertBoostException &) { f = true; } MC_REQ(f, "empty seed array accepted"); MersenneTwisterInternal::selfTest(); vector<uint32_t> k{0x123, 0x234, 0x345, 0x456}; MersenneTwisterRandom g(k); MC_EQ(g.randInt(), 1067595299u, "published first output"); }
template <class G> void same(uint32_t seed, int n, std::function<uint32_t()> ref) { static char m1[sizeof(G) + 64], m2[sizeof(G) + 64]; memset(m1, 0, sizeof m1); memset(m2, 0xa5, sizeof m2); void *p1 = (void *)(((uintptr_t)m1 + 31) & ~(uintptr_t)31), *p2 = (void *)(((uintptr_t)m2 + 31) & ~(uintptr_t)31); G *a = new (p1) G(seed), *b = new (p2) G(seed); for (int i = 0; i < n; i++) { uint32_t w = ref(); MC_EQ(a->randInt(), w, "draw " << i << " from seed " << seed << " in zeroed memory"); MC_EQ(b->randInt(), w, "draw " << i << " from seed " << seed << " in used memory"); step(); } b->init(seed); G c(seed); for (int i = 0; i < 200; i++) MC_EQ(b->randInt(), c.randInt(), "draw " << i << " after seeding again"); b->~G(); a->~G(); }
template <uint32_t N, uint64_t A> void mwc() { typedef RandomTempl<Marsaglia<N> > G; uint32_t s = choose(13) == 12 ? 0 : SEEDS[choose(12)]; RefMwc r(s, N, A); same<G>(s, 3 * N + 50, [&] { return r.next(); }); state(s + N); }
static void micro() { int c = choose(13); uint32_t s = c == 12 ? 0 : SEEDS[c]; RefMicro r(s); same<MarsagliaRNGMicro>(s, 1000, [&] { return r.next(); }); state(s); }
// ---- draws from chosen underlying words
struct Fed { static vector<uint32_t> words; static size_t at; Fed(uint32_t = 0) {} Fed(vector<uint32_t>) {} void init(uint32_t) {} void initArray(vector<uint32_t>) {} uint32_t randInt() { if (at >= words.size()) { at++; return 0; } return words[at++]; } }; vector<uint32_t> Fed::words; size_t Fed::at;
typedef RandomTempl<Fed> Dr;
static const uint32_t W[] = {0, 1, 31, 32, 63, 64, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu, 0x12345678, 0xffffffdf, 0xffffffc0, 2, 0xfffff800};
static void draws() { uint32_t a = W[choose(16)], b = W[choose(16)]; Dr g(1); auto feed = [&] { Fed::words = {a, b, 5, 6}; Fed::at = 0; }; feed(); MC_EQ(g.randLongLong(), ((uint64_t)a << 32) | b, "64-bit draw"); feed(); MC_EQ(g.randInt(), a, ""); feed(); MC_EQ(g.randBool(), (bool)(a & 1), ""); auto in = [&](double v, bool closed, double want, const char *w) { MC_REQ(v >= 0 && (closed ? v <= 1 : v < 1), w << " is " << v << " for words " << a << " " << b); MC_REQ(std::fabs(v - want) <= 1e-15, w << " is " << v << " instead of " << want << " for words " << a << " " << b); }; double d32 = a / 4294967296.0, c32 = a / 4294967295.0, m = (double)(((uint64_t)(a >> 5) << 26) | (b >> 6)); feed(); in(g.randDouble(), false, d32, "draw"); feed(); in(g.randDoubleOpen(), false, d32, "open draw"); feed(); double v = g.randDoubleClosed(); in(v, true, c32, "closed draw"); MC_REQ((a == 0xffffffffu) == (v == 1), "closed draw reaches 1"); feed(); in(g.randDoubleOpen53(), false, m / 9007199254740992.0, "53-bit open draw"); MC_EQ(Fed::at, (size_t)2, "words used"); feed(); v = g.randDoubleClosed53(); in(v, true, m / 9007199254740991.0, "53-bit closed draw"); MC_REQ((m == 9007199254740991.0) == (v == 1), "closed draw reaches 1"); state(((uint64_t)a << 32) | b); }
static void extremes() { int sh = choose(32), d = choose(5) - 2, k = choose(2); uint32_t a = (k ? (1u << sh) : ~(1u << sh)) + d; Dr g(1); for (uint32_t b : W) { auto feed = [&] { Fed::words = {a, b}; Fed::at = 0; }; feed(); double x = g.randDoubleOpen(); feed(); double y = g.randDoubleOpen53(); feed(); double z = g.randDoubleClosed(); feed(); double w = g.randDoubleClosed53(); MC_REQ(x >= 0 && x < 1 && y >= 0 && y < 1 && z >= 0 && z <= 1 && w >= 0 && w <= 1, "draws for words " << a << " " << b); MC_EQ(x, a / 4294967296.0, "open draw of " << a); step(); } state(a); }
static void bools() { uint32_t a = W[choose(16)], b = W[choose(16)], c = W[choose(16)]; Dr g(1); Fed::words = {a, b, c, c ^ 0x5555}; Fed::at = 0; vector<int> got; for (int i = 0; i < 128; i++) got.push_back(g.randBoolFast()); MC_EQ(Fed::at, (size_t)4, "words used for 128 booleans"); uint64_t first = ((uint64_t)a << 32) | b, second = ((uint64_t)c << 32) | (c ^ 0x5555); int n1 = 0, n2 = 0; for (int i = 0; i < 64; i++) { n1 += got[i]; n2 += got[64 + i]; } MC_EQ(n1, __builtin_popcountll(first), "true among the first 64"); MC_EQ(n2, __builtin_popcountll(second), "true among the second 64"); Dr h(1); Fed::at = 0; for (int i = 0; i < 128; i++) MC_EQ((int)h.randBoolFast(), got[i], "boolean " << i << " of the same words"); int k = 1 + choose(63); Dr e(1); Fed::at = 0; for (int i = 0; i < k; i++) e.randBoolFast(); if (choose(2)) e.init(1); else e.initArray(vector<uint32_t>(1, 1)); Fed::at = 0; for (int i = 0; i < 64; i++) MC_EQ((int)e.randBoolFast(), got[i], "boolean " << i << " after seeding again"); state(first ^ second); }
struct One { static uint32_t w; static int at; One(uint32_t = 0) {} One(vector<uint32_t>) {} void init(uint32_t) {} void initArray(vector<uint32_t>) {} uint32_t randInt() { return at++ ? 0 : w; } }; uint32_t One::w; int One::at;
static RandomTempl<One> ONE(1);
static inline uint32_t draw(bool unb, uint32_t n, uint32_t w, bool &again) { One::w = w; One::at = 0; uint32_t r = unb ? ONE.randIntUnbiased(n) : ONE.randInt(n); again = One::at > 1; return r; }
static void below() { static const uint32_t N[] = {1, 2, 3, 5, 6, 7, 10, 16, 100, 255, 256, 1000, 65535, 65536, 65537, 1000000007u, 0x3fffffff, 0x40000000, 0x55555555, 0x55555556, 0x7fffffff, 0x80000000u, 0x80000001u, 0xaaaaaaaau, 0xc0000000u, 0xfffffffeu, 0xffffffffu}; uint32_t n = N[choose(27)], top = (uint32_t)(0x100000000ull / n * n - 1); int k = choose(6); uint64_t base = k == 0 ? 0 : k == 1 ? n : k == 2 ? 0x80000000ull : k == 3 ? 0x80000000ull / n * n : k == 4 ? top : 0xffffffffull; if (k == 5) base = 0xffffffffull - 200; for (int d = -200; d <= 200; d++) { uint64_t w64 = base + d; if (w64 > 0xffffffffull) continue; uint32_t w = (uint32_t)w64; bool again; MC_EQ(draw(false, n, w, again), w % n, "draw below " << n << " from word " << w); MC_REQ(!again, "second word used"); uint32_t r = draw(true, n, w, again); MC_REQ(r < n, "draw below " << n << " is " << r << " from word " << w); uint64_t g = w / n; bool whole = (g + 1) * n <= 0x100000000ull; if (!again) { MC_EQ(r, w % n, "unbiased draw below " << n << " from word " << w); MC_REQ(whole, "word " << w << " accepted, so low results below " << n << " are more likely"); } else { MC_REQ(g > 0, "word " << w << " refused for " << n); bool a2; draw(true, n, (uint32_t)(g * n), a2); MC_REQ(a2, "words " << g * n << " and " << w << " are treated differently for " << n); if (whole) { draw(true, n, (uint32_t)((g + 1) * n - 1), a2); MC_REQ(a2, "words " << (g + 1) * n - 1 << " and " << w << " are treated differently for " << n); } MC_REQ(g >= 0x100000000ull / n - 1, "word " << w << " refused for " << n); } step(); } state((uint64_t)n * 8 + k); }
static void wholerange() { static const uint32_t N[] = {3, 7, 10, 1000, 65537, 6, 255, 4096}; uint32_t n = N[choose(thorough() ? 8 : 1)]; int part = choose(64); uint64_t lo = (uint64_t)part << 26, hi = lo + (1ull << 26); static vector<uint32_t> cnt; cnt.assign(n, 0); uint64_t rej = 0, first = 0; for (uint64_t w = lo; w < hi; w++) { bool again; uint32_t r = draw(true, n, (uint32_t)w, again); if (again) { if (!rej++) first = w; } else { if (r >= n) MC_REQ(r < n, r); cnt[r]++; } } step(1 << 26); uint64_t end = rej ? first : hi; MC_REQ(rej == hi - end, "refused words are not the last ones"); if (rej) MC_REQ(end % n == 0 && part == 63, "refused from " << end); for (uint32_t r = 0; r < n; r++) { uint64_t want = (end + n - 1 - r) / n - (lo + n - 1 - r) / n; MC_EQ((uint64_t)cnt[r], want, "how often " << r << " below " << n << " from words " << lo << " to " << hi); } state((uint64_t)n * 64 + part); }
// ---- shuffling: every permutation is reachable and equally weighted when draws are equally weighted
struct Hook : MersenneTwisterRandom {};
static void shuffle(int maxn) { int n = choose(maxn + 1), s = choose(12), kind = choose(2); MersenneTwisterRandom g(SEEDS[s]), g2(SEEDS[s]); vector<int> v, o; for (int i = 0; i < n; i++) v.push_back(kind ? i % 3 : i); o = v; vector<int> w(v); MT_random_shuffle(v.begin(), v.end(), g); MT_random_shuffle(w.begin(), w.end(), g2); MC_REQ(v == w, "the same seed shuffles differently"); vector<int> t(v); std::sort(t.begin(), t.end()); std::sort(o.begin(), o.end()); MC_REQ(t == o, "not a permutation of " << n); state(n * 100 + s); }
static void shuffleall() { int n = 1 + choose(thorough() ? 8 : 7); long fact = 1; for (int i = 2; i <= n; i++) fact *= i; std::map<vector<int>, long> seen; long draws = fact * 60; MersenneTwisterRandom g(SEEDS[choose(4)]); for (long i = 0; i < draws; i++) { vector<int> v; for (int j = 0; j < n; j++) v.push_back(j); MT_random_shuffle(v.begin(), v.end(), g); seen[v]++; } MC_EQ((long)seen.size(), fact, "arrangements of " << n << " reached in " << draws << " shuffles"); state(n); }
static void shuffleplaces() { int n = 2 + choose(79); MersenneTwisterRandom g(SEEDS[choose(2)]); vector<vector<int> > at(n, vector<int>(n, 0)); for (int r = 0; r < n * 40; r++) { vector<int> v; for (int j = 0; j < n; j++) v.push_back(j); MT_random_shuffle(v.begin(), v.end(), g); for (int j = 0; j < n; j++) ++at[v[j]][j]; } for (int a = 0; a < n; a++) for (int j = 0; j < n; j++) MC_REQ(at[a][j] > 0, "element " << a << " of " << n << " never reaches place " << j << " in " << n * 40 << " shuffles"); state(n); }
vector<Config> configs() {
    bool T = thorough(); vector<Config> v; auto add = [&](string n, std::function<void()> b, const char *r) { v.push_back({n, b, r}); };
    add("twister", [T] { twister(T ? 20000 : 3000); }, "twelve seeds, fresh or seeded again after 0, 3 or 700 draws, against two references"); add("array", [T] { array(T ? 20000 : 2000); }, "seed arrays of 14 lengths around the state size"); add("array_refused", arraybad, "empty array refused, self test, published output"); add("micro", micro, "13 seeds, two memory contents");
    const char *m = "13 seeds, two memory contents, three times round the state"; add("mwc_4096", mwc<4096, 18782>, m); add("mwc_2048", mwc<2048, 1047570>, m); add("mwc_1024", mwc<1024, 123471786>, m); add("mwc_512", mwc<512, 123554632>, m); add("mwc_256", mwc<256, 8001634>, m); add("mwc_128", mwc<128, 8007626>, m); add("mwc_64", mwc<64, 647535442>, m); add("mwc_32", mwc<32, 547416522>, m); add("mwc_16", mwc<16, 487198574>, m); add("mwc_8", mwc<8, 716514398>, m);
    add("draws", draws, "all pairs of 16 boundary words through every kind of draw"); add("extremes", extremes, "every word within two of a power of two or its complement"); add("booleans", bools, "all triples of 16 words, 128 booleans, seeded again after every number of booleans"); add("below", below, "27 bounds, words within 200 of every turning point"); add("whole_range", wholerange, "every 32-bit word through the unbiased draw"); add("shuffle", [T] { shuffle(T ? 200 : 60); }, "every length, with duplicates, 12 seeds"); add("shuffle_all", shuffleall, "every arrangement of up to seven (thorough eight) is reached"); add("shuffle_places", shuffleplaces, "two to eighty elements: every element reaches every place");
    return v; }
LH_MAIN
