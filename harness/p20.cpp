#include "lh.hpp"
#include <Lintel/Tuples.hpp>
#include <Lintel/HashMap.hpp>
#include <Lintel/HashUnique.hpp>
using namespace mc; using std::string; using std::vector; using boost::tuples::tuple; using boost::tuples::null_type; using namespace lintel; using lintel::tuples::AnyPair; using lintel::tuples::BitsetAnyTuple;
// element values by index; index is the reference
template <class E> E val(int i); template <> int val<int>(int i) { static const int v[] = {-1, 0, 7}; return v[i]; } template <> string val<string>(int i) { static const char *v[] = {"", "a", "ab"}; return v[i]; } template <> uint8_t val<uint8_t>(int i) { static const uint8_t v[] = {0, 200, 255}; return v[i]; } template <> int64_t val<int64_t>(int i) { static const int64_t v[] = {-5000000000LL, 3, 5000000000LL}; return v[i]; }
typedef vector<int> Ix; static const int ANY = 9;
template <class C> struct Fill { static void plain(C &c, const int *k) { c.get_head() = val<typename C::head_type>(*k); Fill<typename C::tail_type>::plain(c.get_tail(), k + 1); } static void text(const C &c, const int *k, std::ostream &o, bool first) { if (!first) o << " "; if (*k == ANY) o << "*"; else o << c.get_head(); Fill<typename C::tail_type>::text(c.get_tail(), k + 1, o, false); } };
template <> struct Fill<null_type> { static void plain(const null_type &, const int *) {} static void text(const null_type &, const int *, std::ostream &, bool) {} };
template <class A> struct FillAny; template <class E, class Tail> struct FillAny<boost::tuples::cons<AnyPair<E>, Tail> > { typedef boost::tuples::cons<AnyPair<E>, Tail> C; static void to(C &c, const int *k, const int *hid) { if (*k == ANY) { if (*hid != 3) { c.get_head().set(val<E>(*hid)); c.get_head().any = true; } } else c.get_head().set(val<E>(*k)); FillAny<Tail>::to(c.get_tail(), k + 1, hid + 1); } static void check(const C &c, const int *k) { MC_EQ(c.get_head().any, *k == ANY, "any flag"); if (*k != ANY) MC_REQ(c.get_head().val == val<E>(*k), "value"); FillAny<Tail>::check(c.get_tail(), k + 1); } };
template <> struct FillAny<null_type> { static void to(const null_type &, const int *, const int *) {} static void check(const null_type &, const int *) {} };
static string show(const Ix &k) { string s = "("; for (int v : k) s += v == ANY ? "* " : std::to_string(v) + " "; return s + ")"; }
static Ix draw(size_t n, int vals, bool any) { Ix k; for (size_t i = 0; i < n; i++) { int c = choose(vals + any); k.push_back(c == vals ? ANY : c); } return k; }
static int cmp(const Ix &a, const Ix &b) { for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; } // ANY sorts last
template <class X> void order(const X &x, const X &y, const Ix &a, const Ix &b, const char *what) { int c = cmp(a, b); MC_EQ(x == y, c == 0, what << " equality of " << show(a) << " and " << show(b)); MC_EQ(x < y, c < 0, what << " order of " << show(a) << " and " << show(b)); MC_EQ(y < x, c > 0, what << " order of " << show(b) << " and " << show(a)); MC_REQ(!(x < x) && x == x, what << " against itself " << show(a)); step(); }
template <class T> void plain(int vals) { size_t n = boost::tuples::length<T>::value; Ix a = draw(n, vals, false), b = draw(n, vals, false); T x, y; Fill<typename T::inherited>::plain(x, a.data()); Fill<typename T::inherited>::plain(y, b.data()); order(x, y, a, b, "tuple"); uint32_t hx = hash(x), hy = hash(y); tuples::TupleHash<T> th; MC_EQ(th(x), hx, "hash functor"); if (a == b) MC_EQ(hx, hy, "hash of equal tuples " << show(a)); else if (cmp(a, b) < 0) outcome(hx != hy); T z(x); MC_EQ(hash(z), hx, "hash of a copy"); state(show(a) + show(b)); }
template <class T> void partial(int vals) { size_t n = boost::tuples::length<T>::value; typedef BitsetAnyTuple<T> P; Ix a = draw(n, vals, true), b = draw(n, vals, true); int hid = choose(3); Ix fa(a), fb(b); for (size_t i = 0; i < n; i++) { if (a[i] == ANY) fa[i] = hid; if (b[i] == ANY) fb[i] = (hid + 1 + i) % 3; } T ta, tb; Fill<typename T::inherited>::plain(ta, fa.data()); Fill<typename T::inherited>::plain(tb, fb.data()); P x(ta), y; MC_EQ(x.any.count(), (size_t)0, "wildcards of a new partial tuple"); y.data = tb; for (size_t i = 0; i < n; i++) { x.any[i] = a[i] == ANY; y.any[i] = b[i] == ANY; }
    order(x, y, a, b, "partial tuple"); uint32_t hx = hash(x), hy = hash(y); tuples::BitsetAnyTupleHash<T> bh; MC_EQ(bh(x), hx, "hash functor"); if (a == b) MC_EQ(hx, hy, "hash of equal partial tuples " << show(a)); else outcome(hx != hy); std::ostringstream o, e; o << x; e << "("; Fill<typename T::inherited>::text(ta, a.data(), e, true); e << ")"; MC_EQ(o.str(), e.str(), "printed"); HashMap<P, int> m; m[x] = 1; m[y] = 2; MC_EQ(m.size(), (size_t)(a == b ? 1 : 2), "entries in a hash map"); MC_EQ(m[x], a == b ? 2 : 1, ""); state(show(a) + show(b)); }
template <class T> void anyt(int vals) { size_t n = boost::tuples::length<T>::value; typedef typename tuples::TupleToAnyTuple<T>::type A; Ix a = draw(n, vals, true), b = draw(n, vals, true); int hid = choose(4); Ix ha(n, hid), hb(n, (hid + 1) % 4); A x, y; FillAny<A>::check(x, Ix(n, (int)ANY).data()); FillAny<A>::to(x, a.data(), ha.data()); FillAny<A>::to(y, b.data(), hb.data()); FillAny<A>::check(x, a.data()); order(x, y, a, b, "any tuple"); uint32_t hx = hash(x), hy = hash(y); if (a == b) MC_EQ(hx, hy, "hash of equal any tuples " << show(a)); else outcome(hx != hy);
    Ix c = draw(n, vals, false); T t; Fill<typename T::inherited>::plain(t, c.data()); tuples::assign(x, t); FillAny<A>::check(x, c.data()); A w; tuples::assign(w, t); MC_REQ(x == w && hash(x) == hash(w), "assigned any tuple"); HashUnique<A, tuples::TupleHash<A> > u; u.add(x); u.add(y); MC_EQ(u.size(), (size_t)(b == c ? 1 : 2), "entries in a hash set"); state(show(a) + show(b)); }
// order is transitive and sorts the same from every arrangement
template <class T> void sorting(int vals) { size_t n = boost::tuples::length<T>::value; typedef BitsetAnyTuple<T> P; vector<Ix> k; vector<P> p; for (int i = 0; i < 3; i++) { k.push_back(draw(n, vals, true)); Ix f(k[i]); for (int &v : f) if (v == ANY) v = i % 3; T t; Fill<typename T::inherited>::plain(t, f.data()); P x(t); for (size_t j = 0; j < n; j++) x.any[j] = k[i][j] == ANY; p.push_back(x); } std::sort(p.begin(), p.end()); std::sort(k.begin(), k.end()); for (int i = 0; i < 3; i++) { std::ostringstream o, e; o << p[i]; Ix f(k[i]); for (int &v : f) if (v == ANY) v = 0; T t; Fill<typename T::inherited>::plain(t, f.data()); e << "("; Fill<typename T::inherited>::text(t, k[i].data(), e, true); e << ")"; MC_EQ(o.str(), e.str(), "position " << i << " after sorting"); } MC_REQ(!(p[0] < p[1] && p[1] < p[2]) || p[0] < p[2], "transitive"); state(show(k[0]) + show(k[1]) + show(k[2])); }
typedef tuple<int> A1; typedef tuple<int, string> A2; typedef tuple<string, int, uint8_t> A3; typedef tuple<int, int64_t, string, int> A4; typedef tuple<int, int, int, int, int> A5; typedef tuple<string, string> B2; typedef tuple<int, int, int> B3;
template <class T> void addAll(vector<Config> &v, const string &n, int vals, int tv) { const char *r = "all pairs over the element values, with and without wildcards, three hidden values behind wildcards"; v.push_back({n + "_plain", [vals] { plain<T>(vals); }, r}); v.push_back({n + "_partial", [vals] { partial<T>(vals); }, r}); v.push_back({n + "_any", [vals] { anyt<T>(vals); }, r}); if (tv) v.push_back({n + "_sort", [tv] { sorting<T>(tv); }, "all triples"}); }
vector<Config> configs() { bool T = thorough(); vector<Config> v; addAll<A1>(v, "int", 3, 3); addAll<A2>(v, "int_string", 3, 2); addAll<B2>(v, "string_string", 3, 2); addAll<A3>(v, "string_int_byte", 3, T ? 3 : 2); addAll<B3>(v, "int_int_int", 3, T ? 3 : 2); addAll<A4>(v, "int_long_string_int", 2, T ? 2 : 1); addAll<A5>(v, "five", T ? 2 : 1, T ? 1 : 0); if (!T) { v.push_back({"four_plain", [] { plain<A4>(3); }, "all pairs"}); v.push_back({"five_partial2", [] { partial<A5>(2); }, "all pairs"}); } return v; }
LH_MAIN
