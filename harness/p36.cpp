// P36: checked casts and references over a class hierarchy, range comparison, modification times, invariant test macros.
#include "lh.hpp"
#include <Lintel/PointerUtil.hpp>
#include <Lintel/STLUtility.hpp>
#include <Lintel/FileUtil.hpp>
#include <Lintel/TestUtil.hpp>
#include <boost/make_shared.hpp>
#include <boost/weak_ptr.hpp>
#include <boost/enable_shared_from_this.hpp>
#include <iterator>
#include <list>
#include <deque>
#include <forward_list>
#include <sys/time.h>
using namespace mc; using std::string; using std::vector;
// ---- hierarchy: two plain bases, a virtual base shared by both arms of a diamond, a base present twice (ambiguous), an unrelated class
struct A { int a = 1; virtual ~A() {} }; struct B { int b = 2; virtual ~B() {} }; struct V { int v = 3; virtual ~V() {} };
struct AB : A, B { int c = 4; }; struct AV : A, virtual V {}; struct BV : B, virtual V { int pad[3]; }; struct ABV : AV, BV { int d = 5; };
struct BB : AB { int e = 6; }; struct U { long u = 7; virtual ~U() {} }; struct BU : U, B {}; struct Twice1 : A {}; struct Twice2 : A {}; struct Twice : Twice1, Twice2, B {};
static long made; static boost::shared_ptr<void> owner; static int dyn; // the object and its class
static const char *dynName[] = {"null", "A", "B", "V", "AB", "AV", "BV", "ABV", "BB", "U", "BU", "Twice"}; enum { NDyn = 12 };
template <class T> static boost::shared_ptr<T> mk() { ++made; return boost::shared_ptr<T>(new T, [](T *p) { --made; delete p; }); }
template <class T> struct Is; // address of the T part of the object, computed by the compiler's static conversions, or null
struct Parts { A *a; B *b; V *v; AB *ab; AV *av; BV *bv; ABV *abv; BB *bb; U *u; BU *bu; Twice *tw; };
static Parts parts; static Parts none() { Parts p; memset(&p, 0, sizeof p); return p; }
#define IS(T, f) template <> struct Is<T> { static T *get() { return parts.f; } }
IS(A, a); IS(B, b); IS(V, v); IS(AB, ab); IS(AV, av); IS(BV, bv); IS(ABV, abv); IS(BB, bb); IS(U, u); IS(BU, bu); IS(Twice, tw);
static void make(int k) { dyn = k; Parts p = none();
    switch (k) { case 0: break;
    case 1: { auto x = mk<A>(); p.a = x.get(); owner = x; break; } case 2: { auto x = mk<B>(); p.b = x.get(); owner = x; break; } case 3: { auto x = mk<V>(); p.v = x.get(); owner = x; break; }
    case 4: { auto x = mk<AB>(); p.ab = x.get(); p.a = p.ab; p.b = p.ab; owner = x; break; }
    case 5: { auto x = mk<AV>(); p.av = x.get(); p.a = p.av; p.v = p.av; owner = x; break; }
    case 6: { auto x = mk<BV>(); p.bv = x.get(); p.b = p.bv; p.v = p.bv; owner = x; break; }
    case 7: { auto x = mk<ABV>(); p.abv = x.get(); p.av = p.abv; p.bv = p.abv; p.a = p.av; p.b = p.bv; p.v = p.abv; owner = x; break; }
    case 8: { auto x = mk<BB>(); p.bb = x.get(); p.ab = p.bb; p.a = p.bb; p.b = p.bb; owner = x; break; }
    case 9: { auto x = mk<U>(); p.u = x.get(); owner = x; break; }
    case 10: { auto x = mk<BU>(); p.bu = x.get(); p.u = p.bu; p.b = p.bu; owner = x; break; }
    case 11: { auto x = mk<Twice>(); p.tw = x.get(); p.b = p.tw; owner = x; break; } } // its A part is ambiguous: no A
    parts = p; }
template <class T> struct Nm { static string get() { string s = typeid(T).name(); return s.substr(s.find_first_not_of("0123456789")); } };
// result of a call: 0 refused, 1 returned
template <class F> static bool refused(F f) { try { f(); return false; } catch (const AssertBoostException &) { return true; } }
template <bool D> struct Op { template <class T, class X> static auto go(X x) -> decltype(lintel::safeDownCast<T>(x)) { return lintel::safeDownCast<T>(x); } };
template <> struct Op<false> { template <class T, class X> static auto go(X x) -> decltype(lintel::safeCrossCast<T>(x)) { return lintel::safeCrossCast<T>(x); } };
template <bool down, class S, class T> static void cast() {
    S *s = Is<S>::get(); T *want = Is<T>::get(); if (dyn && !s) return; // not an S: no such pointer
    bool fail = down ? (dyn && !want) : !want; const char *k = down ? "downcast" : "cross-cast"; string lab = string(k) + " of a " + dynName[dyn] + " seen as " + Nm<S>::get() + " to " + Nm<T>::get();
    note("%s, object %s, as %s, wanted %s", k, dynName[dyn], Nm<S>::get().c_str(), Nm<T>::get().c_str()); state(lab); step();
    { T *r = (T *)-1; bool f = refused([&] { r = Op<down>::template go<T>(s); }); MC_EQ(f, fail, lab + " refused"); if (!f) MC_REQ(r == want, lab + " gives another address"); }
    { const S *cs = s; const T *r = (const T *)-1; bool f = refused([&] { r = Op<down>::template go<const T>(cs); }); MC_EQ(f, fail, lab + " (const) refused"); if (!f) MC_REQ(r == want, lab + " (const) gives another address"); }
    if (s || !dyn) { boost::shared_ptr<S> ss = dyn ? boost::shared_ptr<S>(owner, s) : boost::shared_ptr<S>(); long uses = ss.use_count(), before = made;
        { boost::shared_ptr<T> r; bool f = refused([&] { r = Op<down>::template go<T>(ss); }); MC_EQ(f, fail, lab + " (shared) refused"); MC_REQ(ss.get() == s, "the shared pointer cast was changed by " << lab);
          if (!f) { MC_REQ(r.get() == want, lab + " (shared) gives another address"); if (dyn) { MC_EQ(r.use_count(), uses + 1, lab + ": owners of the object after the cast"); MC_REQ(!(r < owner) && !(owner < r), lab << " gives a pointer that does not share ownership"); } } else MC_EQ(ss.use_count(), uses, lab + ": owners after a refused cast"); }
        MC_EQ(ss.use_count(), uses, lab + ": owners after the result is gone"); MC_EQ(made, before, lab + ": objects alive"); } }
template <> void cast<false, Twice, A>() {} // the compiler refuses the ambiguous conversion
template <class T> static void refs(T *p) { string lab = string("reference to a ") + dynName[dyn]; boost::shared_ptr<T> sp = p ? boost::shared_ptr<T>(owner, p) : boost::shared_ptr<T>(); boost::shared_ptr<const T> csp = sp; const T *cp = p;
    T *r = 0; bool f = refused([&] { r = &lintel::safeRef(p); }); MC_EQ(f, !p, lab + " refused"); if (!f) MC_REQ(r == p, lab); r = 0; f = refused([&] { r = &lintel::safeRef(sp); }); MC_EQ(f, !p, lab + " (shared) refused"); if (!f) MC_REQ(r == p, lab << " (shared)");
    const T *c = 0; f = refused([&] { c = &lintel::safeRef(cp); }); MC_EQ(f, !p, lab + " (const) refused"); if (!f) MC_REQ(c == p, lab << " (const)"); c = 0; f = refused([&] { c = &lintel::safeRef(csp); }); MC_EQ(f, !p, lab + " (shared const) refused"); if (!f) MC_REQ(c == p, lab << " (shared const)");
    MC_REQ(lintel::voidCast(p) == (void *)p && lintel::voidCast(sp) == (void *)p, "pointer turned into an untyped pointer of a " << dynName[dyn]); }
template <class S> static void from() { int k = choose(12); switch (k) {
#define X(i, T) case i: cast<false, S, T>(); break;
    X(0, A) X(1, B) X(2, V) X(3, AB) X(4, AV) X(5, BV) X(6, ABV) X(7, BB) X(8, U) X(9, BU) X(10, Twice)
#undef X
    case 11: refs<S>(Is<S>::get()); } }
#define DOWNS D(A,A) D(A,AB) D(A,BB) D(A,AV) D(A,ABV) D(B,AB) D(B,BB) D(B,BV) D(B,ABV) D(B,BU) D(B,Twice) D(B,B) D(V,AV) D(V,BV) D(V,ABV) D(AB,BB) D(AB,A) D(AB,B) D(BB,A) D(BB,B) D(BB,AB) D(AV,A) D(AV,V) D(AV,ABV) D(BV,B) D(BV,V) D(BV,ABV) D(ABV,A) D(ABV,B) D(ABV,V) D(ABV,AV) D(ABV,BV) D(U,BU) D(U,U) D(BU,U) D(BU,B) D(Twice,B)
static void downs() { struct E { void (*f)(); }; static const E e[] = {
#define D(S, T) {[] { cast<true, S, T>(); }},
    DOWNS
#undef D
    }; make(choose(NDyn)); int n = sizeof e / sizeof e[0]; e[choose(n)].f(); owner.reset(); MC_EQ(made, 0L, "objects left over"); }
static void crosses() { make(choose(NDyn)); switch (choose(11)) {
#define X(i, S) case i: if (!dyn || Is<S>::get()) from<S>(); break;
    X(0, A) X(1, B) X(2, V) X(3, AB) X(4, AV) X(5, BV) X(6, ABV) X(7, BB) X(8, U) X(9, BU) X(10, Twice)
#undef X
    } owner.reset(); MC_EQ(made, 0L, "objects left over"); }
// ---- ranges: one-pass iterators that know where their end is
struct In { typedef std::input_iterator_tag iterator_category; typedef int value_type; typedef ptrdiff_t difference_type; typedef const int *pointer; typedef const int &reference;
    struct Src { const vector<int> *v; size_t at = 0; int id; }; Src *s; size_t at; size_t end; bool isEnd;
    In(Src *s, bool e) : s(s), at(e ? s->v->size() : 0), end(s->v->size()), isEnd(e) {}
    const int &operator*() const { MC_REQ(!isEnd && at < end, "range " << s->id << " read at its end"); MC_REQ(at == s->at, "a one-pass range was read at a position already left"); return (*s->v)[at]; }
    In &operator++() { MC_REQ(!isEnd && at < end, "range " << s->id << " advanced past its end"); MC_REQ(at == s->at, "a one-pass range was advanced twice"); ++at; ++s->at; return *this; }
    In operator++(int) { In r(*this); ++*this; return r; }
    bool operator==(const In &o) const { MC_REQ(s == o.s, "iterators of different ranges compared"); return at == o.at; } bool operator!=(const In &o) const { return !(*this == o); } };
static void ranges(int maxlen, int vals) { vector<int> x, y; int n = choose(maxlen + 1), m = choose(maxlen + 1); for (int i = 0; i < n; i++) x.push_back(choose(vals)); for (int i = 0; i < m; i++) y.push_back(choose(vals)); bool want = x == y; string lab; for (int v : x) lab += char('0' + v); lab += '/'; for (int v : y) lab += char('0' + v); note("ranges %s", lab.c_str()); state(lab); step();
    MC_EQ(lintel::iteratorRangeEqual(x.begin(), x.end(), y.begin(), y.end()), want, "vectors " + lab + " equal"); MC_EQ(lintel::iteratorRangeEqual(x.data(), x.data() + n, y.data(), y.data() + m), want, "arrays " + lab + " equal");
    In::Src sx{&x, 0, 1}, sy{&y, 0, 2}; MC_EQ(lintel::iteratorRangeEqual(In(&sx, false), In(&sx, true), In(&sy, false), In(&sy, true)), want, "one-pass ranges " + lab + " equal");
    std::list<int> l(x.begin(), x.end()); std::deque<long> d(y.begin(), y.end()); MC_EQ(lintel::iteratorRangeEqual(l.begin(), l.end(), d.begin(), d.end()), want, "list and deque " + lab + " equal"); std::forward_list<int> f(x.begin(), x.end()); In::Src sz{&y, 0, 3}; MC_EQ(lintel::iteratorRangeEqual(f.begin(), f.end(), In(&sz, false), In(&sz, true)), want, "forward list and one-pass range " + lab + " equal"); }
// ---- modification times
static void mtimes() { static const int64_t secs[] = {0, 1, -1, 1000000000, 2147483647, -2147483648LL, 2147483648LL, 4294967296LL, 253402300799LL, 9223372035LL, 9223372036LL, -9223372036LL, -1000000000}; static const long ns[] = {0, 1, 999, 1000, 999999, 1000000, 500000000, 999999999};
    int64_t s = secs[choose(13)]; long n = ns[choose(8)]; __int128 want = (__int128)s * 1000000000 + n; if (want > INT64_MAX || want < INT64_MIN) return; struct stat st; memset(&st, 0x5a, sizeof st); st.st_mtim.tv_sec = s; st.st_mtim.tv_nsec = n; note("modification time %lld.%09ld", (long long)s, n); step(); state(std::to_string((long long)s) + "." + std::to_string(n));
    MC_EQ(lintel::modifyTimeNanoSec(st), (int64_t)want, "nanoseconds of the modification time");
    static string dir; if (dir.empty()) { char t[] = "/tmp/mcp36.XXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); _exit(98); } dir = t; } string f = dir + "/f"; FILE *fp = fopen(f.c_str(), "w"); if (!fp) { perror("open"); _exit(98); } fclose(fp);
    struct timespec ts[2] = {{12345, 678}, {(time_t)s, n}}; int ok = utimensat(AT_FDCWD, f.c_str(), ts, 0); struct stat r; int rc = ::stat(f.c_str(), &r); int64_t got = 0; bool ref = refused([&] { got = lintel::modifyTimeNanoSec(f); }); unlink(f.c_str());
    if (ok == 0 && rc == 0) { MC_EQ(ref, false, "asking an existing file's time refused"); MC_EQ((__int128)got == (__int128)r.st_mtim.tv_sec * 1000000000 + r.st_mtim.tv_nsec, true, "nanoseconds of a file's modification time"); }
    MC_EQ(refused([&] { lintel::modifyTimeNanoSec(f); }), true, "asking a missing file's time refused"); rmdir(dir.c_str()); dir = ""; }
// ---- test macros: each runs in a child, as success is going on and failure is an abort
static void macros() { int code = choose(5), nm = 1 + choose(3), pos = choose(nm + 1), viaVec = choose(2); // pos == nm: the message is not among those given
    string what = code == 0 ? "invariant fails" : code == 1 ? "nothing fails" : code == 2 ? "fatal error" : code == 3 ? "formatted message" : "throws after a nested block"; note("test macro: %s, %d messages, right one %d, %s", what.c_str(), nm, pos, viaVec ? "vector" : "macro"); state(what + char('0' + nm) + char('0' + pos) + char('0' + viaVec)); step();
    string m[3]; for (int i = 0; i < 3; i++) m[i] = i == pos ? "right 7" : "wrong " + std::to_string(i); int p[2]; if (pipe(p)) _exit(98); fflush(stdout); pid_t pid = fork();
    if (!pid) { signal(SIGABRT, SIG_DFL); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2); alarm(20); AssertBoostClearFns(); int evals = 0; auto put = [&](const char *s) { if (write(p[1], s, 1) != 1) _exit(98); };
        auto act = [&] { ++evals; switch (code) { case 0: INVARIANT(evals < 0, "right 7"); break; case 1: break; case 2: FATAL_ERROR("right 7"); break; case 3: INVARIANT(evals < 0, boost::format("right %d") % 7); break; case 4: { string keep("x"); SINVARIANT(keep.size() == 1); INVARIANT(!evals, string("right ") + "7"); } } };
        vector<string> vec(m, m + nm);
        if (viaVec) { TEST_INVARIANT_MSGVEC(act(), vec) } else if (nm == 1) TEST_INVARIANT_MSG1(act(), m[0]) else if (nm == 2) TEST_INVARIANT_MSG2(act(), m[0], m[1]) else TEST_INVARIANT_MSG3(act(), m[0], m[1], m[2])
        put("d"); if (evals == 1) put("1"); struct sigaction sa; (void)sa; AssertBoostFnAfter([](const char *, const char *, unsigned, const string &) { _exit(41); }); try { INVARIANT(evals < 0, "later"); } catch (...) { _exit(42); } _exit(43); }
    close(p[1]); string o; char c; while (read(p[0], &c, 1) == 1) o += c; close(p[0]); int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    bool good = code != 1 && pos < nm; MC_EQ(o, string(good ? "d1" : ""), "the test " + what + " passed and ran its code once"); if (good) MC_REQ(WIFEXITED(st) && WEXITSTATUS(st) == 41, "after a passed test a failed assertion does not behave as without any hook left by it: status " << st); else MC_REQ(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "a test that should fail ended with status " << st); }
vector<Config> configs() { bool T = thorough(); vector<Config> v;
    v.push_back({"downcasts", downs, "every class of object (and null) x every pair of related classes, plain, const and shared pointers"});
    v.push_back({"crosscasts", crosses, "every class of object (and null) x every pair of classes, plain, const and shared pointers; references and untyped pointers"});
    v.push_back({"ranges", [T] { ranges(T ? 6 : 5, T ? 3 : 2); }, T ? "all pairs of ranges up to 6 elements of 3 values" : "all pairs of ranges up to 5 elements of 2 values"});
    v.push_back({"mtimes", mtimes, "13 seconds x 8 nanosecond values, given and of a file"}); v.push_back({"macros", macros, "5 outcomes x up to 3 messages x every position of the right one"}); return v; }
LH_MAIN
