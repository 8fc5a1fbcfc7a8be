#include "lh.hpp"
#include <Lintel/ByteBuffer.hpp>
#include <sanitizer/asan_interface.h>
#include <stdexcept>
using namespace mc; using lintel::ByteBuffer; using std::string;
// a stream that hands out its data in given pieces and then ends or breaks
struct Src : std::streambuf {
    string data; size_t pos = 0; std::vector<size_t> cuts; size_t ci = 0; bool breaks; char buf[8192];
    Src(const string &d, std::vector<size_t> c, bool b) : data(d), cuts(c), breaks(b) {}
    int underflow() override {
        if (pos >= data.size()) { if (breaks) throw std::runtime_error("device error"); return traits_type::eof(); }
        size_t n = ci < cuts.size() ? cuts[ci++] : data.size(); n = std::min(n, data.size() - pos); n = std::min(n, sizeof buf);
        memcpy(buf, data.data() + pos, n); pos += n; setg(buf, buf, buf + n); return (unsigned char)buf[0];
    }
    size_t unread() { return (egptr() - gptr()) + (data.size() - pos); }
};
static unsigned char gen; static string fresh(size_t n) { string s; for (size_t i = 0; i < n; i++) { s.push_back((char)gen); gen = (unsigned char)(gen * 5 + 3); } return s; }
static string rd(const ByteBuffer &b) { return string((const char *)b.readStart(), b.readAvailable()); }
static void verify(const ByteBuffer &b, const string &m, const char *w) {
    MC_EQ(b.readAvailable(), m.size(), w); MC_EQ(b.empty(), m.empty(), w);
    MC_REQ(b.readAvailable() + b.writeAvailable() <= b.bufferSize(), w << " sizes");
    if (!m.empty() || b.writeAvailable()) MC_REQ(!__asan_region_is_poisoned((void *)b.readStart(), b.readAvailable() + b.writeAvailable()), w << " read/write region not owned");
    MC_REQ(rd(b) == m, w << " contents differ"); MC_REQ(b.asString() == m, w << " asString");
    const char *t = b.readStartAs<char>(); MC_REQ(m.empty() || memcmp(t, m.data(), m.size()) == 0, w);
}
static void body(int nstart, int depth, bool cow, int alphabet) {
    gen = 17; string ma, mb; ByteBuffer *pa, *pb;
    int st = choose(nstart);
    string init = fresh(st == 1 ? 3 : st == 2 ? 16 : st == 3 ? 5 : 6);
    if (st == 0) { pa = new ByteBuffer(cow); ma = ""; } else if (st == 1) { pa = new ByteBuffer(init, cow); ma = init; } else if (st == 2) { pa = new ByteBuffer(init.data(), init.size(), cow); ma = init; } else if (st == 3) { pa = new ByteBuffer("text", -1, cow); ma = "text"; } else { pa = new ByteBuffer(init, cow); pa->consume(2); ma = init.substr(2); pa->resizeBuffer(20); pa->consume(1); ma = ma.substr(1); }
    bool streamed = false, shared = false; // do a and b share storage as far as the interface says (copied and not yet written)?
    pb = new ByteBuffer(cow); if (st && choose(2)) { delete pb; pb = new ByteBuffer(*pa); mb = ma; shared = true; note("b copy of a"); }
    struct Del { ByteBuffer *&a, *&b; ~Del() { delete a; delete b; } } del{pa, pb};
    note("start %d cow %d", st, cow);
    verify(*pa, ma, "a"); verify(*pb, mb, "b");
    for (int s = 0; s < depth; s++) {
        ByteBuffer &a = *pa, &b = *pb; int op = choose(std::min(alphabet, 28)); static const int renum[] = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,27,28,29,23,25}; op = renum[op];
        if (op == 23 || op == 25) { if (streamed && !thorough()) throw Prune(); streamed = true; }
        auto mut = [&](const char *nm, const std::function<void()> &f, const std::function<void()> &onModel) { // a mutating call on a
            note("%s", nm); bool refuse = shared && !cow && a.bufferSize() > 0, threw = false;
            try { f(); } catch (AssertBoostException &) { threw = true; }
            if (threw) { MC_REQ(refuse, nm << " was refused"); }
            else { if (shared && !cow && a.bufferSize() > 0) MC_REQ(a.readStart() != b.readStart() || a.readAvailable() == 0 || b.readAvailable() == 0, nm << " changed storage that is still shared"); onModel(); shared = false; }
        };
        switch (op) {
            case 0: { string x = fresh(1); mut("a.append(1 byte)", [&] { a.append(x); }, [&] { ma += x; }); break; }
            case 1: { string x = fresh(7); mut("a.append(7 bytes ptr)", [&] { a.append(x.data(), x.size()); }, [&] { ma += x; }); break; }
            case 2: { if (ma.empty()) throw Prune(); mut("a.consume(1)", [&] { a.consume(1); }, [&] { ma.erase(0, 1); }); break; }
            case 3: { mut("a.consume(all)", [&] { a.consume(ma.size()); }, [&] { ma.clear(); }); break; }
            case 4: { if (ma.empty()) throw Prune(); mut("a.unextend(1)", [&] { a.unextend(1); }, [&] { ma.erase(ma.size() - 1); }); break; }
            case 5: { note("b = copy of a"); delete pb; pb = nullptr; pb = new ByteBuffer(a); mb = ma; shared = true; break; }
            case 6: { note("a = b"); a = b; ma = mb; shared = true; break; }
            case 7: { mut("a.append(b)", [&] { a.append(b); }, [&] { ma += mb; }); break; }
            case 8: { mut("a.append(a)", [&] { a.append(a); }, [&] { ma += ma; }); break; }
            case 9: { if (ma.empty()) throw Prune(); string x = fresh(1); size_t o = choose(2) ? ma.size() - 1 : 0; mut("a.replace(1 byte)", [&] { a.replace(o, x.data(), 1); }, [&] { ma.replace(o, 1, x); }); break; }
            case 10: { if (ma.empty()) throw Prune(); string x = fresh(1); mut("write through a.writeableReadStart()", [&] { uint8_t *p = a.writeableReadStart(); p[0] = (uint8_t)x[0]; }, [&] { ma[0] = x[0]; }); break; }
            case 11: { mut("a.forceUnique; write in place", [&] { a.forceUnique(); shared = false; if (a.writeAvailable() >= 2) { string x = fresh(2); memcpy(a.writeStart(2), x.data(), 2); ma += x; } }, [] {}); break; }
            case 12: { mut("a.forceUnique; writeStart(0)+extend", [&] { a.forceUnique(); shared = false; if (a.writeAvailable() >= 1) { string x = fresh(1); *a.writeStart(0) = x[0]; a.extend(1); ma += x; } }, [] {}); break; }
            case 13: { mut("a.shift()", [&] { a.shift(); }, [] {}); break; }
            case 14: { int k = choose(3) * 4; mut("a.resizeBuffer(used+k)", [&] { a.resizeBuffer(ma.size() + k); MC_EQ(a.bufferSize(), ma.size() + k, "resized"); }, [] {}); break; }
            case 15: { mut("a.reset()", [&] { a.reset(); }, [&] { ma.clear(); }); break; }
            case 16: { mut("a.purge()", [&] { a.purge(); MC_EQ(a.bufferSize(), (size_t)0, "purged"); }, [&] { ma.clear(); }); break; }
            case 17: { note("a.detach()"); a.detach(); ma.clear(); shared = false; break; }
            case 18: { string x = fresh(4); mut("a.assign(string)", [&] { a.assign(x); }, [&] { ma = x; }); break; }
            case 19: { mut("a.assign(b)", [&] { a.assign(b); }, [&] { ma = mb; }); break; }
            case 20: { note("a.assign(a)"); try { a.assign(a); } catch (AssertBoostException &) { MC_REQ(shared && !cow, "a.assign(a) refused"); } break; } // shared or not afterwards: either is allowed
            case 21: { string x = fresh(2); mut("a.assign(ptr,len)", [&] { a.assign(x.data(), x.size()); }, [&] { ma = x; }); break; }
            case 22: { note("a.replace out of range"); bool t = false; char c = 0; size_t off = choose(2) ? ma.size() : (size_t)-1; try { a.replace(off, &c, off == (size_t)-1 ? 2 : 1); } catch (AssertBoostException &) { t = true; } MC_EQ(t, true, "out of range replace is refused"); break; }
            case 23: case 24: { // appendFromStream
                size_t len = choose(3) * 5, amt = choose(4) * 4; bool br = choose(2); Src src(fresh(len), {(size_t)1 + choose(2) * 2}, br); std::istream in(&src);
                bool refuse = shared && !cow && a.bufferSize() > 0; note("a.appendFromStream(%zu of %zu%s)", amt, len, br ? ", breaks" : "");
                int64_t r = 0; bool threw = false; string d = src.data; try { r = a.appendFromStream(in, amt); } catch (AssertBoostException &) { threw = true; }
                if (threw) { MC_REQ(refuse, "stream read was refused"); break; }
                string got = rd(a); MC_REQ(got.compare(0, ma.size(), ma) == 0 && got.size() >= ma.size(), "old contents changed by stream read"); string add = got.substr(ma.size()); MC_REQ(d.compare(0, add.size(), add) == 0, "stream bytes differ");
                if (r >= 0) { MC_EQ((size_t)r, add.size(), "bytes read"); MC_EQ(add.size(), std::min(amt, d.size()), "bytes appended"); } else MC_REQ(br && amt > len, "error reported without one");
                if (br && amt > len) MC_EQ(r, (int64_t)-1, "stream error reported"); if (r >= 0) MC_EQ(src.unread(), d.size() - add.size(), "stream position");
                if (amt || d.size()) {} ma = got; if (rd(a).size() && a.readStart() != b.readStart()) shared = false; else if (!shared) {} break; }
            case 25: case 26: { // appendEntireStream
                static const size_t lens[] = {0, 3, 30, 1500}; size_t len = lens[choose(4)]; static const size_t maxs[] = {0, 8, 24, 1 << 20}; size_t mx = maxs[choose(4)]; bool br = choose(2); Src src(fresh(len), {(size_t)2, (size_t)7}, br); std::istream in(&src); string d = src.data;
                bool refuse = shared && !cow && a.bufferSize() > 0; size_t bs = a.bufferSize(); note("a.appendEntireStream(%zu bytes, max %zu%s)", len, mx, br ? ", breaks" : "");
                int64_t r = 0; bool threw = false; try { r = a.appendEntireStream(in, mx); } catch (AssertBoostException &) { threw = true; }
                if (threw) { MC_REQ(refuse, "stream read was refused"); break; }
                string got = rd(a); MC_REQ(got.size() >= ma.size() && got.compare(0, ma.size(), ma) == 0, "old contents changed by stream read"); string add = got.substr(ma.size()); MC_REQ(d.compare(0, add.size(), add) == 0, "stream bytes differ");
                if (r >= 0) { MC_EQ((size_t)r, add.size(), "bytes read"); bool full = a.writeAvailable() == 0 && a.bufferSize() >= mx; MC_REQ(full || (add.size() == d.size() && !br), "stream not read to its end although there is room"); MC_EQ(src.unread(), d.size() - add.size(), "stream position"); } else MC_REQ(br && r == -1, "error reported without one");
                MC_REQ(a.bufferSize() <= std::max(std::max(mx, bs), ma.size()), "buffer larger than allowed"); ma = got; if (!(shared && a.readStart() == b.readStart())) shared = false; break; }
            case 27: { std::ostringstream os; os << a; note("print a"); MC_REQ(os.str() == ma, "printed bytes differ"); break; }
            case 28: { if (!cow && shared) throw Prune(); string x = fresh(3); note("b.append(3)"); b.append(x); mb += x; shared = false; break; }
            case 29: { if (!cow && shared) throw Prune(); if (mb.empty()) throw Prune(); note("b.consume(1)"); b.consume(1); mb.erase(0, 1); shared = false; break; }
        }
        verify(*pa, ma, "a"); verify(*pb, mb, "b");
        MC_EQ(*pa == *pb, ma == mb, "equality"); MC_EQ(*pa != *pb, ma != mb, "inequality");
        state(ma + "|" + mb + (shared ? "s" : "")); outcome(ma.size() * 1000 + mb.size());
    }
}
// sizes around every power-of-two growth, repeated partial consumption
static void bulk() {
    gen = 3; ByteBuffer a(true); string m; static const int sz[] = {0, 1, 1023, 1024, 1025, 4096, 32768, 65535, 65536, 65537, 200000, 1 << 20}; int nz = thorough() ? 12 : 11, x = sz[choose(nz)], y = sz[choose(nz)], c = choose(4), how = choose(3); note("append %d, consume mode %d, append %d (%d)", x, c, y, how);
    string s1 = fresh(x), s2 = fresh(y); a.append(s1); m = s1; size_t k = c == 0 ? 0 : c == 1 ? m.size() / 2 : c == 2 ? m.size() : (m.size() ? 1 : 0); a.consume(k); m.erase(0, k); ByteBuffer b(a); string mb = m;
    if (how == 0) a.append(s2); else if (how == 1) { std::istringstream in(s2); MC_EQ(a.appendEntireStream(in), (int64_t)s2.size(), "bytes read"); } else { std::istringstream in(s2); MC_EQ(a.appendFromStream(in, s2.size()), (int64_t)s2.size(), "bytes read"); }
    m += s2; verify(a, m, "a"); verify(b, mb, "b"); a.shift(); verify(a, m, "a shifted"); ByteBuffer d(b); b.reset(); verify(b, "", "b reset"); verify(d, mb, "copy of b"); state(m + "|" + mb);
}
static void typed() { ByteBuffer a(true); a.resizeBuffer(64); int n = choose(5); uint32_t *p = a.writeStartAs<uint32_t>(n); for (int i = 0; i < n; i++) p[i] = 0x01020304u * i; MC_EQ(a.readAvailable(), n * sizeof(uint32_t), ""); ByteBuffer b(a); a.forceUnique(); a.resizeBuffer(64); uint16_t *q = a.writeStartAs<uint16_t>(0); q[0] = 0xabcd; a.extendAs<uint16_t>(1); MC_EQ(a.readAvailable(), n * 4 + 2u, ""); MC_EQ(b.readAvailable(), n * 4u, ""); for (int i = 0; i < n; i++) { MC_EQ(a.readStartAs<uint32_t>()[i], 0x01020304u * i, ""); MC_EQ(b.readStartAs<uint32_t>()[i], 0x01020304u * i, ""); } a.consume(n * 4); MC_EQ(a.readStartAs<uint16_t>()[0], 0xabcd, ""); bool t = false; size_t w = a.writeAvailable(); try { a.extend(w + 1); } catch (AssertBoostException &) { t = true; } MC_EQ(t, true, "extending past the buffer is refused"); t = false; try { a.unextend(3); } catch (AssertBoostException &) { t = true; } MC_EQ(t, true, "unextending more than readable is refused"); state(n); }
std::vector<Config> configs() {
    bool T = thorough(); std::string r = "all sequences over 28 operations on two aliasing buffers from five start states, stream reads short/broken at every point; both buffers compared with std::string models after every step";
    return {{"cow", [=] { body(5, T ? 4 : 3, true, 30); }, r}, {"nocow", [=] { body(5, T ? 4 : 3, false, 30); }, r + ", copies not writable"}, {"cow_deep", [=] { body(5, T ? 6 : 5, true, 12); }, r + " (first 12 operations, deeper)"}, {"bulk", [] { bulk(); }, "size boundaries"}, {"typed", [] { typed(); }, "typed access and range refusals"}};
}
LH_MAIN
