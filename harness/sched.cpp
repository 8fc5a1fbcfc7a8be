#include "sched.hpp"
#include <ucontext.h>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <sys/mman.h>
#include <malloc.h>
#include <new>
#include <map>
#include <unordered_set>
#include <unordered_map>
#include <link.h>
typedef unsigned char u8; typedef uint64_t u64; typedef uint32_t u32; typedef uintptr_t uptr;
namespace sched {
static const int MAXT = 8; static const size_t STK = 512 * 1024;
enum St { RUN, BLOCKED, DONE };
struct Sync { u32 vc[MAXT]; };
struct Mtx { int owner = -1, depth = 0, kind = 0; bool init = true; Sync s; Mtx() { memset(&s, 0, sizeof s); } };
struct CondW { int tid; bool signalled; };
struct Cond { std::vector<int> waiters; };
struct Thr {
    int id; St st; void *sp; char *stack; std::function<void()> fn; void *ret; void *(*cfn)(void *); void *carg;
    std::function<bool()> ready; bool timed; u64 deadline; bool timedout; bool detached, joined; bool woken;
    u32 vc[MAXT]; void *eh[2]; int err; std::map<pthread_key_t, void *> tsd; std::map<const void *, void *> btss; sigset_t mask; int pendingsig;
    u32 npts;
};
struct Rec { u8 tid, mask, w; u32 clk; uptr pc; };
struct Gran { uptr addr; std::vector<Rec> recs; };
struct Eng {
    bool on = false; Opt o; std::vector<Thr> t; int cur = 0; void *hostsp = nullptr; void *hosteh[2];
    int preempts = 0; u32 points = 0; int spurious = 0; u64 clock = 0;
    bool viol = false, prune = false; std::string key, msg;
    std::map<uptr, Mtx> mtx; std::map<uptr, Cond> cond; std::map<uptr, Sync> sync; std::map<uptr, int> guard; // guard: 1 in progress by (tid+2)
    std::unordered_map<uptr, std::vector<Rec>> shadow;
    char *arena = nullptr; size_t apos = 0, acap = 0; std::vector<char *> stacks;
    std::unordered_set<uptr> pcs; bool discovering = false; std::unordered_set<uptr> freed;
    std::vector<std::pair<uptr, size_t>> regions; std::vector<u8> regsave; 
    // snapshot of writable data
    std::vector<std::pair<char *, size_t>> segs; std::vector<char *> segcopy; bool snapped = false;
    std::vector<uptr> allocs; bool arena_on = false; u32 nextkey = 1; std::map<pthread_key_t, void (*)(void *)> keydtor;
};
static Eng *E;
static inline bool active() { return E && E->on && mc_engine_depth == 0; }
static Thr &me() { return E->t[E->cur]; }
extern "C" void mc_swap(void **save, void *to);
asm(R"(.text
.globl mc_swap
mc_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
static void swapto(int to) { // from current coroutine to coroutine `to` (or host when -1)
    void **eh = (void **)abi::__cxa_get_globals(); Thr &m = me(); m.eh[0] = eh[0]; m.eh[1] = eh[1]; m.err = errno;
    void **save = &m.sp; int sd = mc_engine_depth;
    if (to < 0) { eh[0] = E->hosteh[0]; eh[1] = E->hosteh[1]; mc_swap(save, E->hostsp); }
    else { Thr &n = E->t[to]; E->cur = to; eh[0] = n.eh[0]; eh[1] = n.eh[1]; errno = n.err; mc_swap(save, n.sp); }
    mc_engine_depth = sd;
}
static void die(const std::string &key, const std::string &msg) { // violation found by the engine: leave to host, never return
    McEngine eng; if (!E->viol) { E->viol = true; E->key = std::string(key.c_str()); E->msg = std::string(msg.c_str()); }
    swapto(-1); abort();
}
static std::string fmt(const char *f, ...) { char b[600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static bool enabled(Thr &t) { return t.st == RUN || (t.st == BLOCKED && t.ready && t.ready()); }
static void vjoin(u32 *a, const u32 *b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void tick() { me().vc[E->cur]++; }
// choose who runs next; cur_ok: current thread could continue
static void schedule(bool cur_ok, bool yielding = false) {
    McEngine eng; Eng &e = *E;
    if (++e.points > e.o.maxpoints) die("livelock", "no progress within the scheduling point limit");
    std::vector<int> opts; std::vector<int> tout;
    if (cur_ok && !yielding) opts.push_back(e.cur);
    bool may = !cur_ok || yielding || e.preempts < e.o.preempt;
    if (may) for (int i = 0; i < (int)e.t.size(); i++) if (i != e.cur && enabled(e.t[i])) opts.push_back(i);
    if (yielding && cur_ok && opts.empty()) opts.push_back(e.cur);
    if (!cur_ok && enabled(me())) opts.push_back(e.cur);
    if (may) for (int i = 0; i < (int)e.t.size(); i++) if (e.t[i].st == BLOCKED && e.t[i].timed && !enabled(e.t[i])) { // time passes until its deadline
        bool earliest = true; for (auto &u : e.t) if (u.st == BLOCKED && u.timed && u.deadline < e.t[i].deadline) earliest = false;
        if (earliest) tout.push_back(i); }
    if (opts.empty() && tout.empty()) {
        std::string m; for (auto &t : e.t) if (t.st == BLOCKED) m += fmt(" thread %d", t.id);
        die("deadlock", "no thread can run; blocked:" + m);
    }
    int c = mc::choose((int)(opts.size() + tout.size())); int to; bool tmo = false;
    if (c < (int)opts.size()) to = opts[c]; else { to = tout[c - opts.size()]; tmo = true; }
    if (to != e.cur && cur_ok && !yielding) e.preempts++;
    Thr &n = e.t[to];
    if (n.st == BLOCKED) { if (tmo) { if (n.deadline > e.clock) e.clock = n.deadline; n.timedout = true; mc::note("-- time passes; thread %d times out", to); } n.st = RUN; n.ready = nullptr; n.timed = false; }
    if (to != e.cur) { if (mc::tracing()) mc::note("-- switch to thread %d", to); swapto(to); }
}
static void block(std::function<bool()> ready, bool timed = false, u64 deadline = 0) {
    { McEngine eng; Thr &m = me(); m.st = BLOCKED; m.ready = ready; m.timed = timed; m.deadline = deadline; m.timedout = false; }
    schedule(false);
}
static void pt(const char *what) { if (mc::tracing()) mc::note("thread %d: %s", E->cur, what); me().npts++;
    if (mc::g().sh) { u64 h = 77; for (auto &t : E->t) h = mc::mix(h ^ ((u64)t.npts << 8 | t.st)) + t.id; for (auto &m : E->mtx) h = mc::mix(h ^ (u64)(m.second.owner + 2)); h = mc::mix(h ^ E->cur); mc::state(h); } else mc::step();
    schedule(true); }
void point(const char *w) { if (active()) { McEngine eng; pt(w); } }
void yield() { if (active()) { McEngine eng; schedule(true, true); } }
int npreempt() { return E->preempts; }
int self() { return active() || (E && E->on) ? E->cur : -1; }
u64 vclock_ns() { return E->clock; }
void set_vclock_ns(u64 x) { E->clock = x; }
bool is_live(int t) { return E->t[t].st != DONE; }

static void finish_tsd(Thr &t) {
    for (int pass = 0; pass < 4; pass++) { bool any = false;
        std::vector<std::pair<pthread_key_t, void *>> l(t.tsd.begin(), t.tsd.end());
        for (auto &p : l) if (p.second && E->keydtor.count(p.first) && E->keydtor[p.first]) { t.tsd[p.first] = 0; any = true; int d = mc_engine_depth; mc_engine_depth = 0; E->keydtor[p.first](p.second); mc_engine_depth = d; }
        if (!any) break; }
}
struct ExitThread { void *ret; };
static void entry() {
    mc_engine_depth = 0; int id = E->cur;
    std::string key, msg; int how = 0;
    try { Thr &t = E->t[id]; if (t.cfn) { void *r = t.cfn(t.carg); E->t[id].ret = r; } else t.fn(); }
    catch (const mc::Violation &v) { McEngine eng; how = 1; key = std::string(v.key.c_str()); msg = std::string(v.msg.c_str()); }
    catch (const mc::Prune &) { how = 2; }
    catch (const ExitThread &x) { E->t[id].ret = x.ret; }
    catch (const std::exception &x) { McEngine eng; how = 1; key = std::string("exception:") + typeid(x).name(); msg = fmt("exception left thread %d: %s", id, x.what()); }
    mc_engine_depth = 1;
    if (how == 1) die(key, msg);
    if (how == 2) { E->prune = true; swapto(-1); }
    finish_tsd(E->t[id]);
    tick(); E->t[id].st = DONE; if (mc::tracing()) mc::note("thread %d ends", id);
    bool alldone = true; for (auto &t : E->t) if (t.st != DONE) alldone = false;
    if (alldone) { swapto(-1); }
    schedule(false); abort();
}
static int newthread(std::function<void()> fn, void *(*cfn)(void *), void *arg) {
    McEngine eng; Eng &e = *E; int id = (int)e.t.size();
    if (id >= MAXT) die("ENGINE", "too many threads");
    while ((int)e.stacks.size() <= id) { char *s = (char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); e.stacks.push_back(s); }
    e.t.emplace_back(); Thr &t = e.t.back(); t.id = id; t.st = RUN; t.stack = e.stacks[id]; t.fn = fn; t.cfn = cfn; t.carg = arg; t.ret = 0; t.timed = t.timedout = t.detached = t.joined = false; t.npts = 0; t.eh[0] = t.eh[1] = 0; t.err = 0; t.pendingsig = 0;
    memset(t.vc, 0, sizeof t.vc); t.vc[id] = 1; sigemptyset(&t.mask);
    if (id) { vjoin(t.vc, e.t[e.cur].vc); t.mask = e.t[e.cur].mask; tick(); }
    u64 *sp = (u64 *)(t.stack + STK - 64); sp = (u64 *)((uptr)sp & ~15ull); *--sp = 0; *--sp = (u64)(void *)entry; for (int i = 0; i < 6; i++) *--sp = 0; --sp; *(u32 *)sp = 0x1f80; *((u32 *)sp + 1) = 0x037f; t.sp = sp;
    return id;
}
int spawn(const std::function<void()> &f) { int id = newthread(f, nullptr, nullptr); { McEngine e; pt("spawn"); } return id; }
static void dojoin(int id) { McEngine eng; pt("join"); if (E->t[id].st != DONE) block([id] { return E->t[id].st == DONE; }); vjoin(me().vc, E->t[id].vc); E->t[id].joined = true; }
void join(int id) { dojoin(id); }

// ---- memory ----
static bool in_arena(const void *p) { return E && E->arena && (char *)p >= E->arena && (char *)p < E->arena + E->acap; }
static void *aalloc(size_t n, size_t al = 16) {
    Eng &e = *E; size_t p = (e.apos + 16 + al - 1) & ~(al - 1); if (p + n + 8 > e.acap) { fprintf(stderr, "sched: arena full\n"); _exit(97); }
    e.apos = p + n + 8; *(u64 *)(e.arena + p - 8) = n; memset(e.arena + p + n, 0xA5, 8); { McEngine g; e.allocs.push_back((uptr)e.arena + p); } return e.arena + p; }
static bool guard_ok(uptr p) { static const u8 c[8] = {0xA5, 0xA5, 0xA5, 0xA5, 0xA5, 0xA5, 0xA5, 0xA5}; return memcmp((char *)p + *(u64 *)(p - 8), c, 8) == 0; }
static bool arena_now() { return E && E->on && mc_engine_depth == 0; }
static void race(uptr a, uptr pc, bool w, const Rec &r);
static bool g_instr = false;    // the code under test reports its memory accesses
static void access(uptr a, size_t n, bool w, uptr pc, bool atomic = false) {
    Eng &e = *E; McEngine eng;
    Thr &m = me(); if ((char *)a >= m.stack && (char *)a < m.stack + STK) return;
    bool shared = (char *)a >= e.arena && (char *)a < e.arena + e.acap;
    if (!shared) { for (auto &s : e.segs) if ((char *)a >= s.first && (char *)a < s.first + s.second) shared = true; for (auto &t : e.t) if ((char *)a >= t.stack && (char *)a < t.stack + STK) shared = true; }
    if (!shared) return;
    if (e.t.size() == 1) { if (!e.freed.empty() && e.freed.count(a & ~15ull)) die("use after free", fmt("thread %d %s freed memory", e.cur, w ? "writes" : "reads")); return; }
    if (e.o.mem_points && e.pcs.count(pc) && !e.discovering) { if (mc::tracing()) { Dl_info di; mc::note("thread %d: %s %zu bytes at %#lx (code +%#lx)", e.cur, w ? "writes" : "reads", n, (long)a, dladdr((void *)pc, &di) ? (long)(pc - (uptr)di.dli_fbase) : (long)pc); } mc::step(); schedule(true); }
    Thr &m2 = me(); (void)m2;
    while (n) {
        uptr g = a & ~7ull; size_t off = a - g, k = std::min<size_t>(n, 8 - off); u8 mask = (u8)(((1u << k) - 1) << off);
        std::vector<Rec> &v = e.shadow[g]; bool put = false;
        for (auto &r : v) {
            if (!(r.mask & mask)) continue;
            if (r.tid != e.cur) { if ((w || r.w & 1) && !(atomic && (r.w & 2)) && r.clk > m.vc[r.tid]) race(a, pc, w, r); }
        }
        for (auto &r : v) if (r.tid == e.cur && ((r.w & 1) == (w ? 1 : 0)) && ((r.w & 2) != 0) == atomic && r.mask == mask) { r.clk = m.vc[e.cur]; r.pc = pc; put = true; break; }
        if (!put) { Rec r; r.tid = (u8)e.cur; r.mask = mask; r.w = (w ? 1 : 0) | (atomic ? 2 : 0); r.clk = m.vc[e.cur]; r.pc = pc; v.push_back(r); }
        a += k; n -= k;
    }
    if (!e.freed.empty()) { uptr b = a & ~15ull; if (e.freed.count(b)) die("use after free", fmt("thread %d %s freed memory", e.cur, w ? "writes" : "reads")); }
}
static std::string where(uptr pc) { Dl_info di; if (dladdr((void *)pc, &di) && di.dli_sname) { int st; char *d = abi::__cxa_demangle(di.dli_sname, 0, 0, &st); std::string s = d ? d : di.dli_sname; if (s.size() > 120) s.resize(120); return s; } if (dladdr((void *)pc, &di)) return fmt("+%#lx", (long)(pc - (uptr)di.dli_fbase)); return fmt("%#lx", (long)pc); }
static void race(uptr a, uptr pc, bool w, const Rec &r) {
    if (E->discovering) { E->pcs.insert(pc); E->pcs.insert(r.pc); return; }
    if (E->o.race_fail) die("data race", fmt("thread %d %s memory that thread %d %s without ordering: ", E->cur, w ? "writes" : "reads", r.tid, r.w & 1 ? "wrote" : "read") + where(pc) + " / " + where(r.pc));
}
static void forget(uptr a, size_t n, bool freed) {
    McEngine eng; uptr b = a & ~7ull; if (!g_instr) { if (freed) E->freed.insert(a & ~15ull); return; } if (!E->shadow.empty()) for (uptr x = b; x < a + n; x += 8) E->shadow.erase(x);
    if (freed) for (uptr x = a & ~15ull; x < a + n; x += 16) E->freed.insert(x);
}
static void *do_alloc(size_t n, size_t al = 16) { if (arena_now()) { return aalloc(n ? n : 1, al); } return nullptr; }
static bool do_free(void *p, uptr pc) {
    if (!in_arena(p)) return false;
    if (E->on && mc_engine_depth == 0) { size_t n = *(u64 *)((char *)p - 8); if (E->freed.count((uptr)p & ~15ull)) die("double free", "memory freed twice"); if (g_instr) access((uptr)p, n, true, pc); forget((uptr)p, n, true); }
    return true;
}

// ---- run ----
static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
    if (i->dlpi_name && i->dlpi_name[0]) return 0;  // only the executable itself
    for (int k = 0; k < i->dlpi_phnum; k++) { auto &p = i->dlpi_phdr[k]; if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) E->segs.push_back({(char *)(i->dlpi_addr + p.p_vaddr), p.p_memsz}); }
    // exclude RELRO (read-only after relocation)
    for (int k = 0; k < i->dlpi_phnum; k++) { auto &p = i->dlpi_phdr[k]; if (p.p_type == PT_GNU_RELRO) { char *b = (char *)(i->dlpi_addr + p.p_vaddr), *e = (char *)(((uptr)b + p.p_memsz + 4095) & ~4095ull); for (auto &s : E->segs) if (b <= s.first && e > s.first) { size_t cut = e - s.first; if (cut > s.second) cut = s.second; s.first += cut; s.second -= cut; } } }
    return 0;
}
static void snapshot() { for (auto &s : E->segs) { char *c = (char *)mmap(0, s.second + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memcpy(c, s.first, s.second); E->segcopy.push_back(c); } E->snapped = true; }
static void restore() { for (size_t i = 0; i < E->segs.size(); i++) memcpy(E->segs[i].first, E->segcopy[i], E->segs[i].second); }
static void sigtrap(int, siginfo_t *, void *);
void init() {
    mc::g().cutok = false;
    E = new Eng; E->acap = 512ull << 20; E->arena = (char *)mmap(0, E->acap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    dl_iterate_phdr(phdr_cb, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = sigtrap; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &sa, 0);
    abi::__cxa_get_globals(); try { throw 1; } catch (int) {}
}
void run(const Opt &o, const std::function<void()> &mainfn) {
    McEngine eng; Eng &e = *E; mc::g(); (void)mc::tracing();
    if (!e.snapped) snapshot(); else restore();
    e.o = o; e.t.clear(); e.t.reserve(MAXT); e.cur = 0; e.preempts = 0; e.points = 0; e.spurious = 0; e.viol = e.prune = false; e.key.clear(); e.msg.clear(); e.clock = 1000000000ull * 1000000 + 999999000ull;
    e.mtx.clear(); e.cond.clear(); e.sync.clear(); e.guard.clear(); e.shadow.clear(); e.freed.clear(); e.allocs.clear(); e.apos = 0; e.regions.clear(); e.keydtor.clear(); e.nextkey = 1;
    newthread(mainfn, nullptr, nullptr);
    void **eh = (void **)abi::__cxa_get_globals(); e.hosteh[0] = eh[0]; e.hosteh[1] = eh[1]; eh[0] = eh[1] = 0; int depth = mc_engine_depth;
    e.on = true; mc_swap(&e.hostsp, e.t[0].sp); e.on = false; mc_engine_depth = depth;
    eh[0] = e.hosteh[0]; eh[1] = e.hosteh[1];
    if (e.viol) { std::string k = e.key, m = e.msg; e.t.clear(); throw mc::Violation{k, m}; }
    bool pr = e.prune; e.t.clear();
    for (uptr p : e.allocs) if (!guard_ok(p)) throw mc::Violation{"heap overflow", fmt("memory past the end of a %lu byte allocation was written", (unsigned long)*(u64 *)(p - 8))};
    if (pr) throw mc::Prune();
}
size_t discovered() { return E->pcs.size(); }
void discover(const std::function<void()> &body, const Opt &o, int max) {
    (void)o; E->discovering = true; mc::Config c; c.name = "discover"; c.body = body; std::vector<uint16_t> pre; std::string k, m; bool tr = mc::g().tracing; mc::g().tracing = false;
    for (int i = 0; i < max; i++) { mc::run_one(c, pre, k, m); if (!mc::advance(pre, 0, (size_t)-1)) break; }
    mc::g().tracing = tr; mc::g().cur.clear(); E->discovering = false;
}

// ---- single stepping ----
static struct { bool act; uptr a; size_t n; u8 old[16]; } pend[MAXT];
// does the instruction at pc read-modify-write memory without a lock prefix? gives effective address and size
static bool rmw(const u8 *pc, greg_t *g, uptr &ea, size_t &sz) {
    bool lock = false, op16 = false, rexw = false; int rexr = 0, rexx = 0, rexb = 0; (void)rexr;
    for (;;) { u8 b = *pc; if (b == 0xF0) { lock = true; pc++; } else if (b == 0x66) { op16 = true; pc++; } else if (b == 0xF2 || b == 0xF3 || b == 0x2E || b == 0x36 || b == 0x3E || b == 0x26) pc++; else break; }
    if (lock) return false;
    if ((*pc & 0xF0) == 0x40) { rexw = *pc & 8; rexr = *pc & 4; rexx = *pc & 2; rexb = *pc & 1; pc++; }
    bool two = false; u8 op = *pc++; if (op == 0x0F) { two = true; op = *pc++; }
    u8 modrm = *pc; int reg = (modrm >> 3) & 7; bool is = false; bool byteop = !(op & 1); int immlen = 0;
    if (!two) {
        if (op < 0x38 && (op & 7) <= 1) is = true;                         // add or adc sbb and sub xor r/m,r
        else if (op == 0x80 || op == 0x81 || op == 0x83) { is = reg != 7; immlen = op == 0x81 ? (op16 ? 2 : 4) : 1; }
        else if (op == 0xFE || op == 0xFF) is = reg <= 1;
        else if (op == 0xF6 || op == 0xF7) is = reg == 2 || reg == 3;
        else if (op == 0xC0 || op == 0xC1) { is = true; immlen = 1; } else if (op >= 0xD0 && op <= 0xD3) is = true;
    } else { if (op == 0xC0 || op == 0xC1 || op == 0xB0 || op == 0xB1) is = true; else if (op == 0xAB || op == 0xB3 || op == 0xBB) { is = true; byteop = false; } }
    if (!is || (modrm >> 6) == 3) return false;
    static const int R[16] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
    int mod = modrm >> 6, rm = modrm & 7; pc++; uptr a = 0; bool rip = false;
    if (rm == 4) { u8 sib = *pc++; int sc = sib >> 6, ix = ((sib >> 3) & 7) | (rexx ? 8 : 0), ba = (sib & 7) | (rexb ? 8 : 0); if (ix != 4) a += (uptr)g[R[ix]] << sc; if ((sib & 7) == 5 && mod == 0) { a += *(int32_t *)pc; pc += 4; } else a += g[R[ba]]; }
    else if (rm == 5 && mod == 0) { a = *(int32_t *)pc; pc += 4; rip = true; }
    else a = g[R[rm | (rexb ? 8 : 0)]];
    if (mod == 1) { a += *(int8_t *)pc; pc++; } else if (mod == 2) { a += *(int32_t *)pc; pc += 4; }
    if (rip) a += (uptr)pc + immlen;
    ea = a; sz = byteop ? 1 : rexw ? 8 : op16 ? 2 : 4; return true;
}
static void prot(bool on) { for (auto &r : E->regions) mprotect((void *)r.first, 4096, on ? PROT_NONE : PROT_READ | PROT_WRITE); }
static bool protect_on;
static void sigsegv(int, siginfo_t *si, void *uc_) {
    ucontext_t *uc = (ucontext_t *)uc_; uptr a = (uptr)si->si_addr; bool mine = false;
    if (E && E->on && protect_on) for (auto &r : E->regions) if (a >= r.first && a < r.first + 4096) mine = true;
    if (!mine) { signal(SIGSEGV, SIG_DFL); return; }
    McEngine eng; pt("access to the shared word");
    int id = E->cur; auto &p = pend[id]; p.act = false; prot(false); uptr ea; size_t sz;
    if (rmw((const u8 *)uc->uc_mcontext.gregs[REG_RIP], uc->uc_mcontext.gregs, ea, sz)) for (auto &r : E->regions) if (ea + sz > r.first && ea < r.first + r.second) { p.act = true; p.a = ea; p.n = sz; memcpy(p.old, (void *)ea, sz); }
    uc->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
static void sigtrap(int, siginfo_t *, void *uc_) {
    ucontext_t *uc = (ucontext_t *)uc_; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100; if (!E || !E->on || !protect_on) return;
    McEngine eng; auto &p = pend[E->cur];
    if (p.act) { // the instruction just executed was an unlocked read-modify-write: hold its store back, let others run, then store
        p.act = false; u8 nw[16]; memcpy(nw, (void *)p.a, p.n); memcpy((void *)p.a, p.old, p.n); prot(true);
        uptr a = p.a; size_t n = p.n; pt("between load and store of one unlocked instruction"); prot(false); memcpy((void *)a, nw, n);
    }
    prot(true);
}
void *step_page() { static char *pg; McEngine e; if (!pg) pg = (char *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (mprotect(pg, 4096, PROT_READ | PROT_WRITE)) {} 
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = sigsegv; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, 0); return pg; }
void step_region(void *p, size_t n) { McEngine e; E->regions.push_back({(uptr)p, n}); }
void step_begin() { McEngine e; protect_on = true; prot(true); }
void step_end() { McEngine e; protect_on = false; prot(false); }
} // namespace sched
using namespace sched;

// ---- interposed allocation ----
#define RA ((uptr)__builtin_return_address(0))
extern "C" { void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { void *p = do_alloc(n); return p ? p : __real_malloc(n); }
void __wrap_free(void *p) { if (p && do_free(p, RA)) return; __real_free(p); }
void *__wrap_calloc(size_t a, size_t b) { void *p = do_alloc(a * b); if (p) { memset(p, 0, a * b); return p; } return __real_calloc(a, b); }
void *__wrap_realloc(void *q, size_t n) { if (!arena_now() && !in_arena(q)) return __real_realloc(q, n); void *p = __wrap_malloc(n); if (q) { size_t o = in_arena(q) ? *(u64 *)((char *)q - 8) : malloc_usable_size(q); memcpy(p, q, std::min(o, n)); __wrap_free(q); } return p; }
}
void *operator new(size_t n) { void *p = do_alloc(n); if (!p) p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = do_alloc(n); if (!p) p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { if (p && do_free(p, RA)) return; __real_free(p); }
void operator delete[](void *p) noexcept { if (p && do_free(p, RA)) return; __real_free(p); }
void operator delete(void *p, size_t) noexcept { if (p && do_free(p, RA)) return; __real_free(p); }
void operator delete[](void *p, size_t) noexcept { if (p && do_free(p, RA)) return; __real_free(p); }

// ---- interposed pthread ----
static void *realsym(const char *n) { McEngine e; return dlsym(RTLD_NEXT, n); }
#define REAL(name) ([]() -> decltype(&name) { static void *p; if (!p) p = realsym(#name); return (decltype(&name))p; }())
static Mtx &mx(pthread_mutex_t *m) { auto it = E->mtx.find((uptr)m); if (it == E->mtx.end()) { Mtx &x = E->mtx[(uptr)m]; x.kind = m->__data.__kind & 3; return x; } return it->second; }
static void mirror(pthread_mutex_t *m, Mtx &x) { m->__data.__lock = x.owner >= 0 ? 1 : 0; m->__data.__owner = x.owner >= 0 ? x.owner + 1 : 0; m->__data.__count = x.depth > 1 ? x.depth - 1 : 0; }
static void acq(pthread_mutex_t *m, Mtx &x) { x.owner = E->cur; x.depth = 1; vjoin(me().vc, x.s.vc); mirror(m, x); }
static void dead_mutex(Mtx &x, const char *w) { if (!x.init) die("mutex used after destroy", w); }
extern "C" {
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) noexcept {
    if (!active()) return REAL(pthread_mutex_init)(m, a); McEngine e; memset(m, 0, sizeof *m); int k = 0; if (a) pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; Mtx x; x.kind = k; E->mtx[(uptr)m] = x; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) noexcept {
    if (!active()) return REAL(pthread_mutex_destroy)(m); McEngine e; pt("mutex destroy"); Mtx &x = mx(m); dead_mutex(x, "destroy"); if (x.owner >= 0) return EBUSY; x.init = false; return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    if (!active()) return REAL(pthread_mutex_lock)(m); McEngine e; pt("mutex lock"); Mtx *x = &mx(m); dead_mutex(*x, "lock");
    if (x->owner == E->cur) { if (x->kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; if (x->kind == PTHREAD_MUTEX_RECURSIVE) { x->depth++; return 0; } }
    while (x->owner >= 0) { block([x] { return x->owner < 0; }); }
    acq(m, *x); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
    if (!active()) return REAL(pthread_mutex_trylock)(m); McEngine e; pt("mutex trylock"); Mtx &x = mx(m); dead_mutex(x, "trylock");
    if (x.owner == E->cur && x.kind == PTHREAD_MUTEX_RECURSIVE) { x.depth++; return 0; } if (x.owner >= 0) return EBUSY; acq(m, x); return 0; }
static int mtimed(pthread_mutex_t *m, const struct timespec *ts) {
    pt("mutex timedlock"); Mtx *x = &mx(m); dead_mutex(*x, "timedlock");
    if (x->owner == E->cur && x->kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; if (x->owner == E->cur && x->kind == PTHREAD_MUTEX_RECURSIVE) { x->depth++; return 0; }
    while (x->owner >= 0) { if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL; u64 d = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec; if (E->clock >= d) return ETIMEDOUT; block([x] { return x->owner < 0; }, true, d); if (me().timedout) { me().timedout = false; if (x->owner >= 0) return ETIMEDOUT; } }
    acq(m, *x); return 0; }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) noexcept { if (!active()) return REAL(pthread_mutex_timedlock)(m, ts); McEngine e; return mtimed(m, ts); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) noexcept { if (!active()) return REAL(pthread_mutex_clocklock)(m, c, ts); McEngine e; return mtimed(m, ts); }
static int munlk(pthread_mutex_t *m) {
    Mtx &x = mx(m); dead_mutex(x, "unlock"); if (x.owner != E->cur) { if (x.kind == PTHREAD_MUTEX_ERRORCHECK || x.kind == PTHREAD_MUTEX_RECURSIVE) return EPERM; die("unlock of a mutex not held", fmt("by thread %d, held by %d", E->cur, x.owner)); }
    if (--x.depth > 0) return 0; x.owner = -1; vjoin(x.s.vc, me().vc); tick(); mirror(m, x); return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { if (!active()) return REAL(pthread_mutex_unlock)(m); McEngine e; pt("mutex unlock"); return munlk(m); }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) noexcept { if (!active()) return REAL(pthread_cond_init)(c, a); McEngine e; memset(c, 0, sizeof *c); E->cond[(uptr)c] = Cond(); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) noexcept { if (!active()) return REAL(pthread_cond_destroy)(c); McEngine e; pt("cond destroy"); if (!E->cond[(uptr)c].waiters.empty()) die("condition destroyed with waiters", ""); E->cond.erase((uptr)c); return 0; }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    if (ts && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)) return EINVAL;
    pt(ts ? "cond timedwait" : "cond wait"); Mtx *x = &mx(m); if (x->owner != E->cur) { if (x->kind == PTHREAD_MUTEX_ERRORCHECK) return EPERM; die("condition wait without holding the mutex", ""); }
    u64 d = ts ? (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec : 0; int id = E->cur; Cond *q = &E->cond[(uptr)c];
    bool already = ts && E->clock >= d;
    int r = munlk(m); if (r) return r; bool tmo = false;
    if (already) tmo = true;
    else if (E->spurious < E->o.spurious && mc::choose(2)) { E->spurious++; if (mc::tracing()) mc::note("thread %d: spurious wakeup", id); schedule(true, true); }
    else {
        q->waiters.push_back(id);
        block([q, id] { return std::find(q->waiters.begin(), q->waiters.end(), id) == q->waiters.end(); }, ts != nullptr, d);
        auto it = std::find(q->waiters.begin(), q->waiters.end(), id); if (it != q->waiters.end()) { q->waiters.erase(it); tmo = true; } me().timedout = false;
    }
    while (x->owner >= 0) block([x] { return x->owner < 0; });
    acq(m, *x); return tmo ? ETIMEDOUT : 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!active()) return REAL(pthread_cond_wait)(c, m); McEngine e; return cwait(c, m, nullptr); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { if (!active()) return REAL(pthread_cond_timedwait)(c, m, ts); McEngine e; return cwait(c, m, ts); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { if (!active()) return REAL(pthread_cond_clockwait)(c, m, k, ts); McEngine e; return cwait(c, m, ts); }
int pthread_cond_signal(pthread_cond_t *c) noexcept { if (!active()) return REAL(pthread_cond_signal)(c); McEngine e; pt("cond signal"); Cond &q = E->cond[(uptr)c]; if (!q.waiters.empty()) { int k = mc::choose((int)q.waiters.size()); q.waiters.erase(q.waiters.begin() + k); } return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) noexcept { if (!active()) return REAL(pthread_cond_broadcast)(c); McEngine e; pt("cond broadcast"); E->cond[(uptr)c].waiters.clear(); return 0; }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) noexcept {
    if (!active()) return REAL(pthread_create)(t, a, fn, arg); McEngine e; int id = newthread(nullptr, fn, arg); int ds = PTHREAD_CREATE_JOINABLE; if (a) pthread_attr_getdetachstate(a, &ds); E->t[id].detached = ds == PTHREAD_CREATE_DETACHED;
    { int d = mc_engine_depth; mc_engine_depth = 0; *t = (pthread_t)(id + 1); mc_engine_depth = d; } pt("thread create"); return 0; }
int pthread_join(pthread_t t, void **r) { if (!active()) return REAL(pthread_join)(t, r); McEngine e; int id = (int)t - 1; if (id < 0 || id >= (int)E->t.size() || E->t[id].joined) return ESRCH; if (E->t[id].detached) return EINVAL; if (id == E->cur) return EDEADLK; dojoin(id); if (r) *r = E->t[id].ret; return 0; }
int pthread_detach(pthread_t t) noexcept { if (!active()) return REAL(pthread_detach)(t); McEngine e; int id = (int)t - 1; if (id < 0 || id >= (int)E->t.size()) return ESRCH; if (E->t[id].detached) return EINVAL; E->t[id].detached = true; return 0; }
pthread_t pthread_self() noexcept { if (!active()) return REAL(pthread_self)(); return (pthread_t)(E->cur + 1); }
void pthread_exit(void *r) { if (!active()) { REAL(pthread_exit)(r); } throw ExitThread{r}; }
int pthread_kill(pthread_t t, int s) noexcept { if (!active()) return REAL(pthread_kill)(t, s); McEngine e; pt("kill"); int id = (int)t - 1; if (id < 0 || id >= (int)E->t.size()) return ESRCH; if (s < 0 || s > 64) return EINVAL; if (E->t[id].st == DONE) return E->t[id].joined || E->t[id].detached ? ESRCH : 0; if (s) E->t[id].pendingsig = s; return 0; }
int pthread_sigmask(int how, const sigset_t *s, sigset_t *o) noexcept { if (!active()) return REAL(pthread_sigmask)(how, s, o); McEngine e; sigset_t &m = me().mask; if (o) *o = m; if (s) for (int i = 1; i < 65; i++) { bool in = sigismember(s, i) == 1; if (how == SIG_BLOCK) { if (in) sigaddset(&m, i); } else if (how == SIG_UNBLOCK) { if (in) sigdelset(&m, i); } else { if (in) sigaddset(&m, i); else sigdelset(&m, i); } } return 0; }
int pthread_key_create(pthread_key_t *k, void (*d)(void *)) noexcept { if (!active()) return REAL(pthread_key_create)(k, d); McEngine e; *k = 1000000 + E->nextkey++; E->keydtor[*k] = d; return 0; }
void *pthread_getspecific(pthread_key_t k) noexcept { if (!active() || k < 1000000) return REAL(pthread_getspecific)(k); McEngine e; auto it = me().tsd.find(k); return it == me().tsd.end() ? nullptr : it->second; }
int pthread_setspecific(pthread_key_t k, const void *v) noexcept { if (!active() || k < 1000000) return REAL(pthread_setspecific)(k, v); McEngine e; me().tsd[k] = (void *)v; return 0; }
int pthread_once(pthread_once_t *o, void (*f)(void)) { if (!active()) return REAL(pthread_once)(o, f);
    { McEngine e; pt("once"); for (;;) { int &g = E->guard[(uptr)o]; if (g == -1) { vjoin(me().vc, E->sync[(uptr)o].vc); return 0; } if (g == 0) { g = E->cur + 2; break; } int *pg = &g; block([pg] { return *pg <= 0; }); } }
    f(); McEngine e; vjoin(E->sync[(uptr)o].vc, me().vc); tick(); E->guard[(uptr)o] = -1; return 0; }
int sched_yield() noexcept { if (!active()) return REAL(sched_yield)(); McEngine e; schedule(true, true); return 0; }
int usleep(useconds_t u) { if (!active()) return REAL(usleep)(u); McEngine e; schedule(true, true); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (!active()) return REAL(nanosleep)(a, b); McEngine e; schedule(true, true); return 0; }
int clock_gettime(clockid_t c, struct timespec *t) noexcept { if (!active()) return REAL(clock_gettime)(c, t); t->tv_sec = E->clock / 1000000000ull; t->tv_nsec = E->clock % 1000000000ull; return 0; }
// static-local guards
int __cxa_guard_acquire(long long *g) {
    u8 *b = (u8 *)g; if (!active()) { if (*b) return 0; return 1; }
    McEngine e; pt("static guard"); for (;;) { if (*b) { vjoin(me().vc, E->sync[(uptr)g].vc); return 0; } int &st = E->guard[(uptr)g]; if (st == 0) { st = E->cur + 2; return 1; } if (st == E->cur + 2) die("recursive static initialisation", ""); int *ps = &st; block([ps] { return *ps == 0; }); } }
void __cxa_guard_release(long long *g) { u8 *b = (u8 *)g; if (!active()) { *b = 1; return; } McEngine e; *b = 1; vjoin(E->sync[(uptr)g].vc, me().vc); tick(); E->guard[(uptr)g] = 0; pt("static guard release"); }
void __cxa_guard_abort(long long *g) { if (!active()) return; McEngine e; E->guard[(uptr)g] = 0; }
// ---- compiler instrumentation ----
#define ACC(n, w) if (active()) access((uptr)p, n, w, RA)
void __tsan_init() { g_instr = true; } void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { ACC(n, false); } void __tsan_write##n(void *p) { ACC(n, true); } void __tsan_unaligned_read##n(void *p) { ACC(n, false); } void __tsan_unaligned_write##n(void *p) { ACC(n, true); } \
  void __tsan_volatile_read##n(void *p) { ACC(n, false); } void __tsan_volatile_write##n(void *p) { ACC(n, true); } void __tsan_unaligned_volatile_read##n(void *p) { ACC(n, false); } void __tsan_unaligned_volatile_write##n(void *p) { ACC(n, true); } \
  void __tsan_read_write##n(void *p) { ACC(n, true); } void __tsan_unaligned_read_write##n(void *p) { ACC(n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { ACC(n, false); } void __tsan_write_range(void *p, size_t n) { ACC(n, true); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) ACC(8, true); } void __tsan_vptr_read(void **p) { ACC(8, false); }
static void atom(uptr a, size_t n, bool w, bool acquire, bool release, uptr pc) { if (!active()) return; McEngine e; pt("atomic operation"); Sync &s = E->sync[a]; access(a, n, w, pc, true); if (acquire) vjoin(me().vc, s.vc); if (release) { vjoin(s.vc, me().vc); tick(); } }
static bool isacq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; } static bool isrel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T *a, int mo) { atom((uptr)a, sizeof(T), false, isacq(mo), false, RA); return *a; } \
 void __tsan_atomic##b##_store(volatile T *a, T v, int mo) { atom((uptr)a, sizeof(T), true, false, isrel(mo), RA); *a = v; } \
 T __tsan_atomic##b##_exchange(volatile T *a, T v, int mo) { atom((uptr)a, sizeof(T), true, isacq(mo), isrel(mo), RA); T o = *a; *a = v; return o; } \
 T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int mo) { atom((uptr)a, sizeof(T), true, isacq(mo), isrel(mo), RA); T o = *a; *a = o + v; return o; } \
 T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int mo) { atom((uptr)a, sizeof(T), true, isacq(mo), isrel(mo), RA); T o = *a; *a = o - v; return o; } \
 T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int mo) { atom((uptr)a, sizeof(T), true, isacq(mo), isrel(mo), RA); T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int mo) { atom((uptr)a, sizeof(T), true, isacq(mo), isrel(mo), RA); T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int mo) { atom((uptr)a, sizeof(T), true, isacq(mo), isrel(mo), RA); T o = *a; *a = o ^ v; return o; } \
 T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int mo) { atom((uptr)a, sizeof(T), true, isacq(mo), isrel(mo), RA); T o = *a; *a = ~(o & v); return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int) { atom((uptr)a, sizeof(T), true, isacq(mo), isrel(mo), RA); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int) { atom((uptr)a, sizeof(T), true, isacq(mo), isrel(mo), RA); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int mo, int) { atom((uptr)a, sizeof(T), true, isacq(mo), isrel(mo), RA); T o = *a; if (o == c) *a = v; return o; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) { if (active()) { McEngine e; pt("fence"); } } void __tsan_atomic_signal_fence(int) {}
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (active() && n) { access((uptr)s, n, false, RA); access((uptr)d, n, true, RA); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (active() && n) { access((uptr)s, n, false, RA); access((uptr)d, n, true, RA); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (active() && n) access((uptr)d, n, true, RA); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (active() && n) { access((uptr)a, n, false, RA); access((uptr)b, n, false, RA); } return __real_memcmp(a, b, n); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return __wrap_memcpy(d, s, n); } void *__tsan_memmove(void *d, const void *s, size_t n) { return __wrap_memmove(d, s, n); } void *__tsan_memset(void *d, int c, size_t n) { return __wrap_memset(d, c, n); }
} // extern C
// boost thread-specific pointers, one set of values per coroutine
namespace boost { namespace detail { namespace thread { typedef void (*cleanup_func_t)(void *); typedef void (*cleanup_caller_t)(cleanup_func_t, void *); }
static std::map<const void *, void *> &btss0() { static std::map<const void *, void *> &m = *new std::map<const void *, void *>; return m; }
void set_tss_data(void const *key, thread::cleanup_caller_t c, thread::cleanup_func_t f, void *d, bool cleanup) {
    struct Ent { thread::cleanup_caller_t c; thread::cleanup_func_t f; void *d; }; Ent old = {0, 0, 0};
    { McEngine e; auto &m = (E && E->on) ? me().btss : btss0(); auto it = m.find(key); if (it != m.end()) { old = *(Ent *)it->second; delete (Ent *)it->second; m.erase(it); } if (f && d) m[key] = new Ent{c, f, d}; }
    if (cleanup && old.d && old.f) old.c(old.f, old.d);
}
void *get_tss_data(void const *key) { McEngine e; auto &m = (E && E->on) ? me().btss : btss0(); auto it = m.find(key); if (it == m.end()) return nullptr; struct Ent { void *c, *f, *d; }; return ((Ent *)it->second)->d; }
}}
