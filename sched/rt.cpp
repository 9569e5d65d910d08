#include "vs.h"
#include "vf.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
extern char __libc_single_threaded;
extern char __executable_start, etext;
void vs_switch(void** save, void* load);
void vs_entry_thunk();
}
asm(R"(
.text
.globl vs_switch
.type vs_switch,@function
vs_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vs_switch,.-vs_switch
.globl vs_entry_thunk
.type vs_entry_thunk,@function
vs_entry_thunk:
  .cfi_startproc
  .cfi_undefined rip
  movq %r12, %rdi
  xorl %ebp, %ebp
  call vs_fiber_main
  ud2
  .cfi_endproc
.size vs_entry_thunk,.-vs_entry_thunk
)");

namespace vs {
namespace {
constexpr int MAXT = 16;
using u64 = std::uint64_t; using u32 = std::uint32_t; using u8 = std::uint8_t;

template <class T> struct lalloc {  // the engine's own memory never goes through the quarantine
    using value_type = T;
    lalloc() = default;
    template <class U> lalloc(lalloc<U> const&) {}
    T* allocate(size_t n) { return static_cast<T*>(__libc_malloc(n * sizeof(T))); }
    void deallocate(T* p, size_t) { __libc_free(p); }
    template <class U> bool operator==(lalloc<U> const&) const { return true; }
    template <class U> bool operator!=(lalloc<U> const&) const { return false; }
};
template <class T> using vec = std::vector<T, lalloc<T>>;
template <class K, class V> using hmap = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, lalloc<std::pair<K const, V>>>;
using lstring = std::basic_string<char, std::char_traits<char>, lalloc<char>>;

struct VC { u32 c[MAXT]{}; void join(VC const& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } void clear() { memset(c, 0, sizeof c); } };

enum Op { OP_START, OP_LOCK, OP_TRYLOCK, OP_UNLOCK, OP_COND_WAIT, OP_COND_REACQ, OP_SIGNAL, OP_BROADCAST, OP_RD, OP_WR, OP_RWUN, OP_JOIN, OP_YIELD,
    OP_SLEEP, OP_LOAD, OP_STORE, OP_RMW, OP_CAS, OP_FENCE, OP_ONCE, OP_QUIESCE, OP_POINT, OP_CREATE, OP_CHOOSE, OP_TIMEOUT, OP_SPURIOUS, OP_END, OP_FREE };
char const* opname[] = {"start", "lock", "trylock", "unlock", "cond_wait", "cond_wake", "notify_one", "notify_all", "rdlock", "wrlock", "rwunlock", "join", "yield",
    "sleep", "load", "store", "rmw", "cas", "fence", "once", "quiescent", "point", "create", "choose", "TIMEOUT", "SPURIOUS", "end", "free"};

struct Mutex { int owner{-1}; int count{0}; VC vc; };
struct RW { int writer{-1}; int readers{0}; int rd[MAXT]{}; VC wvc, rvc; };
struct Cond { vec<int> waiters; VC vc; };
struct Once { int state{0}; VC vc; };
struct Atom { VC rel; };

struct Fiber {
    void* sp{};
    char* stack{};
    int id{};
    bool finished{false}, started{false}, detached{false};
    void* (*fn)(void*){};
    void* arg{}; void* ret{};
    Op op{OP_START}; void const* obj{}; void const* obj2{};
    bool notified{false}, timed{false}, timed_out{false};
    u64 deadline{};
    int join_target{-1};
    VC vc, fence_rel, fence_acq;
    u64 h{0};            // hash of this thread's last event with everything it depends on
    // fairness
    u32 waitmask{0};     // must not run until these threads have moved or cannot
    struct { void const* a; u64 v; int n; } spin[8]; int nspin{0};
    u64 clk_seen{0}; int clk_n{0};
    char eh[16]{};
    char* tls{};
};
struct Rec { u32 clk; u8 tid, mask, w, at; void const* pc; };
struct Cell { u64 key; u32 gen; u8 n; u8 freed; Rec r[6]; };

struct Opt { int fiber; u8 kind; u8 cost; };   // kind 0: run, 1: timeout, 2: spurious, 3: choose value
struct Node { u32 n; u32 idx; int used; u8 cost[40]; };
struct Ev { u8 tid; u8 op; void const* obj; void const* pc; u64 v; };

bool g_active = false;        // inside an execution
void* g_tp{};                 // thread pointer of the exploring thread
int g_quiet = 0;
Fiber g_f[MAXT]; int g_nf = 0; int g_cur = 0;
void* g_root_sp{};
options g_opt;
std::function<void()> const* g_body{};
std::string g_name;
vec<Node> g_stack; size_t g_depth = 0; int g_used = 0;
hmap<void const*, Mutex> g_mtx; hmap<void const*, RW> g_rw; hmap<void const*, Cond> g_cv; hmap<void const*, Once> g_once; hmap<void const*, Atom> g_atom;
// the locks behind std::atomic_load/store/... of shared_ptr, one per pointer object
std::map<void const*, int> g_splk; pthread_mutex_t g_splm[64];
VC g_sc;
vec<Ev> g_trace; lstring g_log;
std::string g_hist;
u64 g_steps = 0, g_clock = 0;
u64 const clock_base = 1700000000ull * 1000000000ull;
Cell* g_cells{}; size_t g_ncell = 1 << 15, g_usedcell = 0; u32 g_gen = 1;
struct Q { void* p; };
vec<Q> g_quar;
char* g_tls_base{}; size_t g_tls_size{}; char* g_tls_init{}; size_t g_tls_filesz{}; char* g_root_tls{};
char g_root_eh[16];
constexpr size_t STK = 1 << 18;
bool g_abort_exec = false;
// Fingerprint of the partial order of synchronisation events. Two schedule prefixes with the same partial order lead to
// the same state (the code is race-free, or the race is reported), so a decision point reached again with no more
// deviations left than before needs no further exploration.
struct ObjH { u64 lastw{0}, reads{0}; };
hmap<void const*, ObjH> g_objh;
hmap<u64, u8> g_seen;
hmap<u64, u8> g_final;
u64 g_distinct = 0;
u64 g_fp = 0; bool g_pruned = false; u64 g_prunes = 0;
inline u64 mix(u64 a, u64 b) { u64 x = a * 0x9E3779B97F4A7C15ull + b + 0x165667B19E3779F9ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return x; }

inline bool modelled() { return g_active && !g_quiet && __builtin_thread_pointer() == g_tp; }
inline bool on_engine() { return g_active && __builtin_thread_pointer() == g_tp; }
inline bool from_exe(void const* pc) { return pc >= (void const*)&__executable_start && pc < (void const*)&etext; }

struct q { q() { ++g_quiet; } ~q() { --g_quiet; } };

std::string sym(void const* pc) {
    char cmd[256]; char exe[200]{};
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); (void)n;
    snprintf(cmd, sizeof cmd, "addr2line -i -C -f -p -s -e '%s' %p 2>/dev/null | head -4", exe, (char const*)pc - 1);
    std::string o;
    if (FILE* f = popen(cmd, "r")) { char b[400]; while (fgets(b, sizeof b, f)) { std::string s(b); while (!s.empty() && s.back() == '\n') s.pop_back(); if (!o.empty()) o += " | "; o += s; } pclose(f); }
    return o;
}
std::string render_trace() {
    std::string o = "schedule (" + g_name + "), thread op object location:\n";
    std::map<void const*, int> ids; std::map<void const*, std::string> syms;
    size_t from = g_trace.size() > 400 ? g_trace.size() - 400 : 0;
    for (size_t i = from; i < g_trace.size(); ++i) {
        auto& e = g_trace[i];
        int id = 0; if (e.obj) { auto it = ids.emplace(e.obj, (int)ids.size() + 1).first; id = it->second; }
        if (!syms.count(e.pc) && syms.size() < 80) syms[e.pc] = e.pc ? sym(e.pc) : "";
        char b[160]; snprintf(b, sizeof b, "  T%d %-10s #%d v=%llu ", e.tid, opname[e.op], id, (unsigned long long)e.v);
        o += b; o += syms.count(e.pc) ? syms[e.pc] : ""; o += "\n";
    }
    o += "log: "; o += std::string(g_log.begin(), g_log.end()); o += "\n";
    return o;
}
void engine_fail(std::string const& key, std::string const& detail) {
    q x;
    std::string d = detail + "\n" + render_trace();
    bool a = g_active; g_active = false;  // popen and files below run natively
    vf::violation(key, d);
    g_active = a;
}
void switch_to_root();
void abandon() {   // a known finding ended this execution: drop it
    g_abort_exec = true;
    switch_to_root();
}

// ---------- shadow memory
void grow();
Cell& cell(u64 key) {
    size_t h = (key * 0x9E3779B97F4A7C15ull) >> 20;
    for (;; ++h) {
        Cell& c = g_cells[h & (g_ncell - 1)];
        if (c.gen != g_gen) { c.gen = g_gen; c.key = key; c.n = 0; c.freed = 0; if (++g_usedcell * 2 > g_ncell) { grow(); return cell(key); } return c; }
        if (c.key == key) return c;
    }
}
Cell* find(u64 key) {
    size_t h = (key * 0x9E3779B97F4A7C15ull) >> 20;
    for (;; ++h) { Cell& c = g_cells[h & (g_ncell - 1)]; if (c.gen != g_gen) return nullptr; if (c.key == key) return &c; }
}
void grow() {
    Cell* o = g_cells; size_t n = g_ncell;
    g_ncell *= 2; g_cells = static_cast<Cell*>(__libc_calloc(g_ncell, sizeof(Cell))); g_usedcell = 0;
    for (size_t i = 0; i < n; ++i) if (o[i].gen == g_gen) { Cell& c = cell(o[i].key); c = o[i]; }
    __libc_free(o);
}
void access1(u64 gran, u8 mask, bool w, bool at, void const* pc) {
    Fiber& f = g_f[g_cur];
    Cell& c = cell(gran);
    if (c.freed & mask) {
        q x; engine_fail("use-after-free", vf::strf("T%d %s memory that was freed: %p at ", g_cur, w ? "writes" : "reads", (void*)(gran << 3)) + sym(pc));
        return;
    }
    u32 clk = f.vc.c[g_cur];
    for (int i = 0; i < c.n; ++i) {
        Rec& r = c.r[i];
        if (!(r.mask & mask)) continue;
        if (r.tid == g_cur) { if (r.clk == clk && (r.mask & mask) == mask && r.at == at && (r.w || !w)) return; continue; }
        if ((r.w || w) && !(r.at && at) && r.clk > f.vc.c[r.tid]) {
            q x;
            if (g_opt.races) {
                engine_fail("data-race", vf::strf("T%d %s %p (%s) at ", g_cur, w ? "writes" : "reads", (void*)(gran << 3), at ? "atomic" : "plain") + sym(pc) +
                    vf::strf("\n  unordered with T%d %s (%s) at ", (int)r.tid, r.w ? "write" : "read", r.at ? "atomic" : "plain") + sym(r.pc));
                return;
            }
        }
    }
    int k = 0;
    for (int i = 0; i < c.n; ++i) {
        Rec& r = c.r[i];
        bool drop = (r.mask & ~mask) == 0 && ((r.tid == g_cur && (w || !r.w) && (r.at == at)) || (w && !at && r.tid != g_cur) );
        if (!drop) { if (k != i) c.r[k] = r; ++k; }
    }
    if (k == 6) { for (int i = 1; i < 6; ++i) c.r[i - 1] = c.r[i]; k = 5; }
    c.r[k] = Rec{clk, (u8)g_cur, mask, (u8)w, (u8)at, pc};
    c.n = (u8)(k + 1);
}
void access(void const* p, size_t n, bool w, bool at, void const* pc) {
    u64 a = (u64)p;
    if (a >= (u64)g_tls_base && a < (u64)g_tls_base + g_tls_size) return;
    while (n) {
        u64 g = a >> 3; unsigned off = a & 7; unsigned len = (unsigned)std::min<size_t>(n, 8 - off);
        access1(g, (u8)(((1u << len) - 1) << off), w, at, pc);
        a += len; n -= len;
    }
}
void touch(void const* p, void const* pc) {   // a synchronisation object must still be alive
    Cell* c = find((u64)p >> 3);
    if (c && c->freed) engine_fail("use-after-free", vf::strf("T%d uses a synchronisation object in freed memory at ", g_cur) + sym(pc));
}

// ---------- scheduling
void dep(int tid, int op, void const* obj, bool write);
bool enabled_run(Fiber& f) {
    if (f.finished) return false;
    switch (f.op) {
        case OP_LOCK: { auto it = g_mtx.find(f.obj); return it == g_mtx.end() || it->second.owner < 0 || (it->second.owner == f.id && f.obj2); }
        case OP_COND_WAIT: if (!f.notified) return false; { auto it = g_mtx.find(f.obj2); return it == g_mtx.end() || it->second.owner < 0; }
        case OP_RD: { auto it = g_rw.find(f.obj); return it == g_rw.end() || it->second.writer < 0; }
        case OP_WR: { auto it = g_rw.find(f.obj); return it == g_rw.end() || (it->second.writer < 0 && it->second.readers == 0); }
        case OP_JOIN: return g_f[f.join_target].finished;
        case OP_ONCE: { auto it = g_once.find(f.obj); return it == g_once.end() || it->second.state != 1; }
        case OP_QUIESCE: return false;  // handled apart
        case OP_SLEEP: return false;    // only by timeout
        default: return true;
    }
}
bool enabled_timeout(Fiber& f) {
    if (f.finished || !f.timed || f.timed_out) return false;
    if (f.op == OP_COND_WAIT) { if (f.notified) return false; auto it = g_mtx.find(f.obj2); return it == g_mtx.end() || it->second.owner < 0; }
    if (f.op == OP_LOCK || f.op == OP_RD || f.op == OP_WR) return !enabled_run(f);
    return f.op == OP_SLEEP;
}
void swap_state_out(Fiber* f) {
    memcpy(f ? f->eh : g_root_eh, __cxxabiv1::__cxa_get_globals(), 16);
    if (g_tls_size) memcpy(f ? f->tls : g_root_tls, g_tls_base, g_tls_size);
}
void swap_state_in(Fiber* f) {
    memcpy(__cxxabiv1::__cxa_get_globals(), f ? f->eh : g_root_eh, 16);
    if (g_tls_size) memcpy(g_tls_base, f ? f->tls : g_root_tls, g_tls_size);
}
void switch_to(int t) {
    if (t == g_cur) return;
    Fiber& a = g_f[g_cur]; Fiber& b = g_f[t];
    swap_state_out(&a);
    swap_state_in(&b);
    int qsave = g_quiet;
    g_cur = t;
    vs_switch(&a.sp, b.sp);
    g_quiet = qsave;
}
void switch_to_root() {
    Fiber& a = g_f[g_cur];
    swap_state_out(&a); swap_state_in(nullptr);
    vs_switch(&a.sp, g_root_sp);
}
u32 pick(Opt const* o, u32 n) {
    if (n > 40) { fprintf(stderr, "vs: too many options\n"); _exit(95); }
    if (g_depth < g_stack.size()) {
        Node& nd = g_stack[g_depth];
        if (nd.n != n) { fprintf(stderr, "vs: nondeterministic execution of %s at depth %zu: %u options before, %u now\n%s", g_name.c_str(), g_depth, nd.n, n, render_trace().c_str()); _exit(95); }
        ++g_depth; g_used += nd.cost[nd.idx];
        return nd.idx;
    }
    if (g_pruned) { g_used += o[0].cost; return 0; }
    if (g_opt.cache) {
        u64 key = mix(g_fp, (u64)g_cur * 2 + (o[0].kind == 3));
        for (int i = 0; i < g_nf; ++i) key = mix(key, g_f[i].waitmask);
        key = mix(key, n);
        auto it = g_seen.find(key);
        if (it != g_seen.end() && it->second <= g_used) { g_pruned = true; ++g_prunes; g_used += o[0].cost; return 0; }
        if (it != g_seen.end()) it->second = (u8)g_used; else if (g_seen.size() < g_opt.cache) g_seen.emplace(key, (u8)g_used);
    }
    Node nd; nd.n = n; nd.idx = 0; nd.used = g_used;
    for (u32 i = 0; i < n; ++i) nd.cost[i] = o[i].cost;
    if (nd.cost[0] + g_used > g_opt.preempt && nd.cost[0]) { /* default options always have cost 0 */ }
    g_stack.push_back(nd); ++g_depth; ++vf::cnt.states;
    g_used += nd.cost[0];
    return 0;
}
void deadlock() {
    std::string d = "no thread can run:";
    for (int i = 0; i < g_nf; ++i) if (!g_f[i].finished) d += vf::strf(" T%d waits in %s;", i, opname[g_f[i].op]);
    engine_fail("deadlock", d);
    abandon();
}
// the current fiber has set its pending op; choose who runs next. `yielding`: leaving the current one is free.
void reschedule(bool yielding) {
    ++g_steps; ++vf::cnt.transitions;
    if ((int)g_steps > g_opt.max_steps) { engine_fail("livelock", "the threads keep running without finishing"); abandon(); }
    Opt o[48]; u32 n = 0;
    bool run[MAXT]; int nrun = 0;
    for (int i = 0; i < g_nf; ++i) { run[i] = enabled_run(g_f[i]); nrun += run[i]; }
    // fairness: a thread that yielded waits for those that could run then
    for (int i = 0; i < g_nf; ++i) if (g_f[i].waitmask) for (int j = 0; j < g_nf; ++j) if ((g_f[i].waitmask >> j & 1) && !run[j]) g_f[i].waitmask &= ~(1u << j);
    bool can[MAXT]; int ncan = 0;
    for (int i = 0; i < g_nf; ++i) { can[i] = run[i] && !g_f[i].waitmask; ncan += can[i]; }
    if (!ncan && nrun) for (int i = 0; i < g_nf; ++i) { can[i] = run[i]; ncan += can[i]; }
    int c = g_cur;
    bool cur_ok = !g_f[c].finished && can[c];
    if (cur_ok) o[n++] = Opt{c, 0, 0};
    for (int k = 1; k <= g_nf; ++k) { int i = (c + k) % g_nf; if (i != c && can[i]) o[n++] = Opt{i, 0, (u8)(cur_ok && !yielding ? 1 : 0)}; }
    bool any = n > 0;
    for (int k = 0; k < g_nf; ++k) { int i = (c + k) % g_nf; if (enabled_timeout(g_f[i])) o[n++] = Opt{i, 1, (u8)(any ? 1 : 0)}; }
    if (g_opt.spurious) for (int i = 0; i < g_nf; ++i) if (!g_f[i].finished && g_f[i].op == OP_COND_WAIT && !g_f[i].notified) { auto it = g_mtx.find(g_f[i].obj2); if (it == g_mtx.end() || it->second.owner < 0) o[n++] = Opt{i, 2, (u8)(any || n ? 1 : 1)}; }
    if (n == 0 || (n && o[0].kind == 2)) {
        for (int i = 0; i < g_nf; ++i) if (!g_f[i].finished && g_f[i].op == OP_QUIESCE) { n = 0; o[n++] = Opt{i, 0, 0}; break; }
        if (n == 0 || o[0].kind == 2) {
            bool all = true; for (int i = 0; i < g_nf; ++i) all = all && g_f[i].finished;
            if (all) { switch_to_root(); return; }
            deadlock();
        }
    }
    u32 k = n > 1 ? pick(o, n) : 0;
    Opt w = o[k];
    Fiber& f = g_f[w.fiber];
    if (w.kind == 1) { f.timed_out = true; if (f.deadline > g_clock) g_clock = f.deadline; g_trace.push_back(Ev{(u8)w.fiber, OP_TIMEOUT, f.obj, nullptr, g_clock}); dep(w.fiber, OP_TIMEOUT, &g_clock, true); dep(w.fiber, OP_TIMEOUT, f.obj, true); }
    if (w.kind == 2) { f.notified = true; auto& v = g_cv[f.obj].waiters; v.erase(std::remove(v.begin(), v.end(), w.fiber), v.end()); g_trace.push_back(Ev{(u8)w.fiber, OP_SPURIOUS, f.obj, nullptr, 0}); dep(w.fiber, OP_SPURIOUS, f.obj, true); }
    for (int i = 0; i < g_nf; ++i) g_f[i].waitmask &= ~(1u << w.fiber);
    switch_to(w.fiber);
    dep(g_cur, 99, nullptr, true);   // passed this point
}
void set_fair(Fiber& f) {
    u32 m = 0;
    for (int i = 0; i < g_nf; ++i) if (i != f.id && (enabled_run(g_f[i]))) m |= 1u << i;
    f.waitmask = m;
}
void dep(int tid, int op, void const* obj, bool write) {
    Fiber& f = g_f[tid];
    u64 h = mix(mix(f.h, (u64)op * 64 + tid), (u64)obj);
    if (obj) {
        ObjH& o = g_objh[obj];
        h = mix(h, o.lastw);
        if (write) { h = mix(h, o.reads); o.lastw = h; o.reads = 0; } else o.reads += mix(h, 1);
    }
    f.h = h; g_fp += mix(h, 2);
}
Ev& ev(Op op, void const* obj, void const* pc, u64 v = 0) {
    bool w = true;
    if (op == OP_LOAD) w = false;
    if (op == OP_CHOOSE) g_f[g_cur].h = mix(g_f[g_cur].h, v);
    if (op == OP_JOIN) g_f[g_cur].h = mix(g_f[g_cur].h, g_f[v].h);
    dep(g_cur, op, obj, w); g_trace.push_back(Ev{(u8)g_cur, (u8)op, obj, pc, v}); return g_trace.back(); }
// a scheduling point before a synchronisation operation
void sp(Op op, void const* obj, void const* pc, void const* obj2 = nullptr) {
    Fiber& f = g_f[g_cur];
    f.op = op; f.obj = obj; f.obj2 = obj2;
    reschedule(false);
    (void)pc;
}
void tick() { Fiber& f = g_f[g_cur]; ++f.vc.c[g_cur]; }
void unspin() { g_f[g_cur].nspin = 0; }
void spin_note(void const* a, u64 v) {
    Fiber& f = g_f[g_cur];
    for (int i = 0; i < f.nspin; ++i) if (f.spin[i].a == a && f.spin[i].v == v) {
        if (++f.spin[i].n >= 12) { f.nspin = 0; f.op = OP_YIELD; f.obj = nullptr; set_fair(f); reschedule(true); }
        return;
    }
    if (f.nspin < 8) { f.spin[f.nspin].a = a; f.spin[f.nspin].v = v; f.spin[f.nspin++].n = 1; } else f.nspin = 0;
}

void clock_spin() {   // a loop that only looks at the clock: let time pass
    Fiber& f = g_f[g_cur];
    if (f.clk_seen == g_clock && ++f.clk_n >= 64) { g_clock += 1000000; dep(g_cur, OP_SLEEP, &g_clock, true); f.clk_n = 0; }
    else if (f.clk_seen != g_clock) { f.clk_seen = g_clock; f.clk_n = 0; }
}
int new_fiber(void* (*fn)(void*), void* arg) {
    if (g_nf >= MAXT) { fprintf(stderr, "vs: too many threads\n"); _exit(95); }
    Fiber& f = g_f[g_nf];
    char* stk = f.stack; char* tls = f.tls; 
    f = Fiber{}; f.stack = stk; f.tls = tls;
    f.id = g_nf;
    if (!f.stack) {
        f.stack = static_cast<char*>(mmap(nullptr, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        mprotect(f.stack, 4096, PROT_NONE);
    }
    if (g_tls_size) { if (!f.tls) f.tls = static_cast<char*>(__libc_malloc(g_tls_size)); memset(f.tls, 0, g_tls_size); memcpy(f.tls, g_tls_init, g_tls_filesz); }
    f.fn = fn; f.arg = arg;
    u64* s = reinterpret_cast<u64*>(f.stack + STK + 4096 - 64);
    *--s = 0; *--s = 0;
    *--s = (u64)&vs_entry_thunk;  // return address
    *--s = 0;   // rbp
    *--s = 0;   // rbx
    *--s = (u64)&f; // r12
    *--s = 0; *--s = 0; *--s = 0; // r13 r14 r15
    f.sp = s;
    f.op = OP_START;
    return g_nf++;
}
void* body_main(void*) { (*g_body)(); return nullptr; }
void on_signal(int sig) {
    if (g_active) { ++g_quiet; std::string t = render_trace(); fprintf(stderr, "signal %d in T%d\n%s", sig, g_cur, t.c_str()); }
    signal(sig, SIG_DFL); raise(sig);
}
void setup_once() {
    static bool done = false; if (done) return; done = true;
    g_cells = static_cast<Cell*>(__libc_calloc(g_ncell, sizeof(Cell)));
    __libc_single_threaded = 0;
    g_tp = __builtin_thread_pointer();
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) -> int {
        for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) {
            g_tls_base = static_cast<char*>(i->dlpi_tls_data); g_tls_size = i->dlpi_phdr[k].p_memsz; g_tls_filesz = i->dlpi_phdr[k].p_filesz;
            g_tls_init = reinterpret_cast<char*>(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
        }
        return 1; // the first object is the executable
    }, nullptr);
    if (g_tls_size) g_root_tls = static_cast<char*>(__libc_malloc(g_tls_size));
    static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGILL, SIGFPE}) sigaction(s, &sa, nullptr);
}
void run_one() {
    g_nf = 0; g_cur = 0; g_depth = 0; g_used = 0; g_steps = 0; g_clock = clock_base; g_trace.clear(); g_log.clear();
    g_mtx.clear(); g_splk.clear(); g_rw.clear(); g_cv.clear(); g_once.clear(); g_atom.clear(); g_sc.clear();
    ++g_gen; g_usedcell = 0; g_abort_exec = false; g_objh.clear(); g_fp = 0; g_pruned = false;
    int id = new_fiber(body_main, nullptr);
    g_f[id].vc.c[id] = 1;
    g_cur = id; g_quiet = 0;
    swap_state_out(nullptr);
    swap_state_in(&g_f[id]);
    g_active = true;
    vs_switch(&g_root_sp, g_f[id].sp);
    g_active = false; g_quiet = 0;
    for (auto& x : g_quar) __libc_free(x.p);
    g_quar.clear();
}
} // namespace

extern "C" void vs_fiber_main(Fiber* f) {
    dep(f->id, 98, nullptr, true);
    g_quiet = 0;
    f->ret = f->fn(f->arg);
    ++g_quiet;
    ev(OP_END, nullptr, nullptr);
    f->finished = true;
    ++f->vc.c[f->id];
    reschedule(true);   // never comes back
    __builtin_trap();
}

std::uint64_t explore(std::string const& name, options opt, std::function<void()> const& body) {
    setup_once();
    g_opt = opt; g_body = &body; g_name = name;
    g_stack.clear(); g_seen.clear(); g_prunes = 0; g_final.clear();
    if (getenv("VS_NOCACHE")) g_opt.cache = 0;
    u64 execs = 0;
    vf::at("scenario %s (preemption bound %d)", name.c_str(), opt.preempt);
    for (;;) {
        run_one();
        if (getenv("VS_TRACE")) fprintf(stderr, "--- %lu pruned=%d\n%s", (unsigned long)execs, (int)g_pruned, render_trace().c_str());
        ++execs; vf::trace();
        if (g_final.size() < 4000000) g_final.emplace(g_fp, 1);
        vf::tick();
        if (opt.max_execs && execs >= opt.max_execs) { vf::exhaustive(false); break; }
        // next schedule
        bool more = false;
        while (!g_stack.empty()) {
            Node& n = g_stack.back();
            u32 k = n.idx + 1;
            while (k < n.n && n.used + n.cost[k] > g_opt.preempt) ++k;
            if (k < n.n) { n.idx = k; more = true; break; }
            g_stack.pop_back();
        }
        if (!more) break;
    }
    g_distinct += g_final.size(); vf::note("partial_orders", g_distinct);
    if (getenv("VS_VERBOSE")) fprintf(stderr, "%s bound %d: %lu schedules (%lu cut at a known state), %zu distinct partial orders, last %zu steps\n", name.c_str(), opt.preempt, (unsigned long)execs, (unsigned long)g_prunes, g_final.size(), (size_t)g_steps);
    return execs;
}
int choose(int n) {
    if (!on_engine() || n <= 1) return 0;
    q x; Opt o[40];
    if (n > 40) n = 40;
    for (int i = 0; i < n; ++i) o[i] = Opt{i, 3, 0};
    u32 k = pick(o, (u32)n);
    ev(OP_CHOOSE, nullptr, nullptr, k);
    return (int)k;
}
void wait_quiescent() {
    if (!modelled()) return;
    q x; Fiber& f = g_f[g_cur];
    f.op = OP_QUIESCE; f.obj = nullptr; ev(OP_QUIESCE, nullptr, __builtin_return_address(0));
    reschedule(false);
    // everything that happened so far is observed by the caller
    for (int i = 0; i < g_nf; ++i) f.h = mix(f.h, g_f[i].h);
    dep(g_cur, OP_QUIESCE, nullptr, true);
    for (int i = 0; i < g_nf; ++i) f.vc.join(g_f[i].vc);
    for (int i = 0; i < g_nf; ++i) ++g_f[i].vc.c[i];
}
int live_threads() { int n = 0; for (int i = 0; i < g_nf; ++i) n += (i != g_cur && !g_f[i].finished); return n; }
void point() { if (modelled()) { q x; sp(OP_POINT, nullptr, __builtin_return_address(0)); } }
std::uint64_t now() { return g_steps; }
std::uint64_t clock_ns() { return g_clock; }
void advance_clock(std::uint64_t ns) { g_clock += ns; if (on_engine()) { q x; dep(g_cur, OP_SLEEP, &g_clock, true); } }
void mark(void const* obj, bool write) { if (on_engine()) { q x; dep(g_cur, OP_POINT, obj, write); } }
void fail(std::string const& key, std::string const& detail) { engine_fail(key, detail); }
bool active() { return on_engine(); }
unsigned self() { return (unsigned)g_cur; }
quiet::quiet() { ++g_quiet; }
quiet::~quiet() { --g_quiet; }
std::string const& history() { g_hist.assign(g_log.begin(), g_log.end()); return g_hist; }
void log(char const* fmt, ...) {
    q x; char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    char p[16]; snprintf(p, sizeof p, "T%d:", g_cur); g_log += p; g_log += b; g_log += "; ";
}

// ---------- interposed functions
template <class F> F real(char const* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
#define PC __builtin_return_address(0)
namespace {
void acquire_mutex(void const* m, void const* pc, Op op) {
    Mutex& x = g_mtx[m];
    x.owner = g_cur; ++x.count; g_f[g_cur].vc.join(x.vc); ev(op, m, pc);
}
int do_lock(void const* m, void const* pc, bool timed, u64 deadline) {
    touch(m, pc);
    bool rec = (reinterpret_cast<pthread_mutex_t const*>(m)->__data.__kind & 3) == 1;
    Fiber& f = g_f[g_cur]; f.timed = timed; f.timed_out = false; f.deadline = deadline;
    sp(OP_LOCK, m, pc, rec ? m : nullptr);
    f.timed = false;
    if (f.timed_out) { f.timed_out = false; if (g_mtx[m].owner >= 0) { ev(OP_TIMEOUT, m, pc); return ETIMEDOUT; } }
    touch(m, pc);
    acquire_mutex(m, pc, OP_LOCK);
    return 0;
}
void do_unlock(void const* m, void const* pc) {
    Mutex& x = g_mtx[m];
    if (x.owner != g_cur) { engine_fail("bad-unlock", vf::strf("T%d unlocks a mutex it does not hold at ", g_cur) + sym(pc)); return; }
    ev(OP_UNLOCK, m, pc);
    if (--x.count == 0) { x.owner = -1; x.vc.join(g_f[g_cur].vc); tick(); }
}
int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, u64 deadline, void const* pc) {
    q z; touch(c, pc); touch(m, pc); unspin();
    Fiber& f = g_f[g_cur];
    // one scheduling point before the wait begins
    sp(OP_POINT, c, pc);
    Mutex& x = g_mtx[m];
    if (x.owner != g_cur) { engine_fail("bad-wait", "waits on a condition variable without holding the mutex"); return 0; }
    int cnt = x.count; x.count = 0; x.owner = -1; x.vc.join(f.vc); tick();
    ev(OP_COND_WAIT, c, pc); dep(g_cur, OP_UNLOCK, m, true);
    g_cv[c].waiters.push_back(g_cur);
    f.op = OP_COND_WAIT; f.obj = c; f.obj2 = m; f.notified = false; f.timed = timed; f.timed_out = false; f.deadline = deadline;
    reschedule(true);
    touch(c, pc); touch(m, pc);
    bool to = f.timed_out;
    f.timed = false; f.timed_out = false;
    if (to && !f.notified) { auto& v = g_cv[c].waiters; v.erase(std::remove(v.begin(), v.end(), g_cur), v.end()); }
    dep(g_cur, OP_COND_REACQ, c, true); acquire_mutex(m, pc, OP_COND_REACQ); g_mtx[m].count = cnt;
    return to ? ETIMEDOUT : 0;
}
u64 abs_to_virtual(timespec const* t) { return (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec; }
}
extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, pthread_mutexattr_t const* a) {
    static auto r = real<int (*)(pthread_mutex_t*, pthread_mutexattr_t const*)>("pthread_mutex_init");
    if (modelled()) { q z; g_mtx.erase(m); }
    return r(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (modelled() ) { q z; auto it = g_mtx.find(m); if (it != g_mtx.end()) { if (it->second.owner >= 0) engine_fail("destroy-locked", "a locked mutex is destroyed at " + sym(PC)); g_mtx.erase(it); } return 0; }
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (on_engine()) { if (g_quiet || !from_exe(PC)) return 0; q z; unspin(); return do_lock(m, PC, false, 0); }
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return r(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (on_engine()) { if (g_quiet || !from_exe(PC)) return 0; q z; touch(m, PC); sp(OP_TRYLOCK, m, PC);
        bool rec = (m->__data.__kind & 3) == 1; Mutex& x = g_mtx[m];
        if (x.owner >= 0 && !(rec && x.owner == g_cur)) { ev(OP_TRYLOCK, m, PC, 0); spin_note(m, 0); return EBUSY; }
        acquire_mutex(m, PC, OP_TRYLOCK); return 0; }
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return r(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (on_engine()) { if (g_quiet || !from_exe(PC)) return 0; q z; touch(m, PC); if (g_opt.unlock_points) { sp(OP_UNLOCK, m, PC); touch(m, PC); } do_unlock(m, PC); return 0; }
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return r(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, timespec const* t) {
    if (on_engine()) { if (g_quiet || !from_exe(PC)) return 0; q z; return do_lock(m, PC, true, abs_to_virtual(t)); }
    static auto r = real<int (*)(pthread_mutex_t*, timespec const*)>("pthread_mutex_timedlock"); return r(m, t);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, timespec const* t) {
    if (on_engine()) { if (g_quiet || !from_exe(PC)) return 0; q z; return do_lock(m, PC, true, abs_to_virtual(t)); }
    static auto r = real<int (*)(pthread_mutex_t*, clockid_t, timespec const*)>("pthread_mutex_clocklock"); return r(m, c, t);
}
int pthread_cond_init(pthread_cond_t* c, pthread_condattr_t const* a) {
    if (on_engine()) { q z; g_cv.erase(c); }
    static auto r = real<int (*)(pthread_cond_t*, pthread_condattr_t const*)>("pthread_cond_init"); return r(c, a);
}
int pthread_cond_destroy(pthread_cond_t* c) {
    if (on_engine()) { q z; auto it = g_cv.find(c); if (it != g_cv.end()) { if (!it->second.waiters.empty()) engine_fail("destroy-waited", "a condition variable with waiters is destroyed"); g_cv.erase(it); } }
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (modelled()) return cond_wait(c, m, false, 0, PC);
    static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return r(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* t) {
    if (modelled()) return cond_wait(c, m, true, abs_to_virtual(t), PC);
    static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, timespec const*)>("pthread_cond_timedwait"); return r(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, timespec const* t) {
    if (modelled()) return cond_wait(c, m, true, abs_to_virtual(t), PC);
    static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, timespec const*)>("pthread_cond_clockwait"); return r(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (on_engine()) {
        if (g_quiet) return 0;
        q z; unspin(); touch(c, PC); sp(OP_SIGNAL, c, PC); touch(c, PC);
        auto& v = g_cv[c].waiters;
        ev(OP_SIGNAL, c, PC, v.size());
        if (!v.empty()) { int k = choose((int)v.size()); int t = v[k]; v.erase(v.begin() + k); g_f[t].notified = true; }
        return 0;
    }
    static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_signal"); return r(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (on_engine()) {
        if (g_quiet) return 0;
        q z; unspin(); touch(c, PC); sp(OP_BROADCAST, c, PC); touch(c, PC);
        auto& v = g_cv[c].waiters;
        ev(OP_BROADCAST, c, PC, v.size());
        for (int t : v) g_f[t].notified = true;
        v.clear();
        return 0;
    }
    static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); return r(c);
}
// reader/writer locks
static int rw_rd(pthread_rwlock_t* l, void const* pc, bool tr, bool timed = false, u64 dl = 0) {
    q z; touch(l, pc); unspin(); Fiber& f = g_f[g_cur]; f.timed = timed; f.timed_out = false; f.deadline = dl;
    sp(tr ? OP_TRYLOCK : OP_RD, l, pc); f.timed = false; bool to = f.timed_out; f.timed_out = false;
    RW& x = g_rw[l];
    if (x.writer >= 0) { if (x.writer == g_cur && !tr) return EDEADLK; return to ? ETIMEDOUT : EBUSY; }
    ++x.readers; ++x.rd[g_cur]; f.vc.join(x.wvc); ev(OP_RD, l, pc); return 0;
}
static int rw_wr(pthread_rwlock_t* l, void const* pc, bool tr, bool timed = false, u64 dl = 0) {
    q z; touch(l, pc); unspin(); Fiber& f = g_f[g_cur]; f.timed = timed; f.timed_out = false; f.deadline = dl;
    sp(tr ? OP_TRYLOCK : OP_WR, l, pc); f.timed = false; bool to = f.timed_out; f.timed_out = false;
    RW& x = g_rw[l];
    if (x.writer >= 0 || x.readers) return to ? ETIMEDOUT : EBUSY;
    x.writer = g_cur; f.vc.join(x.wvc); f.vc.join(x.rvc); ev(OP_WR, l, pc); return 0;
}
#define RWF(name, args, call, passthru) int name args { if (on_engine()) { if (g_quiet || !from_exe(PC)) return 0; return call; } static auto r = real<int (*) args>(#name); return r passthru; }
int pthread_rwlock_init(pthread_rwlock_t* l, pthread_rwlockattr_t const* a) { if (on_engine()) { q z; g_rw.erase(l); } static auto r = real<int (*)(pthread_rwlock_t*, pthread_rwlockattr_t const*)>("pthread_rwlock_init"); return r(l, a); }
int pthread_rwlock_destroy(pthread_rwlock_t* l) { if (on_engine()) { q z; auto it = g_rw.find(l); if (it != g_rw.end()) { if (it->second.writer >= 0 || it->second.readers) engine_fail("destroy-locked", "a locked rwlock is destroyed"); g_rw.erase(it); } } return 0; }
RWF(pthread_rwlock_rdlock, (pthread_rwlock_t* l), rw_rd(l, PC, false), (l))
RWF(pthread_rwlock_wrlock, (pthread_rwlock_t* l), rw_wr(l, PC, false), (l))
RWF(pthread_rwlock_tryrdlock, (pthread_rwlock_t* l), rw_rd(l, PC, true), (l))
RWF(pthread_rwlock_trywrlock, (pthread_rwlock_t* l), rw_wr(l, PC, true), (l))
RWF(pthread_rwlock_timedrdlock, (pthread_rwlock_t* l, timespec const* t), rw_rd(l, PC, false, true, abs_to_virtual(t)), (l, t))
RWF(pthread_rwlock_timedwrlock, (pthread_rwlock_t* l, timespec const* t), rw_wr(l, PC, false, true, abs_to_virtual(t)), (l, t))
RWF(pthread_rwlock_clockrdlock, (pthread_rwlock_t* l, clockid_t c, timespec const* t), rw_rd(l, PC, false, true, abs_to_virtual(t)), (l, c, t))
RWF(pthread_rwlock_clockwrlock, (pthread_rwlock_t* l, clockid_t c, timespec const* t), rw_wr(l, PC, false, true, abs_to_virtual(t)), (l, c, t))
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (on_engine()) {
        if (g_quiet || !from_exe(PC)) return 0;
        q z; touch(l, PC); if (g_opt.unlock_points) sp(OP_RWUN, l, PC); RW& x = g_rw[l]; Fiber& f = g_f[g_cur];
        if (x.writer == g_cur) { x.writer = -1; x.wvc.join(f.vc); }
        else if (x.rd[g_cur]) { --x.rd[g_cur]; --x.readers; x.rvc.join(f.vc); }
        else engine_fail("bad-unlock", "unlocks a rwlock it does not hold at " + sym(PC));
        tick(); ev(OP_RWUN, l, PC); return 0;
    }
    static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); return r(l);
}
int pthread_create(pthread_t* t, pthread_attr_t const* a, void* (*fn)(void*), void* arg) {
    if (on_engine()) {
        q z; unspin();
        int id = new_fiber(fn, arg);
        tick();
        g_f[id].vc = g_f[g_cur].vc; g_f[id].vc.c[id] = 1; tick();
        ev(OP_CREATE, &g_nf, PC, id); g_f[id].h = g_f[g_cur].h;
        *t = reinterpret_cast<pthread_t>(&g_f[id]);
        sp(OP_POINT, nullptr, PC);
        return 0;
    }
    static auto r = real<int (*)(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*)>("pthread_create"); return r(t, a, fn, arg);
}
int pthread_join(pthread_t t, void** ret) {
    if (on_engine()) {
        q z; unspin(); Fiber* o = reinterpret_cast<Fiber*>(t); Fiber& f = g_f[g_cur];
        f.join_target = o->id; sp(OP_JOIN, o, PC); ev(OP_JOIN, o, PC, o->id);
        f.vc.join(o->vc); unspin(); if (ret) *ret = o->ret; return 0;
    }
    static auto r = real<int (*)(pthread_t, void**)>("pthread_join"); return r(t, ret);
}
int pthread_detach(pthread_t t) { if (on_engine()) { reinterpret_cast<Fiber*>(t)->detached = true; return 0; } static auto r = real<int (*)(pthread_t)>("pthread_detach"); return r(t); }
pthread_t pthread_self() { if (on_engine()) return reinterpret_cast<pthread_t>(&g_f[g_cur]); static auto r = real<pthread_t (*)()>("pthread_self"); return r(); }
int pthread_setname_np(pthread_t t, char const* n) { if (on_engine()) return 0; static auto r = real<int (*)(pthread_t, char const*)>("pthread_setname_np"); return r(t, n); }
int pthread_setaffinity_np(pthread_t t, size_t n, cpu_set_t const* c) { if (on_engine()) return 0; static auto r = real<int (*)(pthread_t, size_t, cpu_set_t const*)>("pthread_setaffinity_np"); return r(t, n, c); }
int pthread_once(pthread_once_t* o, void (*fn)()) {
    if (on_engine()) {
        if (g_quiet) { if (*o == 0) { *o = 2; fn(); } return 0; }
        { q z; unspin();
          if (*o == 2 && g_once.find(o) == g_once.end()) return 0;
          Once& s0 = g_once[o];
          if (s0.state == 2) { g_f[g_cur].vc.join(s0.vc); return 0; }
          sp(OP_ONCE, o, PC); ev(OP_ONCE, o, PC); }
        Once& s = g_once[o];
        if (s.state == 2) { g_f[g_cur].vc.join(s.vc); return 0; }
        s.state = 1;
        try { fn(); } catch (...) { g_once[o].state = 0; throw; }
        { q z; Once& e = g_once[o]; e.state = 2; e.vc = g_f[g_cur].vc; *o = 2; tick(); ev(OP_ONCE, o, PC); }
        return 0;
    }
    static auto r = real<int (*)(pthread_once_t*, void (*)())>("pthread_once"); return r(o, fn);
}
int sched_yield() {
    if (on_engine()) { if (g_quiet) return 0; q z; Fiber& f = g_f[g_cur]; f.op = OP_YIELD; f.obj = nullptr; f.nspin = 0; set_fair(f); ev(OP_YIELD, nullptr, PC); reschedule(true); return 0; }
    static auto r = real<int (*)()>("sched_yield"); return r();
}
static int do_sleep(u64 ns, void const* pc) {
    q z; Fiber& f = g_f[g_cur]; f.op = OP_SLEEP; f.obj = nullptr; f.timed = true; f.timed_out = false; f.deadline = g_clock + ns; f.nspin = 0; ev(OP_SLEEP, nullptr, pc, ns);
    reschedule(true); f.timed = false; f.timed_out = false; return 0;
}
int nanosleep(timespec const* t, timespec* rem) { if (on_engine()) { if (g_quiet) return 0; return do_sleep(abs_to_virtual(t), PC); } static auto r = real<int (*)(timespec const*, timespec*)>("nanosleep"); return r(t, rem); }
int clock_nanosleep(clockid_t c, int fl, timespec const* t, timespec* rem) {
    if (on_engine()) { if (g_quiet) return 0; u64 v = abs_to_virtual(t); return do_sleep(fl ? (v > g_clock ? v - g_clock : 0) : v, PC); }
    static auto r = real<int (*)(clockid_t, int, timespec const*, timespec*)>("clock_nanosleep"); return r(c, fl, t, rem);
}
int usleep(useconds_t us) { if (on_engine()) { if (g_quiet) return 0; return do_sleep((u64)us * 1000, PC); } static auto r = real<int (*)(useconds_t)>("usleep"); return r(us); }
int clock_gettime(clockid_t c, timespec* t) {
    if (on_engine()) { if (!g_quiet) { q z; dep(g_cur, OP_LOAD, &g_clock, false); clock_spin(); } t->tv_sec = (time_t)(g_clock / 1000000000ull); t->tv_nsec = (long)(g_clock % 1000000000ull); return 0; }
    static auto r = real<int (*)(clockid_t, timespec*)>("clock_gettime"); return r(c, t);
}
// static-local guards
int __cxa_guard_acquire(u64* g) {
    u8* b = reinterpret_cast<u8*>(g);
    if (b[0]) return 0;
    if (!modelled()) { if (b[1]) { if (on_engine()) return 0; } b[1] = 1; return 1; }
    q z; unspin();
    sp(OP_ONCE, g, PC);
    Once& s = g_once[g];
    ev(OP_ONCE, g, PC);
    if (b[0]) { g_f[g_cur].vc.join(s.vc); return 0; }
    s.state = 1; b[1] = 1; return 1;
}
void __cxa_guard_release(u64* g) {
    u8* b = reinterpret_cast<u8*>(g); b[0] = 1; b[1] = 0;
    if (modelled()) { q z; Once& s = g_once[g]; s.state = 2; s.vc = g_f[g_cur].vc; tick(); ev(OP_ONCE, g, PC); }
}
void __cxa_guard_abort(u64* g) { u8* b = reinterpret_cast<u8*>(g); b[1] = 0; if (modelled()) { q z; g_once[g].state = 0; } }

// memory: blocks freed during an execution stay quarantined until its end
void* malloc(size_t n) { return __libc_malloc(n); }
void* calloc(size_t a, size_t b) { return __libc_calloc(a, b); }
static void mark_freed(void* p, size_t n, void const* pc) {
    u64 a = (u64)p;
    Cell* c = find(a >> 3);
    if (c && c->freed) { engine_fail("double-free", "freed twice at " + sym(pc)); return; }
    size_t m = std::min<size_t>(n, 4096);
    // freeing conflicts with every unordered access
    if (from_exe(pc)) access(p, m, true, false, pc);
    for (size_t i = 0; i < m; i += 8) { Cell& k = cell((a + i) >> 3); k.freed = 0xff; }
}
size_t malloc_usable_size(void*);
static void do_free(void* p, void const* pc, size_t known) {
    if (!p) return;
    if (on_engine()) {
        if (!g_quiet) { q z; mark_freed(p, known ? known : malloc_usable_size(p), pc); g_quar.push_back(Q{p}); return; }
        q z; g_quar.push_back(Q{p}); return;
    }
    __libc_free(p);
}
void free(void* p) { do_free(p, PC, 0); }
void* realloc(void* p, size_t n) {
    if (on_engine() && p) { size_t o = malloc_usable_size(p); void* x = __libc_malloc(n); memcpy(x, p, std::min(o, n)); do_free(p, PC, 0); return x; }
    return __libc_realloc(p, n);
}
void* memalign(size_t a, size_t n) { return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return __libc_memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }

// ---------- compiler instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(n) \
    void __tsan_read##n(void* p) { if (modelled()) { q z; access(p, n, false, false, PC); } } \
    void __tsan_write##n(void* p) { if (modelled()) { q z; access(p, n, true, false, PC); } } \
    void __tsan_unaligned_read##n(void* p) { if (modelled()) { q z; access(p, n, false, false, PC); } } \
    void __tsan_unaligned_write##n(void* p) { if (modelled()) { q z; access(p, n, true, false, PC); } } \
    void __tsan_volatile_read##n(void* p) { if (modelled()) { q z; access(p, n, false, false, PC); } } \
    void __tsan_volatile_write##n(void* p) { if (modelled()) { q z; access(p, n, true, false, PC); } }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, size_t n) { if (modelled()) { q z; access(p, n, false, false, PC); } }
void __tsan_write_range(void* p, size_t n) { if (modelled()) { q z; access(p, n, true, false, PC); } }
void __tsan_vptr_update(void** p, void* v) { if (modelled()) { if (*p != v) { q z; access(p, 8, true, false, PC); } } }
void __tsan_vptr_read(void** p) { if (modelled()) { q z; access(p, 8, false, false, PC); } }
void* __real_memcpy(void*, void const*, size_t); void* __real_memmove(void*, void const*, size_t); void* __real_memset(void*, int, size_t);
int __real_memcmp(void const*, void const*, size_t);
static inline size_t cap(size_t n) { return n < 512 ? n : 512; }
void* __wrap_memcpy(void* d, void const* s, size_t n) { if (modelled() && n) { q z; access(s, cap(n), false, false, PC); access(d, cap(n), true, false, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, void const* s, size_t n) { if (modelled() && n) { q z; access(s, cap(n), false, false, PC); access(d, cap(n), true, false, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (modelled() && n) { q z; access(d, cap(n), true, false, PC); } return __real_memset(d, c, n); }
int __wrap_memcmp(void const* a, void const* b, size_t n) { return __real_memcmp(a, b, n); }

// atomics
} // extern C
namespace {
bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
void do_acquire(void const* p, int mo) {
    auto it = g_atom.find(p); if (it == g_atom.end()) return;
    Fiber& f = g_f[g_cur];
    if (acq(mo)) f.vc.join(it->second.rel); else f.fence_acq.join(it->second.rel);
}
void do_release(void const* p, int mo, bool rmw) {
    Fiber& f = g_f[g_cur]; Atom& a = g_atom[p];
    if (!rmw) a.rel = rel(mo) ? f.vc : f.fence_rel; else if (rel(mo)) a.rel.join(f.vc); else a.rel.join(f.fence_rel);
    tick();
}
// every fiber runs on one system thread, so plain accesses are atomic enough
template <class T> T raw_load(T const volatile* p) { if constexpr (sizeof(T) > 8) return *p; else return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
template <class T> void raw_store(T volatile* p, T v) { if constexpr (sizeof(T) > 8) *p = v; else __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
template <class T> bool raw_cas(T volatile* p, T* e, T d) { if constexpr (sizeof(T) > 8) { T o = *p; if (o == *e) { *p = d; return true; } *e = o; return false; } else return __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
template <class T> u64 as64(T v) { if constexpr (sizeof(T) > 8) { u64 r[2]; memcpy(r, &v, 16); return r[0] * 0x9e3779b97f4a7c15ull ^ r[1]; } else { u64 r = 0; memcpy(&r, &v, sizeof(T)); return r; } }
template <class T> T a_load(T const volatile* p, int mo, void const* pc) {
    if (!modelled()) return raw_load(p);
    q z; void const* o = (void const*)p; sp(OP_LOAD, o, pc);
    access(o, sizeof(T), false, true, pc);
    T v = raw_load(p); do_acquire(o, mo);
    ev(OP_LOAD, o, pc, as64(v)); spin_note(o, as64(v));
    return v;
}
template <class T> void a_store(T volatile* p, T v, int mo, void const* pc) {
    if (!modelled()) { raw_store(p, v); return; }
    q z; void const* o = (void const*)p; unspin(); sp(OP_STORE, o, pc);
    access(o, sizeof(T), true, true, pc);
    raw_store(p, v); do_release(o, mo, false); ev(OP_STORE, o, pc, as64(v));
}
template <class T, class F> T a_rmw(T volatile* p, int mo, void const* pc, F&& fn) {
    if (!modelled()) { T o = raw_load(p); while (!raw_cas(p, &o, fn(o))) {} return o; }
    q z; void const* o = (void const*)p; sp(OP_RMW, o, pc);
    access(o, sizeof(T), true, true, pc);
    T old = raw_load(p); T nv = fn(old);
    raw_store(p, nv);
    do_acquire(o, mo); do_release(o, mo, true); ev(OP_RMW, o, pc, as64(nv));
    if (nv == old) spin_note(o, as64(old)); else unspin();
    return old;
}
template <class T> bool a_cas(T volatile* p, T* e, T d, int mo, int fmo, void const* pc) {
    if (!modelled()) return raw_cas(p, e, d);
    q z; void const* o = (void const*)p; sp(OP_CAS, o, pc);
    T old = raw_load(p);
    if (old == *e) {
        access(o, sizeof(T), true, true, pc);
        raw_store(p, d); do_acquire(o, mo); do_release(o, mo, true); ev(OP_CAS, o, pc, as64(d)); unspin(); return true;
    }
    access(o, sizeof(T), false, true, pc);
    *e = old; do_acquire(o, fmo); ev(OP_CAS, o, pc, ~0ull); spin_note(o, as64(old)); return false;
}
}
extern "C" {
using a8 = unsigned char; using a16 = unsigned short; using a32 = unsigned; using a64 = unsigned long; using a128 = unsigned __int128;
#define ATOM(N, T) \
    T __tsan_atomic##N##_load(T const volatile* p, int mo) { return a_load<T>(p, mo, PC); } \
    void __tsan_atomic##N##_store(T volatile* p, T v, int mo) { a_store<T>(p, v, mo, PC); } \
    T __tsan_atomic##N##_exchange(T volatile* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [=](T) { return v; }); } \
    T __tsan_atomic##N##_fetch_add(T volatile* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [=](T o) { return (T)(o + v); }); } \
    T __tsan_atomic##N##_fetch_sub(T volatile* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [=](T o) { return (T)(o - v); }); } \
    T __tsan_atomic##N##_fetch_and(T volatile* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [=](T o) { return (T)(o & v); }); } \
    T __tsan_atomic##N##_fetch_or(T volatile* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [=](T o) { return (T)(o | v); }); } \
    T __tsan_atomic##N##_fetch_xor(T volatile* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [=](T o) { return (T)(o ^ v); }); } \
    T __tsan_atomic##N##_fetch_nand(T volatile* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [=](T o) { return (T)~(o & v); }); } \
    int __tsan_atomic##N##_compare_exchange_strong(T volatile* p, T* e, T d, int mo, int f) { return a_cas<T>(p, e, d, mo, f, PC); } \
    int __tsan_atomic##N##_compare_exchange_weak(T volatile* p, T* e, T d, int mo, int f) { return a_cas<T>(p, e, d, mo, f, PC); } \
    T __tsan_atomic##N##_compare_exchange_val(T volatile* p, T e, T d, int mo, int f) { a_cas<T>(p, &e, d, mo, f, PC); return e; }
ATOM(8, a8) ATOM(16, a16) ATOM(32, a32) ATOM(64, a64) ATOM(128, a128)
void AnnotateBenignRaceSized(char const*, int, void const volatile*, size_t, char const*) {}
void __tsan_atomic_thread_fence(int mo) {
    if (!modelled()) return;
    q z; sp(OP_FENCE, nullptr, PC); Fiber& f = g_f[g_cur];
    if (acq(mo)) f.vc.join(f.fence_acq);
    if (mo == 5) { f.vc.join(g_sc); g_sc.join(f.vc); }
    if (rel(mo)) { f.fence_rel = f.vc; tick(); }
    ev(OP_FENCE, nullptr, PC);
}
void __tsan_atomic_signal_fence(int) {}
}
} // namespace vs

namespace std {
_Sp_locker::_Sp_locker(void const* p) noexcept : _M_key1(255), _M_key2(255) {
    using namespace vs;
    if (!modelled()) return;
    q z; auto it = g_splk.emplace(p, (int) (g_splk.size() % 64)).first; _M_key1 = (unsigned char) it->second; unspin(); do_lock(&g_splm[_M_key1], __builtin_return_address(0), false, 0);
}
_Sp_locker::_Sp_locker(void const* a, void const*) noexcept : _Sp_locker(a) {}
_Sp_locker::~_Sp_locker() { using namespace vs; if (_M_key1 == 255) return; q z; do_unlock(&g_splm[_M_key1], __builtin_return_address(0)); }
}
