// Runtime of the model checker. Compiled WITHOUT -fsanitize=thread.
#include "mc.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <exception>
#include <new>
#include <cerrno>
#include <ctime>
#include <csignal>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/single_threaded.h>
#include <linux/futex.h>
#include <unistd.h>
#include <dlfcn.h>
#include <link.h>
#include <cxxabi.h>

namespace mc {
void (*on_violation)(const std::string&, const std::string&, const std::vector<int>&) = nullptr;

// allocator of the runtime's own containers: bypasses the tracked operator new
template <class T> struct MA { typedef T value_type; MA() {} template <class U> MA(const MA<U>&) {} T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { free(p); } template <class U> bool operator==(const MA<U>&) const { return true; } template <class U> bool operator!=(const MA<U>&) const { return false; } };
template <class T> using vec = std::vector<T, MA<T>>;
template <class V> using umap = std::unordered_map<uintptr_t, V, std::hash<uintptr_t>, std::equal_to<uintptr_t>, MA<std::pair<const uintptr_t, V>>>;
static const int MAXT = 16;
typedef uint32_t clk_t;
struct VC { clk_t c[MAXT]; VC() { memset(c, 0, sizeof c); }
    void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
    void clear() { memset(c, 0, sizeof c); } };

enum State { FREE, RUNNABLE, PARKED, BLOCKED, DONE };
enum Why { W_NONE, W_MUTEX, W_COND, W_FUTEX, W_JOIN, W_ONCE, W_RW };

struct Fiber {
    int id = 0; State st = FREE; Why why = W_NONE; const void* on = nullptr;
    void* sp = nullptr; char* stack = nullptr;
    void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
    bool detached = false, joined = false;
    bool timed = false, timed_out = false;    // blocked with a timeout
    VC vc;
    vec<unsigned char> tls;                   // this thread's copy of the thread-local storage of the program and libstdc++
    long quiet = 0;                           // consecutive points without a visible write
    long park_epoch = 0;
    int lock_depth = 0; bool wrote_in_cs = false;
};
static const size_t STACK = 512 * 1024;
static Fiber F[MAXT]; static int nF = 0; static Fiber* cur = nullptr;
static void* sched_sp = nullptr;
static bool act = false;
static char* stacks[MAXT];

// ---- shadow memory -------------------------------------------------------------------------------
struct Ent { clk_t clk; uint8_t tid, mask; bool w, at; };
struct Cell { uintptr_t a = 0; uint32_t gen = 0; bool freed = false; vec<Ent> e; };
static vec<Cell> cells(1 << 17); static size_t cells_used = 0; static uint32_t gen = 1;
static Cell& cell(uintptr_t g) {
    size_t m = cells.size() - 1, h = (g * 0x9E3779B97F4A7C15ull >> 20) & m;
    while (cells[h].gen == gen && cells[h].a != g) h = (h + 1) & m;
    Cell& c = cells[h];
    if (c.gen != gen) {
        if (++cells_used * 2 > cells.size()) {
            vec<Cell> old; old.swap(cells); cells.resize(old.size() * 2); cells_used = 0;
            for (auto& o : old) if (o.gen == gen) { size_t mm = cells.size() - 1, hh = (o.a * 0x9E3779B97F4A7C15ull >> 20) & mm;
                while (cells[hh].gen == gen) hh = (hh + 1) & mm; cells[hh] = std::move(o); cells_used++; }
            return cell(g);
        }
        c.gen = gen; c.a = g; c.freed = false; c.e.clear();
    }
    return c;
}
struct Sync { VC vc; uint32_t gen = 0; };
struct Mutex { int owner = -1; int depth = 0; VC vc; int readers = 0; VC rvc; };
static umap<VC> sync_;
static umap<Mutex> mtx;
static vec<std::pair<void*, size_t>> quarantine;
static size_t quarantine_bytes = 0;

// ---- schedule ------------------------------------------------------------------------------------
struct Point { uint8_t chosen, n, cost_default; };
static std::vector<int> prefix; static vec<Point> trace;  // trace[i].chosen index into enabled list
static long steps = 0, visible_epoch = 0; static uint64_t thash; static int dev_used = 0;
static std::string scen; static bool replaying = false; static int rounds = 0; static long vclock = 0;
static std::string cur_outcome; static int last_run = 0;
static const long STEP_LIMIT = 60000;
bool active() { return act; }
int self() { return cur ? cur->id : 0; }

[[noreturn]] static void violation(const std::string& m) {
    act = false; std::vector<int> ch; for (auto& p : trace) ch.push_back(p.chosen);
    if (on_violation) on_violation(scen, m, ch);
    fprintf(stderr, "VIOLATION %s\n", m.c_str()); _exit(1);
}
void check(bool ok, const std::string& m) { if (!ok) violation(m); }
void outcome(const std::string& s) { cur_outcome += s + ";"; }

extern "C" void mc_switch(void** save, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
.section .note.GNU-stack,"",@progbits
.text
)");

static void fiber_done();
static void fiber_entry() {
    Fiber* f = cur; f->ret = f->fn(f->arg); fiber_done(); abort();
}
static void init_stack(Fiber* f) {
    char* top = f->stack + STACK; top = (char*)((uintptr_t)top & ~15ul);
    void** sp = (void**)top;
    *--sp = nullptr;               // fake return address of fiber_entry
    *--sp = (void*)fiber_entry;    // ret target
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    sp--; uint32_t mx = 0x1f80; uint16_t cw = 0x37f; memcpy(sp, &mx, 4); memcpy((char*)sp + 4, &cw, 2);
    f->sp = sp;
}
struct Tls { unsigned char* p; size_t n; const unsigned char* init; size_t ninit; };
static Tls tls_[4]; static int ntls = 0; static size_t tls_total = 0;
static int tls_cb(struct dl_phdr_info* i, size_t, void*) {
    bool want = i->dlpi_name[0] == 0 || strstr(i->dlpi_name, "libstdc++"); if (!want || ntls == 4) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) { tls_[ntls++] = {(unsigned char*)i->dlpi_tls_data, i->dlpi_phdr[k].p_memsz, (const unsigned char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr), i->dlpi_phdr[k].p_filesz}; tls_total += i->dlpi_phdr[k].p_memsz; }
    return 0;
}
static void tls_save(unsigned char* d) { for (int i = 0; i < ntls; i++) { memcpy(d, tls_[i].p, tls_[i].n); d += tls_[i].n; } }
static void tls_load(const unsigned char* d) { for (int i = 0; i < ntls; i++) { memcpy(tls_[i].p, d, tls_[i].n); d += tls_[i].n; } }
static void tls_fresh(vec<unsigned char>& v) { v.assign(tls_total, 0); unsigned char* d = v.data(); for (int i = 0; i < ntls; i++) { memcpy(d, tls_[i].init, tls_[i].ninit); d += tls_[i].n; } }
static bool in_tls(uintptr_t a) { for (int i = 0; i < ntls; i++) if (a >= (uintptr_t)tls_[i].p && a < (uintptr_t)tls_[i].p + tls_[i].n) return true; return false; }
static vec<unsigned char> sched_tls;
static void to_fiber(Fiber* f) {      // from fiber or scheduler
    Fiber* from = cur; if (from == f) return;
    if (from) tls_save(from->tls.data()); else { sched_tls.resize(tls_total); tls_save(sched_tls.data()); }
    cur = f; tls_load(f->tls.data());
    mc_switch(from ? &from->sp : &sched_sp, f->sp);
}
static void to_sched() { Fiber* from = cur; tls_load(sched_tls.data()); cur = nullptr; mc_switch(&from->sp, sched_sp); }

static std::string describe() {
    std::string s; static const char* sn[] = {"free", "runnable", "polling", "blocked", "done"};
    static const char* wn[] = {"", "mutex", "condvar", "futex", "join", "once", "rwlock"};
    for (int i = 0; i < nF; i++) { s += " T" + std::to_string(i) + "=" + sn[F[i].st]; if (F[i].st == BLOCKED) s += std::string("(") + wn[F[i].why] + ")"; }
    return s;
}
static void visible() { visible_epoch++; rounds = 0; if (cur) cur->quiet = 0; 
    for (int i = 0; i < nF; i++) if (F[i].st == PARKED && &F[i] != cur) F[i].st = RUNNABLE; }

// choose the next fiber to run. `cur_ok`: the running fiber could continue.
static void schedule(bool cur_ok) {
    if (++steps > STEP_LIMIT) violation("step limit exceeded: some thread never makes progress;" + describe());
    int en[MAXT], n = 0; int me = cur->id;
    if (cur_ok) en[n++] = me;
    for (int k = 1; k <= nF; k++) { int i = (me + k) % nF; if (i == me && cur_ok) continue; if (F[i].st == RUNNABLE) { if (i == me && !cur_ok) continue; en[n++] = i; } }
    if (n == 0) {
        // everyone polls or is blocked: give every polling thread (and timed waits) further rounds
        bool any = false;
        if (rounds < 6) for (int i = 0; i < nF; i++) {
            if (F[i].st == PARKED) { F[i].st = RUNNABLE; any = true; }
            else if (F[i].st == BLOCKED && F[i].timed) { F[i].timed_out = true; F[i].st = RUNNABLE; any = true; }
        }
        rounds++;
        if (!any) {
            bool polling = false; for (int i = 0; i < nF; i++) polling |= F[i].st == PARKED;
            violation(std::string(polling ? "livelock (threads poll forever):" : "deadlock:") + describe());
        }
        for (int k = 1; k <= nF; k++) { int i = (me + k) % nF; if (F[i].st == RUNNABLE) en[n++] = i; }
    }
    int choice = 0; size_t i = trace.size();
    if (n > 1) {
        if (i < prefix.size()) { choice = prefix[i]; if (choice >= n) { fprintf(stderr, "mc: replay divergence at %zu: %d of %d in %s\n", i, choice, n, scen.c_str()); _exit(2); } }
        trace.push_back({(uint8_t)choice, (uint8_t)n, 0});
        if (choice) dev_used++;
    }
    Fiber* t = &F[en[choice]]; thash = (thash ^ (t->id + 1)) * 1099511628211ull;
    if (t != cur) to_fiber(t);
}
static void point(int kind) {
    thash = (thash ^ (uint64_t)(kind + 17 * cur->id)) * 1099511628211ull;
    if (++cur->quiet > 400) { // a spin loop without a yield: treat as polling
        cur->quiet = 0; cur->st = PARKED; schedule(false); cur->st = RUNNABLE; return;
    }
    schedule(true);
}
static void park() { cur->quiet = 0; cur->st = PARKED; thash = thash * 31 + 7; vclock += 1000000; schedule(false); cur->st = RUNNABLE; }
static void block(Why w, const void* on, bool timed = false) { cur->st = BLOCKED; cur->why = w; cur->on = on; cur->timed = timed; cur->timed_out = false; schedule(false); cur->st = RUNNABLE; cur->why = W_NONE; }
static void wake(Why w, const void* on, int n = 1 << 20) { for (int i = 0; i < nF && n > 0; i++) if (F[i].st == BLOCKED && F[i].why == w && F[i].on == on) { F[i].st = RUNNABLE; n--; } }
void yield_point() { if (act && cur) point(99); }

// ---- race detection ------------------------------------------------------------------------------
static bool on_any_stack(uintptr_t a, int* who) { for (int i = 0; i < nF; i++) if (F[i].stack && a >= (uintptr_t)F[i].stack && a < (uintptr_t)F[i].stack + STACK) { *who = i; return true; } return false; }
static void access(uintptr_t a, size_t n, bool w, bool at, void* pc) {
    if (!act || !cur || in_tls(a)) return;
    if (w && !at) { int who; if (!(on_any_stack(a, &who) && who == cur->id)) cur->wrote_in_cs = true; }
    clk_t my = cur->vc.c[cur->id];
    while (n) {
        uintptr_t g = a >> 3; unsigned off = a & 7, len = std::min<size_t>(8 - off, n); uint8_t mask = ((1u << len) - 1) << off;
        Cell& c = cell(g);
        if (c.freed) { char b[200]; snprintf(b, sizeof b, "use after free: %s of %zu bytes by thread %d", w ? "write" : "read", n, cur->id); violation(b); }
        bool rep = false;
        for (size_t i = 0; i < c.e.size(); i++) {
            Ent& e = c.e[i]; 
            if (e.tid != cur->id) {
                if ((e.mask & mask) && (e.w || w) && !(e.at && at) && e.clk > cur->vc.c[e.tid]) {
                    Dl_info di; memset(&di, 0, sizeof di); dladdr(pc, &di); int st = 0; char* dem = di.dli_sname ? abi::__cxa_demangle(di.dli_sname, 0, 0, &st) : nullptr;
                    int so = -1; on_any_stack(a, &so); char where[96]; snprintf(where, sizeof where, " [pc +0x%lx, addr %lx, stack of %d]", (unsigned long)((uintptr_t)pc - (uintptr_t)di.dli_fbase), (unsigned long)a, so);
                    std::string s = std::string("data race: ") + (w ? "write" : "read") + (at ? " (atomic)" : "") + " by thread " + std::to_string(cur->id) + " in " + (dem ? dem : di.dli_sname ? di.dli_sname : "?") +
                        " conflicts with an unordered " + (e.w ? "write" : "read") + (e.at ? " (atomic)" : "") + " by thread " + std::to_string(e.tid) + where;
                    violation(s);
                }
            } else if (e.w == w && e.at == at && (e.mask & ~mask) == 0) { e.clk = my; e.mask = mask; rep = true; }
        }
        if (!rep) c.e.push_back({my, (uint8_t)cur->id, mask, w, at});
        a += len; n -= len;
    }
}
static void range_fresh(uintptr_t a, size_t n) { for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) { Cell& c = cell(g); c.freed = false; c.e.clear(); } }

// ---- synchronisation -----------------------------------------------------------------------------
static void acquire_from(const VC& v) { cur->vc.join(v); }
static void release_to(VC& v, bool join) { if (join) v.join(cur->vc); else v = cur->vc; cur->vc.c[cur->id]++; }
static bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

static void atomic_pre(int k) { if (act && cur) point(k); }
static void atomic_load(const volatile void* a, size_t n, int mo, void* pc) { if (!act || !cur) return; access((uintptr_t)a, n, false, true, pc); if (is_acq(mo)) { auto it = sync_.find((uintptr_t)a); if (it != sync_.end()) acquire_from(it->second); } }
static void atomic_store(const volatile void* a, size_t n, int mo, bool changed, void* pc) { if (!act || !cur) return; access((uintptr_t)a, n, true, true, pc); VC& v = sync_[(uintptr_t)a]; if (is_rel(mo)) release_to(v, false); else v.clear(); if (changed) visible(); }
static void atomic_rmw(const volatile void* a, size_t n, int mo, bool changed, void* pc) { if (!act || !cur) return; access((uintptr_t)a, n, true, true, pc); VC& v = sync_[(uintptr_t)a]; if (is_acq(mo)) acquire_from(v); if (is_rel(mo)) release_to(v, true); if (changed) visible(); }

static void fiber_done() { Fiber* f = cur; f->st = DONE; f->vc.c[f->id]++; visible(); wake(W_JOIN, f);
    if (f->id == 0) { to_sched(); abort(); }
    schedule(false); abort(); }

// ---- exploration ---------------------------------------------------------------------------------
static const std::function<void()>* body_;
static void* body_main(void*) { (*body_)(); return nullptr; }
static void reset_exec() {
    gen++; cells_used = 0; sync_.clear(); mtx.clear(); trace.clear(); steps = 0; visible_epoch = 0; thash = 1469598103934665603ull; dev_used = 0; rounds = 0; vclock = 0; cur_outcome.clear(); nF = 0;
}
static Fiber* new_fiber(void* (*fn)(void*), void* arg) {
    if (nF >= MAXT) violation("more than 16 threads were created");
    Fiber* f = &F[nF]; if (!stacks[nF]) { stacks[nF] = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
    *f = Fiber(); f->id = nF; f->stack = stacks[nF]; f->fn = fn; f->arg = arg; f->st = RUNNABLE; tls_fresh(f->tls); init_stack(f); nF++; return f;
}
static void run_once() {
    reset_exec(); Fiber* f = new_fiber(body_main, nullptr); f->vc.c[0] = 1; act = true; cur = nullptr; to_fiber(f); act = false;
    for (int i = 1; i < nF; i++) if (F[i].st != DONE) { act = false; violation("a thread outlives the object that owns it:" + describe()); }
    for (auto& q : quarantine) free(q.first); quarantine.clear(); quarantine_bytes = 0;
}
static void sig_handler(int s) { if (!act) { signal(s, SIG_DFL); raise(s); return; } violation(std::string("fatal signal: ") + strsignal(s)); }
static void term_handler() { violation("std::terminate called (an exception escaped a thread, or a joinable thread was destroyed)"); }
static void install() {
    static bool done = false; if (done) return; done = true;
    __libc_single_threaded = 0; abi::__cxa_get_globals(); dl_iterate_phdr(tls_cb, nullptr);
    stack_t ss; ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = sig_handler; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(s, &sa, nullptr); }
    std::set_terminate(term_handler);
}
static std::unordered_set<uint64_t> traces; static std::set<std::string> outs;
Result explore(const std::string& name, const std::function<void()>& body, const Options& o) {
    install(); scen = name; body_ = &body; Result r; traces.clear(); outs.clear();
    // warm-up: lazily initialised statics of the library are created outside the measured executions
    prefix.clear(); run_once();
    { prefix.clear(); run_once(); uint64_t h1 = thash; auto t1 = trace.size(); auto o1 = cur_outcome; run_once(); if (h1 != thash || t1 != trace.size() || o1 != cur_outcome) { fprintf(stderr, "mc: %s is not deterministic under a fixed schedule\n", name.c_str()); _exit(2); } }
    struct Item { std::vector<int> pre; int dev; };
    std::vector<Item> st; st.push_back({{}, 0}); bool first = true;
    while (!st.empty()) {
        if (o.max_execs >= 0 && r.executions >= o.max_execs) { r.capped = true; break; }
        Item it = std::move(st.back()); st.pop_back(); prefix = it.pre; run_once();
        bool count = !(first && o.shard != 0); first = false;
        if (count) { r.executions++; r.points += steps; r.max_points = std::max<long>(r.max_points, steps); traces.insert(thash); outs.insert(cur_outcome); }
        if (it.dev >= o.bound) continue;
        size_t from = it.pre.size();
        for (size_t i = trace.size(); i-- > from;) {
            if (it.dev == 0 && (int)(i % o.nshards) != o.shard) continue;
            for (int alt = 1; alt < trace[i].n; alt++) { Item c; c.dev = it.dev + 1; c.pre.reserve(i + 1); for (size_t k = 0; k < i; k++) c.pre.push_back(trace[k].chosen); c.pre.push_back(alt); st.push_back(std::move(c)); }
        }
    }
    r.distinct_traces = traces.size(); r.distinct_outcomes = outs.size(); for (auto& s : outs) { if (r.outcomes.size() < 16) r.outcomes.push_back(s); }
    return r;
}
void replay(const std::string& name, const std::function<void()>& body, const std::vector<int>& choices) { install(); scen = name; body_ = &body; prefix.clear(); run_once(); prefix = choices; run_once(); }
} // namespace mc
using namespace mc;

// ---- allocation ----------------------------------------------------------------------------------
static void* mc_new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); if (act && cur) { bool a = act; act = false; range_fresh((uintptr_t)p, n ? n : 1); act = a; } return p; }
#include <malloc.h>
static void mc_delete(void* p) {
    if (!p) return;
    if (act && cur) { size_t n = malloc_usable_size(p);
        access((uintptr_t)p, n, true, false, __builtin_return_address(0));
        bool a = act; act = false; for (uintptr_t g = (uintptr_t)p >> 3; g < ((uintptr_t)p + n) >> 3; g++) cell(g).freed = true; quarantine.push_back({p, n}); act = a; return; }
    free(p);
}
void* operator new(size_t n) { return mc_new(n); }
void* operator new[](size_t n) { return mc_new(n); }
void operator delete(void* p) noexcept { mc_delete(p); }
void operator delete[](void* p) noexcept { mc_delete(p); }
void operator delete(void* p, size_t) noexcept { mc_delete(p); }
void operator delete[](void* p, size_t) noexcept { mc_delete(p); }

// ---- __tsan_* ------------------------------------------------------------------------------------
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access((uintptr_t)p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, false, PC); }
void __tsan_read_range(void* p, unsigned long n) { if (n) access((uintptr_t)p, n, false, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { if (n) access((uintptr_t)p, n, true, false, PC); }
#define RW(N) \
 void __tsan_read##N(void* p) { access((uintptr_t)p, N, false, false, PC); } \
 void __tsan_write##N(void* p) { access((uintptr_t)p, N, true, false, PC); } \
 void __tsan_unaligned_read##N(void* p) { access((uintptr_t)p, N, false, false, PC); } \
 void __tsan_unaligned_write##N(void* p) { access((uintptr_t)p, N, true, false, PC); } \
 void __tsan_volatile_read##N(void* p) { access((uintptr_t)p, N, false, false, PC); } \
 void __tsan_volatile_write##N(void* p) { access((uintptr_t)p, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_atomic_thread_fence(int) { atomic_pre(40); }
void __tsan_atomic_signal_fence(int) {}
void* mc_memcpy(void* d, const void* s, size_t n) { if (n) { access((uintptr_t)s, n, false, false, PC); access((uintptr_t)d, n, true, false, PC); } return memcpy(d, s, n); }
void* mc_memmove(void* d, const void* s, size_t n) { if (n) { access((uintptr_t)s, n, false, false, PC); access((uintptr_t)d, n, true, false, PC); } return memmove(d, s, n); }
void* mc_memset(void* d, int v, size_t n) { if (n) access((uintptr_t)d, n, true, false, PC); return memset(d, v, n); }
#define AT(N, T) \
 T __tsan_atomic##N##_load(const volatile T* a, int mo) { atomic_pre(1); atomic_load(a, sizeof(T), mo, PC); return *a; } \
 void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { atomic_pre(2); bool ch = *a != v; *a = v; atomic_store(a, sizeof(T), mo, ch, PC); } \
 T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { atomic_pre(3); T o = *a; *a = v; atomic_rmw(a, sizeof(T), mo, o != v, PC); return o; } \
 T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { atomic_pre(4); T o = *a; *a = o + v; atomic_rmw(a, sizeof(T), mo, v != 0, PC); return o; } \
 T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { atomic_pre(5); T o = *a; *a = o - v; atomic_rmw(a, sizeof(T), mo, v != 0, PC); return o; } \
 T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { atomic_pre(6); T o = *a; *a = o & v; atomic_rmw(a, sizeof(T), mo, *a != o, PC); return o; } \
 T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { atomic_pre(7); T o = *a; *a = o | v; atomic_rmw(a, sizeof(T), mo, *a != o, PC); return o; } \
 T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { atomic_pre(8); T o = *a; *a = o ^ v; atomic_rmw(a, sizeof(T), mo, *a != o, PC); return o; } \
 T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { atomic_pre(9); T o = *a; *a = ~(o & v); atomic_rmw(a, sizeof(T), mo, *a != o, PC); return o; } \
 int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { atomic_pre(10); T o = *a; if (o == *e) { *a = v; atomic_rmw(a, sizeof(T), mo, o != v, PC); return 1; } atomic_load(a, sizeof(T), fmo, PC); *e = o; return 0; } \
 int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, e, v, mo, fmo); } \
 T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// ---- pthread -------------------------------------------------------------------------------------
static Mutex& M(const void* m) { return mtx[(uintptr_t)m]; }
static void lock_(const void* m, bool recursive_ok) {
    Mutex* x = &M(m);
    if (x->owner == cur->id) { if (recursive_ok) { x->depth++; return; } }
    while (M(m).owner != -1 || M(m).readers) { block(W_MUTEX, m); }
    x = &M(m); x->owner = cur->id; x->depth = 1; acquire_from(x->vc); acquire_from(x->rvc); if (cur->lock_depth++ == 0) cur->wrote_in_cs = false;
}
static void unlock_(const void* m) {
    Mutex& x = M(m); if (x.owner != cur->id) violation("a thread unlocks a mutex it does not hold"); if (--x.depth > 0) return; x.owner = -1; release_to(x.vc, false);
    if (cur->lock_depth > 0) cur->lock_depth--;
    wake(W_MUTEX, m); if (cur->wrote_in_cs) visible();
}
static bool rec(pthread_mutex_t* m) { return m->__data.__kind & 1; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (!act || !cur) return 0; point(20); lock_(m, rec(m)); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!act || !cur) return 0; point(21); if (M(m).owner != -1 && !(rec(m) && M(m).owner == cur->id)) return EBUSY; lock_(m, rec(m)); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!act || !cur) return 0; unlock_(m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { if (act && cur && M(m).owner != -1) violation("a locked mutex is destroyed"); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!act || !cur) return 0; point(23); lock_(m, false); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!act || !cur) return 0; point(24); while (M(m).owner != -1) block(W_MUTEX, m); M(m).readers++; acquire_from(M(m).vc); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!act || !cur) return 0; Mutex& x = M(m); if (x.owner == cur->id) { unlock_(m); } else { x.readers--; release_to(x.rvc, true); wake(W_MUTEX, m); } return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) { if (!act || !cur) return 0; unlock_(m); block(W_COND, c, timed); bool to = cur->timed_out; cur->timed_out = false; auto it = sync_.find((uintptr_t)c); if (it != sync_.end()) acquire_from(it->second); lock_(m, false); return to ? ETIMEDOUT : 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return cond_wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return cond_wait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) { if (!act || !cur) return 0; point(26); wake(W_COND, c, 1); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!act || !cur) return 0; point(27); wake(W_COND, c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) {
    if (!act || !cur) { if (*o == 2) return 0; *o = 2; f(); return 0; }
    point(28); while (*o == 1) block(W_ONCE, o);
    if (*o == 0) { *o = 1; try { f(); } catch (...) { *o = 0; wake(W_ONCE, o); throw; } *o = 2; release_to(sync_[(uintptr_t)o], false); wake(W_ONCE, o); visible(); }
    else acquire_from(sync_[(uintptr_t)o]);
    return 0;
}
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    if (!act || !cur) { fprintf(stderr, "mc: thread created outside an execution\n"); _exit(2); }
    Fiber* f = new_fiber(fn, arg); f->vc = cur->vc; f->vc.c[f->id] = 1; cur->vc.c[cur->id]++; *t = (pthread_t)(f->id + 1); visible(); point(29); return 0;
}
int pthread_join(pthread_t t, void** r) {
    if (!act || !cur) return 0; point(30); Fiber* f = &F[(int)t - 1]; if (f->joined) return EINVAL; while (f->st != DONE) block(W_JOIN, f); f->joined = true; acquire_from(f->vc); if (r) *r = f->ret; return 0;
}
int pthread_detach(pthread_t t) { if (act && cur) F[(int)t - 1].detached = true; return 0; }
static pthread_t real_self() { static pthread_t (*f)() = (pthread_t(*)())dlsym(RTLD_NEXT, "pthread_self"); return f(); }
pthread_t pthread_self() { return act && cur ? (pthread_t)(cur->id + 1) : real_self(); }
int sched_yield() { if (act && cur) park(); return 0; }
int nanosleep(const struct timespec*, struct timespec*) { if (act && cur) { park(); } return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { if (act && cur) park(); return 0; }
int usleep(unsigned) { if (act && cur) park(); return 0; }
unsigned sleep(unsigned) { if (act && cur) park(); return 0; }
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!act || !cur) { return (int)::syscall(SYS_clock_gettime, c, ts); }
    ts->tv_sec = 1000 + vclock / 1000000000; ts->tv_nsec = vclock % 1000000000; return 0;
}
static long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
    long ret; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; } return ret;
}
long syscall(long n, ...) noexcept {
    va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
    if (n == SYS_futex && act && cur) {
        int op = b & FUTEX_CMD_MASK; uint32_t* u = (uint32_t*)a;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) { if (*u != (uint32_t)c) { errno = EAGAIN; return -1; } block(W_FUTEX, u, d != 0); if (cur->timed_out) { cur->timed_out = false; errno = ETIMEDOUT; return -1; } return 0; }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { wake(W_FUTEX, u, (int)c); visible(); return 0; }
    }
    return raw_syscall(n, a, b, c, d, e, f);
}
int get_nprocs() noexcept { return 2; }
int get_nprocs_conf() noexcept { return 2; }
}
// exception objects are allocated by libstdc++ itself: forget what was known about a reused address
extern "C" void* __cxa_allocate_exception(size_t n) noexcept {
    static void* (*real)(size_t) = (void* (*)(size_t))dlsym(RTLD_NEXT, "__cxa_allocate_exception");
    void* p = real(n); if (act && cur && p) range_fresh((uintptr_t)p, n ? n : 1); return p;
}
