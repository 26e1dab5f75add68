#include "sched.h"
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <atomic>
#include <unordered_map>

extern "C" char __executable_start;

namespace sched {

using sim::rec;

const char* race_prop = "";
const char* mem_prop = "";
thread_local int lib = 0;

static const int MAXT = 6;
struct VC { uint32_t c[MAXT] = {0}; void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

enum State { READY, BLOCKED, DONE };
struct Thread {
    std::function<void()> body;
    pthread_t h;
    State st = READY;
    const void* wait = nullptr;
    int word = 0;
    VC vc, rel_fence, acq_pending;
    bool has_rel = false;
    uintptr_t lo = 0, hi = 0;
    u64 op = 0;
    int alloc_nth = 0; bool alloc_hit = false;
};
static Thread th[MAXT];
static int nth = 1;
static int cur = 0;
static bool concurrent = false;
static u64 npoints = 0, nswitch = 0, shash = 0, gap = 0;
static const u64 MAX_POINTS = 30000000;
static std::vector<Preempt> plan;
static size_t plan_pos = 0;
static thread_local int me = 0;
static thread_local bool inside = false;      // inside a hook

struct Inside { Inside() { inside = true; } ~Inside() { inside = false; } };

static void futex_wait(int* a) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(a, 0, __ATOMIC_RELAXED); }
static void futex_post(int* a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

[[noreturn]] static void end_run() { sim::finish_isolated(); }
static void stop_run() { if (rec.violated) end_run(); }     // a finding about another property does not end the run

static void hand_to(int j) {
    int i = me;
    if (j == i) return;
    ++nswitch;
    shash = sim::mix64(shash ^ (npoints * 64 + (u64)i * 8 + (u64)j));
    if (i && j) rec.state(sim::mix64(th[i].op * 131071 + th[j].op) ^ 0x5c4ed);
    cur = j;
    futex_post(&th[j].word);
    if (th[i].st != DONE || i == 0) futex_wait(&th[i].word);
}
static int next_runnable(int k) {             // k-th runnable thread after `me`
    std::vector<int> r;
    for (int d = 1; d < nth; ++d) { int j = (me - 1 + d) % (nth - 1) + 1; if (j != me && th[j].st == READY) r.push_back(j); }
    if (r.empty()) return me && th[me].st == READY ? me : 0;
    return r[(size_t)k % r.size()];
}

void point() {
    if (!concurrent || !me) return;
    if (++npoints > MAX_POINTS) { sim::NoLib nl; rec.violation(race_prop, "no-progress", "the threads executed %llu steps without finishing", (unsigned long long)MAX_POINTS); end_run(); }
    if (gap && --gap == 0) {
        int t = plan[plan_pos].target;
        ++plan_pos;
        gap = plan_pos < plan.size() ? plan[plan_pos].gap : 0;
        int j = next_runnable(t);
        if (j && j != me) { bool in = inside; inside = true; rec.count("fault:preemption"); hand_to(j); inside = in; }
    }
}

static void block_on(const void* a) {
    bool in0 = inside; inside = true;
    th[me].st = BLOCKED; th[me].wait = a;
    int j = next_runnable(0);
    if (!j) { rec.violation(race_prop, "deadlock", "every thread waits for another"); end_run(); }
    rec.count("blocked");
    hand_to(j);
    inside = in0;
}
static void wake_all(const void* a) { for (int i = 1; i < nth; ++i) if (th[i].st == BLOCKED && th[i].wait == a) th[i].st = READY; }

static void* entry(void* p) {
    int i = (int)(intptr_t)p;
    me = i; lib = 0;
    pthread_attr_t at; void* lo; size_t n;
    pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &n); pthread_attr_destroy(&at);
    th[i].lo = (uintptr_t)lo; th[i].hi = (uintptr_t)lo + n;
    futex_wait(&th[i].word);
    th[i].body();
    lib = 0;
    th[i].st = DONE;
    // hand the baton on; main gets it when nobody is left
    int left = 0, ready = 0;
    for (int k = 1; k < nth; ++k) { left += th[k].st != DONE; if (!ready && th[k].st == READY) ready = k; }
    if (!left) { cur = 0; futex_post(&th[0].word); return nullptr; }
    int j = next_runnable(0);
    if (!j) { rec.violation(race_prop, "deadlock", "every remaining thread waits for another"); end_run(); }
    ++nswitch; shash = sim::mix64(shash ^ (npoints * 64 + (u64)i * 8 + (u64)j));
    cur = j;
    futex_post(&th[j].word);
    return nullptr;
}

int spawn(std::function<void()> body) {
    if (nth >= MAXT) abort();
    th[nth].body = std::move(body);
    return nth++;
}
void run(const std::vector<Preempt>& p) {
    plan = p; plan_pos = 0; gap = plan.empty() ? 0 : plan[0].gap;
    for (int i = 1; i < nth; ++i) { th[i].vc = VC(); th[i].vc.c[i] = 1; th[i].st = READY; }
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
    for (int i = 1; i < nth; ++i) if (pthread_create(&th[i].h, &at, entry, (void*)(intptr_t)i)) { perror("pthread_create"); _exit(97); }
    concurrent = true;
    if (nth > 1) { cur = 1; futex_post(&th[1].word); futex_wait(&th[0].word); }
    for (int i = 1; i < nth; ++i) pthread_join(th[i].h, nullptr);
    concurrent = false;
}
u64  points() { return npoints; }
u64  switches() { return nswitch; }
u64  schedule_hash() { return shash; }
int  self() { return me; }
void set_op(u64 t) { th[me].op = t; }
void fail_alloc(int n) { th[me].alloc_nth = n; th[me].alloc_hit = false; }
bool alloc_failed() { return th[me].alloc_hit; }

// ---------------------------------------------------------------- shadow memory

enum { PR, PW, AR, AW, KINDS };               // plain/atomic read/write
struct Cell {
    uintptr_t key;                            // granule number, 0 = empty
    uint8_t   dead;                           // 1 freed, 2 outside a block
    uint8_t   mask[KINDS][MAXT];
    uint32_t  clk[KINDS][MAXT];
    const void* pc[KINDS][MAXT];
};
static Cell*  cells = nullptr; static size_t ccap = 0, cused = 0;
static Cell& cell(uintptr_t g) {
    if (cused * 2 >= ccap) {
        size_t nc = ccap ? ccap * 2 : 1 << 10; Cell* o = cells; size_t oc = ccap;
        cells = (Cell*)calloc(nc, sizeof(Cell)); ccap = nc; cused = 0;
        for (size_t i = 0; i < oc; ++i) if (o[i].key) { cell(o[i].key) = o[i]; }
        free(o);
    }
    size_t i = sim::mix64(g) & (ccap - 1);
    while (cells[i].key && cells[i].key != g) i = (i + 1) & (ccap - 1);
    if (!cells[i].key) { cells[i].key = g; ++cused; }
    return cells[i];
}

struct Block { size_t n; bool live; int kind; void* raw; };
static std::unordered_map<uintptr_t, Block>* blocks;
static std::unordered_map<uintptr_t, VC>* sync_vars;
static u64 live = 0;
u64 live_blocks() { return live; }

void reset() {
    if (!blocks) { blocks = new std::unordered_map<uintptr_t, Block>; sync_vars = new std::unordered_map<uintptr_t, VC>; }
    blocks->clear(); sync_vars->clear();
    for (int i = 0; i < MAXT; ++i) th[i] = Thread();
    nth = 1; cur = 0; npoints = nswitch = shash = 0; live = 0;
    if (cells) { memset(cells, 0, ccap * sizeof(Cell)); cused = 0; }
}

static const char* const kind_name[KINDS] = {"read", "write", "atomic read", "atomic write"};
static unsigned long off(const void* pc) { return (unsigned long)((uintptr_t)pc - (uintptr_t)&__executable_start); }

// one access to [p, p+n) by the current thread
static void touch(uintptr_t p, size_t n, int kind, const void* pc) {
    bool c = concurrent && me;
    uintptr_t end = p + n;
    while (p < end) {
        uintptr_t g = p >> 3; uintptr_t ge = (g + 1) << 3; if (ge > end) ge = end;
        uint8_t m = 0; for (uintptr_t b = p; b < ge; ++b) m |= (uint8_t)(1u << (b & 7));
        if (!c) {
            // only memory errors matter while one thread exists
            if (cused) { size_t i = sim::mix64(g) & (ccap - 1); while (cells[i].key && cells[i].key != g) i = (i + 1) & (ccap - 1);
                if (cells[i].key && cells[i].dead) { rec.violation(mem_prop, cells[i].dead == 1 ? "use-after-free" : "out-of-bounds", "a %s at {pc+0x%lx} touches %s memory", kind_name[kind], off(pc), cells[i].dead == 1 ? "released" : "unowned"); stop_run(); } }
            p = ge; continue;
        }
        Cell& q = cell(g);
        if (q.dead) { rec.violation(mem_prop, q.dead == 1 ? "use-after-free" : "out-of-bounds", "a %s at {pc+0x%lx} touches %s memory", kind_name[kind], off(pc), q.dead == 1 ? "released" : "unowned"); stop_run(); }
        Thread& t = th[me];
        for (int k = 0; k < KINDS; ++k) {
            if ((k == PR || k == AR) && (kind == PR || kind == AR)) continue;      // two reads
            if (k >= AR && kind >= AR) continue;                                   // two atomics
            for (int u = 1; u < nth; ++u) {
                if (u == me || !(q.mask[k][u] & m)) continue;
                if (q.clk[k][u] > t.vc.c[u]) {
                    rec.violation(race_prop, "data-race", "a %s at {pc+0x%lx} is not ordered with the %s of another thread at {pc+0x%lx}", kind_name[kind], off(pc), kind_name[k], off(q.pc[k][u]));
                    stop_run();
                }
            }
        }
        uint32_t now = t.vc.c[me];
        if (q.clk[kind][me] == now) q.mask[kind][me] |= m; else q.mask[kind][me] = m;
        q.clk[kind][me] = now; q.pc[kind][me] = pc;
        p = ge;
    }
}

static inline bool own_stack(uintptr_t p) { return me && p >= th[me].lo && p < th[me].hi; }

static inline void access(const void* a, size_t n, int kind, const void* pc) {
    if (lib <= 0 || inside || !n) return;
    uintptr_t p = (uintptr_t)a;
    if (own_stack(p)) return;
    Inside in;
    point();
    touch(p, n, kind, pc);
}

// ---------------------------------------------------------------- synchronisation

static void tick() { th[me].vc.c[me]++; }
static bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

static bool atomic_enter(const volatile void* a, size_t n, bool write, const void* pc) {
    if (lib <= 0 || inside) return false;
    if (own_stack((uintptr_t)a)) return false;
    Inside in;
    point();
    touch((uintptr_t)a, n, write ? AW : AR, pc);
    return concurrent && me;
}
static void on_load(const volatile void* a, int mo) {
    Inside in; auto i = sync_vars->find((uintptr_t)a);
    if (i == sync_vars->end()) return;
    if (is_acq(mo)) th[me].vc.join(i->second); else th[me].acq_pending.join(i->second);
}
static void on_store(const volatile void* a, int mo, bool rmw) {
    Inside in; VC& v = (*sync_vars)[(uintptr_t)a];
    if (!rmw) v = VC();
    if (is_rel(mo)) { v.join(th[me].vc); tick(); }
    else if (th[me].has_rel) v.join(th[me].rel_fence);
}
static void lock_acquire(const void* a) { if (concurrent && me) { Inside in; th[me].vc.join((*sync_vars)[(uintptr_t)a]); } }
static void lock_release(const void* a) { if (concurrent && me) { Inside in; (*sync_vars)[(uintptr_t)a].join(th[me].vc); tick(); } }

// ---------------------------------------------------------------- allocator seam

static const size_t PAD = 32;
// memory that starts a new life has no past accesses
static void fresh(void* p, size_t n) {
    if (!cused || inside) return;
    Inside in;
    for (uintptr_t g = (uintptr_t)p >> 3; g < ((uintptr_t)p + n + 7) >> 3; ++g) {
        size_t i = sim::mix64(g) & (ccap - 1);
        while (cells[i].key && cells[i].key != g) i = (i + 1) & (ccap - 1);
        if (cells[i].key && !cells[i].dead) memset((char*)&cells[i] + sizeof cells[i].key, 0, sizeof cells[i] - sizeof cells[i].key);
    }
}
static void* do_alloc(size_t n, int kind, size_t align) {
    if (lib <= 0 || inside) { void* p = align > 16 ? aligned_alloc(align, (n + align) / align * align) : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); fresh(p, n); return p; }
    Inside in;
    point();
    if (th[me].alloc_nth && --th[me].alloc_nth == 0) { th[me].alloc_hit = true; sim::faults.total_fired[sim::F_ALLOC]++; throw std::bad_alloc(); }
    size_t pad = align > PAD ? align : PAD;
    size_t tot = (pad + n + PAD + pad - 1) / pad * pad;
    char* raw = (char*)aligned_alloc(pad, tot);
    if (!raw) throw std::bad_alloc();
    memset(raw, 0xAA, tot);
    char* p = raw + pad;
    for (uintptr_t g = (uintptr_t)p >> 3; g < ((uintptr_t)p + n) >> 3; ++g) { Cell& c = cell(g); uintptr_t k = c.key; memset(&c, 0, sizeof c); c.key = k; }
    for (uintptr_t g = (uintptr_t)raw >> 3; g < (uintptr_t)p >> 3; ++g) cell(g).dead = 2;
    for (uintptr_t g = ((uintptr_t)p + n + 7) >> 3; g < ((uintptr_t)raw + tot) >> 3; ++g) cell(g).dead = 2;
    (*blocks)[(uintptr_t)p] = Block{n, true, kind, raw};
    ++live;
    return p;
}
static void do_free(void* p, int kind, const void* pc) noexcept {
    if (!p) return;
    if (inside) { free(p); return; }              // the hooks' own memory
    bool in0 = inside; inside = true;
    auto i = blocks ? blocks->find((uintptr_t)p) : std::unordered_map<uintptr_t, Block>::iterator();
    if (!blocks || i == blocks->end()) { inside = in0; free(p); return; }
    if (lib > 0) point();
    if (!i->second.live) { rec.violation(mem_prop, "double-free", "a block is released a second time at {pc+0x%lx}", off(pc)); stop_run(); inside = in0; return; }
    if (i->second.kind != kind) { rec.violation(mem_prop, "mismatched-free", "memory from %s released with %s", i->second.kind ? "new[]" : "new", kind ? "delete[]" : "delete"); stop_run(); }
    touch((uintptr_t)p, i->second.n, PW, pc);
    i->second.live = false; --live;
    for (uintptr_t g = (uintptr_t)p >> 3; g < ((uintptr_t)p + i->second.n + 7) >> 3; ++g) cell(g).dead = 1;
    memset(p, 0xDD, i->second.n);
    inside = in0;
}

} // namespace sched

using namespace sched;
#define PC __builtin_return_address(0)

void* operator new(size_t n)   { return do_alloc(n, 0, 0); }
void* operator new[](size_t n) { return do_alloc(n, 1, 0); }
void* operator new(size_t n, const std::nothrow_t&) noexcept   { try { return do_alloc(n, 0, 0); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return do_alloc(n, 1, 0); } catch (...) { return nullptr; } }
void* operator new(size_t n, std::align_val_t a)   { return do_alloc(n, 0, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return do_alloc(n, 1, (size_t)a); }
void operator delete(void* p) noexcept   { do_free(p, 0, PC); }
void operator delete[](void* p) noexcept { do_free(p, 1, PC); }
void operator delete(void* p, size_t) noexcept   { do_free(p, 0, PC); }
void operator delete[](void* p, size_t) noexcept { do_free(p, 1, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept   { do_free(p, 0, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_free(p, 1, PC); }
void operator delete(void* p, std::align_val_t) noexcept   { do_free(p, 0, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { do_free(p, 1, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept   { do_free(p, 0, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_free(p, 1, PC); }

extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

#define RW(n) \
    void __tsan_read##n(void* a)  { access(a, n, PR, PC); } \
    void __tsan_write##n(void* a) { access(a, n, PW, PC); } \
    void __tsan_unaligned_read##n(void* a)  { access(a, n, PR, PC); } \
    void __tsan_unaligned_write##n(void* a) { access(a, n, PW, PC); } \
    void __tsan_volatile_read##n(void* a)  { access(a, n, PR, PC); } \
    void __tsan_volatile_write##n(void* a) { access(a, n, PW, PC); } \
    void __tsan_unaligned_volatile_read##n(void* a)  { access(a, n, PR, PC); } \
    void __tsan_unaligned_volatile_write##n(void* a) { access(a, n, PW, PC); } \
    void __tsan_read_write##n(void* a) { access(a, n, PR, PC); access(a, n, PW, PC); } \
    void __tsan_unaligned_read_write##n(void* a) { access(a, n, PR, PC); access(a, n, PW, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n)  { access(a, n, PR, PC); }
void __tsan_write_range(void* a, unsigned long n) { access(a, n, PW, PC); }
void __tsan_vptr_read(void** a) { access(a, sizeof *a, PR, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access(a, sizeof *a, PW, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n)  { access(s, n, PR, PC); access(d, n, PW, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, PR, PC); access(d, n, PW, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, PW, PC); return memset(d, c, n); }

#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T* a, int mo) { bool c = atomic_enter(a, sizeof(T), false, PC); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (c) on_load(a, mo); return v; } \
    void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { bool c = atomic_enter(a, sizeof(T), true, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); if (c) on_store(a, mo, false); } \
    T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { bool c = atomic_enter(a, sizeof(T), true, PC); T o = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); if (c) { on_load(a, mo); on_store(a, mo, true); } return o; } \
    T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { bool c = atomic_enter(a, sizeof(T), true, PC); T o = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); if (c) { on_load(a, mo); on_store(a, mo, true); } return o; } \
    T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { bool c = atomic_enter(a, sizeof(T), true, PC); T o = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); if (c) { on_load(a, mo); on_store(a, mo, true); } return o; } \
    T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { bool c = atomic_enter(a, sizeof(T), true, PC); T o = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); if (c) { on_load(a, mo); on_store(a, mo, true); } return o; } \
    T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { bool c = atomic_enter(a, sizeof(T), true, PC); T o = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); if (c) { on_load(a, mo); on_store(a, mo, true); } return o; } \
    T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { bool c = atomic_enter(a, sizeof(T), true, PC); T o = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); if (c) { on_load(a, mo); on_store(a, mo, true); } return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { bool c = atomic_enter(a, sizeof(T), true, PC); bool ok = __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (c) { on_load(a, ok ? mo : fmo); if (ok) on_store(a, mo, true); } return ok; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, e, v, mo, fmo); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

void __tsan_atomic_thread_fence(int mo) {
    if (lib <= 0 || inside || !concurrent || !me) return;
    Inside in; Thread& t = th[me];
    if (is_acq(mo)) t.vc.join(t.acq_pending);
    if (is_rel(mo)) { t.rel_fence = t.vc; t.has_rel = true; tick(); }
}
void __tsan_atomic_signal_fence(int) {}

// thrown objects live in memory of the runtime's own
static void* (*real_allocate_exception)(size_t);
__attribute__((constructor)) static void find_allocate_exception() { real_allocate_exception = (void* (*)(size_t))dlsym(RTLD_NEXT, "__cxa_allocate_exception"); }
void* __cxa_allocate_exception(size_t n) noexcept {
    if (!real_allocate_exception) find_allocate_exception();
    void* p = real_allocate_exception(n);
    fresh(p, n);
    return p;
}

// function-local statics
int __cxa_guard_acquire(uint64_t* g) {
    uint8_t* b = (uint8_t*)g;
    for (;;) {
        if (b[0]) { lock_acquire(g); return 0; }
        if (lib > 0 && concurrent && me && !inside) { Inside in; point(); if (b[0]) continue; }
        if (b[1] == 0) { b[1] = (uint8_t)(me + 1); lock_acquire(g); return 1; }
        if (!concurrent || !me || b[1] == (uint8_t)(me + 1)) { fprintf(stderr, "recursive static initialisation\n"); abort(); }
        block_on(g);
    }
}
void __cxa_guard_release(uint64_t* g) { uint8_t* b = (uint8_t*)g; b[0] = 1; b[1] = 0; lock_release(g); wake_all(g); }
void __cxa_guard_abort(uint64_t* g)   { uint8_t* b = (uint8_t*)g; b[1] = 0; lock_release(g); wake_all(g); }

// locks (the library has none now; a change may add some)
static int* owner_of(const void* m) { static std::unordered_map<uintptr_t, int>* o = new std::unordered_map<uintptr_t, int>; return &(*o)[(uintptr_t)m]; }
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!concurrent || !me || inside) return 0;
    { Inside in; if (lib > 0) point(); }
    int* o; { Inside in; o = owner_of(m); }
    bool rec_ok = m->__data.__kind == PTHREAD_MUTEX_RECURSIVE;
    while (*o && !(rec_ok && *o % 8 == me)) { if (*o % 8 == me) { rec.violation(race_prop, "deadlock", "a thread locks a mutex it holds"); end_run(); } Inside in; block_on(m); }
    *o = *o ? *o + 8 : me;
    lock_acquire(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!concurrent || !me || inside) return 0;
    { Inside in; if (lib > 0) point(); }
    int* o; { Inside in; o = owner_of(m); }
    bool rec_ok = m->__data.__kind == PTHREAD_MUTEX_RECURSIVE;
    if (*o && !(rec_ok && *o % 8 == me)) return EBUSY;
    *o = *o ? *o + 8 : me;
    lock_acquire(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!concurrent || !me || inside) return 0;
    int* o; { Inside in; o = owner_of(m); }
    lock_release(m);
    if (*o >= 8) *o -= 8; else *o = 0;
    wake_all(m);
    if (lib > 0) { Inside in; point(); }
    return 0;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
    int* b = (int*)o;
    for (;;) {
        if (*b == 2) { lock_acquire(o); return 0; }
        if (concurrent && me && lib > 0 && !inside) { { Inside in; point(); } if (*b == 2) continue; }
        if (*b == 0) { *b = 1; try { f(); } catch (...) { *b = 0; wake_all(o); throw; } *b = 2; lock_release(o); wake_all(o); return 0; }
        if (!concurrent || !me) return 0;
        Inside in; block_on(o);
    }
}
// reader/writer locks: conservative, treated as exclusive
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return pthread_mutex_lock((pthread_mutex_t*)l); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return pthread_mutex_lock((pthread_mutex_t*)l); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { return pthread_mutex_unlock((pthread_mutex_t*)l); }

} // extern "C"
