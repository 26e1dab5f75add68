// C06: handles to reference-counted data, copied, moved and dropped by simulated threads.
#include "core/sim.h"
#include "core/sched.h"
#include <geomc/Storage.h>
#include <geomc/linalg/Matrix.h>
#include <geomc/random/LCRand.h>
#include <geomc/function/PerlinNoise.h>
#include <geomc/function/Raster.h>
#include <pthread.h>
#include <memory>

using namespace sim;

enum { NEW, COPY, MOVE, ASSIGN, MOVE_ASSIGN, DROP, READ, GLOBAL, GLOBAL_ASSIGN, PUT, TAKE, PEEK, PREEMPT, OP_COUNT };
static const char* OPS[] = {"new", "copy", "move", "assign", "move_assign", "drop", "read", "copy_global", "assign_global", "put", "take", "peek", "preempt"};
static const int SLOTS = 3, BOX = 2, GLOBALS = 2;
#define P "C06"

template <typename T> static u64 bits(T v) { u64 r = 0; memcpy(&r, &v, sizeof v < 8 ? sizeof v : 8); return r; }
static i64 val(i64 id, size_t k) { return (i64)(mix64((u64)id * 131 + k) % 100000); }

// what is shared: make() builds and fills, read() digests through the handle, expect() is the digest of a fresh one
struct Text { std::string s; Text() {} Text(i64 v) : s("a string too long to be stored inside the object ") { s += std::to_string(v); } };

template <typename S> struct ArrayData {
    typedef S D;
    static const bool sized = false;
    template <typename E> static void fill(E* p, size_t n, i64 id) { for (size_t k = 0; k < n; ++k) p[k] = (E)val(id, k); }
    static void fill(Text* p, size_t n, i64 id) { for (size_t k = 0; k < n; ++k) p[k] = Text(val(id, k)); }
    static void make(void* m, i64 id, size_t n) { S* s = new (m) S((index_t)n); try { fill(s->get(), n, id); } catch (...) { s->~S(); throw; } }
    static u64 of(const Text& t) { u64 h = 5; for (char c : t.s) h = mix64(h ^ (u64)c); return h; }
    template <typename E> static u64 of(const E& e) { return bits(e); }
    static u64 read(const S& s, size_t n) { u64 h = n; const auto* p = s.get(); for (size_t k = 0; k < n; ++k) h = mix64(h ^ of(p[k])); return h; }
    template <typename E> static u64 model(i64 id, size_t n, E*) { u64 h = n; for (size_t k = 0; k < n; ++k) h = mix64(h ^ of((E)val(id, k))); return h; }
    static u64 expect(i64 id, size_t n) { return model(id, n, (typename std::remove_reference<decltype(*((S*)0)->get())>::type*)nullptr); }
};
template <typename T, index_t M, index_t N, geom::MatrixLayout L> struct MatrixData {
    typedef geom::SimpleMatrix<T, M, N, L, geom::STORAGE_SHARED> D;
    static index_t r(size_t n) { return M ? M : (index_t)n; }
    static index_t c(size_t n) { return N ? N : (index_t)(n + 1); }
    static void make(void* m, i64 id, size_t n) { D* d = new (m) D(r(n), c(n)); size_t k = 0; for (index_t i = 0; i < d->rows(); ++i) for (index_t j = 0; j < d->cols(); ++j) d->set(i, j, (T)val(id, k++)); }
    static u64 read(const D& d, size_t) { u64 h = (u64)d.rows() * 100 + (u64)d.cols(); for (index_t i = 0; i < d.rows(); ++i) for (index_t j = 0; j < d.cols(); ++j) h = mix64(h ^ bits(d(i, j))); return h; }
    static u64 expect(i64 id, size_t n) { u64 h = (u64)r(n) * 100 + (u64)c(n); for (size_t k = 0; k < (size_t)(r(n) * c(n)); ++k) h = mix64(h ^ bits((T)val(id, k))); return h; }
};
template <typename T, index_t N> struct NoiseData {
    typedef geom::PerlinNoise<T, N> D;
    typedef typename D::point_t pt;
    static void make(void* m, i64 id, size_t) { geom::LCRand g((uint64_t)id); new (m) D(&g); }
    static u64 read(const D& d, size_t) {
        u64 h = 7;
        for (int k = 0; k < 3; ++k) { pt p; T* x = (T*)&p; for (index_t i = 0; i < N; ++i) x[i] = (T)(k * 1.37 + (double)i * 3.1 - 5); h = mix64(h ^ bits(d.eval(p))); }
        return h;
    }
    static u64 expect(i64 id, size_t) { geom::LCRand g((uint64_t)id); D d(&g); return read(d, 0); }
};
template <typename O, index_t M, index_t N> struct RasterData {
    typedef geom::Raster<double, O, M, N> D;
    typedef typename D::grid_t grid; typedef typename D::coord_t coord; typedef typename D::sample_t sample;
    static void make(void* m, i64 id, size_t n) {
        grid g((index_t)(n % 3 + 2)); index_t vol = N; for (index_t i = 0; i < M; ++i) vol *= g[i];
        O buf[5 * 5 * 5 * 4]; for (index_t k = 0; k < vol; ++k) buf[k] = (O)val(id, (size_t)k);
        D* d = new (m) D(g, buf); d->setAbyss(sample((O)3));
    }
    static u64 read(const D& d, size_t) {
        u64 h = 9; index_t n = d.dataExtents()[0];
        for (index_t k = 0; k < n + 2; ++k) { grid g(k); sample s = d.template sample_discrete<geom::EDGE_CONSTANT>(g); for (index_t i = 0; i < N; ++i) h = mix64(h ^ bits(((const O*)&s)[i])); }
        sample s = d.template sample<geom::EDGE_CLAMP, geom::INTERP_LINEAR>(coord(0.75)); for (index_t i = 0; i < N; ++i) h = mix64(h ^ bits(((const O*)&s)[i]));
        return h;
    }
    static u64 expect(i64 id, size_t n) { alignas(D) char m[sizeof(D)]; make(m, id, n); u64 h = read(*(D*)m, n); ((D*)m)->~D(); return h; }
};

template <typename K> struct World {
    typedef typename K::D D;
    // the model: which datum a handle refers to
    struct Cell { alignas(64) char mem[sizeof(D)]; D* d = nullptr; i64 id = -1; size_t n = 0; u64 digest = 0; };
    struct Worker { std::vector<std::pair<int, const Step*>> steps; Cell c[SLOTS]; };
    Worker w[4];
    Cell box[BOX]; pthread_mutex_t box_m[BOX];
    Cell global[GLOBALS];
    const Trace& t;
    explicit World(const Trace& t) : t(t) {}

    static void drop(Cell& c) { if (c.d) { D* d = c.d; c.d = nullptr; c.id = -1; sched::Lib l; d->~D(); } }
    static void tag(Cell& a, const Cell& b) { a.id = b.id; a.n = b.n; a.digest = b.digest; }
    static bool fresh(Cell& c, i64 id, size_t n, int fault) {
        drop(c);
        memset(c.mem, 0xA5, sizeof c.mem);
        sched::fail_alloc(fault);
        bool ok = false;
        try { sched::Lib l; K::make(c.mem, id, n); ok = true; } catch (const std::bad_alloc&) {}
        bool fired = sched::alloc_failed();
        sched::fail_alloc(0);
        if (!ok && !fired) rec.violation(P, "unexpected-exception", "construction failed although memory was available");
        if (!ok) return false;
        if (fired) rec.violation(P, "swallowed-failure", "an allocation failed but the constructor returned");
        c.d = (D*)c.mem; c.id = id; c.n = n; c.digest = K::expect(id, n);
        look(c);
        return true;
    }
    static void look(Cell& c) {
        if (!c.d || c.id < 0) return;
        u64 h; { sched::Lib l; h = K::read(*(const D*)c.d, c.n); }
        if (h != c.digest) rec.violation(P, "content", "a handle to datum %lld reads other contents than were published", (long long)c.id);
    }
    static void copy_to(Cell& a, const Cell& b) { drop(a); if (!b.d) return; { sched::Lib l; new (a.mem) D(*(const D*)b.d); } a.d = (D*)a.mem; tag(a, b); }
    static void move_to(Cell& a, Cell& b) { drop(a); if (!b.d) return; { sched::Lib l; new (a.mem) D(std::move(*b.d)); } a.d = (D*)a.mem; tag(a, b); b.id = -1; }

    void step(int th, int no, const Step& s) {
        Cell* c = w[th].c; Cell& a = c[s.idx(1, SLOTS)]; Cell& b = c[s.idx(2, SLOTS)];
        sched::set_op((u64)s.op * 64 + (u64)t.get("kind"));
        (void)no;
        switch (s.op) {
            case NEW: fresh(a, 1 + s.arg(2), 1 + s.idx(3, 6), s.f.empty() ? 0 : s.f[0].nth); break;
            case COPY: if (&a != &b && b.id >= 0) copy_to(a, b); break;
            case MOVE: if (&a != &b && b.id >= 0) move_to(a, b); break;
            case ASSIGN: if (a.d && b.d && b.id >= 0) { { sched::Lib l; *a.d = *(const D*)b.d; } tag(a, b); } break;
            case MOVE_ASSIGN: if (a.d && b.d && &a != &b && b.id >= 0) { { sched::Lib l; *a.d = std::move(*b.d); } tag(a, b); b.id = -1; } break;
            case DROP: drop(a); break;
            case READ: look(a); break;
            case GLOBAL: copy_to(a, global[s.idx(2, GLOBALS)]); break;
            case GLOBAL_ASSIGN: { const Cell& g = global[s.idx(2, GLOBALS)]; if (a.d && g.d) { { sched::Lib l; *a.d = *(const D*)g.d; } tag(a, g); } break; }
            case PUT: case TAKE: case PEEK: {
                size_t k = s.idx(2, BOX);
                pthread_mutex_lock(&box_m[k]);
                if (s.op == PUT) { if (a.id >= 0) { if (s.arg(3) & 1) copy_to(box[k], a); else move_to(box[k], a); } }
                else if (s.op == TAKE) { if (box[k].id >= 0) move_to(a, box[k]); }
                else if (box[k].id >= 0) copy_to(a, box[k]);
                pthread_mutex_unlock(&box_m[k]);
                if (s.op != PUT) look(a);
                break;
            }
        }
    }
    void execute() {
        int nt = (int)t.get("threads", 2); if (nt < 1) nt = 1; if (nt > 4) nt = 4;
        std::vector<sched::Preempt> plan;
        int no = 0;
        for (auto& s : t.steps) {
            rec.count(OPS[s.op]); rec.log((u64)s.op); for (i64 a : s.a) rec.log((u64)a);
            for (auto& f : s.f) if (f.kind == F_ALLOC) faults.total_armed[F_ALLOC]++;
            if (s.op == PREEMPT) plan.push_back(sched::Preempt{(u64)std::max<i64>(1, s.arg(0)), (int)s.idx(1, 8)});
            else w[s.idx(0, (size_t)nt)].steps.push_back({no, &s});
            ++no;
        }
        for (auto& m : box_m) pthread_mutex_init(&m, nullptr);
        // published before the threads start: global objects, and a copy of the first in every thread
        for (int g = 0; g < GLOBALS; ++g) fresh(global[g], 500 + g, (size_t)(2 + g), 0);
        for (int i = 0; i < nt; ++i) copy_to(w[i].c[0], global[0]);
        bool early = t.get("early") & 1;
        if (early) drop(global[0]);                 // only the threads' handles keep datum 500 alive
        for (int i = 0; i < nt; ++i) sched::spawn([this, i] {
            for (auto& p : w[i].steps) step(i, p.first, *p.second);
            for (auto& c : w[i].c) { look(c); if (t.get("early") & 2) drop(c); }      // threads end by dropping everything, or leave it to the owner
        });
        sched::run(plan);
        for (int i = 0; i < nt; ++i) for (auto& c : w[i].c) { look(c); drop(c); }
        for (auto& c : box) { look(c); drop(c); }
        for (auto& c : global) { look(c); drop(c); }
        rec.log(sched::schedule_hash());
        rec.count("context_switches", sched::switches()); rec.count("scheduling_points", sched::points());
        if (sched::live_blocks()) rec.violation(P, "leak", "%llu blocks remain after every handle is gone", (unsigned long long)sched::live_blocks());
    }
};

template <typename K> static void go(const Trace& t) { std::unique_ptr<World<K>> w(new World<K>(t)); w->execute(); }
typedef void (*Go)(const Trace&);
static const Go KINDS[] = {
    go<ArrayData<geom::Storage<int, 0>>>,
    go<ArrayData<geom::Storage<Text, 0>>>,
    go<ArrayData<geom::SizedStorage<double, 0>>>,
    go<ArrayData<geom::GenericStorage<short, 0, geom::STORAGE_SHARED>>>,
    go<MatrixData<double, 0, 0, geom::ROW_MAJOR>>,
    go<MatrixData<float, 3, 0, geom::COL_MAJOR>>,
    go<MatrixData<double, 0, 2, geom::ROW_MAJOR>>,
    go<RasterData<double, 2, 3>>,
    go<RasterData<float, 3, 2>>,
    go<NoiseData<double, 2>>,
    go<NoiseData<float, 1>>,
    go<NoiseData<float, 3>>,
};
static const int NKINDS = sizeof KINDS / sizeof *KINDS;

struct SharedScenario : Scenario {
    const char* name() const override { return "shared"; }
    bool isolated() const override { return true; }
    std::vector<const char*> ops() const override { return std::vector<const char*>(OPS, OPS + OP_COUNT); }
    void generate(Rng& r, Trace& t, int) override {
        int nt = (int)r.range(2, 4);
        t.cfg["threads"] = nt; t.cfg["kind"] = (i64)r.below(r.chance(1, 8) ? NKINDS : NKINDS - 3); t.cfg["early"] = (i64)r.below(4);
        int np = 1 + (int)r.below(25), scale = (int)r.below(8);
        for (int i = 0; i < np; ++i) add_step(t, PREEMPT, {1 + (i64)(r.next() >> (63 - scale + (r.chance(1, 3) ? (int)r.below((u64)scale + 1) : 0))), (i64)r.below(4)});
        int n = (int)r.range(2, 30);
        static const int weight[] = {8, 18, 6, 12, 8, 16, 6, 6, 4, 8, 6, 4};
        bool off[12]; for (bool& o : off) o = r.chance(1, 4);
        for (int q = 0; q < n; ++q) {
            int op; do { int z = (int)r.below(102); op = 0; while (op < 11 && z >= weight[op]) z -= weight[op++]; } while (off[op] && r.chance(3, 4));
            add_step(t, op, {(i64)r.below((u64)nt), (i64)r.below(SLOTS), op == NEW ? (i64)r.below(50) : (i64)r.below(SLOTS), (i64)r.below(6)});
            if (op == NEW && r.chance(1, 3)) t.steps.back().f.push_back(Fault{F_ALLOC, 1 + (int)r.below(4)});
        }
    }
    void execute(const Trace& t) override {
        sched::race_prop = sched::mem_prop = P;
        sched::reset();
        KINDS[(size_t)t.get("kind") % NKINDS](t);
    }
};
sim::Scenario* sim::make_scenario() { return new SharedScenario; }
