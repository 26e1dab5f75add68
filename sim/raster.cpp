// C24: histories over rasters that share their samples, with refused allocations.
#include "core/sim.h"
#include "core/elem.h"
#include "core/ops.h"
#include <geomc/function/Raster.h>
#include <cmath>
#include <memory>

using namespace sim;
#define P "C24"

enum { NEW, NEW_DATA, COPY, MOVE, ASSIGN, MOVE_ASSIGN, DROP, SET, SET_OUTSIDE, FILL, ABYSS, READ, READ_RUN, COPY_REGION, COPY_REGION_RUN, SAMPLE, SAMPLE_RUN, SAMPLE_GRID, INFO, OP_COUNT };
static const char* OPS[] = {"new", "new_from_data", "copy", "move", "assign", "move_assign", "drop", "set", "set_outside", "fill", "set_abyss", "read", "read_runtime_edge",
    "copy_region", "copy_region_runtime_edge", "sample", "sample_runtime", "sample_grid_position", "info"};
static const int POOL = 4;
static const char* EN[] = {"clamp", "periodic", "mirror", "constant"};
static const char* IN[] = {"nearest", "linear", "cubic"};
static const geom::EdgeBehavior EDGES[] = {geom::EDGE_CLAMP, geom::EDGE_PERIODIC, geom::EDGE_MIRROR, geom::EDGE_CONSTANT};
static const geom::Interpolation INTERPS[] = {geom::INTERP_NEAREST, geom::INTERP_LINEAR, geom::INTERP_CUBIC};

static i64 pmod(i64 a, i64 b) { i64 m = a % b; return m < 0 ? m + b : m; }
// where a coordinate outside of [0,n) is read from; -1: nowhere
static i64 edged(int edge, i64 c, i64 n) {
    if (c >= 0 && c < n) return c;
    switch (edge) {
        case 0: return c < 0 ? 0 : n - 1;
        case 1: return pmod(c, n);
        case 2: { if (n == 1) return 0; i64 m = pmod(c, 2 * (n - 1)); return m < n ? m : 2 * (n - 1) - m; }
        default: return -1;
    }
}

template <typename I, typename O, index_t M, index_t N>
struct World {
    typedef geom::Raster<I, O, M, N> R;
    typedef typename R::grid_t grid; typedef typename R::coord_t coord; typedef typename R::sample_t smp;
    typedef geom::PointType<index_t, M> G; typedef geom::PointType<I, M> X; typedef geom::PointType<O, N> S;
    typedef std::vector<double> Arr;                          // N values per grid point, first dimension consecutive
    struct Cell { R* r = nullptr; i64 ext[M]; double lo[M], hi[M]; double abyss[N]; std::shared_ptr<Arr> d; bool flat = false; };
    const Trace& t;
    Cell c[POOL];
    explicit World(const Trace& t) : t(t) {}
    ~World() { for (auto& x : c) delete x.r; }

    static grid g(const i64* p) { grid q; for (index_t i = 0; i < M; ++i) G::iterator(q)[i] = p[i]; return q; }
    static smp  s(const double* p) { smp q; for (index_t i = 0; i < N; ++i) S::iterator(q)[i] = (O)p[i]; return q; }
    static double comp(const smp& v, int k) { smp w = v; return (double)S::iterator(w)[k]; }
    static size_t count(const Cell& x) { size_t n = 1; for (i64 e : x.ext) n *= (size_t)e; return n; }
    static void coords(const Cell& x, size_t i, i64* p) { for (index_t k = 0; k < M; ++k) { p[k] = (i64)(i % (size_t)x.ext[k]); i /= (size_t)x.ext[k]; } }
    static double at(const Cell& x, const i64* p, int edge, int k) {
        size_t i = 0, dim = 1;
        for (index_t a = 0; a < M; ++a) { i64 q = edged(edge, p[a], x.ext[a]); if (q < 0) return x.abyss[k]; i += (size_t)q * dim; dim *= (size_t)x.ext[a]; }
        return (*x.d)[i * N + (size_t)k];
    }
    // the linear interpolant at a point of the grid's own space
    static double linear(const Cell& x, const double* p, int edge, int k) {
        double v = 0;
        for (int m = 0; m < (1 << M); ++m) {
            double w = 1; i64 q[M];
            for (index_t a = 0; a < M; ++a) { double f = std::floor(p[a]); q[a] = (i64)f + ((m >> a) & 1); w *= (m >> a) & 1 ? p[a] - f : 1 - (p[a] - f); }
            if (w != 0) v += w * at(x, q, edge, k);
        }
        return v;
    }
    void same(const Cell& x, const smp& v, const i64* p, int edge, const char* what) {
        for (int k = 0; k < (int)N; ++k) {
            double e = at(x, p, edge, k), f = comp(v, k);
            rec.log((u64)(i64)f);
            SIM_REQUIRE(P, "content", e == f, "%s at grid point (%lld, %lld, %lld) with edge %s: component %d is %g, expected %g", what, (long long)p[0], M > 1 ? (long long)p[M > 1 ? 1 : 0] : 0, M > 2 ? (long long)p[M > 2 ? 2 : 0] : 0, EN[edge], k, f, e);
        }
        rec.check();
    }
    smp read(const Cell& x, const i64* p, int edge) {
        Lib l; const R& r = *x.r;
        switch (edge) { case 0: return r.template sample_discrete<geom::EDGE_CLAMP>(g(p)); case 1: return r.template sample_discrete<geom::EDGE_PERIODIC>(g(p));
            case 2: return r.template sample_discrete<geom::EDGE_MIRROR>(g(p)); default: return r.template sample_discrete<geom::EDGE_CONSTANT>(g(p)); }
    }
    template <geom::EdgeBehavior E> smp sample_e(const Cell& x, const coord& p, int in) {
        const R& r = *x.r;
        switch (in) { case 0: return r.template sample<E, geom::INTERP_NEAREST>(p); case 1: return r.template sample<E, geom::INTERP_LINEAR>(p); default: return r.template sample<E, geom::INTERP_CUBIC>(p); }
    }
    smp sample(const Cell& x, const coord& p, int edge, int in, bool run) {
        Lib l;
        if (run) return ((const R*)x.r)->sample(p, EDGES[edge], INTERPS[in]);
        switch (edge) { case 0: return sample_e<geom::EDGE_CLAMP>(x, p, in); case 1: return sample_e<geom::EDGE_PERIODIC>(x, p, in); case 2: return sample_e<geom::EDGE_MIRROR>(x, p, in); default: return sample_e<geom::EDGE_CONSTANT>(x, p, in); }
    }
    void drop(Cell& x) { Lib l; delete x.r; x.r = nullptr; NoLib nl; x.d.reset(); }

    template <typename F> bool construct(const Step& st, Cell& x, F f) {
        drop(x);
        u64 live = alloc_stats.live;
        R* r = nullptr;
        Outcome o = attempt(st, P, [&] { r = f(); });
        if (o == DONE) x.r = r;
        else SIM_REQUIRE(P, "leak", alloc_stats.live == live, "a construction that ran out of memory left %lld blocks behind", (long long)(alloc_stats.live - live));
        rec.check();
        return o == DONE;
    }
    void step(const Step& st) {
        size_t i = st.idx(0, POOL), j = st.idx(1, POOL);
        Cell& x = c[i]; Cell& y = c[j];
        u64 h = mix64((u64)st.arg(2));
        auto next = [&] { return h = mix64(h); };
        auto value = [&] { return (double)((i64)(next() % 2001) - 1000); };
        auto inside = [&](i64* p) { for (index_t a = 0; a < M; ++a) p[a] = (i64)(next() % (u64)x.ext[a]); };
        auto anywhere = [&](i64* p) { for (index_t a = 0; a < M; ++a) p[a] = next() % 12 == 0 ? (i64)(next() % (2ull << 40)) - (1ll << 40) : (i64)(next() % (u64)(5 * x.ext[a])) - 2 * x.ext[a]; };
        switch (st.op) {
            case NEW: case NEW_DATA: {
                Cell n; bool dom = next() % 2;
                for (index_t a = 0; a < M; ++a) { n.ext[a] = 1 + (i64)(next() % (M == 3 ? 4 : next() % 16 ? 6 : M == 1 ? 200 : 24)); n.lo[a] = dom ? (double)(i64)(next() % 17) - 8 : 0; n.hi[a] = dom ? n.lo[a] + 0.25 * (double)(1 + next() % 40) : (double)(n.ext[a] - 1); }
                coord lo, hi; for (index_t a = 0; a < M; ++a) { X::iterator(lo)[a] = (I)n.lo[a]; X::iterator(hi)[a] = (I)n.hi[a]; }
                geom::Rect<I, M> rect(lo, hi); grid e = g(n.ext);
                std::vector<O> src(count(n) * N); for (O& o : src) o = (O)value();
                bool ok = construct(st, x, [&]() -> R* { if (st.op == NEW) return dom ? new R(e, rect) : new R(e); return dom ? new R(e, src.data(), rect) : new R(e, src.data()); });
                if (ok) {
                    R* r = x.r; x = n; x.r = r; x.d = std::make_shared<Arr>(count(n) * N, 0.0);
                    if (st.op == NEW_DATA) for (size_t q = 0; q < src.size(); ++q) (*x.d)[q] = (double)src[q];
                    for (double& a : x.abyss) a = 0;
                }
                break;
            }
            case COPY: case MOVE: if (y.r && i != j) {
                if (construct(st, x, [&] { return st.op == COPY ? new R(*(const R*)y.r) : new R(std::move(*y.r)); })) { R* r = x.r; x = y; x.r = r; if (st.op == MOVE) drop(y); }
            } break;
            case ASSIGN: case MOVE_ASSIGN: if (x.r && y.r && (st.op == ASSIGN || i != j)) {
                Outcome o = attempt(st, P, [&] { if (st.op == ASSIGN) *x.r = *(const R*)y.r; else *x.r = std::move(*y.r); });
                if (o == DONE && i != j) { R* r = x.r; x = y; x.r = r; if (st.op == MOVE_ASSIGN) drop(y); }
            } break;
            case DROP: drop(x); break;
            case SET: case SET_OUTSIDE: if (x.r) {
                i64 p[M]; double v[N];
                if (st.op == SET) inside(p); else anywhere(p);
                for (double& q : v) q = value();
                { Lib l; x.r->set(g(p), s(v)); }
                size_t k = 0, dim = 1; bool in = true;
                for (index_t a = 0; a < M; ++a) { in = in && p[a] >= 0 && p[a] < x.ext[a]; k += (size_t)p[a] * dim; dim *= (size_t)x.ext[a]; }
                if (in) for (index_t q = 0; q < N; ++q) (*x.d)[k * N + (size_t)q] = v[q];
            } break;
            case FILL: if (x.r) {              // the same sample everywhere
                double v[N]; for (double& q : v) q = value();
                for (size_t q = 0; q < count(x); ++q) { i64 p[M]; coords(x, q, p); { Lib l; x.r->set(g(p), s(v)); } for (index_t k = 0; k < N; ++k) (*x.d)[q * N + (size_t)k] = v[k]; }
            } break;
            case ABYSS: if (x.r) { for (double& q : x.abyss) q = value(); Lib l; x.r->setAbyss(s(x.abyss)); } break;
            case READ: if (x.r) for (int q = 0; q < 3; ++q) { i64 p[M]; anywhere(p); int e = (int)(next() % 4); same(x, read(x, p, e), p, e, "the sample"); } break;
            case READ_RUN: if (x.r) for (int q = 0; q < 3; ++q) { i64 p[M]; anywhere(p); int e = (int)(next() % 4); smp v; { Lib l; v = ((const R*)x.r)->sample_discrete(g(p), EDGES[e]); } same(x, v, p, e, "the sample read with a run-time edge"); } break;
            case COPY_REGION: case COPY_REGION_RUN: if (x.r) {
                i64 lo[M], hi[M]; size_t n = 1; int e = (int)(next() % 4);
                for (index_t a = 0; a < M; ++a) { lo[a] = (i64)(next() % (u64)(3 * x.ext[a])) - x.ext[a]; hi[a] = lo[a] + (i64)(next() % 4); n *= (size_t)(hi[a] - lo[a] + 1); }
                const double guard = 12345; double gv[N]; for (double& q : gv) q = guard;
                std::vector<smp> d(n + 1, s(gv));
                geom::Rect<index_t, M> reg(g(lo), g(hi));
                { Lib l; const R& r = *x.r;
                  if (st.op == COPY_REGION_RUN) r.copy(d.data(), reg, EDGES[e]);
                  else switch (e) { case 0: r.template copy<geom::EDGE_CLAMP>(d.data(), reg); break; case 1: r.template copy<geom::EDGE_PERIODIC>(d.data(), reg); break; case 2: r.template copy<geom::EDGE_MIRROR>(d.data(), reg); break; default: r.template copy<geom::EDGE_CONSTANT>(d.data(), reg); } }
                i64 p[M]; for (index_t a = 0; a < M; ++a) p[a] = lo[a];
                for (size_t q = 0; q < n; ++q) {
                    same(x, d[q], p, e, "the copied sample");
                    for (index_t a = 0; a < M; ++a) { if (++p[a] <= hi[a]) break; p[a] = lo[a]; }
                }
                SIM_REQUIRE(P, "overrun", comp(d[n], 0) == guard, "copying a region of %zu samples wrote more than that", n);
            } break;
            case SAMPLE: case SAMPLE_RUN: case SAMPLE_GRID: if (x.r) {
                bool degenerate = false; for (index_t a = 0; a < M; ++a) if (x.hi[a] <= x.lo[a] || x.ext[a] < 2) degenerate = true;
                if (degenerate) break;
                int e = (int)(next() % 4), in = (int)(next() % 3);
                if (st.op == SAMPLE_GRID) e = 0;
                double q[M]; i64 near[M]; coord p; bool grid_point = true;
                for (index_t a = 0; a < M; ++a) {
                    i64 k = st.op == SAMPLE_GRID ? (i64)(next() % (u64)x.ext[a]) : (i64)(next() % (u64)(3 * x.ext[a])) - x.ext[a];
                    i64 f = st.op == SAMPLE_GRID || next() % 4 == 0 ? 0 : (i64)(next() % 8); if (f == 4) f = 3;
                    if (f) grid_point = false;
                    q[a] = (double)k + (double)f / 8; near[a] = f > 4 ? k + 1 : k;
                    X::iterator(p)[a] = (I)(x.lo[a] + q[a] / (double)(x.ext[a] - 1) * (x.hi[a] - x.lo[a]));
                }
                bool same_everywhere = true;
                for (size_t z = 0; z < x.d->size(); ++z) if ((*x.d)[z] != (*x.d)[z % N]) same_everywhere = false;
                smp v = sample(x, p, e, in, st.op != SAMPLE && (st.op == SAMPLE_RUN || next() % 2));
                rec.log((u64)in);
                for (int k = 0; k < (int)N; ++k) {
                    double want;
                    if (in == 0 || grid_point) want = at(x, near, e, k);
                    else if (in == 1) want = linear(x, q, e, k);
                    else if (same_everywhere && e != 3) want = (*x.d)[(size_t)k];
                    else { SIM_REQUIRE(P, "finite", std::isfinite(comp(v, k)), "a %s sample with edge %s is %g", IN[in], EN[e], comp(v, k)); continue; }
                    double got = comp(v, k), tol = in == 0 ? 0 : sizeof(I) == 4 || sizeof(O) == 4 ? 0.5 : 1e-6;
                    SIM_REQUIRE(P, "sample", std::fabs(want - got) <= tol, "a %s sample with edge %s at grid position (%g, %g, %g): component %d is %g, expected %g", IN[in], EN[e], q[0], M > 1 ? q[M > 1 ? 1 : 0] : 0, M > 2 ? q[M > 2 ? 2 : 0] : 0, k, got, want);
                }
            } break;
            case INFO: if (x.r) {
                const R& r = *x.r; grid e = r.dataExtents(); i64 p[M]; anywhere(p); bool in = true; geom::Rect<I, M> dm = r.domain(); bool ok = true;
                for (index_t a = 0; a < M; ++a) { in = in && p[a] >= 0 && p[a] < x.ext[a]; ok = ok && G::iterator(e)[a] == x.ext[a] && X::iterator(dm.lo)[a] == (I)x.lo[a] && X::iterator(dm.hi)[a] == (I)x.hi[a]; }
                SIM_REQUIRE(P, "info", ok, "extents or domain are not those given");
                SIM_REQUIRE(P, "info", r.contains_gridpt(g(p)) == in, "contains_gridpt() is %d at grid point (%lld, ...)", !in, (long long)p[0]);
                SIM_REQUIRE(P, "info", (size_t)r.samplecount() == count(x), "samplecount() is %lld, expected %zu", (long long)r.samplecount(), count(x));
                SIM_REQUIRE(P, "info", r.inputDimension() == M && r.outputDimension() == N, "dimensions are %lld and %lld", (long long)r.inputDimension(), (long long)r.outputDimension());
            } break;
        }
        rec.check();
        u64 sh = (u64)st.op;
        for (auto& z : c) { u64 k = 0; if (z.r) { k = 1; for (i64 e : z.ext) k = k * 8 + (u64)e; for (auto& w : c) if (w.r && w.d == z.d) k = k * 3 + 1; } sh = mix64(sh * 31 + k); }
        rec.state(mix64(sh + (u64)t.get("type")));
        verify();
    }
    void verify() {
        for (auto& x : c) if (x.r) for (size_t q = 0; q < count(x); ++q) { i64 p[M]; coords(x, q, p); same(x, read(x, p, 3), p, 3, "the stored sample"); }
    }
    void run() {
        int no = 0;
        for (auto& st : t.steps) { rec.cur_step = no++; rec.log((u64)st.op); for (i64 a : st.a) rec.log((u64)a); rec.count(OPS[st.op]); step(st); }
        for (auto& x : c) drop(x);
        alloc_check_leaks();
        rec.check();
    }
};

struct RasterScenario : Scenario {
    const char* name() const override { return "raster"; }
    std::vector<const char*> ops() const override { return std::vector<const char*>(OPS, OPS + OP_COUNT); }
    void generate(Rng& r, Trace& t, int) override {
        t.cfg["type"] = (i64)r.below(6);
        int n = (int)r.range(4, 30);
        unsigned fp = r.chance(1, 3) ? 0 : (unsigned)r.range(5, 40);
        std::vector<unsigned> w(OP_COUNT); for (auto& x : w) x = r.chance(1, 6) ? 0 : 1 + (unsigned)r.below(6);
        w[NEW_DATA] += 2; w[SET] += 1;
        unsigned tot = 0; for (unsigned x : w) tot += x;
        add_step(t, NEW_DATA, {(i64)r.below(POOL), 0, (i64)r.below(1ull << 40)});
        for (int q = 0; q < n; ++q) {
            unsigned z = (unsigned)r.below(tot); int op = 0; while (z >= w[(size_t)op]) z -= w[(size_t)op++];
            add_step(t, op, {(i64)r.below(POOL), (i64)r.below(POOL), (i64)r.below(1ull << 40)});
            if (op <= MOVE_ASSIGN) maybe_fault(r, t, {F_ALLOC}, fp, 3);
        }
    }
    template <typename I, typename O, index_t M, index_t N> static void go(const Trace& t) { World<I, O, M, N> w(t); w.run(); }
    void execute(const Trace& t) override {
        alloc_prop = P; elem_prop = P;
        switch (t.get("type")) {
            case 0: go<double, double, 1, 1>(t); break;  case 1: go<float, float, 2, 3>(t); break;   case 2: go<double, float, 2, 1>(t); break;
            case 3: go<double, double, 3, 2>(t); break;  case 4: go<float, double, 1, 4>(t); break;  default: go<double, float, 3, 1>(t); break;
        }
    }
};
sim::Scenario* sim::make_scenario() { return new RasterScenario; }
