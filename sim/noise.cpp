// C17: noise functions built from scripted bit sources, with refused allocations; copies, twins and later use of the sources.
#include "core/sim.h"
#include "core/elem.h"
#include "core/ops.h"
#include "core/source.h"
#include <geomc/random/RandomTools.h>
#include <geomc/function/PerlinNoise.h>
#include <cmath>
#include <memory>

using namespace sim;
#define P "C17"

enum { SCRIPT, DRAW, RENEW, BUILD, TWIN, COPY, MOVE, ASSIGN, MOVE_ASSIGN, DROP, EVAL, GRAD, LATTICE, CROSS, SLOPE, OP_COUNT };
static const char* OPS[] = {"script_source", "draw_from_source", "renew_source", "build", "build_twin", "copy", "move", "assign", "move_assign", "drop",
    "eval", "gradient", "lattice", "cross_boundary", "slope"};
static const int SLOTS = 4, SRCS = 2, TYPES = 8;
static const char* TN[] = {"PerlinNoise<float,1>", "PerlinNoise<float,2>", "PerlinNoise<float,3>", "PerlinNoise<float,4>",
    "PerlinNoise<double,1>", "PerlinNoise<double,2>", "PerlinNoise<double,3>", "PerlinNoise<double,4>"};
static const double L = 25;       // no noise function of at most four dimensions is steeper

struct Pt { double x[4]; };
struct Val { double f; double g[4]; };
static u64 bits(double d) { u64 r; memcpy(&r, &d, 8); return r; }

struct Fn {
    virtual ~Fn() {}
    virtual double eval(const Pt&) const = 0;
    virtual Val    grad(const Pt&) const = 0;
    virtual Fn*    copy() const = 0;
    virtual Fn*    move() = 0;
    virtual void   assign(const Fn&) = 0;
    virtual void   assign(Fn&&) = 0;
    virtual double below(double) const = 0;        // neighbours in the coordinate type
    virtual double above(double) const = 0;
    virtual double coord(double) const = 0;
};
template <typename T, index_t N> struct FnT : Fn {
    typedef geom::PerlinNoise<T, N> Noise;
    typedef typename Noise::point_t pt;
    Noise n;
    explicit FnT(geom::Random* r) : n(r) {}
    FnT(const FnT& o) = default;
    FnT(FnT&& o) = default;
    static pt at(const Pt& p) { pt q; for (index_t i = 0; i < N; ++i) geom::PointType<T, N>::iterator(q)[i] = (T)p.x[i]; return q; }
    double eval(const Pt& p) const override { return n.eval(at(p)); }
    Val grad(const Pt& p) const override {
        auto r = n.gradient(at(p)); Val v; v.f = r.first;
        for (index_t i = 0; i < 4; ++i) v.g[i] = i < N ? geom::PointType<T, N>::iterator(r.second)[i] : 0;
        return v;
    }
    Fn* copy() const override { return new FnT(*this); }
    Fn* move() override { return new FnT(std::move(*this)); }
    void assign(const Fn& o) override { n = ((const FnT&)o).n; }
    void assign(Fn&& o) override { n = std::move(((FnT&)o).n); }
    double below(double v) const override { return std::nextafter((T)v, -std::numeric_limits<T>::infinity()); }
    double above(double v) const override { return std::nextafter((T)v, std::numeric_limits<T>::infinity()); }
    double coord(double v) const override { return (T)v; }
};
static Fn* build(int type, geom::Random* r) {
    switch (type) {
        case 0: return new FnT<float, 1>(r);  case 1: return new FnT<float, 2>(r);  case 2: return new FnT<float, 3>(r);  case 3: return new FnT<float, 4>(r);
        case 4: return new FnT<double, 1>(r); case 5: return new FnT<double, 2>(r); case 6: return new FnT<double, 3>(r); default: return new FnT<double, 4>(r);
    }
}

struct Seen { Pt p; u64 f; bool g; u64 gv[4]; };
struct Slot {
    Fn* fn = nullptr;
    int type = 0;
    u64 id = 0;                             // functions that must be equal have equal ids
    std::shared_ptr<Source> from;           // the source as it stood when the function was built
    u64 used = 0;                           // words the construction took
    std::vector<Seen> seen;
    int dim() const { return type % 4 + 1; }
    bool dbl() const { return type >= 4; }
};

struct World {
    const Trace& t;
    Slot s[SLOTS];
    Source* src[SRCS];
    u64 ids = 0;
    explicit World(const Trace& t) : t(t) { for (int i = 0; i < SRCS; ++i) src[i] = new Source(mix64(t.seed * 7 + (u64)i)); }
    ~World() { for (auto& x : s) { delete x.fn; } for (auto& x : src) delete x; }

    // a point fixed by one number: on, next to and away from lattice boundaries; small, negative and large
    Pt point(const Slot& x, u64 code, bool small) const {
        Pt p; u64 h = mix64(code);
        for (int i = 0; i < 4; ++i) {
            h = mix64(h + (u64)i);
            int big = x.dbl() ? 40 : 19, span = small ? 5 : h % 5 == 0 ? big : h % 5 == 1 ? 12 : 4;
            i64 cell = (i64)((h >> 8) % (2ull << span)) - (1ll << span);
            double f;
            switch ((h >> 3) % 8) {
                case 0: f = 0; break;
                case 1: f = 0.5; break;
                case 2: f = std::ldexp(1.0, -(int)((h >> 50) % 20) - 1); break;
                case 3: f = 1 - std::ldexp(1.0, -(int)((h >> 50) % 12) - 1); break;
                default: f = (double)((h >> 40) & 1023) / 1024; break;
            }
            p.x[i] = x.fn->coord((double)cell + f);
            if ((h >> 60) == 1) p.x[i] = x.fn->below(p.x[i]);
            if ((h >> 60) == 2) p.x[i] = x.fn->above(p.x[i]);
            if ((h >> 60) == 3) p.x[i] = -p.x[i];
        }
        return p;
    }
    double eval(const Slot& x, const Pt& p) {
        double v; { Lib l; v = x.fn->eval(p); }
        rec.log(bits(v));
        SIM_REQUIRE(P, "finite", std::isfinite(v), "%s: the noise at (%.17g, %.17g, %.17g, %.17g) is %g", TN[x.type], p.x[0], p.x[1], p.x[2], p.x[3], v);
        rec.check();
        return v;
    }
    Val grad(const Slot& x, const Pt& p) {
        Val v; { Lib l; v = x.fn->grad(p); }
        rec.log(bits(v.f));
        bool ok = std::isfinite(v.f);
        for (int i = 0; i < x.dim(); ++i) { rec.log(bits(v.g[i])); ok = ok && std::isfinite(v.g[i]); }
        SIM_REQUIRE(P, "finite", ok, "%s: the gradient at (%.17g, %.17g, %.17g, %.17g) is %g: (%g, %g, %g, %g)", TN[x.type], p.x[0], p.x[1], p.x[2], p.x[3], v.f, v.g[0], v.g[1], v.g[2], v.g[3]);
        rec.check();
        return v;
    }
    void remember(Slot& x, const Pt& p, double f, const Val* g) {
        Seen e; e.p = p; e.f = bits(f); e.g = g != nullptr;
        for (int i = 0; i < 4; ++i) e.gv[i] = g ? bits(g->g[i]) : 0;
        if (x.seen.size() < 6) x.seen.push_back(e); else x.seen[(size_t)(mix64(e.f) % 6)] = e;
    }
    void recall(Slot& x, const std::vector<Seen>& seen, const char* what) {
        for (auto& e : seen) {
            double f = eval(x, e.p);
            SIM_REQUIRE(P, "changed", bits(f) == e.f, "%s: %s at (%.17g, %.17g, %.17g, %.17g) gives another value than before (%.17g)", TN[x.type], what, e.p.x[0], e.p.x[1], e.p.x[2], e.p.x[3], f);
            if (e.g) {
                Val v = grad(x, e.p); bool same = true;
                for (int i = 0; i < x.dim(); ++i) same = same && bits(v.g[i]) == e.gv[i];
                SIM_REQUIRE(P, "changed", same, "%s: %s at (%.17g, %.17g, %.17g, %.17g) gives another gradient than before", TN[x.type], what, e.p.x[0], e.p.x[1], e.p.x[2], e.p.x[3]);
            }
            rec.check();
        }
    }
    void equal(Slot& a, Slot& b, u64 code, const char* what) {
        for (u64 k = 0; k < 6; ++k) {
            Pt p = point(a, code * 31 + k, false);
            double u = eval(a, p), v = eval(b, p);
            SIM_REQUIRE(P, "different-function", bits(u) == bits(v), "%s: %s differs at (%.17g, %.17g, %.17g, %.17g): %.17g and %.17g", TN[a.type], what, p.x[0], p.x[1], p.x[2], p.x[3], u, v);
            Val gu = grad(a, p), gv = grad(b, p); bool same = true;
            for (int i = 0; i < a.dim(); ++i) same = same && bits(gu.g[i]) == bits(gv.g[i]);
            SIM_REQUIRE(P, "different-function", same, "%s: %s has another gradient at (%.17g, %.17g, %.17g, %.17g)", TN[a.type], what, p.x[0], p.x[1], p.x[2], p.x[3]);
            rec.check();
        }
    }
    void drop(Slot& x) { Lib l; Fn* f = x.fn; x.fn = nullptr; delete f; NoLib nl; x.seen.clear(); }

    // build into x from g; on a refused allocation nothing may be left behind
    bool make(const Step& st, Slot& x, int type, Source& g, bool faulty) {
        drop(x);
        u64 live = alloc_stats.live, words = g.words;
        if (faulty) faults.arm(st); else faults.reset();
        g.begin_draw(400000);
        Fn* f = nullptr;
        bool refused = false;
        { Lib l;
          try { f = build(type, &g); }
          catch (const std::bad_alloc&) { refused = true; }
          catch (const Runaway&) { NoLib nl; rec.violation(P, "runaway", "%s: the construction took more than 400000 fair words", TN[type]); }
          catch (const std::exception& e) { NoLib nl; rec.violation(P, "unexpected-exception", "%s: the construction threw %s", TN[type], e.what()); }
          catch (...) { NoLib nl; rec.violation(P, "unexpected-exception", "%s: the construction threw something", TN[type]); } }
        bool fired = faults.fired_any; faults.reset();
        rec.check();
        if (refused) {
            rec.count("constructions_refused");
            SIM_REQUIRE(P, "unexpected-exception", fired, "%s: the construction ran out of memory although memory was available", TN[type]);
            SIM_REQUIRE(P, "leak", alloc_stats.live == live, "%s: a construction that ran out of memory left %lld blocks behind", TN[type], (long long)(alloc_stats.live - live));
        } else {
            x.fn = f; x.type = type; x.used = g.words - words;
        }
        rec.check();
        return !refused;
    }

    void step(const Step& st) {
        size_t i = st.idx(0, SLOTS), j = st.idx(1, SLOTS);
        Slot& x = s[i]; Slot& y = s[j];
        u64 code = (u64)st.arg(2);
        switch (st.op) {
            case SCRIPT: { Source& g = *src[st.idx(0, SRCS)]; if (g.script.size() < 8) g.script.push_back(Segment{(int)st.idx(1, SEG_KINDS), (uint32_t)code, (u64)st.idx(3, 4000)}); break; }
            case DRAW: { Source& g = *src[st.idx(0, SRCS)]; for (size_t k = 0; k < st.idx(1, 60); ++k) g.rand32(); rec.count("source_used_later"); break; }
            case RENEW: { Source*& g = src[st.idx(0, SRCS)]; Source* n = new Source(mix64(code)); delete g; g = n; rec.count("source_destroyed"); break; }
            case BUILD: {
                Source& g = *src[st.idx(1, SRCS)]; int type = (int)st.idx(2, TYPES);
                auto before = std::make_shared<Source>(g);
                bool fair = g.script.empty();
                if (!make(st, x, type, g, true)) {
                    Source again(*before);                  // an equally positioned source, and memory this time
                    make(st, x, type, again, false);
                    x.from = before; x.id = ++ids;
                    Slot ref; Source third(*before);        // as if nothing had failed
                    make(st, ref, type, third, false);
                    equal(x, ref, code, "a function built on retry");
                    drop(ref);
                } else { x.from = before; x.id = ++ids; }
                if (fair) {
                    double sum = 0; Pt q[8];
                    for (u64 k = 0; k < 8; ++k) { q[k] = point(x, code + 1000 + k, true); for (double& c : q[k].x) c = std::floor(c) + 0.375; sum += std::fabs(eval(x, q[k])); }
                    SIM_REQUIRE(P, "zero", sum > 1e-6, "%s: built from a fair source, the function is zero inside every cell looked at", TN[x.type]);
                }
                break;
            }
            case TWIN: if (y.fn && i != j && y.from) {
                Source g(*y.from);
                Slot& z = x; int type = y.type;
                if (make(st, z, type, g, true)) {
                    SIM_REQUIRE(P, "different-function", z.used == y.used, "%s: equal sources gave %llu words to one construction and %llu to another", TN[type], (unsigned long long)y.used, (unsigned long long)z.used);
                    z.from = y.from; z.id = y.id;
                    equal(y, z, code, "a function built from an equal source");
                    recall(z, y.seen, "a function built from an equal source");
                }
                break;
            }
            break;
            case COPY: case MOVE: if (y.fn && i != j) {
                drop(x);
                faults.arm(st);
                Fn* f = nullptr;
                { Lib l; try { f = st.op == COPY ? y.fn->copy() : y.fn->move(); } catch (const std::bad_alloc&) { NoLib nl; SIM_REQUIRE(P, "unexpected-exception", faults.fired_any, "%s: a copy ran out of memory although memory was available", TN[y.type]); } }
                bool gone = st.op == MOVE && f; faults.reset();
                if (f) { x.fn = f; x.type = y.type; x.id = y.id; x.from = y.from; x.used = y.used; x.seen = y.seen; recall(x, x.seen, "a copy"); if (!gone) equal(x, y, code, "a copy"); }
                if (gone) drop(y);
                break;
            }
            break;
            case ASSIGN: case MOVE_ASSIGN: if (x.fn && y.fn && x.type == y.type && (st.op == ASSIGN || i != j)) {
                faults.arm(st);
                bool done = false;
                { Lib l; try { if (st.op == ASSIGN) x.fn->assign((const Fn&)*y.fn); else x.fn->assign(std::move(*y.fn)); done = true; } catch (const std::bad_alloc&) { NoLib nl; SIM_REQUIRE(P, "unexpected-exception", faults.fired_any, "%s: an assignment ran out of memory although memory was available", TN[y.type]); } }
                faults.reset();
                if (done) {
                    x.id = y.id; x.from = y.from; x.used = y.used; x.seen = y.seen;
                    if (st.op == MOVE_ASSIGN) drop(y);
                    recall(x, x.seen, "an assigned function");
                    if (st.op == ASSIGN && i != j) equal(x, y, code, "an assigned function");
                }
                break;
            }
            break;
            case DROP: drop(x); break;
            case EVAL: if (x.fn) { Pt p = point(x, code, false); double f = eval(x, p); remember(x, p, f, nullptr); break; } break;
            case GRAD: if (x.fn) {
                Pt p = point(x, code, false);
                double f = eval(x, p); Val v = grad(x, p);
                SIM_REQUIRE(P, "gradient-value", std::fabs(f - v.f) <= (x.dbl() ? 1e-11 : 1e-4), "%s: gradient() reports the value %.17g where eval() gives %.17g, at (%.17g, %.17g, %.17g, %.17g)", TN[x.type], v.f, f, p.x[0], p.x[1], p.x[2], p.x[3]);
                remember(x, p, f, &v);
                break;
            } break;
            case LATTICE: if (x.fn) {
                Pt p = point(x, code, false); for (double& c : p.x) c = std::floor(c);
                double f = eval(x, p);
                SIM_REQUIRE(P, "lattice", std::fabs(f) <= 1e-9, "%s: the noise at the lattice point (%.17g, %.17g, %.17g, %.17g) is %.17g", TN[x.type], p.x[0], p.x[1], p.x[2], p.x[3], f);
                break;
            } break;
            case CROSS: if (x.fn) {            // small steps along one axis or all, from a boundary of cells
                Pt p = point(x, code, false); u64 h = mix64(code + 99);
                int axis = (int)(h % (u64)x.dim()); bool all = (h >> 20) % 4 == 0;
                if ((h >> 10) % 8) { p.x[axis] = std::floor(p.x[axis]); if (all) for (double& c : p.x) c = std::floor(c); }
                double f = eval(x, p);
                for (int side = 0; side < 2; ++side) for (int k = 0; k < 3; ++k) {
                    Pt q = p; double d = 0;
                    for (int a = 0; a < x.dim(); ++a) if (all || a == axis) {
                        double step = k == 0 ? 0 : std::ldexp(1.0, k == 1 ? -(int)((h >> 30) % 16) - 3 : -30);
                        q.x[a] = k == 0 || x.fn->coord(p.x[a] + step) == p.x[a] ? (side ? x.fn->above(p.x[a]) : x.fn->below(p.x[a])) : x.fn->coord(side ? p.x[a] + step : p.x[a] - step);
                        d += std::fabs(q.x[a] - p.x[a]);
                    }
                    double g = eval(x, q);
                    SIM_REQUIRE(P, "discontinuous", std::fabs(f - g) <= L * d + (x.dbl() ? 1e-11 : 1e-4), "%s: the noise jumps by %g from (%.17g, %.17g, %.17g, %.17g) to (%.17g, %.17g, %.17g, %.17g)", TN[x.type], g - f,
                        p.x[0], p.x[1], p.x[2], p.x[3], q.x[0], q.x[1], q.x[2], q.x[3]);
                    rec.check();
                }
                break;
            } break;
            case SLOPE: if (x.fn) {            // the reported gradient against central differences
                Pt p = point(x, code, true);
                double h = x.dbl() ? std::ldexp(1.0, -13) : std::ldexp(1.0, -7);
                for (double& c : p.x) c = std::ldexp(std::floor(std::ldexp(c, 14)), -14);   // steps are exact
                Val v = grad(x, p);
                for (int a = 0; a < x.dim(); ++a) {
                    Pt lo = p, hi = p; lo.x[a] -= h; hi.x[a] += h;
                    double d = (eval(x, hi) - eval(x, lo)) / (2 * h);
                    SIM_REQUIRE(P, "gradient", std::fabs(d - v.g[a]) <= (x.dbl() ? 1e-4 : 0.05), "%s: along axis %d at (%.17g, %.17g, %.17g, %.17g) the reported slope is %g and the values rise by %g", TN[x.type], a, p.x[0], p.x[1], p.x[2], p.x[3], v.g[a], d);
                }
                break;
            } break;
        }
        rec.check();
        u64 st_h = (u64)st.op;
        for (auto& z : s) st_h = mix64(st_h * 16 + (z.fn ? (u64)z.type + 1 : 0)) ;
        rec.state(st_h ^ (faults.total_fired[F_ALLOC] & 1));
        for (auto& z : s) if (z.fn) recall(z, z.seen, "a function");
    }
    void run() {
        int no = 0;
        for (auto& st : t.steps) { rec.cur_step = no++; rec.log((u64)st.op); for (i64 a : st.a) rec.log((u64)a); rec.count(OPS[st.op]); step(st); }
        for (auto& x : s) drop(x);
        alloc_check_leaks();
        rec.check();
    }
};

struct NoiseScenario : Scenario {
    const char* name() const override { return "noise"; }
    std::vector<const char*> ops() const override { return std::vector<const char*>(OPS, OPS + OP_COUNT); }
    void generate(Rng& r, Trace& t, int) override {
        int n = (int)r.range(4, 26);
        std::vector<unsigned> w(OP_COUNT); for (auto& x : w) x = r.chance(1, 6) ? 0 : 1 + (unsigned)r.below(6);
        w[BUILD] += 2;
        unsigned tot = 0; for (unsigned x : w) tot += x;
        i64 type = (i64)r.below(TYPES); bool one = r.chance(1, 2);
        unsigned fp = r.chance(1, 3) ? 0 : (unsigned)r.range(5, 50);
        auto build_step = [&] { add_step(t, BUILD, {(i64)r.below(SLOTS), (i64)r.below(SRCS), one ? type : (i64)r.below(TYPES)}); };
        auto script_step = [&] {
            static const uint32_t w[] = {0u, 0xFFFFFFFFu, 1u, 0x80000000u, 0x7FFFFFFFu, 0xFFFFFFFEu, 0x1FFu, 0x200u, 0xFFFFFE00u};
            add_step(t, SCRIPT, {(i64)r.below(SRCS), (i64)r.below(SEG_KINDS), r.chance(2, 3) ? (i64)w[r.below(9)] : (i64)(uint32_t)r.next(), r.chance(1, 2) ? (i64)r.below(4000) : (i64)r.below(40)});
        };
        while (r.chance(1, 2)) script_step();
        build_step(); if (r.chance(fp, 100)) t.steps.back().f.push_back(Fault{F_ALLOC, 1 + (int)r.below(6)});
        for (int q = 0; q < n; ++q) {
            unsigned z = (unsigned)r.below(tot); int op = 0; while (z >= w[(size_t)op]) z -= w[(size_t)op++];
            if (op == BUILD) build_step();
            else if (op == SCRIPT) script_step();
            else add_step(t, op, {(i64)r.below(SLOTS), (i64)r.below(60), (i64)r.below(1ull << 40)});
            if ((op == BUILD || op == TWIN || op == COPY || op == ASSIGN) && r.chance(fp, 100)) t.steps.back().f.push_back(Fault{F_ALLOC, 1 + (int)r.below(6)});
        }
    }
    void execute(const Trace& t) override { alloc_prop = P; elem_prop = P; World w(t); w.run(); }
};
sim::Scenario* sim::make_scenario() { return new NoiseScenario; }
