// C20: histories of overlap tests on testers that are kept, copied and reused, between bodies that move, coincide and
// touch, with support functions that throw or misbehave for a while.
#include "core/sim.h"
#include "core/ops.h"
#include <geomc/shape/Rect.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Dilated.h>
#include <geomc/shape/Extruded.h>
#include <geomc/shape/Frustum.h>
#include <geomc/shape/Oriented.h>
#include <geomc/shape/Simplex.h>
#include <geomc/shape/Intersect.h>
#include <algorithm>
#include <cmath>
#include <functional>
#include <memory>

using namespace sim;
#define P "C20"

enum { SHAPE, APART, DEEP, TOUCH, SWEEP, MISBEHAVE, THROW, COPY, ASSIGN, DROP, LIMIT, OP_COUNT };
static const char* OPS[] = {"shape", "apart", "deep", "touch", "sweep", "misbehave", "throw", "copy", "assign", "drop", "limit"};
static const int BODIES = 4, TESTERS = 3;
enum { M_NONE, M_NAN, M_INF, M_ZERO, M_LEAST, M_STUCK, M_NOISE, M_HUGE, M_KINDS };
static const char* MODES[] = {"", "nan_support", "infinite_support", "zero_support", "least_support", "stuck_support", "noisy_support", "huge_support"};
enum { BALL, BOX, TURNED_BOX, CAPSULE, CYLINDER, SIMPLEX, FAT_BOX, PRISM, DISC_PRISM, FRUSTUM, CLOUD, POINT, CONE, TURNED_ROUND, FAT_SIMPLEX, SHAPE_KINDS };

struct Endless {};

template <typename T, index_t N>
struct World {
    typedef geom::Vec<T, N> V;
    typedef geom::AnyConvex<T, N> Any;
    typedef geom::Intersector<T, N> Tester;
    static constexpr double MARGIN = sizeof(T) == 4 ? 2e-2 : 1e-3;

    // any number of points, as a shape a user could write
    struct Cloud : geom::Convex<T, N, Cloud> {
        std::vector<V> p;
        V convex_support(V d) const { V b = p[0]; for (auto& q : p) if (q.dot(d) > b.dot(d)) b = q; return b; }
    };
    // A body: the library's shape, and the same set of points as corners plus a ball (and, for cylinders, a disc).
    struct Body {
        int kind = BALL;
        V at; std::vector<V> corner; T ball = 0, disc = 0; std::vector<T> discs; V axis;   // discs (one per corner, or the same for all) lie across `axis`
        T disc_at(size_t i) const { return discs.empty() ? disc : discs[i]; }
        std::function<std::unique_ptr<Any>(V)> make;         // the library's shape, moved by an offset
        T extent(const V& d) const {
            T r = 0; if (disc > 0) { V e = d - axis * (d.dot(axis) / axis.mag2()); r = e.mag(); }
            T b = std::numeric_limits<T>::lowest(); for (size_t i = 0; i < corner.size(); ++i) b = std::max(b, corner[i].dot(d) + r * disc_at(i));
            return b + ball * d.mag();
        }   // without `at`
        V middle() const { V m; for (auto& q : corner) m += q; return m / (T)corner.size(); }
    };
    // counts and spoils support queries
    struct Probe : geom::AnyConvex<T, N> {
        const Any* of; int mode = M_NONE; mutable u64 calls = 0, from = 0; u64 salt = 0; mutable u64 spoilt = 0; u64 cap; mutable std::vector<V> given;
        Probe(const Any* of, u64 cap) : of(of), cap(cap) {}
        geom::Rect<T, N> _impl_bounds() const override { return of->bounds(); }
        V _impl_convex_support(V d) const override {
            NoLib nl;
            if (++calls > cap) throw Endless();
            if (faults.hit(F_CALLBACK)) throw SimFault(F_CALLBACK);
            V r; { Lib l; r = of->convex_support(d); }
            given.push_back(r);
            if (mode == M_NONE || calls <= from) return r;
            ++spoilt;
            u64 h = mix64(salt + calls);
            switch (mode) {
                case M_NAN:  r[(index_t)(h % N)] = std::numeric_limits<T>::quiet_NaN(); break;
                case M_INF:  r[(index_t)(h % N)] = (h & 1024 ? 1 : -1) * std::numeric_limits<T>::infinity(); break;
                case M_ZERO: r = V(); break;
                case M_LEAST: { Lib l; r = of->convex_support(-d); } break;
                case M_STUCK: { Lib l; r = of->convex_support(V((T)1)); } break;
                case M_NOISE: for (index_t i = 0; i < N; ++i) { h = mix64(h); r[i] += (T)((double)(h % 2001) / 1000 - 1); } break;
                case M_HUGE: for (index_t i = 0; i < N; ++i) r[i] *= std::numeric_limits<T>::max() / 4; break;
            }
            return r;
        }
    };

    const Trace& t;
    Body b[BODIES];
    Tester* it[TESTERS] = {nullptr, nullptr, nullptr};
    index_t limit[TESTERS];
    index_t default_limit;
    explicit World(const Trace& t) : t(t) { Tester x; default_limit = x.max_iterations; }

    // ---- scripted values
    struct H { u64 h; u64 next() { return h = mix64(h + 1); } T u(double a, double b) { return (T)(a + (b - a) * ((double)(next() >> 11) / 9007199254740992.0)); } u64 below(u64 n) { return next() % n; } };
    static V direction(H& h, bool axial) {
        V d;
        if (axial) { d[(index_t)h.below(N)] = h.below(2) ? 1 : -1; return d; }
        do { for (index_t i = 0; i < N; ++i) d[i] = h.u(-1, 1); } while (d.mag2() < 0.05 || d.mag2() > 1);
        return d / d.mag();
    }
    static V point(H& h, double r) { V p; for (index_t i = 0; i < N; ++i) p[i] = h.u(-r, r); return p; }
    // whole-number corners, so that faces, edges and corners of two bodies can line up exactly
    static V grid(H& h, int r) { V p; for (index_t i = 0; i < N; ++i) p[i] = (T)((i64)h.below(2 * r + 1) - r); return p; }

    template <typename S, typename F> static void set(Body& x, F at) { x.make = [at](V o) { return std::unique_ptr<Any>(new geom::AnyConvexImpl<S>(at(o))); }; }
    static void box_corners(Body& x, const V& lo, const V& hi) { for (int k = 0; k < (1 << N); ++k) { V c; for (index_t i = 0; i < N; ++i) c[i] = k >> i & 1 ? hi[i] : lo[i]; x.corner.push_back(c); } }
    static geom::AffineTransform<T, N> turn(H& h, bool stretch = true) {
        // turns and stretches
        auto xf = geom::scale(V((T)1));
        for (index_t i = 0; i + 1 < N; ++i) if (h.below(3)) {
            T a = h.below(4) ? h.u(-3.2, 3.2) : (T)(1.5707963267948966 * (double)h.below(4));
            geom::SimpleMatrix<T, N, N> m; m.set_identity();
            index_t j = i + 1 + (index_t)h.below(N - 1 - i);
            m(i, i) = std::cos(a); m(i, j) = -std::sin(a); m(j, i) = std::sin(a); m(j, j) = std::cos(a);
            xf = geom::transformation<T, N>(m) * xf;
        }
        if (stretch && h.below(3) == 0) { V s; for (index_t i = 0; i < N; ++i) s[i] = h.u(0.4, 2); xf = geom::scale(s) * xf; }
        return xf;
    }
    void shape(Body& x, u64 seed) {
        H h{seed};
        x = Body();
        bool whole = h.below(2);
        x.kind = (int)h.below(SHAPE_KINDS);
        T r = whole ? (T)(1 + (int)h.below(3)) : h.u(0.3, 3);
        V lo, hi; for (index_t i = 0; i < N; ++i) { lo[i] = whole ? -(T)(1 + (int)h.below(3)) : h.u(-3, -0.3); hi[i] = whole ? (T)(1 + (int)h.below(3)) : h.u(0.3, 3); }
        switch (x.kind) {
            case BALL: x.corner = {V()}; x.ball = r; set<geom::Sphere<T, N>>(x, [r](V o) { return geom::Sphere<T, N>(o, r); }); break;
            case BOX: box_corners(x, lo, hi); set<geom::Rect<T, N>>(x, [lo, hi](V o) { return geom::Rect<T, N>(lo + o, hi + o); }); break;
            case TURNED_BOX: {
                auto xf = turn(h); Body y; box_corners(y, lo, hi);
                for (auto& c : y.corner) x.corner.push_back(xf * c);
                geom::Rect<T, N> q(lo, hi);
                set<geom::Oriented<geom::Rect<T, N>>>(x, [q, xf](V o) { return geom::Oriented<geom::Rect<T, N>>(q, geom::translation(o) * xf); });
            } break;
            case CAPSULE: {
                V e = whole ? grid(h, 2) : point(h, 2); if (e.mag2() < (T)0.2) e[0] += 1;
                x.corner = {-e, e}; x.ball = r;
                set<geom::Capsule<T, N>>(x, [e, r](V o) { return geom::Capsule<T, N>(o - e, o + e, r); });
            } break;
            case CYLINDER: {
                V e = whole ? grid(h, 2) : point(h, 2); if (e.mag2() < (T)0.2) e[0] += 1;
                x.corner = {-e, e}; x.disc = r; x.axis = e;
                set<geom::Cylinder<T, N>>(x, [e, r](V o) { return geom::Cylinder<T, N>(o - e, o + e, r); });
            } break;
            case SIMPLEX: {
                T vol = 0; std::vector<V> c;
                for (int tries = 0; tries < 50; ++tries) { c.clear(); for (index_t i = 0; i <= N; ++i) c.push_back(whole ? grid(h, 3) : point(h, 3)); x.corner = c; vol = least_width(x, h); if (vol > (T)0.2) break; }
                x.corner = c;
                set<geom::Simplex<T, N>>(x, [c](V o) { geom::Simplex<T, N> s; for (auto& q : c) s.insert(q + o); return s; });
            } break;
            case FAT_BOX: box_corners(x, lo, hi); x.ball = r; set<geom::Dilated<geom::Rect<T, N>>>(x, [lo, hi, r](V o) { return geom::Dilated<geom::Rect<T, N>>(geom::Rect<T, N>(lo + o, hi + o), r); }); break;
            case PRISM: case DISC_PRISM: if constexpr (N > 2) {
                typedef geom::Vec<T, N - 1> U;
                if (x.kind == PRISM) {
                    box_corners(x, lo, hi);
                    set<geom::Extruded<geom::Rect<T, N - 1>>>(x, [lo, hi](V o) { V a = lo + o, z = hi + o; return geom::Extruded<geom::Rect<T, N - 1>>(geom::Rect<T, N - 1>(a.template resized<N - 1>(), z.template resized<N - 1>()), a[N - 1], z[N - 1]); });
                } else {
                    T h0 = lo[N - 1], h1 = hi[N - 1];
                    V e; e[N - 1] = h0; V f; f[N - 1] = h1; x.corner = {e, f}; x.disc = r; x.axis = f - e;
                    set<geom::Extruded<geom::Sphere<T, N - 1>>>(x, [h0, h1, r](V o) { U c = o.template resized<N - 1>(); return geom::Extruded<geom::Sphere<T, N - 1>>(geom::Sphere<T, N - 1>(c, r), o[N - 1] + h0, o[N - 1] + h1); });
                }
                break;
            }
            [[fallthrough]];
            case FRUSTUM: if constexpr (N > 2) {
                // a frustum stands on the origin: move it with a transform
                typedef geom::Rect<T, N - 1> R; typedef geom::Frustum<R> F;
                R base(lo.template resized<N - 1>(), hi.template resized<N - 1>()); T h0 = h.u(0.2, 1), h1 = h0 + h.u(0.3, 2);
                if (whole) { h0 = 1; h1 = 2; } if (h.below(3) == 0) { T z = -h0; h0 = -h1; h1 = z; }
                for (T z : {h0, h1}) for (int k = 0; k < (1 << (N - 1)); ++k) { V c; for (index_t i = 0; i + 1 < N; ++i) c[i] = z * (k >> i & 1 ? hi[i] : lo[i]); c[N - 1] = z; x.corner.push_back(c); }
                set<geom::Oriented<F>>(x, [base, h0, h1](V o) { return geom::Oriented<F>(F(base, geom::Rect<T, 1>(h0, h1)), geom::translation(o)); });
                break;
            }
            [[fallthrough]];
            case CONE: if constexpr (N > 2) {
                typedef geom::Sphere<T, N - 1> S; typedef geom::Frustum<S> F; typedef geom::Vec<T, N - 1> U;
                x.kind = CONE;
                U c = (whole ? grid(h, 1) : point(h, 1)).template resized<N - 1>(); T h0 = h.u(0.2, 1), h1 = h0 + h.u(0.3, 2); if (whole) { h0 = 1; h1 = 2; } if (h.below(3) == 0) { T z = -h0; h0 = -h1; h1 = z; }
                for (T z : {h0, h1}) { V q; for (index_t i = 0; i + 1 < N; ++i) q[i] = z * c[i]; q[N - 1] = z; x.corner.push_back(q); x.discs.push_back(std::fabs(z) * r); }
                x.disc = r; x.axis[N - 1] = 1;
                set<geom::Oriented<F>>(x, [c, r, h0, h1](V o) { return geom::Oriented<F>(F(S(c, r), geom::Rect<T, 1>(h0, h1)), geom::translation(o)); });
                break;
            }
            [[fallthrough]];
            case CLOUD: {
                x.kind = CLOUD;
                std::vector<V> c; int n = N + 1 + (int)h.below(8);
                for (int tries = 0; tries < 50; ++tries) { c.clear(); for (int i = 0; i < n; ++i) c.push_back(whole ? grid(h, 3) : point(h, 3)); x.corner = c; if (least_width(x, h) > (T)0.2) break; }
                set<Cloud>(x, [c](V o) { Cloud k; for (auto& q : c) k.p.push_back(q + o); return k; });
            } break;
            case TURNED_ROUND: {
                // turned and moved, not stretched: the image is the same kind of body
                V e = whole ? grid(h, 2) : point(h, 2); if (e.mag2() < (T)0.2) e[0] += 1;
                auto xf = turn(h, false); V f = xf.apply_vector(e); bool caps = h.below(2);
                x.corner = {-f, f}; if (caps) x.ball = r; else { x.disc = r; x.axis = f; }
                if (caps) set<geom::Oriented<geom::Capsule<T, N>>>(x, [e, r, xf](V o) { return geom::Oriented<geom::Capsule<T, N>>(geom::Capsule<T, N>(-e, e, r), geom::translation(o) * xf); });
                else set<geom::Oriented<geom::Cylinder<T, N>>>(x, [e, r, xf](V o) { return geom::Oriented<geom::Cylinder<T, N>>(geom::Cylinder<T, N>(-e, e, r), geom::translation(o) * xf); });
            } break;
            case FAT_SIMPLEX: {
                std::vector<V> c; int n = 1 + (int)h.below(N + 1); for (int i = 0; i < n; ++i) c.push_back(whole ? grid(h, 3) : point(h, 3));
                x.corner = c; x.ball = r;
                set<geom::Dilated<geom::Simplex<T, N>>>(x, [c, r](V o) { geom::Simplex<T, N> s; for (auto& q : c) s.insert(q + o); return geom::Dilated<geom::Simplex<T, N>>(s, r); });
            } break;
            case POINT: x.corner = {V()}; set<geom::Sphere<T, N>>(x, [](V o) { return geom::Sphere<T, N>(o, 0); }); break;
        }
        x.at = whole ? grid(h, 6) : point(h, 6);
    }
    static T least_width(const Body& x, H h) {
        T w = std::numeric_limits<T>::max();
        for (int k = 0; k < 12 * N; ++k) { V d = direction(h, k < 2 * N); w = std::min(w, x.extent(d) + x.extent(-d)); }
        return w;
    }
    // how far the bodies, with b moved to `at`, are apart along d (negative: overlap of the projections)
    static T gap(const Body& x, const Body& y, const V& at, const V& d) { return (at - x.at).dot(d) - y.extent(-d) - x.extent(d); }

    // ---- which of two bodies overlap, worked out from corners, balls and discs alone (in long double)
    typedef long double D;
    struct Q { D v[N] = {}; D dot(const Q& o) const { D s = 0; for (int i = 0; i < N; ++i) s += v[i] * o.v[i]; return s; } D mag() const { return std::sqrt(dot(*this)); } };
    static Q comb(const Q& a, D s, const Q& b) { Q r; for (int i = 0; i < N; ++i) r.v[i] = a.v[i] + s * b.v[i]; return r; }
    static Q q_of(const V& a) { Q r; for (int i = 0; i < N; ++i) r.v[i] = a[i]; return r; }
    // the point of x which is farthest along d
    static Q farthest(const Body& x, const Q& d) {
        D m = d.mag(), n = 0; Q e;
        if (x.disc > 0) { Q a = q_of(x.axis); e = comb(d, -d.dot(a) / a.dot(a), a); n = e.mag(); if (n <= 1e-15L * m) n = 0; }
        size_t best = 0; D ext = 0;
        for (size_t i = 0; i < x.corner.size(); ++i) { D k = q_of(x.corner[i]).dot(d) + n * x.disc_at(i); if (i == 0 || k > ext) { ext = k; best = i; } }
        Q b = q_of(x.corner[best]);
        if (x.ball > 0 && m > 0) b = comb(b, x.ball / m, d);
        if (n > 0) b = comb(b, x.disc_at(best) / n, e);
        return comb(b, 1, q_of(x.at));
    }
    struct Near { D gap = -std::numeric_limits<D>::infinity(); bool hit = false; };
    // Wolfe's nearest point of the difference of the two bodies to `o`: `gap` is a proven distance, `hit` says that `o` is inside
    static Near nearest(const Body& x, const Body& y, const Q& o) {
        Near r; std::vector<Q> s; std::vector<D> l; s.reserve(N + 3); l.reserve(N + 3);
        auto far = [&](const Q& d) { Q n; n = comb(n, -1, d); return comb(comb(farthest(x, d), -1, farthest(y, n)), -1, o); };
        Q dir; dir.v[0] = 1; Q p = far(dir); s.push_back(p); l.push_back(1);
        for (int round = 0; round < 400; ++round) {
            D m = p.mag(); if (m < 1e-9L) { r.hit = true; return r; }
            Q n; n = comb(n, -1, p); Q v = far(n); D k = p.dot(v);
            r.gap = std::max(r.gap, k / m);
            if (k >= m * m * (1 - 1e-12L)) return r;
            s.push_back(v); l.push_back(0);
            for (;;) {
                // weights of the nearest point of the flat through s
                size_t c = s.size(); if (c > N + 2) return r;
                D row[N + 3][N + 4] = {}, w[N + 2]; D* a[N + 3]; for (size_t i = 0; i <= c; ++i) a[i] = row[i];
                for (size_t i = 0; i < c; ++i) { for (size_t j = 0; j < c; ++j) a[i][j] = s[i].dot(s[j]); a[i][c] = 1; a[c][i] = 1; }
                a[c][c + 1] = 1;
                for (size_t i = 0; i <= c; ++i) {
                    size_t best = i; for (size_t j = i; j <= c; ++j) if (std::fabs(a[j][i]) > std::fabs(a[best][i])) best = j;
                    if (std::fabs(a[best][i]) < 1e-14L) return r;
                    std::swap(a[i], a[best]);
                    for (size_t j = 0; j <= c; ++j) if (j != i) { D g = a[j][i] / a[i][i]; if (g != 0) for (size_t e = i; e <= c + 1; ++e) a[j][e] -= g * a[i][e]; }
                }
                bool inside = true; D step = 1;
                for (size_t i = 0; i < c; ++i) { w[i] = a[i][c + 1] / a[i][i]; if (w[i] < 1e-12L) { inside = false; if (l[i] > w[i]) step = std::min(step, l[i] / (l[i] - w[i])); } }
                if (inside) { l.assign(w, w + c); break; }
                size_t keep = 0, least = 0; for (size_t i = 0; i < c; ++i) { l[i] += step * (w[i] - l[i]); if (l[i] < l[least]) least = i; }
                l[least] = 0;
                for (size_t i = 0; i < c; ++i) if (l[i] > 1e-13L) { s[keep] = s[i]; l[keep++] = l[i]; }
                if (!keep) return r;
                s.resize(keep); l.resize(keep);
            }
            p = Q(); for (size_t i = 0; i < s.size(); ++i) p = comb(p, l[i], s[i]);
        }
        return r;
    }
    enum Expect { APART_, OVERLAP_, EITHER_ };
    Expect clear(const Body& x, const Body& y) const {
        // the library sees absolute coordinates
        D m = (D)MARGIN + 64 * (D)std::numeric_limits<T>::epsilon() * (D)(x.at.mag() + y.at.mag());
        Near n = nearest(x, y, Q());
        if (n.gap > m) return APART_;
        if (!n.hit) return EITHER_;
        for (int i = 0; i < N; ++i) for (int e = -1; e < 2; e += 2) { Q o; o.v[i] = e * m * 4; if (!nearest(x, y, o).hit) return EITHER_; }
        return OVERLAP_;
    }

    // ---- one test
    static const char* name(int e) { return e == APART_ ? "apart" : "overlapping"; }
    void test(const Step& st, int k, const Body& x, const Body& y, int mode, u64 salt, bool can_throw) {
        Expect want = clear(x, y);
        if (!it[k]) { it[k] = new Tester; limit[k] = default_limit; }
        Tester& q = *it[k];
        std::unique_ptr<Any> sx, sy; { sx = x.make(x.at); sy = y.make(y.at); }
        u64 cap = 2 * ((u64)std::max<index_t>(limit[k], 0) + 4);
        Probe px(sx.get(), cap), py(sy.get(), cap);
        px.mode = mode; px.from = salt % 4; px.salt = salt; if (salt & 4096) { py.mode = mode; py.from = (salt >> 4) % 4; py.salt = ~salt; }
        V axis = q.separation_axis;
        bool r = false, endless = false;
        Outcome o = DONE;
        auto go = [&] { try { r = q.intersects(px, py); } catch (Endless&) { endless = true; } };
        if (can_throw) o = attempt(st, P, go); else { faults.reset(); Lib l; go(); }
        lib_depth = 0;
        if (px.spoilt + py.spoilt) rec.count(MODES[mode]);
        SIM_REQUIRE(P, "endless", !endless, "a test of shapes of kinds %d and %d needs more than %llu support points", x.kind, y.kind, (unsigned long long)cap);
        rec.check();
        bool limited = limit[k] < default_limit;
        rec.log((u64)r + 2 * (u64)o);
        if (o != DONE || mode != M_NONE) { rec.check(); return; }
        SIM_REQUIRE(P, "iterations", q.iterations <= std::max<index_t>(limit[k], 0) + 1, "%ld iterations, limit %ld", (long)q.iterations, (long)limit[k]);
        {
            // a tester's past may only show in the axis it starts from
            Tester f; f.separation_axis = axis; f.max_iterations = limit[k]; bool s = false;
            Probe qx(sx.get(), cap), qy(sy.get(), cap); { Lib l; s = f.intersects(qx, qy); }
            auto same = [](const V& a, const V& b) { for (index_t i = 0; i < N; ++i) if (a[i] != b[i] && (a[i] == a[i] || b[i] == b[i])) return false; return true; };
            for (index_t i = 0; i < q.simplex().n; ++i) {
                bool found = false; for (size_t j = 0; j < px.given.size() && j < py.given.size(); ++j) found = found || same(q.simplex().pts[i], px.given[j] - py.given[j]);
                SIM_REQUIRE(P, "simplex", found, "point %d of the final simplex was not met in this test", (int)i);
            }
            bool eq = q.simplex().n >= 1 && q.simplex().n == f.simplex().n;
            for (index_t i = 0; eq && i < q.simplex().n; ++i) eq = same(q.simplex().pts[i], f.simplex().pts[i]);
            SIM_REQUIRE(P, "simplex", eq, "the final simplex of a reused tester and of a fresh one, starting from the same axis, differ");
            SIM_REQUIRE(P, "history", s == r && f.iterations == q.iterations && f.was_degenerate == q.was_degenerate && same(f.separation_axis, q.separation_axis),
                "a reused tester and a fresh one, starting from the same axis, disagree: overlap %d/%d, steps %ld/%ld, degenerate %d/%d", r, s, (long)q.iterations, (long)f.iterations, q.was_degenerate, f.was_degenerate);
        }
        if (want != EITHER_ && !(limited && want == APART_ && r)) {
            SIM_REQUIRE(P, "wrong-answer", r == (want == OVERLAP_), "a reused tester finds shapes of kinds %d and %d in %d dimensions %s (%ld steps); they are clearly %s (%g)", x.kind, y.kind, (int)N, name(!r ? APART_ : OVERLAP_), (long)q.iterations, name(want), (double)nearest(x, y, Q()).gap);
            bool f; { Lib l; f = geom::intersects(*sx, *sy); }
            SIM_REQUIRE(P, "wrong-answer-fresh", f == (want == OVERLAP_), "intersects() finds shapes of kinds %d and %d in %d dimensions %s; they are clearly %s", x.kind, y.kind, (int)N, name(!f ? APART_ : OVERLAP_), name(want));
            { Lib l; f = geom::intersects(*sy, *sx); }
            SIM_REQUIRE(P, "wrong-answer-swapped", f == (want == OVERLAP_), "intersects() finds shapes of kinds %d and %d in %d dimensions %s; they are clearly %s", y.kind, x.kind, (int)N, name(!f ? APART_ : OVERLAP_), name(want));
            typed(x, y, sx.get(), sy.get(), want);
        }
        if (!r) {
            V d = q.separation_axis; bool fin = true; for (index_t i = 0; i < N; ++i) fin = fin && std::isfinite(d[i]);
            if (want == APART_) {
                SIM_REQUIRE(P, "no-axis", fin && !d.is_zero(), "no separating axis is left after a test that finds shapes apart");
                T g1 = gap(x, y, y.at, d) / d.mag(), g2 = gap(x, y, y.at, -d) / d.mag();
                SIM_REQUIRE(P, "axis", std::max(g1, g2) > -(T)(MARGIN * 1e-2), "the separating axis of shapes of kinds %d and %d does not separate them: they overlap by %g along it", x.kind, y.kind, (double)-std::max(g1, g2));
            }
        }
        rec.count(want == APART_ ? "clear_apart" : want == OVERLAP_ ? "clear_overlap" : "unclear");
        rec.check();
    }
    // the overlap tests written for particular shapes
    template <typename S> static const S* as(const Any* a) { auto* p = dynamic_cast<const geom::AnyConvexImpl<S>*>(a); return p ? &p->shape : nullptr; }
    void typed(const Body& x, const Body& y, const Any* ax, const Any* ay, Expect want) {
        typedef geom::Rect<T, N> R; typedef geom::Sphere<T, N> S; typedef geom::Oriented<R> O; typedef geom::Capsule<T, N> C;
        int n = 0; bool r = false; const char* what = "";
        auto chk = [&](const char* w, bool v) { lib_depth = 0; SIM_REQUIRE(P, "wrong-answer-typed", v == (want == OVERLAP_), "%s finds shapes in %d dimensions %s; they are clearly %s", w, (int)N, name(!v ? APART_ : OVERLAP_), name(want)); rec.count("typed_tests"); rec.check(); };
        auto rx = as<R>(ax), ry = as<R>(ay); auto sx = as<S>(ax), sy = as<S>(ay); auto cx = as<C>(ax);
        if (rx && ry) chk("Rect::intersects(Rect)", rx->intersects(*ry));
        if (sx && sy) chk("Sphere::intersects(Sphere)", sx->intersects(*sy));
        if (sx && ry) { chk("Sphere::intersects(Rect)", sx->intersects(*ry)); chk("Rect::intersects(Sphere)", ry->intersects(*sx)); }
        if (cx && sy) chk("Capsule::intersects(Sphere)", cx->intersects(*sy));
        if constexpr (N <= 3) {
            auto ox = as<O>(ax), oy = as<O>(ay);
            if (ox && ry) { chk("Oriented<Rect>::intersects(Rect)", ox->intersects(*ry)); chk("Rect::intersects(Oriented<Rect>)", ry->intersects(*ox)); }
            if (ox && oy) { O k(*ox); chk("Oriented<Rect>::intersects(Oriented<Rect>)", k.intersects(*oy)); }
        }
    }

    void step(const Step& st) {
        H h{mix64((u64)st.arg(3))};
        int k = (int)st.idx(0, TESTERS);
        Body& x = b[st.idx(1, BODIES)]; Body& y = b[st.idx(2, BODIES)];
        int mode = M_NONE; bool thr = false;
        switch (st.op) {
            case SHAPE: shape(x, h.next()); return;
            case COPY: { int j = (int)st.idx(1, TESTERS); if (j != k && it[j]) { delete it[k]; { Lib l; it[k] = new Tester(*(const Tester*)it[j]); } limit[k] = limit[j]; } } return;
            case ASSIGN: { int j = (int)st.idx(1, TESTERS); if (it[k] && it[j]) { { Lib l; *it[k] = *(const Tester*)it[j]; } limit[k] = limit[j]; } } return;
            case DROP: delete it[k]; it[k] = nullptr; return;
            case LIMIT: if (it[k]) { static const index_t lim[] = {0, 1, 2, 3, 5, -1, -1, -1}; index_t l = lim[h.below(8)]; it[k]->max_iterations = limit[k] = l < 0 ? default_limit : l; } return;
            case MISBEHAVE: mode = 1 + (int)h.below(M_KINDS - 1); break;
            case THROW: thr = true; break;
        }
        if (&x == &y && st.op != TOUCH) return;
        int how = st.op == MISBEHAVE || st.op == THROW ? (int)(APART + h.below(3)) : st.op;
        V d = direction(h, h.below(2));
        if (h.below(6) == 0) { d = y.at - x.at; if (d.mag2() < (T)1e-6) d = V::unit_x; d /= d.mag(); }
        V side = point(h, h.below(2) ? 0.0 : 2.0); side -= d * side.dot(d);
        T flush = x.extent(d) + y.extent(-d);
        switch (how) {
            case APART: y.at = x.at + side + d * (flush + (T)(MARGIN * (h.below(4) ? std::exp((double)h.u(0.2, 7)) : 2000))); break;
            case DEEP: {
                V m = x.at + x.middle() - y.middle();
                y.at = h.below(3) ? m : m + side * h.u(0, 1);
            } break;
            case TOUCH: {
                static const double eps[] = {0, 0, 0, 1e-15, -1e-15, 1e-8, -1e-8};
                if (h.below(5) == 0) y.at = x.at; else if (&x != &y) y.at = x.at + side + d * (flush + (T)eps[h.below(7)]);
            } break;
            case SWEEP: {
                // coherent motion: in from one side, through, and out at the other
                V far = d * (flush + (T)0.5), m = x.middle() - y.middle(); int n = 3 + (int)h.below(8);
                for (int q = 0; q <= n; ++q) {
                    T s = (T)(2.0 * q / n - 1);
                    y.at = x.at + (s < 0 ? far * -s : -(d * (x.extent(-d) + y.extent(d) + (T)0.5)) * s) + m * (1 - std::fabs(s)) + side * s;
                    test(st, k, x, y, M_NONE, 0, false);
                }
                return;
            }
        }
        test(st, k, x, y, mode, h.next(), thr);
        // whatever happened, the next clear case must be answered right
    }
    void run() {
        for (int i = 0; i < BODIES; ++i) shape(b[i], (u64)t.get("world") * 8 + (u64)i);
        int no = 0;
        for (auto& st : t.steps) {
            rec.cur_step = no++; rec.log((u64)st.op); for (i64 a : st.a) rec.log((u64)a); rec.count(OPS[st.op]); faults.reset();
            step(st); rec.check();
            int k = (int)st.idx(0, TESTERS);
            u64 s = mix64((u64)st.op * 64 + (u64)b[st.idx(1, BODIES)].kind) * 31 + (u64)b[st.idx(2, BODIES)].kind;
            if (it[k]) s = mix64(s + (u64)it[k]->iterations * 4 + (u64)it[k]->was_degenerate * 2 + (u64)it[k]->separation_axis.is_zero()) + (u64)it[k]->simplex().n;
            rec.state(mix64(s * 8 + N));
            if (it[k]) { index_t n = it[k]->simplex().n; SIM_REQUIRE(P, "simplex", n >= 0 && n <= N + 1, "the final simplex has %ld points", (long)n); rec.check(); }
        }
        for (auto& x : it) delete x;
    }
};

struct IntersectScenario : Scenario {
    const char* name() const override { return "intersect"; }
    std::vector<const char*> ops() const override { return std::vector<const char*>(OPS, OPS + OP_COUNT); }
    void generate(Rng& r, Trace& t, int) override {
        t.cfg["type"] = (i64)r.below(7);
        t.cfg["world"] = (i64)r.below(1ull << 40);
        int n = (int)r.range(4, 30);
        std::vector<unsigned> w(OP_COUNT); for (auto& x : w) x = r.chance(1, 6) ? 0 : 1 + (unsigned)r.below(4);
        w[APART] += 3; w[DEEP] += 2; w[SHAPE] += 1;
        unsigned tot = 0; for (unsigned x : w) tot += x;
        for (int q = 0; q < n; ++q) {
            unsigned z = (unsigned)r.below(tot); int op = 0; while (z >= w[(size_t)op]) z -= w[(size_t)op++];
            add_step(t, op, {(i64)(r.chance(2, 3) ? 0 : r.below(TESTERS)), (i64)r.below(BODIES), (i64)r.below(BODIES), (i64)r.below(1ull << 40)});
            if (op == THROW) { Fault f; f.kind = F_CALLBACK; f.nth = 1 + (int)r.below(8); t.steps.back().f.push_back(f); }
        }
    }
    template <typename T, index_t N> static void go(const Trace& t) { World<T, N> w(t); w.run(); }
    void execute(const Trace& t) override {
        alloc_prop = P;
        switch (t.get("type")) {
            case 0: go<double, 2>(t); break; case 1: go<double, 3>(t); break; case 2: go<float, 3>(t); break;
            case 3: go<float, 2>(t); break;  case 4: go<double, 4>(t); break; case 5: go<float, 4>(t); break;
            default: go<double, 5>(t); break;
        }
    }
};
sim::Scenario* sim::make_scenario() { return new IntersectScenario; }
