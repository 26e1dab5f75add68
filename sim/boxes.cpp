// C25: histories of boxes that are grown, cut, moved, scaled and combined, against exact interval sets.
#include "core/sim.h"
#include "core/ops.h"
#include <geomc/shape/Rect.h>
#include <cmath>
#include <limits>
#include <list>

using namespace sim;
using namespace geom;
#define P "C25"

enum { CLEAR, SPAN, FROM_CENTER, FROM_CORNER, FROM_SIZE, SEQUENCE, CORNERS, COPY, JOIN, JOINED, ADD_POINT, WITH_POINT, CUT, CUTTED, MOVE, MOVED, SCALE, SCALED, DIVIDE, DILATE, SUM, RESIZE, CENTERED, ABS, FIT, PRODUCT, SLICE, CAST, PAIR, POINT, RAY, OP_COUNT };
static const char* OPS[] = {"clear", "span", "from_center", "from_corner", "from_size", "sequence", "corners", "copy", "join", "joined", "add_point", "with_point", "cut", "cutted", "move", "moved", "scale", "scaled", "divide", "dilate", "sum", "resize", "centered", "abs", "fit", "product", "slice", "cast", "pair", "point", "ray"};

template <typename T, int N>
struct World {
    typedef Rect<T, N> R; typedef typename R::point_t V; typedef PointType<T, N> Pt;
    static constexpr bool whole = std::is_integral<T>::value; static constexpr int HANDS = 4;
    struct Box { double lo[N], hi[N]; bool empty() const { for (int i = 0; i < N; ++i) if (lo[i] > hi[i]) return true; return false; } };
    const Trace& t; u64 h = 0; R r[HANDS]; Box m[HANDS];
    explicit World(const Trace& t) : t(t) { for (int i = 0; i < HANDS; ++i) m[i] = seen(r[i]); }

    u64 draw(u64 n) { h = mix64(h + 1); return h % n; }
    static double at(const V& v, int i) { return (double)Pt::iterator(v)[i]; }
    static V vec(const double* c) { V v; for (int i = 0; i < N; ++i) Pt::iterator(v)[i] = (T)c[i]; return v; }
    static Box nothing() { Box b; for (int i = 0; i < N; ++i) { b.lo[i] = whole ? (double)std::numeric_limits<T>::max() : INFINITY; b.hi[i] = whole ? (double)std::numeric_limits<T>::lowest() : -INFINITY; } return b; }
    static Box seen(const R& x) { Box b; for (int i = 0; i < N; ++i) { b.lo[i] = at(x.lo, i); b.hi[i] = at(x.hi, i); } return b; }
    static bool tame(const Box& b) { for (int i = 0; i < N; ++i) for (double x : {b.lo[i], b.hi[i]}) if (!(std::fabs(x) <= 4096) || x * 64 != std::floor(x * 64)) return false; return true; }
    double coord() { double x = (double)((i64)draw(9) - 4); return whole || draw(2) ? x : x / 2; }
    void coords(double* c) { for (int i = 0; i < N; ++i) c[i] = coord(); }
    // a point: fresh, or an extreme of a box itself
    V point(double* c, const Box* own = nullptr) { if (own && tame(*own) && draw(3) == 0) { const double* s = draw(2) ? own->lo : own->hi; memcpy(c, s, N * sizeof(double)); } else coords(c); return vec(c); }
    static std::string show(const Box& b) { std::string s; char x[64]; for (int i = 0; i < N; ++i) { snprintf(x, sizeof x, "%s[%g,%g]", i ? "x" : "", b.lo[i], b.hi[i]); s += x; } return s; }
    static bool same(const Box& a, const Box& b) { for (int i = 0; i < N; ++i) if (a.lo[i] != b.lo[i] || a.hi[i] != b.hi[i]) return false; return true; }

    static bool identity(const Box& b) { for (int i = 0; i < N; ++i) if (b.lo[i] < (double)std::numeric_limits<T>::max() || b.hi[i] > (double)std::numeric_limits<T>::lowest()) return false; return true; }
    // x must be the set e; of an empty set any extremes will do
    static void is(const R& x, const Box& e, const char* what) {
        Box g = seen(x); bool empty; { Lib l; empty = x.is_empty(); }
        SIM_REQUIRE(P, "set", empty == e.empty(), "%s: %s says it is %s; expected %s", what, show(g).c_str(), empty ? "empty" : "not empty", show(e).c_str());
        SIM_REQUIRE(P, "set", e.empty() ? g.empty() : same(g, e), "%s gave %s instead of %s", what, show(g).c_str(), show(e).c_str());
    }
    void take(int i, const Box& e, const char* what) { is(r[i], e, what); m[i] = seen(r[i]); }
    // the least box of both. (What an empty box adds, other than the one which is the identity, is not said.)
    static bool least(const Box& a, const Box& b, Box& e) {
        bool ia = identity(a), ib = identity(b);
        if ((a.empty() && !ia) || (b.empty() && !ib)) return false;
        e = ia ? b : a; if (!ia && !ib) for (int i = 0; i < N; ++i) { e.lo[i] = std::min(a.lo[i], b.lo[i]); e.hi[i] = std::max(a.hi[i], b.hi[i]); }
        return true;
    }
    static void joined(const R& x, const Box& a, const Box& b, const char* what) {
        Box e; if (least(a, b, e)) { is(x, e, what); return; }
        Box g = seen(x);
        for (const Box* s : {&a, &b}) if (!s->empty()) for (int i = 0; i < N; ++i) SIM_REQUIRE(P, "set", g.lo[i] <= s->lo[i] && g.hi[i] >= s->hi[i], "%s: %s does not contain %s", what, show(g).c_str(), show(*s).c_str());
    }
    static Box meet(const Box& a, const Box& b) { Box e; for (int i = 0; i < N; ++i) { e.lo[i] = std::max(a.lo[i], b.lo[i]); e.hi[i] = std::min(a.hi[i], b.hi[i]); } if (a.empty() || b.empty()) e = nothing(); return e; }
    static bool holds(const Box& b, const double* c) { for (int i = 0; i < N; ++i) if (c[i] < b.lo[i] || c[i] > b.hi[i]) return false; return true; }
    double factor() { static const double f[] = {1, -1, 2, -2, 0.5, -0.5, 3, -3}; return whole ? f[draw(2) ? draw(4) : 6 + draw(2)] : f[draw(6)]; }

    void step(const Step& st) {
        h = (u64)st.arg(2); int a = (int)st.idx(0, HANDS), b = (int)st.idx(1, HANDS);
        R &x = r[a], &y = r[b]; Box A = m[a], B = m[b]; double c[N], d[N]; const char* op = OPS[st.op];
        switch (st.op) {
            case CLEAR: { u64 how = draw(5); { Lib l; x = how == 0 ? R() : how == 1 ? R(R::empty) : how == 2 ? R(R::unit_interval) : how == 3 ? R(R::signed_unit_interval) : R(R::full); }
                Box e = nothing(); if (how == 4) { std::swap(e.lo, e.hi); Box g = seen(x); for (int i = 0; i < N; ++i) SIM_REQUIRE(P, "set", g.lo[i] <= (double)std::numeric_limits<T>::lowest() && g.hi[i] >= (double)std::numeric_limits<T>::max(), "the full box is %s", show(g).c_str()); e = g; }
                else if (how > 1) for (int i = 0; i < N; ++i) { e.lo[i] = how == 2 ? 0 : -1; e.hi[i] = 1; }
                take(a, e, op); } break;
            case SPAN: { V p = point(c), q = point(d); { Lib l; x = R::spanning_corners(p, q); } take(a, spanned(c, d), op); } break;
            case CORNERS: { V p = point(c, &A), q = point(d, &A); { Lib l; x.set_corners(p, q); } take(a, spanned(c, d), op); } break;
            case FROM_CENTER: case FROM_SIZE: case FROM_CORNER: {
                V p = point(c); coords(d); if (st.op == FROM_SIZE) for (double& v : c) v = 0;
                for (double& v : d) { if (whole) v = std::fabs(v) + 1; }
                V q = vec(d); { Lib l; x = st.op == FROM_CENTER ? R::from_center(p, q) : st.op == FROM_SIZE ? R::from_size(q) : R::from_corner(p, q); }
                Box e; for (int i = 0; i < N; ++i) {
                    double lo = st.op == FROM_CORNER ? c[i] : whole ? c[i] - std::floor(d[i] / 2) : c[i] - d[i] / 2; double hi = lo + d[i] - (whole ? 1 : 0);
                    e.lo[i] = std::min(lo, hi); e.hi[i] = std::max(lo, hi); }
                take(a, e, op); } break;
            case SEQUENCE: { std::list<V> ps; Box e = nothing(); int n = (int)draw(5); for (int k = 0; k < n; ++k) { ps.push_back(point(c)); for (int i = 0; i < N; ++i) { e.lo[i] = std::min(e.lo[i], c[i]); e.hi[i] = std::max(e.hi[i], c[i]); } }
                { Lib l; x = R::from_point_sequence(ps.begin(), ps.end()); } take(a, e, op); } break;
            case COPY: { Lib l; if (draw(2)) x = y; else { R z(y); x = z; } } if (!B.empty()) take(a, B, op); else { is(x, B, op); m[a] = seen(x); }
                { bool eq, ne; { Lib l; eq = x == y; ne = x != y; } SIM_REQUIRE(P, "set", eq && !ne, "a copy of %s does not equal it", show(B).c_str()); } break;
            case JOIN: { Lib l; R& z = (x |= y); SIM_REQUIRE(P, "set", &z == &x, "|= did not return its box"); } joined(x, A, B, op); m[a] = seen(x); break;
            case JOINED: { const R &u = x, &v = y; R z; { Lib l; z = u | v; } joined(z, A, B, op); if (draw(2)) { x = z; m[a] = seen(x); } } break;
            case ADD_POINT: case WITH_POINT: { Box e; R z; double w[N];
                // the point may be a reference into the box itself
                bool own = tame(A) && draw(3) == 0, low = draw(2); if (own) memcpy(w, low ? A.lo : A.hi, sizeof w); else coords(w);
                V p = vec(w); Box pb; memcpy(pb.lo, w, sizeof w); memcpy(pb.hi, w, sizeof w);
                if (st.op == ADD_POINT) { { Lib l; x |= own ? (low ? x.lo : x.hi) : p; } z = x; } else { Lib l; const R& u = x; z = u | p; }
                if (least(A, pb, e)) is(z, e, op); else joined(z, A, pb, op);
                bool in; { Lib l; in = z.contains(p); } SIM_REQUIRE(P, "set", in, "%s: %s does not contain the point added", op, show(seen(z)).c_str());
                if (st.op == ADD_POINT || draw(2)) { x = z; m[a] = seen(x); } } break;
            case CUT: { Lib l; x &= y; } take(a, meet(A, B), op); break;
            case CUTTED: { R z; { Lib l; const R &u = x, &v = y; z = u & v; } is(z, meet(A, B), op); if (draw(2)) { x = z; m[a] = seen(x); } } break;
            case MOVE: case MOVED: { if (!tame(A) || A.empty()) break; V p = point(c, &A); bool minus = draw(2); R z = x;
                if (st.op == MOVE) { Lib l; if (minus) z -= p; else z += p; } else { Lib l; const R& u = x; z = minus ? u - p : draw(2) ? u + p : p + u; }
                Box e = A; for (int i = 0; i < N; ++i) { double s = minus ? -c[i] : c[i]; e.lo[i] += s; e.hi[i] += s; } is(z, e, op); x = z; m[a] = seen(x); } break;
            case SCALE: case SCALED: case DIVIDE: { bool inf = !tame(A); if (inf && (whole || !A.empty())) break;
                for (double& v : c) v = factor(); if (st.op == DIVIDE && whole) for (int i = 0; i < N; ++i) if (std::fmod(A.lo[i], c[i]) != 0 || std::fmod(A.hi[i], c[i]) != 0) c[i] = draw(2) ? 1 : -1;
                V p = vec(c); R z = x; { Lib l; if (st.op == SCALE) z *= p; else if (st.op == SCALED) { const R& u = x; z = u * p; } else if (draw(2)) z /= p; else { const R& u = x; z = u / p; } }
                Box e = A; for (int i = 0; i < N; ++i) { double s = st.op == DIVIDE ? 1 / c[i] : c[i], p0 = st.op == DIVIDE && whole ? A.lo[i] / c[i] : A.lo[i] * s, p1 = st.op == DIVIDE && whole ? A.hi[i] / c[i] : A.hi[i] * s; e.lo[i] = s < 0 ? p1 : p0; e.hi[i] = s < 0 ? p0 : p1; }
                if (A.empty()) e = nothing(); is(z, e, op); x = z; m[a] = seen(x); } break;
            case DILATE: { if (!tame(A) || A.empty()) break; coords(c); V p = vec(c); { Lib l; const R& u = x; x = u.dilated(p); } Box e = A; for (int i = 0; i < N; ++i) { e.lo[i] -= c[i]; e.hi[i] += c[i]; } take(a, e, op); } break;
            case SUM: { if (!tame(A) || !tame(B) || A.empty() || B.empty()) break; R z; { Lib l; const R &u = x, &v = y; z = u.minkowski_sum(v); } Box e = A; for (int i = 0; i < N; ++i) { e.lo[i] += B.lo[i]; e.hi[i] += B.hi[i]; } is(z, e, op); x = z; m[a] = seen(x); } break;
            case RESIZE: { if (whole || !tame(A) || A.empty()) break; coords(c); V p = vec(c); { Lib l; x.set_dimensions(p); } Box e; for (int i = 0; i < N; ++i) { double k = (A.lo[i] + A.hi[i]) / 2, w = std::fabs(c[i]) / 2; e.lo[i] = k - w; e.hi[i] = k + w; } take(a, e, op); } break;
            case CENTERED: { if (!tame(A) || A.empty()) break; V p = point(c); { Lib l; const R& u = x; x = u.centered_on(p); } Box e; for (int i = 0; i < N; ++i) { double w = A.hi[i] - A.lo[i]; e.lo[i] = whole ? c[i] - std::floor((w + 1) / 2) : c[i] - w / 2; e.hi[i] = e.lo[i] + w; } take(a, e, op); } break;
            case ABS: { if (!tame(A)) break; { Lib l; const R& u = x; x = u.abs(); } Box e; for (int i = 0; i < N; ++i) { e.lo[i] = std::min(A.lo[i], A.hi[i]); e.hi[i] = std::max(A.lo[i], A.hi[i]); } take(a, e, op); } break;
            case FIT: if constexpr (!whole) { if (!tame(A) || !tame(B) || A.empty() || B.empty()) break; R z; { Lib l; const R& u = x; z = u.fitted_to(y); }
                double k = 0; for (int i = 0; i < N; ++i) if (A.hi[i] > A.lo[i]) k = std::max(k, (B.hi[i] - B.lo[i]) / (A.hi[i] - A.lo[i])); Box g = seen(z); double tol = 64 * (double)std::numeric_limits<T>::epsilon() * (4096 + 8192 * k);
                for (int i = 0; i < N; ++i) { double w = (A.hi[i] - A.lo[i]) * k / 2, o = (B.lo[i] + B.hi[i]) / 2; SIM_REQUIRE(P, "fit", std::fabs(g.lo[i] - o + w) <= tol && std::fabs(g.hi[i] - o - w) <= tol, "%s fitted to %s is %s", show(A).c_str(), show(B).c_str(), show(g).c_str()); } } break;
            case PRODUCT: { Rect<T, 2 * N> z; { Lib l; const R& u = x; z = u * y; }
                for (int i = 0; i < 2 * N; ++i) { double lo = i < N ? A.lo[i] : B.lo[i - N], hi = i < N ? A.hi[i] : B.hi[i - N]; SIM_REQUIRE(P, "product", (double)z.lo[i] == lo && (double)z.hi[i] == hi, "%s times %s has [%g,%g] on axis %d", show(A).c_str(), show(B).c_str(), (double)z.lo[i], (double)z.hi[i], i); } } break;
            case SLICE: { for (int i = 0; i < N; ++i) { Rect<T, 1> z; { Lib l; const R& u = x; z = u.axis((size_t)i); } SIM_REQUIRE(P, "product", (double)z.lo == A.lo[i] && (double)z.hi == A.hi[i], "axis %d of %s is [%g,%g]", i, show(A).c_str(), (double)z.lo, (double)z.hi); }
                if constexpr (N > 1) { int i = (int)draw(N), j = (int)draw(N); Rect<T, 2> z; { Lib l; const R& u = x; z = u((size_t)i, (size_t)j); }
                    SIM_REQUIRE(P, "product", (double)z.lo[0] == A.lo[i] && (double)z.hi[0] == A.hi[i] && (double)z.lo[1] == A.lo[j] && (double)z.hi[1] == A.hi[j], "the slice (%d, %d) of %s is [%g,%g]x[%g,%g]", i, j, show(A).c_str(), (double)z.lo[0], (double)z.hi[0], (double)z.lo[1], (double)z.hi[1]); } } break;
            case CAST: { if (!tame(A)) break; Rect<long double, N> z; R w; { Lib l; const R& u = x; z = (Rect<long double, N>)u; const Rect<long double, N>& v = z; w = (R)v; } is(w, A, op); if (!A.empty()) SIM_REQUIRE(P, "set", same(seen(w), A), "%s cast and back is %s", show(A).c_str(), show(seen(w)).c_str()); } break;
            case PAIR: pair(x, y, A, B); break;
            case POINT: { V p = point(c, &A); query(x, A, p, c); } break;
            case RAY: if constexpr (!whole && N > 1) ray(x, A); break;
        }
        for (int i = 0; i < HANDS; ++i) if (!tame(m[i]) && !identity(m[i])) { r[i] = R(); m[i] = seen(r[i]); }
        rec.check();
    }
    static Box spanned(const double* c, const double* d) { Box e; for (int i = 0; i < N; ++i) { e.lo[i] = std::min(c[i], d[i]); e.hi[i] = std::max(c[i], d[i]); } return e; }

    void pair(const R& x, const R& y, const Box& A, const Box& B) {
        bool in, meets, eq; { Lib l; in = x.contains(y); meets = x.intersects(y); eq = x == y; }
        bool sub = true; for (int i = 0; i < N; ++i) sub &= B.lo[i] >= A.lo[i] && B.hi[i] <= A.hi[i]; if (B.empty()) sub = true;
        SIM_REQUIRE(P, "relation", in == sub, "%s %s %s", show(A).c_str(), in ? "contains" : "does not contain", show(B).c_str());
        SIM_REQUIRE(P, "relation", meets == !meet(A, B).empty(), "%s and %s are said %sto share a point", show(A).c_str(), show(B).c_str(), meets ? "" : "not ");
        if (!A.empty() && !B.empty()) SIM_REQUIRE(P, "relation", eq == same(A, B), "%s and %s compare %s", show(A).c_str(), show(B).c_str(), eq ? "equal" : "unequal");
        if constexpr (!whole) if (tame(A) && tame(B) && !A.empty() && !B.empty()) {
            std::pair<V, bool> k; { Lib l; k = x.contact_vector(y); }
            // moved by the vector the boxes touch, without a common inner point, and no shorter move along an axis would do
            bool touch = true, apart = false, over = true, open = true; double best = INFINITY, len2 = 0, gap2 = 0;
            for (int i = 0; i < N; ++i) { double v = at(k.first, i), lo = A.lo[i] + v, hi = A.hi[i] + v; touch &= lo <= B.hi[i] && hi >= B.lo[i]; apart |= lo >= B.hi[i] || hi <= B.lo[i]; over &= A.lo[i] <= B.hi[i] && A.hi[i] >= B.lo[i]; open &= A.lo[i] < B.hi[i] && A.hi[i] > B.lo[i];
                best = std::min(best, std::min(std::fabs(B.lo[i] - A.hi[i]), std::fabs(B.hi[i] - A.lo[i]))); len2 += v * v; double g = std::max(0.0, std::max(B.lo[i] - A.hi[i], A.lo[i] - B.hi[i])); gap2 += g * g; }
            SIM_REQUIRE(P, "contact", touch && apart, "moving %s by the contact vector %s %s", show(A).c_str(), touch ? "leaves it overlapping" : "does not make it touch", show(B).c_str());
            SIM_REQUIRE(P, "contact", len2 == (over ? best * best : gap2), "the contact vector of %s and %s has length %g", show(A).c_str(), show(B).c_str(), std::sqrt(len2));
            if (over == open) SIM_REQUIRE(P, "contact", k.second == over, "%s and %s are said %sto overlap", show(A).c_str(), show(B).c_str(), k.second ? "" : "not ");
        }
    }
    void query(const R& x, const Box& A, const V& p, const double* c) {
        bool in, in2; T vol; { Lib l; in = x.contains(p); in2 = R::contains(x.lo, x.hi, p); vol = x.volume(); }
        SIM_REQUIRE(P, "query", in == holds(A, c) && in2 == in, "%s is said %sto contain (%g, ...)", show(A).c_str(), in ? "" : "not ", c[0]);
        double v = 1; for (int i = 0; i < N; ++i) v *= A.hi[i] - A.lo[i] + (whole ? 1 : 0); if (A.empty()) v = 0;
        if (std::fabs(v) < 1e6) SIM_REQUIRE(P, "query", std::fabs((double)vol - v) <= 1e-5 * v, "the volume of %s is %.17g", show(A).c_str(), (double)vol);
        if (A.empty() || !tame(A)) return;
        V dim, mid, near, sup, dir; double dd[N]; T d2; coords(dd); dir = vec(dd); double side; { Lib l; dim = x.dimensions(); mid = x.center(); near = x.clip(p); sup = x.convex_support(dir); d2 = x.dist2(p); side = (double)x.length(); }
        double dist2 = 0, s0 = 0, s1 = 0, face = INFINITY;
        for (int i = 0; i < N; ++i) {
            double w = A.hi[i] - A.lo[i], q = std::min(A.hi[i], std::max(A.lo[i], c[i])); dist2 += (c[i] - q) * (c[i] - q); face = std::min(face, std::min(std::fabs(c[i] - A.lo[i]), std::fabs(A.hi[i] - c[i])));
            SIM_REQUIRE(P, "query", at(dim, i) == w + (whole ? 1 : 0), "dimension %d of %s is %g", i, show(A).c_str(), at(dim, i));
            SIM_REQUIRE(P, "query", at(mid, i) == (whole ? A.lo[i] + std::floor((w + 1) / 2) : (A.lo[i] + A.hi[i]) / 2), "coordinate %d of the center of %s is %g", i, show(A).c_str(), at(mid, i));
            SIM_REQUIRE(P, "query", at(near, i) == q, "coordinate %d of the point of %s nearest to (%g, ...) is %g", i, show(A).c_str(), c[0], at(near, i));
            s0 += at(sup, i) * dd[i]; s1 += std::max(A.lo[i] * dd[i], A.hi[i] * dd[i]);
            SIM_REQUIRE(P, "query", at(sup, i) >= A.lo[i] && at(sup, i) <= A.hi[i], "a support point of %s is outside", show(A).c_str());
        }
        SIM_REQUIRE(P, "query", s0 == s1, "the support point of %s reaches %g instead of %g", show(A).c_str(), s0, s1);
        SIM_REQUIRE(P, "query", std::fabs((double)d2 - dist2) <= 1e-5 * dist2, "the squared distance to %s is %g instead of %g", show(A).c_str(), (double)d2, dist2);
        if (v < 1e6) SIM_REQUIRE(P, "query", std::fabs(std::pow(side, N) - v) <= 1e-4 * v + 1e-9, "the length of %s is %g", show(A).c_str(), side);
        if constexpr (!whole) {
            V sur, at0, at1, un; T sd; double ss[N]; for (double& k : ss) k = (double)draw(5) / 4; V s = vec(ss);
            { Lib l; sur = x.project(p); sd = x.sdf(p); at0 = x.remap(s); un = x.unmap(at0); }
            double move2 = 0; bool edge = false, inside = true;
            for (int i = 0; i < N; ++i) { double q = at(sur, i); move2 += (q - c[i]) * (q - c[i]); edge |= q == A.lo[i] || q == A.hi[i]; inside &= q >= A.lo[i] && q <= A.hi[i]; }
            double want = in ? -face : std::sqrt(dist2);
            SIM_REQUIRE(P, "surface", edge && inside && std::fabs(std::sqrt(move2) - std::fabs(want)) <= 1e-5 * std::fabs(want), "the nearest surface point of %s to (%g, ...) is (%g, ...) at distance %g; expected %g", show(A).c_str(), c[0], at(sur, 0), std::sqrt(move2), std::fabs(want));
            SIM_REQUIRE(P, "surface", std::fabs((double)sd - want) <= 1e-5 * std::fabs(want), "the signed distance to %s is %g instead of %g", show(A).c_str(), (double)sd, want);
            for (int i = 0; i < N; ++i) { double e = A.lo[i] + ss[i] * (A.hi[i] - A.lo[i]), tol = 1e-5 * (1 + std::fabs(A.lo[i]) + std::fabs(A.hi[i]));
                SIM_REQUIRE(P, "remap", std::fabs(at(at0, i) - e) <= tol, "remap of %g on axis %d of %s gives %g", ss[i], i, show(A).c_str(), at(at0, i));
                if (A.hi[i] - A.lo[i] > 1e-2 * (std::fabs(A.lo[i]) + std::fabs(A.hi[i]))) SIM_REQUIRE(P, "remap", std::fabs(at(un, i) - ss[i]) <= 1e-2, "unmap does not undo remap on axis %d of %s: %g for %g", i, show(A).c_str(), at(un, i), ss[i]); }
        }
        rec.check();
    }
    void ray(const R& x, const Box& A) {
        if (!tame(A) || A.empty()) return;
        static const double D[] = {0, 1, -1, 2, -0.5}; double o[N], d[N]; coords(o); double n = 0; for (double& v : d) { v = D[draw(5)]; n += v * v; if (v == 0 && draw(2)) v = -0.0; } if (n == 0) d[0] = 1;
        Ray<T, N> y(vec(o), vec(d)); Rect<T, 1> got; { Lib l; got = x.intersect(y); }
        double s0 = -INFINITY, s1 = INFINITY; bool miss = false;
        for (int i = 0; i < N; ++i) if (d[i] == 0) miss |= o[i] < A.lo[i] || o[i] > A.hi[i]; else { double p = (A.lo[i] - o[i]) / d[i], q = (A.hi[i] - o[i]) / d[i]; s0 = std::max(s0, std::min(p, q)); s1 = std::min(s1, std::max(p, q)); }
        miss |= s0 > s1; bool em; { Lib l; em = got.is_empty(); }
        SIM_REQUIRE(P, "ray", em == miss, "a ray is said to %s %s", em ? "miss" : "hit", show(A).c_str());
        if (!miss) SIM_REQUIRE(P, "ray", (double)got.lo == s0 && (double)got.hi == s1, "a ray is inside %s from %g to %g instead of %g to %g", show(A).c_str(), (double)got.lo, (double)got.hi, s0, s1);
    }
    void run() {
        int no = 0;
        for (auto& st : t.steps) {
            rec.cur_step = no++; rec.log((u64)st.op); for (i64 a : st.a) rec.log((u64)a); rec.count(OPS[st.op]); faults.reset();
            step(st);
            u64 sh = 0; for (int i = 0; i < HANDS; ++i) { is(r[i], m[i], "later"); int deg = 0; for (int k = 0; k < N; ++k) deg += m[i].lo[k] == m[i].hi[k]; sh = sh * 8 + (u64)(m[i].empty() ? (identity(m[i]) ? 0 : 1) : 2 + deg); }
            u64 rel = 0; for (int i = 0; i < HANDS; ++i) for (int j = 0; j < i; ++j) rel = rel * 2 + !meet(m[i], m[j]).empty();
            rec.state(mix64(sh * 4096 + rel * 64 + (u64)st.op) ^ mix64((u64)t.get("type"))); rec.log(sh * 64 + rel);
        }
        rec.check();
    }
};

struct BoxesScenario : Scenario {
    const char* name() const override { return "boxes"; }
    std::vector<const char*> ops() const override { return std::vector<const char*>(OPS, OPS + OP_COUNT); }
    void generate(Rng& r, Trace& t, int) override {
        t.cfg["type"] = (i64)r.below(8);
        int n = (int)r.range(4, 50);
        std::vector<unsigned> w(OP_COUNT); for (auto& x : w) x = r.chance(1, 4) ? 0 : 1 + (unsigned)r.below(3);
        w[SPAN] += 2; w[POINT] += 3; w[PAIR] += 3; w[ADD_POINT] += 1;
        unsigned tot = 0; for (unsigned x : w) tot += x;
        for (int q = 0; q < n; ++q) {
            unsigned z = (unsigned)r.below(tot); int op = 0; while (z >= w[(size_t)op]) z -= w[(size_t)op++]; if (q < 2) op = SPAN;
            add_step(t, op, {q < 2 ? q : (i64)r.below(4), (i64)r.below(4), (i64)r.below(1ull << 40)});
        }
    }
    void execute(const Trace& t) override {
        switch (t.get("type")) {
            case 0: World<int, 1>(t).run(); break;
            case 1: World<int, 2>(t).run(); break;
            case 2: World<int, 3>(t).run(); break;
            case 3: World<double, 1>(t).run(); break;
            case 4: World<double, 2>(t).run(); break;
            case 5: World<double, 3>(t).run(); break;
            case 6: World<float, 2>(t).run(); break;
            default: World<long, 2>(t).run(); break;
        }
    }
};
sim::Scenario* sim::make_scenario() { return new BoxesScenario; }
