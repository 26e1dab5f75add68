// C26: spherical and zonal harmonics through histories of samples, arithmetic, conversions, copies and refused allocations,
// against coefficients in long double with running error bounds.
#include "core/sim.h"
#include "core/ops.h"
#include <geomc/function/SphericalHarmonics.h>
#include <cmath>
#include <limits>
#include <optional>

using namespace sim;
using namespace geom;
#define P "C26"
typedef long double ld;
#undef PI
static const ld PI = 3.141592653589793238462643383279502884L;

enum { NEW, NEW_ZONAL, FROM_ZONAL, FROM_ZONAL_AXIS, ZONAL_FROM, PROJECT, PROJECT_ANGLES, EVAL, EVAL_ANGLES, ZONAL_EVAL, DOT, ZONAL_DOT, NORMALIZE, CONVOLVE, ZONAL_CONVOLVE, CLEAR, ZONAL_CLEAR,
       NEGATE, SCALE, DIVIDE, BIAS, ADD_TO, ADD, BASIS, COPY, ASSIGN, MOVE_ASSIGN, SWAP, ZONAL_COPY, ZONAL_ASSIGN, LAMBERT, SPOT, ZONAL_PROJECT, SET, ZONAL_SET, FUNCTIONS, DIFFUSE, ZONAL_NORMALIZE, OP_COUNT };
static const char* OPS[] = {"new", "new_zonal", "from_zonal", "from_zonal_axis", "zonal_from", "project", "project_angles", "eval", "eval_angles", "zonal_eval", "dot", "zonal_dot", "normalize", "convolve", "zonal_convolve", "clear", "zonal_clear",
       "negate", "scale", "divide", "bias", "add_to", "add", "basis", "copy", "assign", "move_assign", "swap", "zonal_copy", "zonal_assign", "lambert", "spot", "zonal_project", "set", "zonal_set", "functions", "diffuse", "zonal_normalize"};

static ld EPS = 0;      // of the simulated type
struct Num { ld v = 0, e = 0; };
static Num rnd(Num a, ld k = 1) { a.e = (a.e + k * EPS * (fabsl(a.v) + a.e)) * 1.0001L + 1e-30L; return a; }
static Num num(ld v, ld e = 0) { Num r; r.v = v; r.e = e; return r; }
static Num operator+(Num a, Num b) { return rnd(num(a.v + b.v, a.e + b.e)); }
static Num operator-(Num a, Num b) { return rnd(num(a.v - b.v, a.e + b.e)); }
static Num operator*(Num a, Num b) { return rnd(num(a.v * b.v, fabsl(a.v) * b.e + a.e * fabsl(b.v) + a.e * b.e)); }
static Num inv(Num a) { ld m = fabsl(a.v); return m > a.e ? rnd(num(1 / a.v, a.e / (m * (m - a.e)))) : num(0, INFINITY); }

static const int MAXB = 10;
// associated Legendre polynomials with the Condon-Shortley phase, from x = cos and s = sin of the polar angle
struct Table {
    Num p[MAXB + 1][MAXB + 1];
    Table(int b, Num x, Num s) {
        for (int m = 0; m < b; ++m) {
            Num q = num(1); for (int i = 1; i <= m; ++i) { q = rnd(q * num(-(2 * i - 1)) * s); }
            p[m][m] = rnd(q, m + 2);
            if (m + 1 < b) p[m + 1][m] = rnd(x * num(2 * m + 1) * p[m][m]);
            for (int l = m + 2; l < b; ++l) p[l][m] = rnd((x * num(2 * l - 1) * p[l - 1][m] - num(l + m - 1) * p[l - 2][m]) * num(1 / (ld)(l - m)), 2);
        }
    }
};
static Num norm(int l, int m) { ld z = 1; for (int i = l - m + 1; i <= l + m; ++i) z *= i; return rnd(num(sqrtl((2 * l + 1) / (4 * PI * z))), m + 8); }
struct Dir { Num x, s, azi; };
// sin of the polar angle from its square, known to within e
static Num root(ld s2, ld e) { ld lo = s2 > e ? sqrtl(s2 - e) : 0, hi = sqrtl(s2 + e), v = sqrtl(std::max(s2, (ld)0)); return rnd(num(v, std::max(v - lo, hi - v))); }
static void basis(const Dir& d, int b, std::vector<Num>& y) {
    Table t(b, d.x, d.s); y.assign((size_t)b * b, Num());
    for (int l = 0; l < b; ++l) for (int m = 0; m <= l; ++m) {
        Num k = t.p[l][m] * norm(l, m);
        if (!m) { y[(size_t)(l * l + l)] = k; continue; }
        ld e = m * d.azi.e + 2 * EPS * (m * fabsl(d.azi.v) + 1); k = rnd(k * num(sqrtl(2.0L)), 2);
        y[(size_t)(l * l + l + m)] = k * num(cosl(m * d.azi.v), e); y[(size_t)(l * l + l - m)] = k * num(sinl(m * d.azi.v), e);
    }
}
typedef std::vector<Num> Co;
static Num sum(const Co& a, const Co& b, size_t n) { Num r; ld w = 0; for (size_t i = 0; i < n; ++i) { ld A = fabsl(a[i].v), B = fabsl(b[i].v); r.v += a[i].v * b[i].v; r.e += A * b[i].e + a[i].e * B + a[i].e * b[i].e; w += (A + a[i].e) * (B + b[i].e); } r.e += (ld)(n + 4) * EPS * w; r.e = r.e * 1.001L + 1e-30L; return r; }

template <typename T, index_t B>
struct World {
    typedef SphericalHarmonics<T, B> SH; typedef ZonalHarmonics<T, B> ZH; typedef ZonalHarmonics<T, 0> ZD; typedef ZonalHarmonics<T, 3> Z3; typedef Vec<T, 3> V;
    static constexpr int TOP = B ? (int)B : sizeof(T) == 4 ? 7 : 9;
    static constexpr int SN = 3, ZN = 5;
    const Trace& t; u64 h = 0;
    std::optional<SH> s[SN]; Co sm[SN]; int sb[SN] = {0};
    std::optional<ZH> z[2]; std::optional<ZD> zd[2]; std::optional<Z3> z3; Co zm[ZN];
    explicit World(const Trace& t) : t(t) { EPS = std::numeric_limits<T>::epsilon(); }

    u64 draw(u64 n) { h = mix64(h + 1); return h % n; }
    ld frac() { h = mix64(h + 1); return (ld)(h >> 11) / 9007199254740992.0L; }
    T val() { switch (draw(6)) { case 0: return 1; case 1: return -2; case 2: return (T)(frac() * 0.01L); default: return (T)(frac() * 8 - 4); } }
    int bands() { return 1 + (int)draw((u64)TOP); }
    template <typename F> void zonal(int k, F f) { if (k < 2) { f(z[k]); } else if (k < 4) { f(zd[k - 2]); } else f(z3); }
    template <typename X> static bool has(const std::optional<X>& o) { return o.has_value(); }

    void same(const char* what, int i, const T* p, const Co& m, const char* op) {
        for (size_t k = 0; k < m.size(); ++k) if (!(fabsl((ld)p[k] - m[k].v) <= m[k].e)) {
            rec.violation(P, "coefficient", "%s %d after %s: coefficient %zu is %.9g instead of %.9Lg (+- %.3Lg)", what, i, op, k, (double)p[k], m[k].v, m[k].e); return; }
    }
    void check(const char* op) {
        for (int i = 0; i < SN; ++i) if (s[i]) {
            SIM_REQUIRE(P, "bands", s[i]->bands() == sb[i] && s[i]->size() == (index_t)sb[i] * sb[i], "after %s a function has %lld bands and %lld coefficients instead of %d bands", op, (long long)s[i]->bands(), (long long)s[i]->size(), sb[i]);
            rec.check(); same("spherical function", i, s[i]->get(), sm[i], op);
        }
        for (int k = 0; k < ZN; ++k) zonal(k, [&](auto& o) { if (!o) return;
            SIM_REQUIRE(P, "bands", o->bands() == (index_t)zm[k].size(), "after %s a zonal function has %lld bands instead of %zu", op, (long long)o->bands(), zm[k].size());
            rec.check(); same("zonal function", k, o->get(), zm[k], op); });
        rec.check();
    }
    // functions whose values grew or blurred too far start afresh
    void tame() {
        auto bad = [](const Co& c) { for (auto& n : c) if (!(fabsl(n.v) < 1e5L) || !(n.e < 1e-2L)) return true; return false; };
        for (int i = 0; i < SN; ++i) if (s[i] && bad(sm[i])) { s[i]->clear(); for (auto& n : sm[i]) n = Num(); rec.count("fresh"); }
        for (int k = 0; k < ZN; ++k) if (bad(zm[k])) zonal(k, [&](auto& o) { if (o) { o->clear(); for (auto& n : zm[k]) n = Num(); rec.count("fresh"); } });
    }
    Dir vec_dir(V& d) {
        T a[3]; ld n = 0;
        do {
            u64 c = draw(6); n = 0;
            for (int i = 0; i < 3; ++i) a[i] = (T)(frac() * 4 - 2);
            if (c == 0) { a[0] = a[1] = 0; if (draw(2)) a[(index_t)draw(2)] = (T)(frac() * 1e-6L); } else if (c == 1) a[2] = 0; else if (c == 2) a[(index_t)draw(3)] = 0;
            for (int i = 0; i < 3; ++i) n += (ld)a[i] * a[i];
        } while (n < 1e-3L);
        d = V(a[0], a[1], a[2]); n = sqrtl(n);
        Dir r; r.x = num((ld)a[2] / n, 4 * EPS); ld q = ((ld)a[0] * a[0] + (ld)a[1] * a[1]) / (n * n); r.s = root(q, 14 * EPS);
        r.azi = num(atan2l((ld)a[1], (ld)a[0])); r.azi.e = 8 * EPS * (fabsl(r.azi.v) + EPS); return r;
    }
    Dir angle_dir(T& alt, T& azi) {
        alt = (T)(draw(5) ? frac() * 3.1415L : draw(2) ? 0 : frac() * 1e-3L); azi = (T)(frac() * 14 - 7);
        Dir r; ld c = cosl((ld)alt), q = sinl((ld)alt); r.x = num(c, 2 * EPS); r.s = root(q * q, 8 * EPS); r.azi = num((ld)azi); return r;
    }
    static ld zfac(int l) { return sqrtl(4 * PI / (2 * l + 1)); }
    static void poly(int b, Num x, Co& p) { p.assign((size_t)std::max(b, 2), num(1)); p[1] = x; for (int l = 1; l + 1 < b; ++l) p[(size_t)l + 1] = rnd((num(2 * l + 1) * x * p[(size_t)l] - num(l) * p[(size_t)l - 1]) * num(1 / (ld)(l + 1)), 2); }
    void value(const char* what, T got, Num want) { SIM_REQUIRE(P, "value", fabsl((ld)got - want.v) <= want.e, "%s is %.9g instead of %.9Lg (+- %.3Lg)", what, (double)got, want.v, want.e); }

    void step(const Step& st) {
        h = (u64)st.arg(4);
        int i = (int)st.idx(0, SN), j = (int)st.idx(1, SN), k = (int)st.idx(2, SN), p = (int)st.idx(2, ZN), q = (int)st.idx(3, ZN);
        u64 v = draw(1 << 20);
        switch (st.op) {
            case NEW: { int b = B ? TOP : bands(); bool plain = v % 4 == 0; s[i].reset();
                if (attempt(st, P, [&] { if (plain) s[i].emplace(); else s[i].emplace((index_t)(B ? (index_t)(v % 7) : b)); }) == DONE) { sb[i] = plain && !B ? 1 : b; sm[i].assign((size_t)(sb[i] * sb[i]), Num()); } else s[i].reset();
            } break;
            case NEW_ZONAL: zonal(p, [&](auto& o) { constexpr int N = zbands<std::decay_t<decltype(o)>>(); int b = N ? N : (int)draw((u64)(TOP + 2)); bool plain = v % 4 == 0; o.reset();
                if (attempt(st, P, [&] { if (plain) o.emplace(); else o.emplace((index_t)(N ? (index_t)(v % 7) : b)); }) == DONE) zm[p].assign((size_t)(plain && !N ? 1 : std::max(b, 1)), Num()); else { o.reset(); zm[p].clear(); } }); break;
            case FROM_ZONAL: case FROM_ZONAL_AXIS: zonal(p, [&](auto& o) { if (!o) return; V d; Dir w = vec_dir(d); bool turn = st.op == FROM_ZONAL_AXIS; s[i].reset();
                if (attempt(st, P, [&] { if (turn) s[i].emplace(*o, d); else s[i].emplace(*o); }) == FAILED) { s[i].reset(); return; }
                sb[i] = B ? TOP : (int)zm[p].size(); sm[i].assign((size_t)(sb[i] * sb[i]), Num());
                Co y; basis(w, sb[i], y);
                for (int l = 0; l < sb[i] && l < (int)zm[p].size(); ++l) {
                    Num f = zm[p][(size_t)l] * rnd(num(zfac(l)), 3);
                    if (!turn) sm[i][(size_t)(l * l + l)] = f; else for (int m = -l; m <= l; ++m) sm[i][(size_t)(l * l + l + m)] = rnd(y[(size_t)(l * l + l + m)] * f, 2);
                } }); break;
            case ZONAL_FROM: if (s[i]) { int b = sb[i], c = p & 1; z[c].reset();
                if (attempt(st, P, [&] { z[c].emplace(*s[i]); }) == FAILED) { z[c].reset(); zm[c].clear(); break; }
                zm[c].assign((size_t)b, Num()); for (int l = 0; l < b; ++l) zm[c][(size_t)l] = rnd(sm[i][(size_t)(l * l + l)] * num(1 / zfac(l)), 4); } break;
            case PROJECT: case PROJECT_ANGLES: if (s[i]) { V d; T alt, azi, x = val(); Dir w = st.op == PROJECT ? vec_dir(d) : angle_dir(alt, azi);
                { Lib l; if (st.op == PROJECT) s[i]->project(d, x); else s[i]->project(alt, azi, x); }
                Co y; basis(w, sb[i], y); for (size_t g = 0; g < y.size(); ++g) sm[i][g] = sm[i][g] + rnd(y[g] * num((ld)x), 2); } break;
            case EVAL: case EVAL_ANGLES: if (s[i]) { V d; T alt, azi, got; Dir w = st.op == EVAL ? vec_dir(d) : angle_dir(alt, azi); const SH& c = *s[i];
                { Lib l; got = st.op == EVAL ? c.eval(d) : c.eval(alt, azi); }
                Co y; basis(w, sb[i], y); for (auto& n : y) n = rnd(n, 3); value("the function's value", got, sum(y, sm[i], y.size())); } break;
            case ZONAL_EVAL: zonal(p, [&](auto& o) { if (!o) return; T x = draw(5) ? (T)(frac() * 2 - 1) : draw(2) ? (T)1 : (T)-1, got; const auto& c = *o; { Lib l; got = c.eval(x); } Co y; poly((int)zm[p].size(), num((ld)x), y); value("the zonal function's value", got, sum(y, zm[p], zm[p].size())); }); break;
            case DOT: if (s[i] && s[j]) { T got; { Lib l; got = ((const SH&)*s[i]).dot(*s[j]); } value("the inner product", got, sum(sm[i], sm[j], std::min(sm[i].size(), sm[j].size()))); } break;
            case ZONAL_DOT: zonal(p, [&](auto& a) { zonal(q, [&](auto& b) { if (!a || !b) return; T got; { Lib l; got = std::as_const(*a).dot(std::as_const(*b)); } value("the zonal inner product", got, sum(zm[p], zm[q], std::min(zm[p].size(), zm[q].size()))); }); }); break;
            case NORMALIZE: if (s[i]) { Num c = sm[i][0]; if (c.v == 0 && c.e < 1e-20L && (*s[i]).coeff(0, 0) == 0) { Lib l; s[i]->normalize(); break; } if (fabsl(c.v) < 1e-2L || fabsl(c.v) < 100 * c.e) break;
                { Lib l; s[i]->normalize(); } Num f = inv(c * rnd(num(sqrtl(4 * PI)), 2));
                for (auto& n : sm[i]) n = rnd(n * f); sm[i][0] = num(1 / sqrtl(4 * PI), 8 * EPS); } break;
            case ZONAL_NORMALIZE: zonal(p, [&](auto& o) { if (!o) return; Num c = zm[p][0]; if (o->coeff(0) == 0 && c.v == 0 && c.e < 1e-20L) { Lib l; o->normalize(); return; } if (fabsl(c.v) < 1e-2L || fabsl(c.v) < 100 * c.e) return;
                { Lib l; o->normalize(); } Num f = inv(rnd(c * num(4 * PI), 2)); for (auto& n : zm[p]) n = rnd(n * f); zm[p][0] = num(1 / (4 * PI), 8 * EPS); }); break;
            case CONVOLVE: if (s[i]) zonal(p, [&](auto& o) { if (!o) return; { Lib l; s[i]->convolve(*o); }
                for (int l = 0; l < sb[i]; ++l) for (int m = -l; m <= l; ++m) { Num& n = sm[i][(size_t)(l * l + l + m)]; n = l < (int)zm[p].size() ? n * zm[p][(size_t)l] : Num(); } }); break;
            case ZONAL_CONVOLVE: {
                auto go = [&](auto& a, auto& b, Co& ma, const Co& mb) { if (!a || !b) return; { Lib l; a->convolve(*b); } Co c = mb; for (size_t l = 0; l < ma.size(); ++l) ma[l] = l < c.size() ? rnd(ma[l] * (c[l] * rnd(num(zfac((int)l)), 3))) : Num(); };
                if (p < 2) go(z[p], z[q & 1], zm[p], zm[q & 1]); else if (p < 4) go(zd[p - 2], zd[q & 1], zm[p], zm[2 + (q & 1)]); else go(z3, z3, zm[4], zm[4]);
            } break;
            case CLEAR: if (s[i]) { { Lib l; s[i]->clear(); } sm[i].assign(sm[i].size(), Num()); } break;
            case ZONAL_CLEAR: zonal(p, [&](auto& o) { if (!o) return; { Lib l; o->clear(); } zm[p].assign(zm[p].size(), Num()); }); break;
            case NEGATE: if (s[i]) { { Lib l; -*s[i]; } for (auto& n : sm[i]) n.v = -n.v; } break;
            case SCALE: if (s[i]) { T x = val(); { Lib l; *s[i] *= x; } for (auto& n : sm[i]) n = n * num((ld)x); } break;
            case DIVIDE: if (s[i]) { T x = val(); if (std::fabs(x) < (T)0.1) x = 4; { Lib l; *s[i] /= x; } for (auto& n : sm[i]) n = rnd(n * num(1 / (ld)x)); } break;
            case BIAS: if (s[i]) { T x = val(); { Lib l; *s[i] += x; } sm[i][0] = sm[i][0] + rnd(num((ld)x * sqrtl(4 * PI)), 4); } break;
            case ADD_TO: if (s[i] && s[j]) { { Lib l; *s[i] += *s[j]; } for (size_t g = 0; g < std::min(sm[i].size(), sm[j].size()); ++g) sm[i][g] = sm[i][g] + sm[j][g]; } break;
            case ADD: if (s[i] && s[j]) { Co c((size_t)std::max(sm[i].size(), sm[j].size())); for (size_t g = 0; g < sm[i].size(); ++g) c[g] = sm[i][g]; for (size_t g = 0; g < sm[j].size(); ++g) c[g] = c[g] + sm[j][g];
                int b = std::max(sb[i], sb[j]); bool anew = !s[k];
                if (attempt(st, P, [&] { if (anew) s[k].emplace(*s[i] + *s[j]); else *s[k] = std::as_const(*s[i]) + *s[j]; }) == DONE) { sm[k] = c; sb[k] = b; } else if (anew) s[k].reset(); } break;
            case BASIS: { V d; Dir w = vec_dir(d); int b = B ? TOP : bands(); bool anew = !s[i]; Co y;
                if (attempt(st, P, [&] { if (anew) s[i].emplace(SH::basis(d, b)); else *s[i] = SH::basis(d, b); }) == DONE) { basis(w, b, y); for (auto& n : y) n = rnd(n, 3); sm[i] = y; sb[i] = b; } else if (anew) s[i].reset(); } break;
            case COPY: if (i != j && s[j]) { s[i].reset(); if (attempt(st, P, [&] { s[i].emplace(std::as_const(*s[j])); }) == DONE) { sm[i] = sm[j]; sb[i] = sb[j]; } else s[i].reset(); } break;
            case ASSIGN: if (s[i] && s[j]) { if (attempt(st, P, [&] { *s[i] = std::as_const(*s[j]); }) == DONE) { sm[i] = sm[j]; sb[i] = sb[j]; } } break;
            case MOVE_ASSIGN: if (i != j && s[i] && s[j]) { if (attempt(st, P, [&] { *s[i] = std::move(*s[j]); }) == DONE) { sm[i] = sm[j]; sb[i] = sb[j]; s[j].reset(); } } break;
            case SWAP: if (i != j && s[i] && s[j]) { if (attempt(st, P, [&] { std::swap(*s[i], *s[j]); }) == DONE) { std::swap(sm[i], sm[j]); std::swap(sb[i], sb[j]); } } break;
            case ZONAL_COPY: zonal(p, [&](auto& o) { if (!o) return; std::optional<std::decay_t<decltype(*o)>> n; if (attempt(st, P, [&] { n.emplace(std::as_const(*o)); }) == DONE) { Lib l; o.emplace(std::move(*n)); } }); break;
            case ZONAL_ASSIGN: {
                auto go = [&](auto& a, auto& b, Co& ma, const Co& mb) { if (a && b && attempt(st, P, [&] { *a = std::as_const(*b); }) == DONE) ma = Co(mb); };
                if (p < 2) go(z[p], z[q & 1], zm[p], zm[q & 1]); else if (p < 4) go(zd[p - 2], zd[q & 1], zm[p], zm[2 + (q & 1)]);
            } break;
            case LAMBERT: zonal(p, [&](auto& o) { if (!o) return; int b = (int)zm[p].size(); int order = draw(2) ? -1 : 1 + (int)draw((u64)(TOP + 1)); { Lib l; if (order < 0) o->generate_lambertian(); else o->generate_lambertian(order); }
                int c = order < 1 ? b : std::min(order, b);
                for (int n = 0; n < b; ++n) {
                    if (n >= c || (n > 1 && n % 2)) { zm[p][(size_t)n] = Num(); continue; }
                    ld a = n == 0 ? 0.25L : 0.5L;
                    if (n > 1) { ld f = 1; for (int g = 1; g <= n / 2; ++g) f *= (ld)(g + n / 2) / g; a = (2 * n + 1) / 2.0L * f / powl(2, n) / ((n + 2) * (n - 1)); if (n % 4 == 0) a = -a; }
                    zm[p][(size_t)n] = num(a, (n + 8) * EPS * fabsl(a));
                } }); break;
            case SPOT: zonal(p, [&](auto& o) { if (!o) return; int b = (int)zm[p].size(); T x = draw(5) ? (T)(frac() * 2 - 1) : draw(2) ? (T)1.5 : (T)-1.25; { Lib l; o->generate_spot(x); } ld c = std::min((ld)1, std::max((ld)-1, (ld)x));
                Co y; poly(b + 2, num(c), y); zm[p][0] = num((1 - c) / 2, 4 * EPS); for (int l = 1; l < b; ++l) zm[p][(size_t)l] = rnd((y[(size_t)l - 1] - y[(size_t)l + 1]) * num(0.5L), 4); }); break;
            case ZONAL_PROJECT: zonal(p, [&](auto& o) { if (!o) return; int b = (int)zm[p].size(); T x = draw(5) ? (T)(frac() * 2 - 1) : draw(2) ? (T)1 : (T)-1, a = val(); { Lib l; o->project(x, a); } Co y; poly(b, num((ld)x), y); for (int l = 0; l < b; ++l) zm[p][(size_t)l] = rnd(y[(size_t)l] * num((ld)a)); }); break;
            case SET: if (s[i]) { int l = (int)draw((u64)sb[i]), m = (int)draw((u64)(2 * l + 1)) - l; T x = val(); if (v & 1) s[i]->coeff(l, m) = x; else s[i]->get()[l * l + l + m] = x; sm[i][(size_t)(l * l + l + m)] = num((ld)x);
                SIM_REQUIRE(P, "value", std::as_const(*s[i]).coeff(l, m) == x, "a coefficient that was set reads back otherwise"); } break;
            case ZONAL_SET: zonal(p, [&](auto& o) { if (!o) return; int l = (int)draw(zm[p].size()); T x = val(); if (v & 1) o->coeff(l) = x; else o->get()[l] = x; zm[p][(size_t)l] = num((ld)x); SIM_REQUIRE(P, "value", std::as_const(*o).coeff(l) == x, "a zonal coefficient that was set reads back otherwise"); }); break;
            case FUNCTIONS: {
                T alt, azi, x, got; Dir w = angle_dir(alt, azi); x = std::cos(alt); w.x = num((ld)x); w.s = root(1 - (ld)x * (ld)x, 4 * EPS);
                int l = (int)draw(TOP), m = (int)draw((u64)(2 * l + 1)) - l; Co y; basis(w, TOP, y); Table tab(TOP, w.x, w.s);
                { Lib lib; got = spherical_harmonic_coeff<T>(l, m, x, azi); } value("spherical_harmonic_coeff", got, rnd(y[(size_t)(l * l + l + m)], 4));
                { Lib lib; got = legendre<T>((index_t)l, (index_t)std::abs(m), x); } value("legendre(l, m)", got, rnd(tab.p[l][std::abs(m)], 3));
                { Lib lib; got = legendre<T>((index_t)l, x); } value("legendre(n)", got, rnd(tab.p[l][0], 3 + 2 * l));
                Co pl; poly(TOP + 2, w.x, pl); Num in = l ? rnd((pl[(size_t)l + 1] - pl[(size_t)l - 1]) * num(1 / (ld)(2 * l + 1)), 3) : rnd(num((ld)x + 1));
                { Lib lib; got = legendre_integral<T>((index_t)l, x); } value("legendre_integral", got, rnd(in, 3));
                int kind = 1 + (int)(v & 1); Num a = num(1), b = num(kind * (ld)x), c; for (int g = 1; g < l; ++g) { c = rnd(num(2 * (ld)x) * b - a); a = b; b = c; }
                { Lib lib; got = chebyshev<T>((index_t)kind, (index_t)l, x); } value("chebyshev", got, rnd(l ? b : num(1), 2));
                if (s[i]) { int c0 = (int)draw((u64)sb[i]); Table tb(sb[i], w.x, w.s); { Lib lib; legendre(&*s[i], (index_t)c0, x); } for (int g = c0; g < sb[i]; ++g) sm[i][(size_t)(g * g + g + c0)] = sm[i][(size_t)(g * g + g - c0)] = rnd(tb.p[g][c0], 3); }
            } break;
            case DIFFUSE: zonal(p, [&](auto& o) { if (!o) return; int n = (int)draw(4); T e = (T)n; bool half = draw(3) == 0;
                for (size_t l = 0; l < zm[p].size(); ++l) if (zm[p][l].v * zfac((int)l) < 0.05L || zm[p][l].e > 1e-4L) half = false;
                if (half) e = (T)n + (T)0.5;
                { Lib l; o->diffuse(e); }
                for (size_t l = 0; l < zm[p].size(); ++l) {
                    Num f = rnd(num(zfac((int)l)), 3), m = rnd(zm[p][l] * f, 2), r = num(1); for (int g = 0; g < n; ++g) r = r * m;
                    if (half) { Num w = num(sqrtl(m.v), m.e / sqrtl(m.v)); r = r * rnd(w, 2); }
                    ld lg = m.v ? fabsl(logl(fabsl(m.v))) : 0; r = rnd(r, 16 * (1 + (n + 1) * (lg + 4))); zm[p][l] = rnd(r * inv(f), 3);
                } }); break;
        }
        rec.check();
    }
    template <typename O> static constexpr int zbands() { typedef typename O::value_type X; return std::is_same<X, ZD>::value ? 0 : std::is_same<X, Z3>::value ? 3 : (int)B; }
    void run() {
        int no = 0;
        for (auto& st : t.steps) {
            rec.cur_step = no++; rec.log((u64)st.op); rec.count(OPS[st.op]); faults.reset();
            step(st); check(OPS[st.op]);
            u64 shape = (u64)st.op; for (int i = 0; i < SN; ++i) shape = shape * 11 + (s[i] ? (u64)sb[i] : 0); for (auto& c : zm) shape = shape * 13 + c.size();
            rec.state(mix64(shape ^ (u64)B << 56 ^ (u64)sizeof(T) << 50));
            for (int i = 0; i < SN; ++i) if (s[i]) for (size_t g = 0; g < sm[i].size(); g += 3) { double d = (double)s[i]->get()[g]; u64 b; memcpy(&b, &d, 8); rec.log(b); }
            tame();
        }
        for (auto& o : s) o.reset();
        for (int k = 0; k < ZN; ++k) zonal(k, [&](auto& o) { o.reset(); });
        alloc_check_leaks(); rec.check();
    }
};

struct HarmonicsScenario : Scenario {
    const char* name() const override { return "harmonics"; }
    std::vector<const char*> ops() const override { return std::vector<const char*>(OPS, OPS + OP_COUNT); }
    void generate(Rng& r, Trace& t, int) override {
        t.cfg["type"] = (i64)r.below(7);
        unsigned fp = r.chance(1, 3) ? 0 : (unsigned)r.range(5, 40);
        int n = (int)r.range(6, 50);
        std::vector<unsigned> w(OP_COUNT); for (auto& x : w) x = r.chance(1, 4) ? 0 : 1 + (unsigned)r.below(3);
        w[NEW] += 3; w[NEW_ZONAL] += 3; w[PROJECT] += 2; w[EVAL] += 1;
        unsigned tot = 0; for (unsigned x : w) tot += x;
        static const std::vector<int> kinds = {F_ALLOC};
        for (int q = 0; q < n; ++q) {
            unsigned z = (unsigned)r.below(tot); int op = q < 2 ? NEW : q < 5 ? NEW_ZONAL : 0; if (q >= 5) while (z >= w[(size_t)op]) z -= w[(size_t)op++];
            add_step(t, op, {q < 2 ? q : (i64)r.below(3), (i64)r.below(3), q < 5 ? q : (i64)r.below(60), (i64)r.below(60), (i64)r.below(1ull << 40)});
            maybe_fault(r, t, kinds, fp, 2);
        }
    }
    void execute(const Trace& t) override {
        alloc_prop = P;
        switch ((u64)t.get("type")) {
            case 0: case 1: { World<double, 0> w(t); w.run(); } break;
            case 2: case 3: { World<float, 0> w(t); w.run(); } break;
            case 4: { World<double, 1> w(t); w.run(); } break;
            case 5: { World<double, 5> w(t); w.run(); } break;
            default: { World<float, 4> w(t); w.run(); } break;
        }
    }
};
sim::Scenario* sim::make_scenario() { return new HarmonicsScenario; }
