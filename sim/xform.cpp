// C22: histories of compositions of transforms and rotation quaternions, against matrices in long double with running error bounds.
#include "core/sim.h"
#include "core/ops.h"
#include <geomc/linalg/AffineTransform.h>
#include <geomc/linalg/Quaternion.h>
#include <cmath>
#include <limits>

using namespace sim;
using namespace geom;
#define P "C22"
typedef long double ld;

enum { MAKE, MUL_BY, DIV_BY, MUL, DIV, APPLY, APPLY_INVERSE, INVERSE, COPY, ALGEBRA, POINT, DIRECTION, NORMAL, RAY, RESIZE, CAST, EQUAL, BLOCK,
       Q_MAKE, Q_MUL, Q_CONJ, Q_UNIT, Q_ROTATE, Q_TRANSFORM, Q_CAST, OP_COUNT };
static const char* OPS[] = {"make", "mul_by", "div_by", "mul", "div", "apply", "apply_inverse", "inverse", "copy", "algebra", "point", "direction", "normal", "ray", "resize", "cast", "equal", "block",
       "q_make", "q_mul", "q_conj", "q_unit", "q_rotate", "q_transform", "q_cast"};

// a number known to within e
struct Num { ld v = 0, e = 0; };
static const int W = 6;
struct Mx {
    int n = 0; Num a[W][W];
    explicit Mx(int n = 0) : n(n) { for (int i = 0; i < n; ++i) a[i][i].v = 1; }
    ld size() const { ld m = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m = std::max(m, fabsl(a[i][j].v)); return m; }
    ld slack() const { ld m = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m = std::max(m, a[i][j].e); return m; }
    void spread(ld e) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a[i][j].e += e; }
};
static Num dot(const Num* x, int sx, const Num* y, int sy, int n, ld eps) {
    Num r; ld w = 0;
    for (int k = 0; k < n; ++k) {
        const Num &a = x[k * sx], &b = y[k * sy]; ld A = fabsl(a.v), B = fabsl(b.v);
        r.v += a.v * b.v; r.e += A * b.e + a.e * B + a.e * b.e; w += (A + a.e) * (B + b.e);
    }
    r.e += (ld)(n + 3) * eps * w; r.e *= 1.001L; r.e += 1e-30L; return r;
}
static Mx mul(const Mx& A, const Mx& B, ld eps) { Mx C(A.n); for (int i = 0; i < A.n; ++i) for (int j = 0; j < A.n; ++j) C.a[i][j] = dot(A.a[i], 1, &B.a[0][j], W, A.n, eps); return C; }
struct Model { Mx m, i; explicit Model(int n = 0) : m(n), i(n) {} };

// what the rotation about a unit axis does (long double)
static void rotate(ld R[3][3], const ld u[3], ld c, ld s) {
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R[i][j] = (1 - c) * u[i] * u[j] + (i == j ? c : 0);
    R[0][1] -= s * u[2]; R[0][2] += s * u[1]; R[1][0] += s * u[2]; R[1][2] -= s * u[0]; R[2][0] -= s * u[1]; R[2][1] += s * u[0];
}

template <typename T, int N>
struct World {
    typedef AffineTransform<T, N> Xf; typedef Vec<T, N> V;
    static constexpr int HANDS = 4;
    static constexpr ld eps = std::numeric_limits<T>::epsilon();
    const Trace& t; u64 kind; u64 h = 0;
    Xf x[HANDS]; Model m[HANDS];
    Quat<T> q[HANDS]; Num qm[HANDS][4];
    World(const Trace& t, u64 kind) : t(t), kind(kind) { for (int i = 0; i < HANDS; ++i) { m[i] = Model(N + 1); q[i] = Quat<T>(0, 0, 0, 1); qm[i][3].v = 1; } }

    u64 draw(u64 n) { h = mix64(h + 1); return h % n; }
    ld frac() { h = mix64(h + 1); return (ld)(h >> 11) / 9007199254740992.0L; }
    T val() { switch (draw(8)) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: return (T)(frac() * 0.01L); case 4: return (T)((i64)draw(9) - 4); default: return (T)(frac() * 8 - 4); } }
    T angle() { static const double pi = 3.14159265358979323846; switch (draw(6)) { case 0: return (T)(((i64)draw(9) - 4) * pi / 2); case 1: return 0; case 2: return (T)(frac() * 1e-3L); default: return (T)(frac() * 14 - 7); } }
    template <int K> Vec<T, K> vec() { Vec<T, K> v; for (int i = 0; i < K; ++i) v[i] = val(); return v; }
    Vec<T, 3> axis(ld u[3]) {
        Vec<T, 3> a; ld n;
        do { a = draw(4) ? vec<3>() : Vec<T, 3>(); if (a.mag2() == 0) a[(index_t)draw(3)] = (T)(draw(2) ? 1 : -2); n = 0; for (int i = 0; i < 3; ++i) n += (ld)a[i] * a[i]; } while (n < 1e-4L);
        n = sqrtl(n); for (int i = 0; i < 3; ++i) u[i] = (ld)a[i] / n; return a;
    }

    static ld get(const SimpleMatrix<T, N + 1, N + 1>& a, int i, int j) { return (ld)a(i, j); }
    template <typename Mt> static void same(const Mt& a, const Mx& b, const char* what, int off = 0) {
        for (int i = 0; i < b.n - off; ++i) for (int j = 0; j < b.n - off; ++j) {
            ld v = (ld)a(i, j), w = b.a[i][j].v;
            SIM_REQUIRE(P, "transform", fabsl(v - w) <= b.a[i][j].e, "%s: element (%d, %d) is %.17Lg instead of %.17Lg (+- %.3Lg)", what, i, j, v, w, b.a[i][j].e);
        }
    }
    void check(int i, const char* op) {
        char s[80]; snprintf(s, sizeof s, "the matrix after %s", op); same(x[i].mat, m[i].m, s);
        snprintf(s, sizeof s, "the inverse after %s", op); same(x[i].inv, m[i].i, s);
    }
    void tame(int i) {
        ld lim = 1e-3L;
        if (m[i].m.size() > 1e6L || m[i].i.size() > 1e6L || m[i].m.slack() > lim || m[i].i.slack() > lim) { x[i] = Xf(); m[i] = Model(N + 1); rec.count("fresh"); }
    }
    Num num(ld v, ld e = 0) { Num r; r.v = v; r.e = e; return r; }
    // the linear part of a rotation, and its transpose as inverse
    void set3(Model& d, const ld R[3][3], ld e) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { d.m.a[i][j] = num(R[i][j], e); d.i.a[j][i] = num(R[i][j], e); } }

    void make(int i, u64 which) {
        Xf n; Model d(N + 1); const char* name = "";
        if constexpr (N == 3) switch (which % 12) {
            case 0: { ld u[3], R[3][3]; V a = axis(u); T r = angle(); { Lib l; n = rotation(a, r); } rotate(R, u, cosl((ld)r), sinl((ld)r)); set3(d, R, 40 * eps); name = "rotation(axis)"; } goto done;
            case 1: { ld u[3], R[3][3]; V a = axis(u), c = vec<3>(); T r = angle(); SimpleMatrix<T, 4, 4> alone;
                      { Lib l; n = rotation(a, c, r); rotmat(&alone, a.unit(), c, r); } rotate(R, u, cosl((ld)r), sinl((ld)r)); set3(d, R, 40 * eps);
                      ld e = 0; for (int k = 0; k < 3; ++k) e += fabsl((ld)c[k]); e = (e + 1) * 80 * eps;
                      for (int k = 0; k < 3; ++k) { ld f = (ld)c[k], b = (ld)c[k]; for (int j = 0; j < 3; ++j) { f -= R[k][j] * (ld)c[j]; b -= R[j][k] * (ld)c[j]; } d.m.a[k][3] = num(f, e); d.i.a[k][3] = num(b, e); }
                      same(alone, d.m, "rotmat(axis, center)"); name = "rotation(axis, center)"; } goto done;
            case 2: { ld u[3], R[3][3]; V a = axis(u); T r = angle(); Quat<T> w; ld s = (ld)(1 + draw(3));
                      for (int k = 0; k < 3; ++k) w[k] = (T)(s * sinl((ld)r / 2) * u[k]);
                      w.w = (T)(s * cosl((ld)r / 2)); { Lib l; n = rotation(w); } (void)a; rotate(R, u, cosl((ld)r), sinl((ld)r)); set3(d, R, 60 * eps); name = "rotation(quaternion)"; } goto done;
            case 3: case 4: case 5: { int k = (int)(which % 12) - 3; ld u[3] = {0, 0, 0}, R[3][3]; u[k] = 1; T r = angle(); SimpleMatrix<T, 3, 3> small;
                      { Lib l; if (k == 0) { n = rotation_x(r); small = rotmat_x(r); } else if (k == 1) { n = rotation_y(r); small = rotmat_y(r); } else { n = rotation_z(r); small = rotmat_z(r); } }
                      rotate(R, u, cosl((ld)r), sinl((ld)r)); set3(d, R, 8 * eps); same(small, d.m, "rotmat about a coordinate axis", 1); name = "rotation about a coordinate axis"; } goto done;
            case 6: { ld u[3], w[3]; V a = axis(u), b = axis(w); if (draw(3) == 0) { b = a; if (draw(2)) b = -a; }
                      SimpleMatrix<T, 3, 3> s1, s2; { Lib l; a = a.unit(); b = b.unit(); n = direction_align(a, b); s1 = rotmat_direction_align(a, b); rotmat_direction_align(&s2, a, b); }
                      ld na = 0, nb = 0, c = 0; for (int k = 0; k < 3; ++k) { na += (ld)a[k] * a[k]; nb += (ld)b[k] * b[k]; c += (ld)a[k] * b[k]; }
                      if (c < -0.99L && !(b == -a)) { n = Xf(); name = "nothing"; goto done; }       // hardly determined
                      ld e = 400 * eps + (fabsl(fabsl(c) - 1) < 64 * eps ? 16 * sqrtl(eps) : 0);
                      // the image of a is b, lengths and angles stay, and nothing is turned that need not be
                      for (int k = 0; k < 3; ++k) { ld v = 0; for (int j = 0; j < 3; ++j) v += get(n.mat, k, j) * (ld)a[j]; SIM_REQUIRE(P, "align", fabsl(v - (ld)b[k]) <= e, "direction_align takes (%g, %g, %g) elsewhere than to (%g, %g, %g)", (double)a[0], (double)a[1], (double)a[2], (double)b[0], (double)b[1], (double)b[2]); }
                      ld y[3] = {(ld)a[1] * b[2] - (ld)a[2] * b[1], (ld)a[2] * b[0] - (ld)a[0] * b[2], (ld)a[0] * b[1] - (ld)a[1] * b[0]};
                      for (int k = 0; k < 3; ++k) { ld v = 0; for (int j = 0; j < 3; ++j) v += get(n.mat, k, j) * y[j]; SIM_REQUIRE(P, "align", fabsl(v - y[k]) <= e, "direction_align does not keep the common normal of both directions"); }
                      for (int k = 0; k < 3; ++k) for (int j = 0; j < 3; ++j) { ld v = 0; for (int g = 0; g < 3; ++g) v += get(n.mat, k, g) * get(n.mat, j, g); SIM_REQUIRE(P, "align", fabsl(v - (k == j)) <= 4 * e, "direction_align is not a rotation"); }
                      { ld det = 0; for (int k = 0; k < 3; ++k) det += get(n.mat, 0, k) * (get(n.mat, 1, (k + 1) % 3) * get(n.mat, 2, (k + 2) % 3) - get(n.mat, 1, (k + 2) % 3) * get(n.mat, 2, (k + 1) % 3)); SIM_REQUIRE(P, "align", det > 0, "direction_align is a reflection"); }
                      for (int k = 0; k < 3; ++k) for (int j = 0; j < 3; ++j) { d.m.a[k][j] = num(get(n.mat, k, j), 8 * e); d.i.a[j][k] = num(get(n.mat, k, j), 8 * e); }
                      same(s1, d.m, "rotmat_direction_align", 1); same(s2, d.m, "rotmat_direction_align", 1); name = "direction_align"; } goto done;
            case 7: { T a = val(), b = val(), c = val(); { Lib l; n = translation(a, b, c); } T v[3] = {a, b, c}; for (int k = 0; k < 3; ++k) { d.m.a[k][3].v = v[k]; d.i.a[k][3].v = -v[k]; } name = "translation(x, y, z)"; } goto done;
            case 8: { T v[3]; for (T& c : v) do c = val(); while (std::fabs(c) < (T)0.05); { Lib l; n = scale(v[0], v[1], v[2]); } for (int k = 0; k < 3; ++k) { d.m.a[k][k] = num(v[k]); d.i.a[k][k] = num(1 / (ld)v[k], 20 * eps); d.m.a[k][k].e = 0; } name = "scale(x, y, z)"; } goto done;
            default: break;
        }
        if constexpr (N == 2) switch (which % 12) {
            case 0: case 1: case 2: { T r = angle(); { Lib l; n = rotation(r); } ld c = cosl((ld)r), s = sinl((ld)r), e = 4 * eps; d.m.a[0][0] = d.m.a[1][1] = d.i.a[0][0] = d.i.a[1][1] = num(c, e); d.m.a[0][1] = d.i.a[1][0] = num(-s, e); d.m.a[1][0] = d.i.a[0][1] = num(s, e); name = "rotation(angle)"; } goto done;
            case 3: case 4: { T a = val(), b = val(); { Lib l; n = translation(a, b); } d.m.a[0][2].v = a; d.m.a[1][2].v = b; d.i.a[0][2].v = -a; d.i.a[1][2].v = -b; name = "translation(x, y)"; } goto done;
            case 5: { T v[2]; for (T& c : v) do c = val(); while (std::fabs(c) < (T)0.05); { Lib l; n = scale(v[0], v[1]); } for (int k = 0; k < 2; ++k) { d.m.a[k][k] = num(v[k]); d.i.a[k][k] = num(1 / (ld)v[k], 20 * eps); } name = "scale(x, y)"; } goto done;
            default: break;
        }
        switch (which % 3) {
            case 0: { V v = vec<N>(); { Lib l; n = translation(v); } for (int k = 0; k < N; ++k) { d.m.a[k][N].v = v[k]; d.i.a[k][N].v = -v[k]; } name = "translation"; } break;
            case 1: { V v; for (int k = 0; k < N; ++k) do v[k] = val(); while (std::fabs(v[k]) < (T)0.05); { Lib l; n = scale(v); } for (int k = 0; k < N; ++k) { d.m.a[k][k] = num(v[k]); d.i.a[k][k] = num(1 / (ld)v[k], 20 * eps); } name = "scale"; } break;
            default: {
                ld A[N][2 * N]; T a[N][N]; ld big = 0, sum = 0;
                for (int r = 0; r < N; ++r) for (int c = 0; c < N; ++c) { a[r][c] = val(); A[r][c] = a[r][c]; A[r][N + c] = r == c; sum += A[r][c] * A[r][c]; }
                for (int c = 0; c < N; ++c) {
                    int p = c; for (int r = c + 1; r < N; ++r) if (fabsl(A[r][c]) > fabsl(A[p][c])) p = r;
                    if (fabsl(A[p][c]) < 1e-3L) return;
                    for (int k = 0; k < 2 * N; ++k) std::swap(A[p][k], A[c][k]);
                    ld d0 = A[c][c]; for (int k = 0; k < 2 * N; ++k) A[c][k] /= d0;
                    for (int r = 0; r < N; ++r) if (r != c) { ld f = A[r][c]; for (int k = 0; k < 2 * N; ++k) A[r][k] -= f * A[c][k]; }
                }
                ld isum = 0; for (int r = 0; r < N; ++r) for (int c = 0; c < N; ++c) { big = std::max(big, fabsl(A[r][N + c])); isum += A[r][N + c] * A[r][N + c]; }
                ld cond = sqrtl(sum * isum); if (cond > (sizeof(T) == 8 ? 1e4L : 50.0L)) return;
                u64 lay = draw(3);
                if (lay == 0) { SimpleMatrix<T, N, N> s; for (int r = 0; r < N; ++r) for (int c = 0; c < N; ++c) s.set(r, c, a[r][c]); Lib l; n = transformation(s); }
                else if (lay == 1) { SimpleMatrix<T, N, N, COL_MAJOR> s; for (int r = 0; r < N; ++r) for (int c = 0; c < N; ++c) s.set(r, c, a[r][c]); Lib l; n = transformation(s); }
                else { SimpleMatrix<T, N, N, ROW_MAJOR, STORAGE_WRAPPED> s(&a[0][0]); Lib l; n = transformation(s); }
                for (int r = 0; r < N; ++r) for (int c = 0; c < N; ++c) { d.m.a[r][c] = num(a[r][c]); d.i.a[r][c] = num(A[r][N + c], 200 * eps * cond * big); }
                name = "transformation(matrix)";
            }
        }
        done:
        x[i] = n; m[i] = d; check(i, name);
    }

    Num val_of(ld v) { return num(v); }
    // C = A (point p | w)
    void image(const Mx& A, const V& p, int w, Num out[W], bool transposed = false) {
        Num in[W]; for (int k = 0; k < N; ++k) in[k].v = p[k]; in[N].v = w;
        int n = w ? N + 1 : N;
        for (int k = 0; k < N; ++k) out[k] = transposed ? dot(&A.a[0][k], W, in, 1, n, eps) : dot(A.a[k], 1, in, 1, n, eps);
    }
    void equal(const V& got, const Num want[W], const char* what) {
        for (int k = 0; k < N; ++k) SIM_REQUIRE(P, "image", fabsl((ld)got[k] - want[k].v) <= want[k].e, "%s: coordinate %d is %.17g instead of %.17Lg (+- %.3Lg)", what, k, (double)got[k], want[k].v, want[k].e);
    }

    void q_check(int i, const char* op) { for (int k = 0; k < 4; ++k) SIM_REQUIRE(P, "rotation", fabsl((ld)q[i][k] - qm[i][k].v) <= qm[i][k].e, "%s: component %d is %.17g instead of %.17Lg", op, k, (double)q[i][k], qm[i][k].v); }
    void q_unit_model(int i) { ld n = 0; for (int k = 0; k < 4; ++k) n += qm[i][k].v * qm[i][k].v; n = sqrtl(n); for (int k = 0; k < 4; ++k) { qm[i][k].v /= n; qm[i][k].e = 2 * qm[i][k].e + 8 * eps; } }
    ld q_slack(int i) { ld e = 0; for (int k = 0; k < 4; ++k) e = std::max(e, qm[i][k].e); return e; }
    void q_matrix(int i, ld R[3][3]) {
        ld c[4]; ld n = 0; for (int k = 0; k < 4; ++k) { c[k] = qm[i][k].v; n += c[k] * c[k]; } n = sqrtl(n); for (ld& k : c) k /= n;
        ld s = sqrtl(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]); ld u[3] = {1, 0, 0}; if (s > 0) for (int k = 0; k < 3; ++k) u[k] = c[k] / s;
        ld half = atan2l(s, c[3]); rotate(R, u, cosl(2 * half), sinl(2 * half));
    }

    void step(const Step& s) {
        int i = (int)s.idx(0, HANDS), j = (int)s.idx(1, HANDS), k = (int)s.idx(2, HANDS); u64 v = (u64)s.arg(3); h = mix64(v);
        rec.state(mix64((u64)s.op * 64 + kind) ^ (u64)(i == j) << 40 ^ (u64)(i == k) << 41 ^ (u64)(j == k) << 42 ^ (s.op == MAKE || s.op == Q_MAKE ? (v % 12) << 44 : 0));
        switch (s.op) {
            case MAKE: make(i, v); break;
            case MUL_BY: { Model a = m[i]; m[i].m = mul(m[j].m, a.m, eps); m[i].i = mul(a.i, m[j].i, eps); Xf* r; { Lib l; r = &(x[i] *= x[j]); } SIM_REQUIRE(P, "result", r == &x[i], "x *= y is not x"); } break;
            case DIV_BY: { Model a = m[i], b = m[j]; m[i].m = mul(b.i, a.m, eps); m[i].i = mul(a.i, b.m, eps); Xf* r; { Lib l; r = &(x[i] /= x[j]); } SIM_REQUIRE(P, "result", r == &x[i], "x /= y is not x"); } break;
            case MUL: { Model c; c.m = mul(m[i].m, m[j].m, eps); c.i = mul(m[j].i, m[i].i, eps); { Lib l; x[k] = x[i] * x[j]; } m[k] = c; } break;
            case DIV: { Model c; c.m = mul(m[j].i, m[i].m, eps); c.i = mul(m[i].i, m[j].m, eps); { Lib l; x[k] = x[i] / x[j]; } m[k] = c; } break;
            case APPLY: { Model c; c.m = mul(m[j].m, m[i].m, eps); c.i = mul(m[i].i, m[j].i, eps); { Lib l; x[k] = x[i].apply(x[j]); } m[k] = c; } break;
            case APPLY_INVERSE: { Model c; c.m = mul(m[j].i, m[i].m, eps); c.i = mul(m[i].i, m[j].m, eps); { Lib l; x[k] = x[i].apply_inverse(x[j]); } m[k] = c; } break;
            case INVERSE: { Model c; c.m = m[i].i; c.i = m[i].m; { Lib l; x[j] = x[i].inverse(); } m[j] = c; } break;
            case COPY: { if (v & 1) { Lib l; x[j] = x[i]; } else { Lib l; Xf c(x[i]); std::swap(c, x[j]); } m[j] = m[i]; } break;
            case ALGEBRA: {    // there and back again
                V p = vec<N>(), a, b; { Lib l; a = (x[i] * p) / x[i]; b = x[i] * (p / x[i]); }
                Num o[W], in[W]; for (int r = 0; r < 2; ++r) {
                    const Mx &A = r ? m[i].i : m[i].m, &B = r ? m[i].m : m[i].i; image(A, p, 1, in); in[N].v = 1; in[N].e = 0;
                    for (int c = 0; c < N; ++c) o[c] = dot(B.a[c], 1, in, 1, N + 1, eps);
                    for (int c = 0; c < N; ++c) { ld e = o[c].e + fabsl(o[c].v - (ld)p[c]); SIM_REQUIRE(P, "round-trip", fabsl((ld)(r ? b : a)[c] - (ld)p[c]) <= e, "a point taken there and back by a transform is %g away", (double)fabsl((ld)(r ? b : a)[c] - (ld)p[c])); SIM_REQUIRE(P, "round-trip", fabsl(o[c].v - (ld)p[c]) <= o[c].e, "matrix and inverse of a transform are no longer inverse of each other"); }
                }
            } break;
            case POINT: { V p = vec<N>(), a, b, c, d; Num o[W]; { Lib l; a = x[i].apply(p); b = x[i] * p; c = x[i].apply_inverse(p); d = p / x[i]; } image(m[i].m, p, 1, o); equal(a, o, "apply"); equal(b, o, "transform * point"); image(m[i].i, p, 1, o); equal(c, o, "apply_inverse"); equal(d, o, "point / transform"); } break;
            case DIRECTION: { V p = vec<N>(), a, b; Num o[W]; { Lib l; a = x[i].apply_vector(p); b = x[i].apply_inverse_vector(p); } image(m[i].m, p, 0, o); equal(a, o, "apply_vector"); image(m[i].i, p, 0, o); equal(b, o, "apply_inverse_vector"); } break;
            case NORMAL: { V p = vec<N>(), a, b; Num o[W]; { Lib l; a = x[i].apply_normal(p); b = x[i].apply_inverse_normal(p); } image(m[i].i, p, 0, o, true); equal(a, o, "apply_normal"); image(m[i].m, p, 0, o, true); equal(b, o, "apply_inverse_normal"); } break;
            case RAY: { Ray<T, N> r(vec<N>(), vec<N>()), a, b; Num o[W]; { Lib l; a = x[i] * r; b = r / x[i]; }
                image(m[i].m, r.origin, 1, o); equal(a.origin, o, "transform * ray (origin)"); image(m[i].m, r.direction, 0, o); equal(a.direction, o, "transform * ray (direction)");
                image(m[i].i, r.origin, 1, o); equal(b.origin, o, "ray / transform (origin)"); image(m[i].i, r.direction, 0, o); equal(b.direction, o, "ray / transform (direction)"); } break;
            case RESIZE: {
                AffineTransform<T, N + 1> big; Xf back; { Lib l; big = x[i].template resized<N + 1>(); back = big.template resized<N>(); }
                // one more dimension, which the transform leaves alone
                for (int side = 0; side < 2; ++side) {
                    const Mx& A = side ? m[i].i : m[i].m; Mx B(N + 2);
                    for (int r = 0; r < N; ++r) { for (int c = 0; c < N; ++c) B.a[r][c] = A.a[r][c]; B.a[r][N + 1] = A.a[r][N]; }
                    if (side) World<T, N>::same(big.inv, B, "the inverse with another dimension"); else World<T, N>::same(big.mat, B, "the matrix with another dimension");
                }
                x[j] = back; m[j] = m[i];
            } break;
            case CAST: if constexpr (sizeof(T) == 4) { AffineTransform<double, N> w; { Lib l; w = (AffineTransform<double, N>)x[i]; x[j] = (Xf)w; } same(w.mat, m[i].m, "cast to double"); same(w.inv, m[i].i, "the inverse cast to double"); m[j] = m[i]; }
                       else { AffineTransform<float, N> w; { Lib l; w = (AffineTransform<float, N>)x[i]; } Model c = m[i]; for (Mx* a : {&c.m, &c.i}) for (int r = 0; r <= N; ++r) for (int g = 0; g <= N; ++g) { Num& z = a->a[r][g]; z.e += (fabsl(z.v) + z.e) * std::numeric_limits<float>::epsilon() + 1e-37L; } same(w.mat, c.m, "cast to float"); same(w.inv, c.i, "the inverse cast to float"); } break;
            case EQUAL: { bool e; Xf c(x[i]); { Lib l; e = c == x[i]; } SIM_REQUIRE(P, "equal", e, "a copy of a transform is not equal to it");
                { Lib l; e = x[i] == x[j]; } bool apart = false; for (int r = 0; r < N; ++r) for (int g = 0; g <= N; ++g) { const Num &a = m[i].m.a[r][g], &b = m[j].m.a[r][g]; apart |= fabsl(a.v - b.v) > a.e + b.e; }
                if (apart) SIM_REQUIRE(P, "equal", !e, "different transforms are equal"); if (i == j) SIM_REQUIRE(P, "equal", e, "a transform is not equal to itself"); } break;
            case BLOCK: { SimpleMatrix<T, N, N> b; { Lib l; b = x[i].direction_matrix(); } same(b, m[i].m, "direction_matrix", 1); } break;

            case Q_MAKE: {
                ld u[3]; Quat<T> n; Num d[4];
                switch (v % 4) {
                    case 0: { Lib l; n = Quat<T>::identity(); } d[3].v = 1; break;
                    case 1: { Vec<T, 3> z; T r = angle(); { Lib l; n = Quat<T>::rotation_from_axis_angle(z, r); } d[3].v = 1; } break;
                    case 2: { Vec<T, 3> a = axis(u); T r = angle(); { Lib l; n = Quat<T>::rotation_from_axis_angle(a, r); } for (int g = 0; g < 3; ++g) d[g] = num(u[g] * sinl((ld)r / 2), 16 * eps); d[3] = num(cosl((ld)r / 2), 8 * eps); } break;
                    default: {
                        ld w[3]; Vec<T, 3> a = axis(u).unit(), b = axis(w).unit(); if (draw(4) == 0) { b = a; if (draw(2)) b = -a; }
                        { Lib l; n = Quat<T>::rotation_direction_align(a, b); }
                        ld c = 0; for (int g = 0; g < 3; ++g) c += (ld)a[g] * b[g];
                        if (c < -0.99L && !(b == -a)) return;
                        for (int g = 0; g < 4; ++g) d[g] = num(n[g], 0);
                        Num keep[4]; for (int g = 0; g < 4; ++g) { keep[g] = qm[i][g]; qm[i][g] = d[g]; }
                        ld R[3][3], len = 0; for (int g = 0; g < 4; ++g) len += d[g].v * d[g].v;
                        SIM_REQUIRE(P, "align", fabsl(len - 1) <= 100 * eps, "rotation_direction_align gives a quaternion of length %.17Lg", sqrtl(len));
                        q_matrix(i, R); ld e = 800 * eps + (fabsl(fabsl(c) - 1) < 64 * eps ? 16 * sqrtl(eps) : 0);
                        for (int g = 0; g < 3; ++g) { ld z = 0; for (int f = 0; f < 3; ++f) z += R[g][f] * (ld)a[f]; SIM_REQUIRE(P, "align", fabsl(z - (ld)b[g]) <= e, "rotation_direction_align takes (%g, %g, %g) elsewhere than to (%g, %g, %g)", (double)a[0], (double)a[1], (double)a[2], (double)b[0], (double)b[1], (double)b[2]); }
                    }
                }
                q[i] = n; for (int g = 0; g < 4; ++g) qm[i][g] = d[g]; q_check(i, "a new rotation");
            } break;
            case Q_MUL: {
                Num c[4]; const Num *a = qm[i], *b = qm[j]; static const int sg[4][4] = {{3, 0, 1, -2}, {3, -0, 1, 2}, {3, 0, -1, 2}, {3, -0, -1, -2}}; (void)sg;
                ld av[4], bv[4]; for (int g = 0; g < 4; ++g) { av[g] = a[g].v; bv[g] = b[g].v; }
                // Hamilton: (a_w + a)(b_w + b) = a_w b_w - a.b + a_w b + b_w a + a x b
                c[3].v = av[3] * bv[3] - av[0] * bv[0] - av[1] * bv[1] - av[2] * bv[2];
                for (int g = 0; g < 3; ++g) { int p = (g + 1) % 3, r = (g + 2) % 3; c[g].v = av[3] * bv[g] + bv[3] * av[g] + av[p] * bv[r] - av[r] * bv[p]; }
                ld ea = q_slack(i), eb = q_slack(j); for (int g = 0; g < 4; ++g) c[g].e = 2.1L * (ea + eb) + 16 * eps;
                if (v & 1) { Lib l; q[k] = q[i] * q[j]; } else { Lib l; q[k] = q[i].mult(q[j]); }
                for (int g = 0; g < 4; ++g) qm[k][g] = c[g];
            } break;
            case Q_CONJ: { { Lib l; q[j] = v & 1 ? q[i].conj() : std::conj(q[i]); } for (int g = 0; g < 4; ++g) { Num z = qm[i][g]; if (g < 3) z.v = -z.v; if (i != j) qm[j][g] = z; } if (i == j) for (int g = 0; g < 3; ++g) qm[i][g].v = -qm[i][g].v; } break;
            case Q_UNIT: { { Lib l; q[i] = q[i].unit(); } q_unit_model(i); } break;
            case Q_ROTATE: {
                Vec<T, 3> p = vec<3>(), a, b; ld R[3][3], len = 0; { Lib l; a = q[i] * p; b = p * q[i]; }
                q_matrix(i, R); for (int g = 0; g < 3; ++g) len += fabsl((ld)p[g]); ld e = len * (8 * q_slack(i) + 40 * eps) + 1e-30L;
                for (int g = 0; g < 3; ++g) { ld f = 0, w = 0; for (int z = 0; z < 3; ++z) { f += R[g][z] * (ld)p[z]; w += R[z][g] * (ld)p[z]; }
                    SIM_REQUIRE(P, "rotation", fabsl((ld)a[g] - f) <= e, "quaternion * vector: coordinate %d is %.17g instead of %.17Lg", g, (double)a[g], f);
                    SIM_REQUIRE(P, "rotation", fabsl((ld)b[g] - w) <= e, "vector * quaternion: coordinate %d is %.17g instead of %.17Lg", g, (double)b[g], w); }
            } break;
            case Q_TRANSFORM: if constexpr (N == 3) { ld R[3][3]; { Lib l; x[j] = rotation(q[i]); } q_matrix(i, R); m[j] = Model(4); set3(m[j], R, 8 * q_slack(i) + 60 * eps); check(j, "rotation(quaternion)"); } break;
            case Q_CAST: if constexpr (sizeof(T) == 4) { Quat<double> w; { Lib l; w = (Quat<double>)q[i]; q[j] = (Quat<T>)w; } for (int g = 0; g < 4; ++g) { SIM_REQUIRE(P, "rotation", w[g] == (double)q[i][g], "a cast of a quaternion changes it"); qm[j][g] = qm[i][g]; } } break;
        }
        rec.check();
        for (int g = 0; g < HANDS; ++g) { check(g, OPS[s.op]); q_check(g, OPS[s.op]); }
        for (int g = 0; g < HANDS; ++g) { tame(g); if (q_slack(g) > 1e-3L) { q[g] = Quat<T>(0, 0, 0, 1); for (int f = 0; f < 4; ++f) qm[g][f] = num(f == 3); } }
    }
    void run() {
        int no = 0;
        for (auto& s : t.steps) {
            rec.cur_step = no++; rec.log((u64)s.op); for (i64 a : s.a) rec.log((u64)a); rec.count(OPS[s.op]); faults.reset();
            step(s); rec.check();
            for (int g = 0; g < HANDS; ++g) { double d = (double)x[g].mat(0, N); u64 b; memcpy(&b, &d, 8); rec.log(b); }
        }
    }
};

struct XformScenario : Scenario {
    const char* name() const override { return "xform"; }
    std::vector<const char*> ops() const override { return std::vector<const char*>(OPS, OPS + OP_COUNT); }
    void generate(Rng& r, Trace& t, int) override {
        t.cfg["type"] = (i64)r.below(5);
        int n = (int)r.range(6, 50);
        std::vector<unsigned> w(OP_COUNT); for (auto& x : w) x = r.chance(1, 4) ? 0 : 1 + (unsigned)r.below(3);
        w[MAKE] += 4; if (r.chance(1, 2)) w[Q_MAKE] += 2;
        unsigned tot = 0; for (unsigned x : w) tot += x;
        for (int q = 0; q < n; ++q) {
            unsigned z = (unsigned)r.below(tot); int op = 0; while (z >= w[(size_t)op]) z -= w[(size_t)op++];
            add_step(t, op, {(i64)r.below(4), (i64)r.below(4), (i64)r.below(4), (i64)r.below(1ull << 40)});
        }
    }
    void execute(const Trace& t) override {
        alloc_prop = P; u64 k = (u64)t.get("type");
        switch (k) {
            case 0: { World<double, 3> w(t, k); w.run(); } break;
            case 1: { World<float, 3> w(t, k); w.run(); } break;
            case 2: { World<double, 2> w(t, k); w.run(); } break;
            case 3: { World<float, 2> w(t, k); w.run(); } break;
            default: { World<double, 4> w(t, k); w.run(); } break;
        }
    }
};
sim::Scenario* sim::make_scenario() { return new XformScenario; }
