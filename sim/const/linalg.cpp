#include "constops.h"
#include <geomc/linalg/LUDecomp.h>
#include <geomc/linalg/Cholesky.h>
#include <geomc/linalg/Orthogonal.h>
#include <geomc/random/LCRand.h>
#include <geomc/random/RandomTools.h>

using namespace constops;

template <typename T, index_t N> static void vec(const char* n, Args& a, std::vector<Op>& ops) {
    typedef Vec<T, N> V;
    auto s = share(a.dir<T, N>());
    std::string nm(n);
    CONST_OP(nm + ".arith", V v = a.p<T, N>(); return digest(*s + v, *s - v, *s * v, -*s, *s * (T)2, (T)3 * *s, *s / (T)2););
    CONST_OP(nm + ".unit", return digest(s->unit(), s->mag(), s->mag2(), s->with_length((T)3)););
    CONST_OP(nm + ".metric", V v = a.dir<T, N>(); return digest(s->dot(v), s->dist(v), s->dist2(v), s->angle_to(v), s->fraction_on(v)););
    CONST_OP(nm + ".project", V v = a.dir<T, N>(); return digest(s->project_on(v)););
    CONST_OP(nm + ".mix", V v = a.p<T, N>(); return digest(s->mix(v, (T)a.r()), s->min(v), s->max(v), s->clamp(v, v + V((T)1))););
    CONST_OP(nm + ".round", return digest(s->abs(), s->floor(), s->ceil(), s->round(), s->min(), s->max(), s->argmin(), s->argmax()););
    CONST_OP(nm + ".compare", V v = a.p<T, N>(); return digest(*s == v, *s != v, s->is_zero(), s->size()););
    CONST_OP(nm + ".hash", return digest((u64)std::hash<V>()(*s)););
    CONST_OP(nm + ".resized", return digest(s->template resized<N + 1>(), s->template resized<N == 2 ? 3 : N - 1>()););
    CONST_OP(nm + ".iterate", T t = 0; for (T x : *s) t += x; return digest(t););
    if constexpr (N == 2) CONST_OP(nm + ".polar", Vec<T, 2> v = a.p<T, 2>(); return digest(s->angle(), s->to_polar(), v.from_polar(), s->left_perpendicular(), s->rotated((T)a.r())););
    if constexpr (N == 3) CONST_OP(nm + ".cross", Vec<T, 3> v = a.dir<T, 3>(); return digest(s->cross(v), *s ^ v, s->to_spherical(), s->rotate(v.unit(), (T)a.r())););
    auto r = share(a.ray<T, N>());
    CONST_OP(nm + ".ray", return digest(r->at_multiple((T)a.r()), r->at_distance((T)a.r()), r->project(a.p<T, N>()), -*r, *r * (T)2););
    OWN_OP(nm + ".own", V v = a.p<T, N>(); v += a.p<T, N>(); v *= (T)2; v -= a.p<T, N>(); v /= (T)3; return digest(v););
}
static Register r_vec("vectors", [](u64 seed, std::vector<Op>& ops) {
    Args a(seed);
    vec<double, 2>("vec2d", a, ops); vec<float, 3>("vec3f", a, ops); vec<double, 3>("vec3d", a, ops); vec<double, 4>("vec4d", a, ops); vec<float, 6>("vec6f", a, ops);
});

template <typename T> static void quat(const char* n, Args& a, std::vector<Op>& ops) {
    auto q = share(a.rot<T>());
    std::string nm(n);
    CONST_OP(nm + ".rotate", return digest(*q * a.p<T, 3>(), a.p<T, 3>() * *q););
    CONST_OP(nm + ".mult", Quat<T> p = a.rot<T>(); return digest(q->mult(p), *q * p, p * *q, q->conj()););
    CONST_OP(nm + ".convert", return digest(q->real(), q->imag()););
    CONST_OP(nm + ".hash", return digest((u64)std::hash<Quat<T>>()(*q)););
    OWN_OP(nm + ".align", return digest(Quat<T>::rotation_from_axis_angle(a.dir<T, 3>().unit(), (T)a.r())););
}
template <typename T, index_t N> static void xform(const char* n, Args& a, std::vector<Op>& ops) {
    typedef Vec<T, N> V; typedef AffineTransform<T, N> X;
    auto make = [](Args& a) -> X { if constexpr (N == 3) return translation(a.p<T, 3>()) * rotation(a.dir<T, 3>().unit(), (T)a.r()); else return translation(a.p<T, 2>()) * rotation((T)a.r()); };
    auto x = share(make(a));
    std::string nm(n);
    CONST_OP(nm + ".apply", V p = a.p<T, N>(); return digest(x->apply(p), x->apply_vector(p), x->apply_normal(p), *x * p););
    CONST_OP(nm + ".apply_inverse", V p = a.p<T, N>(); return digest(x->apply_inverse(p), x->apply_inverse_vector(p), x->apply_inverse_normal(p), p / *x););
    CONST_OP(nm + ".inverse", return digest(x->inverse()););
    CONST_OP(nm + ".compose", X y = make(a); return digest(*x * y, *x / y, x->apply(y), x->apply_inverse(y)););
    CONST_OP(nm + ".direction_matrix", return digest(x->direction_matrix(), *x == make(a)););
    CONST_OP(nm + ".ray", return digest(*x * a.ray<T, N>(), a.ray<T, N>() / *x););
    OWN_OP(nm + ".scale", V v = a.dir<T, N>(); return digest(scale(v), translation(v)););
    OWN_OP(nm + ".own", X y = make(a); y *= make(a); y /= make(a); return digest(y););
    auto m = share([&] { SimpleMatrix<T, N, N> m; for (index_t i = 0; i < N; ++i) for (index_t j = 0; j < N; ++j) m(i, j) = (T)(a.r() + (i == j ? 5 : 0)); return m; }());
    CONST_OP(nm + ".transformation", return digest(transformation(*m)););
    if constexpr (N == 3) {
        OWN_OP(nm + ".rotations", return digest(rotation(a.dir<T, 3>().unit(), a.p<T, 3>(), (T)a.r()), rotation(a.rot<T>()), rotation_x((T)a.r()), rotation_y((T)a.r()), rotation_z((T)a.r())););
        OWN_OP(nm + ".direction_align", return digest(direction_align(a.dir<T, 3>().unit(), a.dir<T, 3>().unit())););
    }
}
static Register r_xf("transforms", [](u64 seed, std::vector<Op>& ops) {
    Args a(seed);
    quat<double>("quatd", a, ops); quat<float>("quatf", a, ops);
    xform<double, 2>("xf2d", a, ops); xform<double, 3>("xf3d", a, ops); xform<float, 3>("xf3f", a, ops);
});

template <typename M> static M& fill(M& m, Args& a, double diag = 0) {
    typedef typename M::elem_t T;
    for (index_t i = 0; i < m.rows(); ++i) for (index_t j = 0; j < m.cols(); ++j) m.set(i, j, (T)(a.r() + (i == j ? diag : 0)));
    return m;
}
template <typename M, bool SQUARE, bool INV> static void matrix(const char* n, index_t r, index_t c, Args& a, std::vector<Op>& ops) {
    typedef typename M::elem_t T;
    M init(r, c);
    auto s = share(fill(init, a, SQUARE ? 6 : 0));
    std::string nm(n);
    CONST_OP(nm + ".read", return digest(*s););
    CONST_OP(nm + ".iterate", H h; for (auto i = s->begin(); i != s->end(); ++i) h.add(*i); for (auto i = s->row(0); i != s->row(1); ++i) h.add(*i); for (auto i = s->col(0); i != s->col(1); ++i) h.add(*i); return h.h;);
    CONST_OP(nm + ".region", H h; MatrixRegion g(Vec<index_t, 2>(0, 0), Vec<index_t, 2>(1, 1)); for (auto i = s->region_begin(g); i != s->region_end(g); ++i) h.add(*i); return h.h;);
    CONST_OP(nm + ".copy", M m(*s); m.set(0, 0, (T)a.r()); return digest(m););
    CONST_OP(nm + ".transpose", return digest(transpose(*s)););
    CONST_OP(nm + ".mul", return digest(*s * transpose(*s)););
    CONST_OP(nm + ".add", M m(r, c); fill(m, a); return digest(*s + m, *s - m););
    CONST_OP(nm + ".scale", return digest(*s * (T)a.r(), (T)2 * *s););
    CONST_OP(nm + ".equal", M m(r, c); fill(m, a); return digest(*s == m, *s != m, *s == *s););
    CONST_OP(nm + ".mtxcopy", M m(r, c); mtxcopy(&m, *s); return digest(m););
    if constexpr (M::COLDIM != 0) CONST_OP(nm + ".mul_vec", return digest(*s * a.p<T, M::COLDIM>()););
    if constexpr (SQUARE) {
        if constexpr (INV) CONST_OP(nm + ".inv", bool ok = false; auto m = inv(*s, &ok); if (!ok) return 0; return digest(m, ok););
        if constexpr (INV && M::ROWDIM > 0 && M::ROWDIM < 4) CONST_OP(nm + ".det", return digest(det(*s)););
        CONST_OP(nm + ".own_transpose", M m(*s); transpose(&m, m); return digest(m););
        CONST_OP(nm + ".plu", index_t p[8]; bool par = false; M m(*s); index_t k = decomp_plu<T, true>(m.data_begin(), m.rows(), m.cols(), p, &par); return digest(m, k, par, p[0]););
        CONST_OP(nm + ".solve", M m(*s); T x[8]; for (T& e : x) e = (T)a.r(); bool ok = linear_solve<T, true>(m.data_begin(), m.rows(), 1, x); return digest(ok, x[0], x[1]););
    }
    OWN_OP(nm + ".own", M m(r, c); fill(m, a, 4); m *= (T)2; m.set_identity(); return digest(m););
}
static Register r_mtx("static matrices", [](u64 seed, std::vector<Op>& ops) {
    Args a(seed);
    matrix<SimpleMatrix<double, 2, 2>, true, true>("m22d", 2, 2, a, ops);
    matrix<SimpleMatrix<float, 3, 3>, true, true>("m33f", 3, 3, a, ops);
    matrix<SimpleMatrix<double, 4, 4, COL_MAJOR>, true, true>("m44dc", 4, 4, a, ops);
    matrix<SimpleMatrix<double, 2, 3>, false, false>("m23d", 2, 3, a, ops);
    matrix<SimpleMatrix<float, 4, 2, COL_MAJOR>, false, false>("m42fc", 4, 2, a, ops);
});
static Register r_dyn("dynamic matrices", [](u64 seed, std::vector<Op>& ops) {
    Args a(seed);
    matrix<SimpleMatrix<double, 0, 0>, true, false>("mNNd", 3, 3, a, ops);
    matrix<SimpleMatrix<float, 0, 0, COL_MAJOR>, true, false>("mNNfc", 5, 5, a, ops);
    matrix<SimpleMatrix<double, 0, 3>, false, false>("mN3d", 4, 3, a, ops);
    matrix<SimpleMatrix<double, 2, 0>, false, false>("m2Nd", 2, 4, a, ops);
});
static Register r_dec("decompositions", [](u64 seed, std::vector<Op>& ops) {
    Args a(seed);
    SimpleMatrix<double, 5, 5> i5(5, 5); SimpleMatrix<double, 3, 3> i3(3, 3);
    auto m5 = share(fill(i5, a, 7)); auto m3 = share(fill(i3, a, 5));
    CONST_OP("cholesky", SimpleMatrix<double, 5, 5> m = *m5 * transpose(*m5); return digest(cholesky<double, true>(m.data_begin(), 5), m););
    CONST_OP("solve_vecs", Vec<double, 5> b[5]; Vec<double, 5> x[2]; for (index_t i = 0; i < 5; ++i) for (index_t j = 0; j < 5; ++j) b[i][j] = (*m5)(i, j); x[0] = a.p<double, 5>(); x[1] = a.p<double, 5>(); return digest(linear_solve<double, 5>(b, 2, x), x[0], x[1]););
    CONST_OP("solve_small", Vec<double, 3> b[3]; Vec<double, 3> x[2]; for (index_t i = 0; i < 3; ++i) for (index_t j = 0; j < 3; ++j) b[i][j] = (*m3)(i, j); x[0] = a.p<double, 3>(); x[1] = a.p<double, 3>(); return digest(linear_solve<double, 3>(b, 2, x), x[0], x[1]););
    OWN_OP("solve_large", double m[900]; double x[30]; for (int i = 0; i < 900; ++i) m[i] = a.r() + (i % 31 == 0 ? 60 : 0); for (double& e : x) e = a.r(); return digest(linear_solve<double, true>(m, 30, 1, x), x[0], x[29]););
    OWN_OP("orthogonal", Vec<double, 4> v[3]; for (auto& x : v) x = a.dir<double, 4>(); return digest(orthogonal<double, 4>(v)););
    OWN_OP("orthogonal3", Vec<double, 3> v[2]; for (auto& x : v) x = a.dir<double, 3>(); return digest(orthogonal(v)););
    OWN_OP("nullspace", Vec<double, 5> v[2]; for (auto& x : v) x = a.dir<double, 5>(); Vec<double, 5> o[3]; nullspace(v, 2, o); return digest(o[0], o[1], o[2]););
    OWN_OP("orthonormalize", Vec<double, 4> v[3]; for (auto& x : v) x = a.dir<double, 4>(); orthonormalize(v, 3); return digest(v[0], v[1], v[2]););
    auto d3 = share(DiagMatrix<double, 3, 3>(Vec<double, 3>(1.5, -2, 4).begin()));
    CONST_OP("diag.read", return digest(*d3, transpose(*d3), *d3 * 2.0););
    CONST_OP("diag.mul", return digest(*m3 * *d3, *d3 * a.p<double, 3>()););
    PermutationMatrix<5> pp; index_t idx[5] = {3, 1, 4, 0, 2}; pp.setRowSources(idx);
    auto p = share(pp);
    CONST_OP("perm.read", return digest(*p, p->getRowSources()[2], p->getColSources()[1]););
    CONST_OP("perm.mul", return digest(*p * *m5, *m5 * *p, *p * *p););
    CONST_OP("perm.mul_vec", return digest(*p * a.p<double, 5>()););
    CONST_OP("perm.transpose", return digest(transpose(*p)););
    OWN_OP("perm.own", PermutationMatrix<5> q; for (int i = 0; i < 5; ++i) q.swap_rows(a.below(5), a.below(5)); q.swap_cols(0, 3); q.transpose(); return digest(q););
});
