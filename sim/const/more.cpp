// C15: the less travelled members.
#include "constops.h"
#include <geomc/linalg/LUDecomp.h>
#include <geomc/linalg/Cholesky.h>
#include <geomc/linalg/Orthogonal.h>
#include <geomc/random/LCRand.h>
#include <geomc/random/MTRand.h>
#include <geomc/random/Xorshiro.h>
#include <geomc/random/RandomTools.h>
#include <geomc/function/SphericalHarmonics.h>
#include <geomc/function/Dual.h>
#include <geomc/function/Utils.h>
#include <geomc/shape/Shape.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Extruded.h>
#include <geomc/shape/Frustum.h>
#include <geomc/shape/Dilated.h>
#include <geomc/shape/Oriented.h>
#include <geomc/shape/Simplex.h>
#include <geomc/shape/Intersect.h>
#include <geomc/shape/GridIterator.h>
#include <geomc/shape/BinLatticePartition.h>
#include <geomc/Deque.h>
#include <geomc/SmallStorage.h>
#include <geomc/Hash.h>
#include <sstream>

using namespace constops;

template <typename T> static u64 text(const T& v) { std::ostringstream o; o << v; H h; for (char c : o.str()) h.add(c); return h.h; }
template <typename T, index_t N> static AffineTransform<T, N> xform(Args& a) {
    if constexpr (N == 3) return translation(a.p<T, 3>()) * rotation(a.dir<T, 3>().unit(), (T)a.r());
    else return translation(a.p<T, 2>()) * rotation((T)a.r());
}
template <typename M> static M& fill(M& m, Args& a, double diag = 0) {
    typedef typename M::elem_t T;
    for (index_t i = 0; i < m.rows(); ++i) for (index_t j = 0; j < m.cols(); ++j) m.set(i, j, (T)(a.r() + (i == j ? diag : 0)));
    return m;
}

// -------------------------------------------------------------------------------- vectors
static Register r_vec2("more vectors", [](u64 seed, std::vector<Op>& ops) {
    Args a(seed);
    auto v2 = share(a.dir<double, 2>()); auto v3 = share(a.dir<double, 3>()); auto v4 = share(a.dir<float, 4>()); auto v5 = share(a.dir<double, 5>());
    CONST_OP("vec2.parts", return digest(v2->add(a.r(), a.r()), v2->sub(a.r(), a.r()), v2->scale(a.r(), 2.0), v2->dot(a.r(), a.r()), v2->reflected_x(), v2->reflected_y()););
    CONST_OP("vec3.parts", return digest(v3->add(a.r(), a.r(), 1.0), v3->sub(a.r(), a.r(), 1.0), v3->scale(a.r(), 2.0, 3.0), v3->dot(a.r(), a.r(), 1.0), v3->reflected_x(), v3->reflected_y(), v3->reflected_z()););
    CONST_OP("vec4.parts", return digest(v4->add((float)a.r(), 1.f, 2.f, 3.f), v4->sub((float)a.r(), 1.f, 2.f, 3.f), v4->scale(1.f, 2.f, 3.f, (float)a.r()), v4->dot(1.f, (float)a.r(), 2.f, 3.f)););
    CONST_OP("vec.std", return digest(std::ceil(*v3), std::floor(*v3), std::abs(*v3), std::sqrt(std::abs(*v3)), std::sin(*v3), std::cos(*v3), std::tan(*v3), std::exp(*v3), std::log(std::abs(*v3) + Vec<double, 3>(1.0))););
    CONST_OP("vec.std5", Vec<double, 5> q = a.p<double, 5>(); return digest(std::sin(*v5), std::exp(q), std::min(*v5, q), std::max(*v5, q), 1.0 / (*v5 + Vec<double, 5>(9.0)), *v5 / (q + Vec<double, 5>(9.0))););
    CONST_OP("vec.text", return digest(text(*v2), text(*v3), text(*v4), text(*v5)););
    CONST_OP("vec.align", Vec<double, 3> from = a.dir<double, 3>(), to = a.dir<double, 3>(); Vec<double, 3> v = *v3; return digest(v.align(from.unit(), to.unit())););
    CONST_OP("vec.rotate_center", Vec<double, 3> v = *v3; return digest(v.rotate(a.dir<double, 3>().unit(), a.p<double, 3>(), a.r())););
    OWN_OP("vec.from_spherical", return digest(Vec<double, 3>::from_spherical(a.r(1, 2), a.r(), a.r())););
    OWN_OP("vec.triangle_normal", return digest(triangle_normal(a.p<double, 3>(), a.p<double, 3>(), a.p<double, 3>())););
    OWN_OP("vec.rainbow", return digest(rainbow<double>(a.r(0, 1))););
    OWN_OP("vec.array", double x[5]; for (double& e : x) e = a.r(); return digest(Vec<double, 5>(x), Vec<double, 3>(x), Vec<double, 2>(x), Vec<double, 4>(x)););
    auto q = share(a.rot<double>());
    CONST_OP("quat.angular", return digest(q->to_angular_velocity(), Quat<double>(q->begin()), Quat<double>(Vec<double, 4>(1, 2, 3, a.r())), Quat<double>::identity()););
    CONST_OP("quat.text", return text(*q););
    OWN_OP("quat.align", return digest(Quat<double>::rotation_direction_align(a.dir<double, 3>().unit(), a.dir<double, 3>().unit()), Quat<double>::rotation_from_axis_angle(Vec<double, 3>(0.0), a.r())););
    auto r = share(a.ray<double, 3>());
    CONST_OP("ray.distance", return digest(r->dist2(a.p<double, 3>()), a.r() * *r););
    CONST_OP("ray.text", return text(*r););
    auto x3 = share(xform<double, 3>(a)); auto x2 = share(xform<double, 2>(a));
    CONST_OP("transform.text", return digest(text(*x3), text(*x2)););
    CONST_OP("transform.hash", return digest((u64)std::hash<AffineTransform<double, 3>>()(*x3), (u64)std::hash<AffineTransform<double, 2>>()(*x2)););
    CONST_OP("transform.convert", return digest((AffineTransform<float, 3>)*x3););
    OWN_OP("transform.parts", return digest(scale(a.r(1, 2), a.r(2, 3), 1.5), scale(a.r(1, 2), 2.0), translation(a.r(), 2.0, 1.0), translation(a.r(), 2.0)););
    OWN_OP("rotmat", SimpleMatrix<double, 4, 4> m, n; rotmat(&m, a.dir<double, 3>().unit(), a.r()); rotmat(&n, a.dir<double, 3>().unit(), a.p<double, 3>(), a.r()); return digest(m, n););
    OWN_OP("rotmat_inv", SimpleMatrix<double, 4, 4> m, n; rotmat(&m, &n, a.dir<double, 3>().unit(), a.p<double, 3>(), a.r()); return digest(m, n););
    OWN_OP("rotmat_axis", return digest(rotmat_x(a.r()), rotmat_y(a.r()), rotmat_z(a.r())););
    OWN_OP("rotmat_align", Vec<double, 3> d = a.dir<double, 3>().unit(); Vec<double, 3> e(0.0); e[a.below(3)] = 1; return digest(rotmat_direction_align(d, a.dir<double, 3>().unit()), direction_align(e, a.below(2) ? e : -e)););
    OWN_OP("rotmat_align3", SimpleMatrix<double, 3, 3> m; rotmat_direction_align(&m, a.dir<double, 3>().unit(), a.dir<double, 3>().unit()); return digest(m););
});

// -------------------------------------------------------------------------------- matrices
static Register r_mtx2("more matrices", [](u64 seed, std::vector<Op>& ops) {
    Args a(seed);
    typedef SimpleMatrix<double, 0, 0> D; typedef SimpleMatrix<double, 0, 0, COL_MAJOR> DC; typedef SimpleMatrix<double, 5, 5> S5; typedef SimpleMatrix<double, 4, 4> S4;
    D di(5, 5); D d3(3, 5); S5 s5i; S4 s4i; DC dci(4, 4); D d2i(2, 2), d1i(3, 3);
    auto d = share(fill(di, a, 6)); auto w = share(fill(d3, a)); auto s5 = share(fill(s5i, a, 6)); auto s4 = share(fill(s4i, a, 5)); auto dc = share(fill(dci, a, 5));
    auto n2 = share(fill(d2i, a, 4)); auto n3 = share(fill(d1i, a, 4));
    CONST_OP("dyn.inv", bool ok = false; auto m = inv(*d, &ok); return ok ? digest(m) : 0;);
    CONST_OP("dyn.inv4", bool ok = false; auto m = inv(*dc, &ok); return ok ? digest(m) : 0;);
    CONST_OP("dyn.inv_small", bool ok = false; auto m = inv(*n2, &ok); auto k = inv(*n3, &ok); return ok ? digest(m, k) : 0;);
    CONST_OP("static.inv5", bool ok = false; auto m = inv(*s5, &ok); return ok ? digest(m) : 0;);
    CONST_OP("static.inv_into", S4 m; bool ok = inv(&m, *s4); S5 n; ok &= inv(&n, *d); return ok ? digest(m, n) : 0;);
    CONST_OP("det", return digest(det(*d), det(*s5), det(*s4), det(*dc), det(*n2), det(*n3)););
    CONST_OP("det.functions", double m[25]; for (int i = 0; i < 25; ++i) m[i] = s5->data_begin()[i]; return digest(detNxN(m, 5), det4x4(m), det3x3(m), det2x2(m), det_destructive(m, 5)););
    CONST_OP("transpose.into", D m(5, 3); transpose(&m, *w); D q(*d); transpose(&q, q); S4 k(*s4); transpose(&k, k); return digest(m, q, k););
    CONST_OP("transpose.dyn", return digest(transpose(*w), transpose(*dc), transpose(*s5)););
    CONST_OP("mul.into", D m(3, 5); mul(&m, *w, *d); SimpleMatrix<double, 3, 5> k; mul(&k, *w, *s5); D q(*d); mul(&q, q, *s5); return digest(m, k, q););
    CONST_OP("mul_acc", D m(3, 5); fill(m, a); mul_acc(&m, *w, *d); return digest(m););
    CONST_OP("mul.vec_into", Vec<double, 3> v; mul(&v, *w, a.p<double, 5>()); Vec<double, 5> u; mul(&u, *s5, a.p<double, 5>()); return digest(v, u););
    CONST_OP("mul.vec_left", return digest(a.p<double, 5>() * *s5, *d * a.p<double, 5>()););
    CONST_OP("add.into", D m(5, 5); add(&m, *d, *s5); S5 k; sub(&k, *s5, *d); scale(&m, a.r(), m); return digest(m, k);); 
    CONST_OP("mixed", return digest(*d + *s5, *s5 - *d, *d * *s5, *s5 * *d, *d == *s5, *s5 != *d););
    CONST_OP("layouts", return digest(*dc * *s4, *s4 + *dc, *dc == *s4);  );
    CONST_OP("mtxcopy", SimpleMatrix<double, 4, 4, COL_MAJOR> m; mtxcopy(&m, *s4); D k(4, 4); mtxcopy(&k, *dc); SimpleMatrix<float, 5, 5> f; mtxcopy(&f, *d); return digest(m, k, f););
    CONST_OP("text", return digest(text(*d), text(*s4)););
    CONST_OP("hash", return digest((u64)geom::hash<S4, size_t>(*s4)););
    CONST_OP("rows", Vec<double, 5> v(d->row(a.below(5))); return digest(v););
    CONST_OP("index", H h; const S4& m = *s4; for (index_t i = 0; i < 4; ++i) h.add(m[i][a.below(4)]); return h.h;);
    CONST_OP("mismatch", try { D m = *w * *n2; return digest(m); } catch (DimensionMismatchException& e) { return digest(e.a_0, e.a_1, e.b_0, e.b_1); });
    CONST_OP("mismatch.add", try { D m = *w + *n2; return digest(m); } catch (DimensionMismatchException& e) { return digest(e.a_0, e.a_1, e.b_0, e.b_1); });
    CONST_OP("nonsquare", try { bool ok; D m = inv(*w, &ok); return digest(m); } catch (NonsquareMatrixException& e) { return digest(e.rows, e.cols); });
    typedef DiagMatrix<double, 4, 4> G; typedef DiagMatrix<double, 0, 0> GD;
    auto g = share(G(a.dir<double, 4>().begin()));
    GD gdi(5, 5); for (index_t i = 0; i < 5; ++i) gdi.diagonal(i) = a.r() + 7;
    auto gd = share(gdi);
    CONST_OP("diag.inv", bool ok = false; auto m = inv(*gd, &ok); return digest(ok, m););
    CONST_OP("diag.det", return digest(det(*g), det(*gd)););
    CONST_OP("diag.mul", return digest(*g * *s4, *s4 * *g, *gd * *d, *d * *gd, *g * *g););
    CONST_OP("diag.mul_vec", return digest(*gd * a.p<double, 5>(), *g * a.p<double, 4>()););
    CONST_OP("diag.sum", return digest(*g + *g, *g - *g, *g + *s4, *s4 - *g););
    CONST_OP("diag.equal", G q(*g); GD w(*gd); return digest(q == *g, w == *gd, *g == *s4););
    CONST_OP("diag.text", return text(*gd););
    CONST_OP("diag.multiply_assign", S4 m(*s4); m *= *g; D k(*d); k *= *gd; return digest(m, k););
    typedef PermutationMatrix<0> P0; typedef PermutationMatrix<6> P6;
    P0 pi(6); P6 qi; for (int i = 0; i < 6; ++i) { pi.swap_rows(a.below(6), a.below(6)); qi.swap_rows(a.below(6), a.below(6)); }
    pi.sign(); qi.sign();
    auto p = share(pi); auto p6 = share(qi);
    D m6i(6, 6); auto m6 = share(fill(m6i, a));
    CONST_OP("perm.mul", return digest(*p * *m6, *m6 * *p, *p6 * *m6, *p * *p, *p6 * *p6, *p * a.p<double, 6>()););
    CONST_OP("perm.copy", P0 q(*p); q.swap_rows(a.below(6), a.below(6)); P0 k(6); k = *p; return digest(q, k, q == *p, k == *p););
    CONST_OP("perm.det", P0 q(*p); P6 k(*p6); q.swap_cols(a.below(6), a.below(6)); k.swap_cols(a.below(6), a.below(6)); return digest(q.sign(), k.sign(), det(q), det(k)););
    CONST_OP("perm.inv", bool ok = false; auto q = inv(*p6, &ok); return digest(ok, q, transpose(*p)););
    CONST_OP("perm.text", return text(*p););
    OWN_OP("perm.sign", index_t q[9]; for (index_t i = 0; i < 9; ++i) q[i] = i; for (int i = 0; i < 6; ++i) std::swap(q[a.below(9)], q[a.below(9)]); return digest(permutation_sign(q, 9)););
    OWN_OP("lup", D m(5, 5); fill(m, a, 4); index_t q[5]; bool par = false; index_t k = decomp_lup<double, true>(m.data_begin(), 5, 5, q, &par); return digest(m, k, par, q[1]););
    OWN_OP("invNxN", double m[36]; double o[36]; for (int i = 0; i < 36; ++i) m[i] = a.r() + (i % 7 == 0 ? 9 : 0); bool ok = invNxN(o, m, 6); return digest(ok, o[0], o[35]););
    OWN_OP("subspace", Vec<double, 4> b[2]; for (auto& x : b) x = a.dir<double, 4>(); Vec<double, 4> x = a.p<double, 4>(); Vec<double, 4> o = project_to_orthogonal_subspace(b, x, 2); return digest(o, project_to_subspace(b, x, 2)););
    OWN_OP("orthogonalize", Vec<double, 3> b[3]; for (auto& x : b) x = a.dir<double, 3>(); orthogonalize(b, 3); Vec<double, 2> c[2]; for (auto& x : c) x = a.dir<double, 2>(); orthogonalize(c, 2); return digest(b[0], b[1], b[2], c[0], c[1]););
});

// -------------------------------------------------------------------------------- shapes
static Register r_shape2("more shapes", [](u64 seed, std::vector<Op>& ops) {
    Args a(seed);
    auto r = share(a.rect<double, 3>()); auto s = share(Sphere<double, 3>(a.p<double, 3>(), 1.5)); auto p = share(Plane<double, 3>(a.dir<double, 3>(), a.p<double, 3>()));
    auto x = share(xform<double, 3>(a));
    auto dr = share(Dilated<Rect<double, 3>>(*r, 0.5));
    CONST_OP("roundrect", return digest(roundrect(*r, a.r(0.1, 0.4)).sdf(a.p<double, 3>())););
    CONST_OP("plane.transform", Plane<double, 3> q = *x * *p; Plane<double, 3> k = *p / *x; Plane<double, 3> l(*p); l *= *x; l /= *x; return digest(q.normal, q.d, k.normal, k.d, l.normal, l.d););
    OWN_OP("plane.from_basis", Vec<double, 3> b[2]; for (auto& v : b) v = a.dir<double, 3>(); auto q = Plane<double, 3>::from_basis(b); auto k = Plane<double, 3>::from_basis(b, a.p<double, 3>()); return digest(q.normal, q.d, k.normal, k.d););
    auto o = share(Oriented<Rect<double, 3>>(*r, *x));
    auto oc = share(Oriented<Cylinder<double, 3>>(Cylinder<double, 3>(Vec<double, 3>(0.0), Vec<double, 3>(0, 0, 3), 1), *x));
    CONST_OP("oriented.bounds", return digest(o->oriented_bounds().bounds(), oc->oriented_bounds().bounds(), oc->bounds()););
    CONST_OP("oriented.transform", auto q = *x * *o; auto k = *o / *x; auto l = *x * *s; auto m = *r / *x; auto n(*o); n *= *x; n /= *x; return digest(q.bounds(), k.bounds(), l.bounds(), m.bounds(), n.bounds()););
    auto o2 = share(Oriented<Rect<double, 2>>(a.rect<double, 2>(), xform<double, 2>(a)));
    CONST_OP("oriented2", auto q = a.rect<double, 2>(); return digest(o2->intersects(q), o2->bounds(), o2->volume()););
    CONST_OP("extrude", auto e = extrude(a.rect<double, 2>(), -1.0, a.r(0, 2)); auto f = frustum(a.rect<double, 2>(), 1.0, a.r(1.5, 3)); return digest(e.contains(a.p<double, 3>()), e.bounds(), f.contains(a.p<double, 3>()), f.bounds()););
    // rays along the axes, through and beside the shapes
    auto axis = [](Args& a) { Vec<double, 3> d(0.0); d[a.below(3)] = a.below(2) ? 1 : -1; return Ray<double, 3>(Vec<double, 3>(a.below(5) - 2, a.below(5) - 2, a.below(5) - 2), d); };
    auto e = share(Extruded<Rect<double, 2>>(Rect<double, 2>(Vec<double, 2>(-1, -1), Vec<double, 2>(1, 2)), -1, 2));
    auto ec = share(Extruded<Sphere<double, 2>>(Sphere<double, 2>(Vec<double, 2>(0.0), 1), -1, 2));
    auto f = share(Frustum<Rect<double, 2>>(Rect<double, 2>(Vec<double, 2>(-1, -1), Vec<double, 2>(1, 2)), -1, 2));
    auto c = share(Cylinder<double, 3>(Vec<double, 3>(0.0), Vec<double, 3>(0, 0, 2), 1));
    CONST_OP("axis_rays", auto q = axis(a); return digest(e->intersect(q), ec->intersect(q), c->intersect(q), r->intersect(q), s->intersect(q)););
    CONST_OP("axis_rays.frustum", auto q = axis(a); return digest(f->intersect(q)););
    CONST_OP("axis_points", Vec<double, 3> q(a.below(5) - 2, a.below(5) - 2, a.below(5) - 2); return digest(e->contains(q), ec->contains(q), c->contains(q), f->contains(q), e->sdf(q), c->sdf(q)););
    CONST_OP("axis_project", Vec<double, 3> q(a.below(5) - 2, a.below(5) - 2, a.below(5) - 2); return digest(e->project(q), c->project(q), c->clip(q), r->project(q)););
    CONST_OP("hash", return digest((u64)std::hash<Dilated<Rect<double, 3>>>()(*dr), (u64)std::hash<Oriented<Rect<double, 3>>>()(*o), (u64)std::hash<Plane<double, 3>>()(*p), (u64)std::hash<Sphere<double, 3>>()(*s), (u64)std::hash<Rect<double, 3>>()(*r)););
    auto r1 = share(a.rect<double, 1>()); auto r2 = share(a.rect<float, 2>());
    CONST_OP("rect.more", Vec<double, 3> v = a.p<double, 3>(1, 2); Rect<double, 3> q(*r); q |= a.rect<double, 3>(); q -= v; q *= v; q /= v; return digest(q, *r / v, v - *r, r1->length()););
    CONST_OP("rect.contact", auto q = r->contact_vector(a.rect<double, 3>()); auto k = r2->contact_vector(a.rect<float, 2>()); return digest(q, k););
    OWN_OP("rect.from", Vec<double, 3> v[4]; for (auto& q : v) q = a.p<double, 3>(); return digest(Rect<double, 3>::from_center(v[0], v[1].abs()), Rect<double, 3>::from_corner(v[0], v[1]), Rect<double, 3>::spanning_corners(v[2], v[3]), Rect<double, 3>::from_size(v[1].abs()), Rect<double, 3>::from_point_sequence(v, v + 4)););
    auto t = share([&] { Simplex<double, 3> t; t.n = 0; for (int i = 0; i < 4; ++i) { auto v = a.p<double, 3>(); if (i) v[i - 1] += 6; t.insert(v); } return t; }());
    CONST_OP("simplex.transform", Simplex<double, 3> q(*t); q *= *x; q /= *x; return digest(q, (*x * *t).bounds(), (*t / *x).bounds()););
    CONST_OP("simplex.standard", return digest(Simplex<double, 3>::standard_simplex(), Simplex<double, 2>::standard_simplex()););
    CONST_OP("gjk.simplex", auto i = Intersector<double, 3>(); auto k = as_any_convex(*t); auto l = as_any_convex(*o); bool b = i.intersects(k, l); return digest(b, i.simplex().n););
    CONST_OP("gjk.pairs", auto i = Intersector<double, 3>(); auto k = as_any_convex(*o); auto l = as_any_convex(*c); bool b = i.intersects(k, l); Sphere<double, 3> m(a.p<double, 3>(), 1); auto n = as_any_convex(m); bool d = i.intersects(n, l); return digest(b, d););
    auto g = share(Rect<index_t, 2>(Vec<index_t, 2>(-1, 2), Vec<index_t, 2>(2, 4)));
    CONST_OP("grid2", H h; GridIterator<index_t, 2> i(*g); auto b = i.begin(); auto e = i.end(); for (; b != e; ++b) h.add(*b); return h.h;);
    CONST_OP("grid1", H h; GridIterator<index_t, 1> i(Rect<index_t, 1>(2, 6)); auto e = i.end(); for (; i != e; ++i) h.add(*i); return h.h;);
    OWN_OP("lattice", BinLatticePartition<double, 3, int> b(1.0); for (int i = 0; i < 6; ++i) b.insert(a.p<double, 3>(), i); int n = 0; for (auto i = b.query(a.p<double, 3>(), 2.0); i != i.end(); ++i) ++n; return digest(n);  );
});

// -------------------------------------------------------------------------------- functions
static Register r_dual2("dual numbers", [](u64 seed, std::vector<Op>& ops) {
    Args a(seed);
    typedef Dual<double> D;
    auto d = share(D(a.r(0.1, 0.9), a.r())); auto e = share(D(a.r(0.1, 0.9), 1));
    auto h = [](const D& x) { return digest(x.x, x.dx); };
    CONST_OP("scalars", double s = a.r(1, 2); D x(*d); x += s; x -= s; return digest(h(*d * s), h(s * *d), h(*d / s), h(s / *d), h(*d + s), h(s + *d), h(*d - s), h(s - *d), h(x)););
    CONST_OP("assign", D x(*d);  x += *e; x -= *d; x /= *e; ++x; x--; return digest(h(x), h(-*d)););
    CONST_OP("compare", D x(*d); return digest(x == *e, x != *e, x < *e, x > *e, x <= *e, x >= *e););
    CONST_OP("std", return digest(h(std::atan2(*d, *e)), h(std::abs(*d)), h(std::ceil(*d)), h(std::floor(*d)), h(std::min(*d, *e)), h(std::max(*d, *e)), h(std::fma(*d, *e, *d))););
    CONST_OP("classify", return digest(std::isfinite(*d), std::isinf(*d), std::isnan(*d)););
    CONST_OP("text", return text(*d););
    CONST_OP("hash", return digest((u64)std::hash<D>()(*d)););
    CONST_OP("vec", Vec<D, 3> v(*d, *e, D(a.r(), 1)); return digest(h(v.dot(v)), h(v.mag())););
});
template <typename T, index_t B> static void zonal(const char* n, Args& a, std::vector<Op>& ops) {
    typedef SphericalHarmonics<T, B> S; typedef ZonalHarmonics<T, B> Z;
    S init; for (index_t i = 0; i < init.size(); ++i) init.get()[i] = (T)a.r();
    auto s = share(init);
    Z zi; for (index_t i = 0; i < zi.bands(); ++i) zi.coeff(i) = (T)a.r();
    auto z = share(zi);
    std::string nm(n);
    CONST_OP(nm + ".arith", S o(*s); o *= (T)2; o /= (T)3; S q = o + *s; const S& k = *s; return digest(o.eval(a.dir<T, 3>().unit()), q.eval(a.dir<T, 3>().unit()), k.get()[1]););
    CONST_OP(nm + ".normalize", S o(*s); o.normalize(); return digest(o.eval(a.dir<T, 3>().unit())););
    CONST_OP(nm + ".project", S o(*s); o.project((T)a.r(), (T)a.r(), (T)1); return digest(o.eval(a.dir<T, 3>().unit())););
    OWN_OP(nm + ".basis", S o = S::basis(a.dir<T, 3>().unit()); return digest(o.eval(a.dir<T, 3>().unit())););
    CONST_OP(nm + ".zonal", Z k(*z); k.convolve(*z); k.normalize(); return digest(k.eval((T)a.r(-1, 1))););
    CONST_OP(nm + ".diffuse", Z k(*z); k.diffuse((T)a.r(0.1, 0.9)); return digest(k.eval((T)a.r(-1, 1))););
    CONST_OP(nm + ".zonal_project", Z k(*z); k.project((T)a.r(-1, 1), (T)1); return digest(k.eval((T)a.r(-1, 1))););
    CONST_OP(nm + ".to_zonal", Z k(*s); return digest(k.eval((T)a.r(-1, 1))););
    OWN_OP(nm + ".lambertian", Z k; k.generate_lambertian(); return digest(k.eval((T)a.r(-1, 1))););
    OWN_OP(nm + ".spot", Z k; k.generate_spot((T)a.r(0, 1)); return digest(k.eval((T)a.r(-1, 1))););
    OWN_OP(nm + ".clear", Z k(*z); k.clear(); return digest(k.eval((T)a.r(-1, 1))););
}
static Register r_zonal("more harmonics", [](u64 seed, std::vector<Op>& ops) {
    Args a(seed);
    zonal<double, 4>("zh4d", a, ops); zonal<float, 3>("zh3f", a, ops);
    auto d = share([&] { SphericalHarmonics<double, 0> s(5); for (index_t i = 0; i < s.size(); ++i) s.get()[i] = a.r(); return s; }());
    CONST_OP("shN.eval", return digest(d->eval(a.dir<double, 3>().unit()), d->bands()););
    auto e = share([&] { SphericalHarmonics<double, 0> s(3); for (index_t i = 0; i < s.size(); ++i) s.get()[i] = a.r(); return s; }());
    CONST_OP("shN.sum", SphericalHarmonics<double, 0> q = *d + *e; SphericalHarmonics<double, 0> r = *e + *d; r += *e; r += a.r(); -r; return digest(q.eval(a.dir<double, 3>().unit()), r.eval(a.dir<double, 3>().unit()), q.bands(), r.bands()););
    CONST_OP("shN.copy", SphericalHarmonics<double, 0> s(*d); return digest(s.eval(a.dir<double, 3>().unit())););
});
static Register r_fn2("more functions", [](u64 seed, std::vector<Op>& ops) {
    Args a(seed);
    OWN_OP("utils", return digest(positive_mod(a.r(), 1.5), snap(a.r(), 0.5), is_power_of_two((unsigned)a.below(70))););
    OWN_OP("hash128", char b[40]; for (char& c : b) c = (char)a.next(); unsigned __int128 h = hash_bytes<unsigned __int128>(1, b, (size_t)a.below(40)); return digest((u64)h, (u64)(h >> 64)););
    OWN_OP("hash64", char b[40]; for (char& c : b) c = (char)a.next(); return digest((u64)hash_bytes<uint64_t>(3, b, (size_t)a.below(40)), hash_bytes<uint32_t>(3, b, (size_t)a.below(40))););
    OWN_OP("hash_many", return digest((u64)hash_many<size_t>((size_t)7, a.r(), a.below(9), std::string("k")), (u64)hash_combine((uint64_t)a.next(), (uint64_t)5), hash_combine((uint32_t)a.next(), (uint32_t)5)););
    OWN_OP("sampler.more", LCRand g((uint64_t)a.next()); Sampler<double> s(&g); return digest(s.unit<3>(2.0), s.solidball<3>(2.0), s.box<3>(Vec<double, 3>(0.0), Vec<double, 3>(2.0)), s.solidcap(a.dir<double, 3>().unit(), 0.5, 1, 2), s.oriented_disk(a.dir<double, 3>().unit(), 2.0), s.box(0, 0, 0, 1, 2, 3), s.disk(2.0), s.box(0, 0, 1, 2)););
    OWN_OP("draws.all", MTRand g((uint64_t)a.next()); H h; for (int i = 0; i < 5; ++i) h.add(g.rand<long>()).add(g.rand<long long>(1 + (long long)(a.next() >> 2))).add(g.rand<unsigned long>(9)).add(g.rand<int>(-9)).add(g.rand<long long>(-5, 7)).add(g.rand<double>(2.5)).add(g.rand<float>(-1, 1)); return h.h;);
    OWN_OP("draws.many", MTRand g((uint64_t)a.next()); u64 h = 0; for (int i = 0; i < 700; ++i) h = mix64(h ^ g.rand32()); return h;);
    OWN_OP("reseed", LCRand g((uint64_t)a.next()); g.rseed((uint64_t)a.next()); XoshiroRand x((uint64_t)a.next()); uint64_t e[4] = {a.next(), a.next(), 3, 4}; XoshiroRand y(e); return digest(g.rand32(), x.rand32(), y.rand32()););
    auto q = share([&] { Deque<std::string, 2> q; for (int i = 0; i < 7; ++i) q.push_front("a string which is not kept inside the object " + std::to_string(i)); return q; }());
    CONST_OP("deque.access", H h; const Deque<std::string, 2>& k = *q; for (char c : k.front() + k.back() + k[(index_t)a.below(7)] + k[-1 - (index_t)a.below(7)]) h.add(c); return h.h;);
    CONST_OP("deque.move", Deque<std::string, 2> k(*q), l(std::move(k)); Deque<std::string, 2> m; m = std::move(l); H h; for (char c : m.front()) h.add(c); m.clear(); h.add(m.size()); return h.h;);
    CONST_OP("deque.equal", Deque<std::string, 2> k(*q); bool e = k == *q; k.pop_back(); return digest(e, k == *q, k != *q););
    auto s = share([&] { SmallStorage<std::string, 3> s; for (int i = 0; i < 5; ++i) s.push_back("another string which is not kept inside " + std::to_string(i)); return s; }());
    CONST_OP("small.access", H h; const SmallStorage<std::string, 3>& k = *s; for (char c : k.front() + k.back() + k.data()[a.below(5)]) h.add(c); return digest(h.h, k.empty(), k.static_capacity());  );
    CONST_OP("small.move", SmallStorage<std::string, 3> k(*s), l(std::move(k)); SmallStorage<std::string, 3> m; m = std::move(l); m.resize(7); m.reserve(20); return digest(m.size(), m == *s, *s == *s););
});
