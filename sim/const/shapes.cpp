#include "constops.h"
#include <geomc/shape/Shape.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Extruded.h>
#include <geomc/shape/Frustum.h>
#include <geomc/shape/Dilated.h>
#include <geomc/shape/Oriented.h>
#include <geomc/shape/Simplex.h>
#include <geomc/shape/Intersect.h>
#include <geomc/shape/GridIterator.h>

using namespace constops;

enum { NO_RAY = 1, NO_PROJECT = 2, NO_HASH = 4 };      // members that do not compile at the pinned commit
template <typename T, index_t N, int SKIP = 0, typename S> static void shape(const char* n, const S& init, std::vector<Op>& ops) {
    Shared<S> s = share(init);
    typedef typename PointType<T, N>::point_t pt;
    std::string nm(n);
    if constexpr (requires(const S& x, pt p) { x.contains(p); }) CONST_OP(nm + ".contains", return digest(s->contains(a.p<T, N>())););
    if constexpr (N > 1 && requires(const S& x, pt p) { x.sdf(p); }) CONST_OP(nm + ".sdf", return digest(s->sdf(a.p<T, N>())););
    if constexpr (N > 1 && !(SKIP & NO_PROJECT) && requires(const S& x, pt p) { x.project(p); }) CONST_OP(nm + ".project", pt p = a.p<T, N>(); return digest(s->project(p)););
    if constexpr (N > 1 && !(SKIP & NO_PROJECT) && requires(const S& x, pt p) { x.normal(p); }) CONST_OP(nm + ".normal", return digest(s->normal(a.p<T, N>())););
    if constexpr (N > 1 && !(SKIP & NO_PROJECT) && requires(const S& x, pt p) { x.clip(p); }) CONST_OP(nm + ".clip", return digest(s->clip(a.p<T, N>())););
    if constexpr (requires(const S& x, pt p) { x.convex_support(p); }) CONST_OP(nm + ".convex_support", return digest(s->convex_support(a.dir<T, N>())););
    if constexpr (requires(const S& x) { x.bounds(); }) CONST_OP(nm + ".bounds", return digest(s->bounds()););
    if constexpr (N > 1 && !(SKIP & NO_RAY) && requires(const S& x, Ray<T, N> r) { x.intersect(r); }) CONST_OP(nm + ".intersect", return digest(s->intersect(a.ray<T, N>())););
    if constexpr (requires(const S& x) { x == x; }) CONST_OP(nm + ".equal", return digest(*s == *s););
    if constexpr (!(SKIP & NO_HASH) && requires(const S& x) { std::hash<S>()(x); }) CONST_OP(nm + ".hash", return digest((u64)std::hash<S>()(*s)););
    CONST_OP(nm + ".copy", S c(*s); if constexpr (requires(const S& x) { x == x; }) return digest(c == *s); else return 0;);
    if constexpr (N > 1 && requires(const S& x) { x.convex_support(pt()); x.bounds(); }) {
        CONST_OP(nm + ".gjk", 
            auto x = as_any_convex(*s); Sphere<T, N> o(a.p<T, N>(), (T)a.r(0.3, 2)); auto y = as_any_convex(o);
            Intersector<T, N> i; bool b = i.intersects(x, y); return digest(b, i.separation_axis, i.iterations, i.was_degenerate););
        CONST_OP(nm + ".intersects", auto x = as_any_convex(*s); auto y = as_any_convex(a.rect<T, N>()); return digest(intersects(x, y), x.convex_support(a.dir<T, N>()), y.bounds()););
    }
}
template <typename T, index_t N> static AffineTransform<T, N> xform(Args& a) {
    if constexpr (N == 3) return translation(a.p<T, 3>()) * rotation(a.dir<T, 3>().unit(), (T)a.r());
    else return translation(a.p<T, 2>()) * rotation((T)a.r());
}

template <typename T, index_t N> static void rects(const char* n, Args& a, std::vector<Op>& ops) {
    typedef typename PointType<T, N>::point_t pt;
    auto s = share(a.rect<T, N>());
    std::string nm(n);
    shape<T, N>(n, *s, ops);
    CONST_OP(nm + ".union", return digest(*s | a.rect<T, N>(), *s & a.rect<T, N>()););
    CONST_OP(nm + ".move", pt p = a.p<T, N>(); return digest(*s + p, *s - p, p + *s););
    CONST_OP(nm + ".scale", pt p = a.p<T, N>(); return digest(*s * p););
    CONST_OP(nm + ".contains_rect", Rect<T, N> o = a.rect<T, N>(); return digest(s->contains(o), s->intersects(o), *s == o, *s != o););
    CONST_OP(nm + ".measure", return digest(s->center(), s->dimensions(), s->volume(), s->is_empty(), s->axis(0)););
    CONST_OP(nm + ".centered_on", return digest(s->centered_on(a.p<T, N>()), s->dilated(a.p<T, N>(0, 2)), s->minkowski_sum(a.rect<T, N>())););
    CONST_OP(nm + ".remap", pt p = a.p<T, N>(); return digest(s->remap(p), s->unmap(p), s->dist2(p)););
    CONST_OP(nm + ".product", return digest(*s * a.rect<T, 1>()););
    if constexpr (N > 1) CONST_OP(nm + ".fitted_to", return digest(s->fitted_to(a.rect<T, N>())););
    if constexpr (N > 1) CONST_OP(nm + ".sphere", return digest(s->intersects(Sphere<T, N>(a.p<T, N>(), (T)1))););
    OWN_OP(nm + ".own", Rect<T, N> r = a.rect<T, N>(); r |= a.p<T, N>(); r &= a.rect<T, N>(); r += a.p<T, N>(); r.set_corners(a.p<T, N>(), a.p<T, N>()); r.set_dimensions(a.p<T, N>(1, 2)); return digest(r););
}

static Register r_rect("rects", [](u64 seed, std::vector<Op>& ops) {
    Args a(seed);
    rects<double, 1>("rect1d", a, ops); rects<float, 2>("rect2f", a, ops); rects<double, 3>("rect3d", a, ops); rects<double, 5>("rect5d", a, ops);
    auto g = share(Rect<index_t, 3>(Vec<index_t, 3>(-1, 0, 2), Vec<index_t, 3>(1, 2, 3)));
    CONST_OP("grid.iterate", H h; GridIterator<index_t, 3> i(*g); GridIterator<index_t, 3> e = i.end(); for (; i != e; ++i) h.add(*i); return h.h;);
    CONST_OP("grid.iterate_last", H h; GridIterator<index_t, 3, ARRAYORDER_LAST_DIM_CONSECUTIVE> i(*g); auto e = i.end(); for (; i != e; ++i) h.add(*i); return h.h;);
});
static Register r_round("round shapes", [](u64 seed, std::vector<Op>& ops) {
    Args a(seed);
    shape<double, 2>("sphere2d", Sphere<double, 2>(a.p<double, 2>(), 1.5), ops);
    shape<float, 3>("sphere3f", Sphere<float, 3>(a.p<float, 3>(), 2), ops);
    shape<double, 4>("sphere4d", Sphere<double, 4>(a.p<double, 4>(), 2), ops);
    shape<double, 3, NO_RAY | NO_PROJECT>("capsule3d", Capsule<double, 3>(a.p<double, 3>(), a.p<double, 3>(), 1), ops);
    shape<float, 2, NO_RAY | NO_PROJECT>("capsule2f", Capsule<float, 2>(a.p<float, 2>(), a.p<float, 2>(), 1), ops);
    shape<double, 3>("cylinder3d", Cylinder<double, 3>(a.p<double, 3>(), a.p<double, 3>() + Vec<double, 3>(0, 0, 7), 1), ops);
    shape<float, 3>("cylinder3f", Cylinder<float, 3>(a.p<float, 3>(), a.p<float, 3>() + Vec<float, 3>(0, 7, 0), 1), ops);
    auto s = share(Sphere<double, 3>(a.p<double, 3>(), 1));
    CONST_OP("sphere.spheres", return digest(s->intersects(Sphere<double, 3>(a.p<double, 3>(), 1)), s->intersects(a.rect<double, 3>())););
    auto c = share(Capsule<double, 3>(a.p<double, 3>(), a.p<double, 3>(), 1));
    CONST_OP("capsule.axis", return digest(c->axis(), c->sdf(a.p<double, 3>()), c->intersects(Sphere<double, 3>(a.p<double, 3>(), 1))););
});
static Register r_flat("flat shapes", [](u64 seed, std::vector<Op>& ops) {
    Args a(seed);
    auto pl = share(Plane<double, 3>(a.dir<double, 3>(), a.p<double, 3>()));
    shape<double, 3>("plane3d", *pl, ops);
    CONST_OP("plane.misc", return digest(pl->distance(a.p<double, 3>()), pl->origin(), pl->intersects(Sphere<double, 3>(a.p<double, 3>(), 1))););
    CONST_OP("plane.hull", Vec<double, 3> v[4]; for (auto& x : v) x = a.p<double, 3>(); return digest(pl->intersects(v, 4)););
    CONST_OP("plane.shape", return digest(pl->contains(a.rect<double, 3>()), pl->intersects(a.rect<double, 3>())););
    OWN_OP("plane.from_simplex", Vec<double, 3> v[3]; for (auto& x : v) x = a.p<double, 3>(); v[1][0] += 5; v[2][1] += 7; auto p = Plane<double, 3>::from_simplex(v); return digest(p.normal, p.d););
    Vec<double, 3> v3[4]; for (int i = 0; i < 4; ++i) { v3[i] = a.p<double, 3>(); if (i) v3[i][i - 1] += 6; }
    Vec<double, 2> v2[3]; for (int i = 0; i < 3; ++i) { v2[i] = a.p<double, 2>(); if (i) v2[i][i - 1] += 6; }
    Vec<float, 4> v4[5]; for (int i = 0; i < 5; ++i) { v4[i] = a.p<float, 4>(); if (i) v4[i][i - 1] += 6; }
    shape<double, 3, NO_HASH>("simplex3d", Simplex<double, 3>(v3, 4), ops);
    shape<double, 3, NO_HASH>("triangle3d", Simplex<double, 3>(v3, 3), ops);
    shape<double, 2, NO_HASH>("simplex2d", Simplex<double, 2>(v2, 3), ops);
    shape<float, 4, NO_HASH>("simplex4f", Simplex<float, 4>(v4, 5), ops);
    auto s = share(Simplex<double, 3>(v3, 4)); auto tri = share(Simplex<double, 3>(v3, 3)); auto s2 = share(Simplex<double, 2>(v2, 3));
    CONST_OP("simplex.volume", return digest(s->volume(), s->measure(), tri->measure(), s2->volume(), s2->measure()););
    CONST_OP("simplex.project_face", Vec<double, 3> p = a.p<double, 3>(); Simplex<double, 3> f; f.n = 0; auto q = s->project(p, &f); return digest(q, f););
    CONST_OP("simplex.clip_face", Vec<double, 3> p = a.p<double, 3>(); Simplex<double, 3> f; f.n = 0; auto q = s->clip(p, &f); return digest(q, f););
    CONST_OP("simplex.clip2", Vec<double, 2> p = a.p<double, 2>(); auto q = s2->clip(p); return digest(q););
    CONST_OP("simplex.sdf_normal", Vec<double, 3> p = a.p<double, 3>(), n; double d = s->sdf(p, &n); return digest(d, n););
    CONST_OP("simplex.excluded", return digest(s->excluded(a.below(4)), *tri | a.p<double, 3>(), (*s)[a.below(4)], *s != *tri););
    CONST_OP("simplex.is_facing", return digest(tri->is_facing(a.p<double, 3>())););
    OWN_OP("trace_simplex", Vec<double, 3> v[3]; for (auto& x : v) x = a.p<double, 3>(); v[1][0] += 5; v[2][1] += 7; Vec<double, 2> uv; double t = 0; bool b = trace_simplex(v, a.ray<double, 3>(), &uv, &t); return digest(b, uv, t););
    OWN_OP("simplex.own", Simplex<double, 3> x; x.n = 0; for (int i = 0; i < 3; ++i) x |= a.p<double, 3>(); x.insert(a.p<double, 3>()); x.exclude(1); return digest(x););
});
static Register r_wrap("composite shapes", [](u64 seed, std::vector<Op>& ops) {
    Args a(seed);
    auto r2 = a.rect<double, 2>();
    Vec<double, 2> v2[3]; for (int i = 0; i < 3; ++i) { v2[i] = a.p<double, 2>(); if (i) v2[i][i - 1] += 6; }
    shape<double, 3>("extruded_rect", Extruded<Rect<double, 2>>(r2, -1, 2), ops);
    shape<double, 3>("extruded_circle", Extruded<Sphere<double, 2>>(Sphere<double, 2>(a.p<double, 2>(), 1), -1, 2), ops);
    shape<double, 3>("frustum_rect", Frustum<Rect<double, 2>>(r2, 1, 2), ops);
    shape<double, 3>("frustum_circle", Frustum<Sphere<double, 2>>(Sphere<double, 2>(a.p<double, 2>(), 1), 0.5, 2), ops);
    shape<double, 3>("dilated_rect", Dilated<Rect<double, 3>>(a.rect<double, 3>(), 0.5), ops);
    shape<double, 3>("oriented_rect", Oriented<Rect<double, 3>>(a.rect<double, 3>(), xform<double, 3>(a)), ops);
    shape<double, 2>("oriented_rect2", Oriented<Rect<double, 2>>(a.rect<double, 2>(), xform<double, 2>(a)), ops);
    shape<double, 3>("oriented_cylinder", Oriented<Cylinder<double, 3>>(Cylinder<double, 3>(Vec<double, 3>(0.0), Vec<double, 3>(0, 0, 3), 1), xform<double, 3>(a)), ops);
    shape<double, 3>("oriented_sphere", Oriented<Sphere<double, 3>>(Sphere<double, 3>(a.p<double, 3>(), 1), xform<double, 3>(a)), ops);
    shape<double, 3>("oriented_extruded", Oriented<Extruded<Rect<double, 2>>>(Extruded<Rect<double, 2>>(r2, -1, 2), xform<double, 3>(a)), ops);
    auto o = share(Oriented<Rect<double, 3>>(a.rect<double, 3>(), xform<double, 3>(a)));
    auto r = share(a.rect<double, 3>());
    CONST_OP("oriented.rect", return digest(o->intersects(*r), r->intersects(*o), o->volume()););
    CONST_OP("oriented.intersects_oriented", Oriented<Rect<double, 3>> x(a.rect<double, 3>(), xform<double, 3>(a)); return digest(x.intersects(*o)););
    auto xf = share(xform<double, 3>(a));
    CONST_OP("transform.shape", auto x = (*xf) * (*r); return digest(x.contains(a.p<double, 3>())););
    CONST_OP("dilate", return digest(Dilated<Rect<double, 3>>(*r, 0.5).sdf(a.p<double, 3>()), Dilated<Rect<double, 3>>(*r, 0.25).contains(a.p<double, 3>())););
    auto f = share(Frustum<Rect<double, 2>>(r2, 1, 2));
    CONST_OP("frustum.height", return digest(f->clipped_height()););
});
