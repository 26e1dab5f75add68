#include "constops.h"
#include <geomc/random/LCRand.h>
#include <geomc/random/MTRand.h>
#include <geomc/random/Xorshiro.h>
#include <geomc/random/RandomTools.h>
#include <geomc/function/PerlinNoise.h>
#include <geomc/function/Raster.h>
#include <geomc/function/SphericalHarmonics.h>
#include <geomc/function/Basis.h>
#include <geomc/function/Path.h>
#include <geomc/function/Dual.h>
#include <geomc/function/Utils.h>
#include <geomc/Hash.h>

using namespace constops;

template <typename T, index_t N> static void noise(const char* n, Args& a, std::vector<Op>& ops) {
    typedef PerlinNoise<T, N> P;
    LCRand g((uint64_t)a.next());
    auto s = share(P(&g));
    std::string nm(n);
    CONST_OP(nm + ".eval", return digest(s->eval(a.p<T, N>(-40, 40))););
    CONST_OP(nm + ".gradient", return digest(s->gradient(a.p<T, N>(-40, 40))););
    CONST_OP(nm + ".copy", P c(*s); return digest(c.eval(a.p<T, N>(-40, 40))););
    OWN_OP(nm + ".own", LCRand r((uint64_t)a.next()); P c(&r); return digest(c.eval(a.p<T, N>())););
}
static Register r_noise("noise", [](u64 seed, std::vector<Op>& ops) {
    Args a(seed);
    noise<float, 1>("noise1f", a, ops); noise<double, 2>("noise2d", a, ops); noise<float, 3>("noise3f", a, ops); noise<double, 4>("noise4d", a, ops);
});

template <typename I, typename O, index_t M, index_t N> static void raster(const char* n, Args& a, std::vector<Op>& ops) {
    typedef Raster<I, O, M, N> R; typedef typename R::grid_t grid; typedef typename R::coord_t coord; typedef typename R::sample_t smp;
    O buf[4 * 4 * 4 * 4]; for (O& o : buf) o = (O)a.r();
    R init(grid(4), buf); init.setAbyss(smp((O)2.5));
    auto s = share(init);
    std::string nm(n);
    auto g = [](Args& a) { grid p; for (index_t i = 0; i < M; ++i) PointType<index_t, M>::iterator(p)[i] = a.below(9) - 2; return p; };
    auto x = [](Args& a) { return a.p<I, M>(-2, 5); };
    CONST_OP(nm + ".discrete", return digest(s->template sample_discrete<EDGE_CLAMP>(g(a)), s->template sample_discrete<EDGE_PERIODIC>(g(a)), s->template sample_discrete<EDGE_CONSTANT>(g(a))););
    CONST_OP(nm + ".mirror", return digest(s->template sample_discrete<EDGE_MIRROR>(grid((index_t)a.below(12) - 4))););
    CONST_OP(nm + ".discrete_run", return digest(s->sample_discrete(g(a), EDGE_CLAMP), s->sample_discrete(g(a), EDGE_CONSTANT), s->sample_discrete(g(a), EDGE_PERIODIC)););
    CONST_OP(nm + ".nearest", return digest(s->template sample<EDGE_CLAMP, INTERP_NEAREST>(x(a))););
    CONST_OP(nm + ".linear", return digest(s->template sample<EDGE_CLAMP, INTERP_LINEAR>(x(a)), s->template sample<EDGE_PERIODIC, INTERP_LINEAR>(x(a))););
    CONST_OP(nm + ".cubic", return digest(s->template sample<EDGE_CLAMP, INTERP_CUBIC>(x(a)), s->template sample<EDGE_CONSTANT, INTERP_CUBIC>(x(a))););
    CONST_OP(nm + ".sample_run", return digest(s->sample(x(a)), s->sample(x(a), EDGE_PERIODIC, INTERP_NEAREST), s->sample(x(a), EDGE_MIRROR, INTERP_CUBIC)););
    CONST_OP(nm + ".info", return digest(s->dataExtents(), s->domain(), s->samplecount(), s->contains_gridpt(g(a)), s->inputDimension(), s->outputDimension()););
    CONST_OP(nm + ".copy", smp d[64]; s->template copy<EDGE_CLAMP>(d, Rect<index_t, M>(grid((index_t)0), grid((index_t)2))); return digest(d[0], d[1], d[M > 1 ? 8 : 2]););
    CONST_OP(nm + ".copy_object", R c(*s); return digest(c.samplecount(), c.template sample_discrete<EDGE_CLAMP>(g(a))););
    OWN_OP(nm + ".own", R c(grid(3)); c.set(grid(1), smp((O)a.r())); return digest(c.template sample_discrete<EDGE_CLAMP>(grid(1))););
}
static Register r_raster("rasters", [](u64 seed, std::vector<Op>& ops) {
    Args a(seed);
    raster<double, double, 2, 3>("raster23d", a, ops); raster<float, float, 3, 2>("raster32f", a, ops); raster<double, float, 2, 1>("raster21", a, ops); raster<double, double, 1, 2>("raster12", a, ops);
});

template <typename T, index_t B> static void harmonics(const char* n, Args& a, std::vector<Op>& ops) {
    typedef SphericalHarmonics<T, B> S; typedef ZonalHarmonics<T, B> Z;
    S init; for (index_t i = 0; i < init.size(); ++i) init.get()[i] = (T)a.r();
    auto s = share(init);
    Z zi; for (index_t i = 0; i < zi.bands(); ++i) zi.coeff(i) = (T)a.r();
    auto z = share(zi);
    std::string nm(n);
    CONST_OP(nm + ".eval", return digest(s->eval(a.dir<T, 3>().unit()), s->eval((T)a.r(0, 3), (T)a.r())););
    CONST_OP(nm + ".dot", S o; for (index_t i = 0; i < o.size(); ++i) o.get()[i] = (T)a.r(); return digest(s->dot(o), s->coeff(1, 0), s->bands(), s->size()););
    CONST_OP(nm + ".copy", S o(*s); o += *s; return digest(o.eval(a.dir<T, 3>().unit())););
    CONST_OP(nm + ".convolve", S o(*s); o.convolve(*z); return digest(o.eval(a.dir<T, 3>().unit())););
    CONST_OP(nm + ".zonal_eval", return digest(z->eval((T)a.r(-1, 1)), z->dot(*z), z->coeff(1)););
    CONST_OP(nm + ".from_zonal", S o(*z); return digest(o.eval(a.dir<T, 3>().unit())););
    OWN_OP(nm + ".project", S o; o.project(a.dir<T, 3>().unit(), (T)a.r()); return digest(o.eval(a.dir<T, 3>().unit())););
    OWN_OP(nm + ".coeff", return digest(spherical_harmonic_coeff<T>(a.below(4) + 2, a.below(5) - 2, (T)a.r(-1, 1), (T)a.r())););
}
static Register r_sh("harmonics", [](u64 seed, std::vector<Op>& ops) {
    Args a(seed);
    harmonics<double, 4>("sh4d", a, ops); harmonics<float, 3>("sh3f", a, ops);
    OWN_OP("legendre", return digest(legendre<double>(a.below(5) + 3, a.below(3), a.r(-1, 1)), legendre<double>(a.below(6), a.r(-1, 1)), legendre_integral<double>(a.below(6), a.r(-1, 1))););
    OWN_OP("chebyshev", return digest(chebyshev<double>(1, a.below(7), a.r(-1, 1)), chebyshev<double>(2, a.below(7), a.r(-1, 1))););
    Path<double, 3> pi; for (int i = 0; i < 4; ++i) pi.appendKnot(a.p<double, 3>(), a.p<double, 3>());
    auto p = share(pi);
    CONST_OP("path.copy", Path<double, 3> c(*p); return digest(c.eval(a.r(-1, 6))););
});

static Register r_fn("functions", [](u64 seed, std::vector<Op>& ops) {
    Args a(seed);
    typedef Dual<double> D; 
    auto d = share(D(a.r(0.1, 0.9), a.r()));
    CONST_OP("dual.arith", D e(a.r(0.1, 0.9), 1); D r = *d * e + *d / e - e; return digest(r.x, r.dx););
    CONST_OP("dual.trig", D r = std::sin(*d) + std::cos(*d) * std::tan(*d); D s = std::exp(*d) + std::log(*d) + std::sqrt(*d); return digest(r.x, r.dx, s.x, s.dx););
    CONST_OP("dual.inverse_trig", D r = std::asin(*d) + std::acos(*d) + std::atan(*d); return digest(r.x, r.dx););
    OWN_OP("utils", double q[2] = {0, 0}; bool ok = quadratic_solve(q, a.r(), a.r(), a.r()); return digest(ok, ok ? q[0] : 0, positive_mod<index_t>(a.below(100) - 50, 7), diff_of_products(a.r(), a.r(), a.r(), a.r()), mix(a.r(), 1.0, 2.0), clamp(a.r(), -1.0, 1.0)););
    OWN_OP("interp", double s[3] = {a.r(0, 1), a.r(0, 1), a.r(0, 1)}; double p[64]; for (double& x : p) x = a.r(); return digest(interp_linear(s, p, 3), interp_cubic(s, p, 3), interp_linear(s, p, 1)););
    OWN_OP("angles", return digest(angle_to(a.r(), a.r()), radians(a.r()), degrees(a.r()), ceil_div(a.r(), 1.5), floor_div(a.r(), 1.5)););
    OWN_OP("hashing", double v[3] = {a.r(), a.r(), a.r()}; return digest((u64)hash_array<double, size_t>(7, v, 3), (u64)geom::hash<std::string, size_t>(std::string("key ") + std::to_string(a.below(9))), (u64)hash_bytes<size_t>(3, v, sizeof v)););
    OWN_OP("sampler2", LCRand g((uint64_t)a.next()); Sampler<double> s(&g); return digest(s.disk(), s.arc(0.2, 1.1), s.solidarc(0.1, 2.0, 1, 2), s.unit<2>(), s.solidball<2>());  );
    OWN_OP("sampler3", MTRand g((uint64_t)a.next()); Sampler<float> s(&g); return digest(s.unit<3>(), s.solidball<3>(), s.cap(0.5f), s.cap(a.dir<float, 3>().unit(), 0.5f), s.shell<3>(1, 2), s.box<3>()););
    OWN_OP("sampler5", XoshiroRand g((uint64_t)a.next()); Sampler<double> s(&g); return digest(s.unit<5>(), s.box(a.rect<double, 5>())););
    OWN_OP("draws", LCRand g((uint64_t)a.next()); return digest(g.rand<double>(), g.rand<float>(), g.rand<int>(3, 90), g.rand<unsigned>(17), g.rand<bool>(), g.rand<uint64_t>());  );
    OWN_OP("permute", LCRand g((uint64_t)a.next()); int v[12]; for (int i = 0; i < 12; ++i) v[i] = i; permute(v, 12, g); H h; for (int i : v) h.add(i); return h.h;);
});
