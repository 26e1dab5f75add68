// C15: tables of operations on shared constant objects, and on objects of the caller's own.
#pragma once
#include "../core/sim.h"
#include "../core/sched.h"
#include <complex>
#include <functional>
#include <memory>
#include <vector>
#include <geomc/linalg/Vec.h>
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/Quaternion.h>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/linalg/Ray.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/Simplex.h>

namespace constops {

using sim::u64; using sim::i64; using sim::mix64;
using namespace geom;

// the arguments of one call: a stream of values fixed by one number
struct Args {
    u64 s; u64 n = 0;
    explicit Args(u64 s) : s(s) {}
    u64 next() { return mix64(s * 0x9E3779B97F4A7C15ull + ++n); }
    int below(int k) { return (int)(next() % (u64)k); }
    double r(double lo = -3, double hi = 3) {
        u64 w = next();
        if (w % 8 == 0) return (double)(int)((w >> 8) % 7) - 3;               // small integers: ties and boundaries
        return lo + (hi - lo) * ((double)(w >> 11) / 9007199254740992.0);
    }
    template <typename T, index_t N> typename PointType<T, N>::point_t p(double lo = -3, double hi = 3) {
        typename PointType<T, N>::point_t v; for (index_t i = 0; i < N; ++i) PointType<T, N>::iterator(v)[i] = (T)r(lo, hi); return v;
    }
    template <typename T, index_t N> typename PointType<T, N>::point_t dir() { auto v = p<T, N>(); PointType<T, N>::iterator(v)[below((int)N)] += (T)4; return v; }
    template <typename T, index_t N> Ray<T, N> ray() { auto o = p<T, N>(); return Ray<T, N>(o, dir<T, N>()); }
    template <typename T, index_t N> Rect<T, N> rect() { auto a = p<T, N>(); auto b = a; for (index_t i = 0; i < N; ++i) PointType<T, N>::iterator(b)[i] += (T)r(0.5, 3) + (T)3.5; return Rect<T, N>(a, b); }
    template <typename T> Quat<T> rot() { return Quat<T>::rotation_from_axis_angle(dir<T, 3>().unit(), (T)r()); }
};

// digests
struct H {
    u64 h = 1;
    template <typename T> requires std::is_arithmetic_v<T> || std::is_enum_v<T> H& add(T v) { u64 r = 0; memcpy(&r, &v, sizeof v < 8 ? sizeof v : 8); h = mix64(h ^ r) + 0x51ED; return *this; }
    H& add(bool b) { h = mix64(h ^ (b ? 2 : 1)) + 7; return *this; }
    H& add(long double v) { return add((double)v); }
    template <typename T, index_t N> H& add(const Vec<T, N>& v) { for (index_t i = 0; i < N; ++i) add(v[i]); return *this; }
    template <typename T> H& add(const Quat<T>& v) { for (index_t i = 0; i < 4; ++i) add(v[i]); return *this; }
    template <typename T, index_t N> H& add(const Rect<T, N>& v) { return add(v.lo).add(v.hi); }
    template <typename T, index_t N> H& add(const Ray<T, N>& v) { return add(v.origin).add(v.direction); }
    template <typename T, index_t N> H& add(const Simplex<T, N>& v) { add(v.n); for (index_t i = 0; i < v.n; ++i) add(v.pts[i]); return *this; }
    template <typename A, typename B> H& add(const std::pair<A, B>& v) { return add(v.first).add(v.second); }
    template <typename T> H& add(const std::vector<T>& v) { for (auto& x : v) add(x); return add(v.size()); }
    template <typename M> requires requires(const M& m) { m.rows(); m.cols(); m(0, 0); } H& add(const M& m) { add(m.rows()).add(m.cols()); for (index_t i = 0; i < m.rows(); ++i) for (index_t j = 0; j < m.cols(); ++j) add(m(i, j)); return *this; }
    template <typename T, index_t N> H& add(const AffineTransform<T, N>& x) { return add(x.mat).add(x.inv); }
};
template <typename... T> u64 digest(const T&... v) { H h; (h.add(v), ...); return h.h; }

struct Op { std::string name; bool own; std::function<u64(Args&)> f; };
struct Group {
    const char* name;
    std::function<void(u64 seed, std::vector<Op>& ops)> build;    // builds the shared objects and the operations on them
};
std::vector<Group>& groups();
struct Register { Register(const char* n, std::function<void(u64, std::vector<Op>&)> b) { groups().push_back(Group{n, b}); } };

// shared objects are never destroyed: a run ends with its process
template <typename T> struct Shared { const T* p; const T& operator*() const { return *p; } const T* operator->() const { return p; } };
template <typename T> Shared<T> share(const T& v) { return Shared<T>{new T(v)}; }

#define CONST_OP(name, ...) ops.push_back(Op{name, false, [=](Args& a) -> u64 { (void)a; __VA_ARGS__ }})
#define OWN_OP(name, ...)   ops.push_back(Op{name, true, [=](Args& a) -> u64 { (void)a; __VA_ARGS__ }})

} // namespace constops
