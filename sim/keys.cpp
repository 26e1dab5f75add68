// C27: library values as the keys of hash tables, through histories in which equal keys come about in different ways and places.
#include "core/sim.h"
#include "core/ops.h"
#include <geomc/Hash.h>
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/Quaternion.h>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Dilated.h>
#include <geomc/shape/Oriented.h>
#include <geomc/shape/Extruded.h>
#include <geomc/shape/Frustum.h>
#include <geomc/shape/Simplex.h>
#include <geomc/function/Dual.h>
#include <unordered_map>

using namespace sim;
using namespace geom;
#define P "C27"

enum { MAKE, COPY, ASSIGN, MOVE, VARY, INSERT, FIND, ERASE, REHASH, CLEAR, COMPARE, BYTES, OP_COUNT };
static const char* OPS[] = {"make", "copy", "assign", "move", "vary", "insert", "find", "erase", "rehash", "clear", "compare", "bytes"};

// how a key of each type is written from plain numbers
template <typename K> struct Kind;
template <typename T, index_t N> struct Kind<Vec<T, N>> { static constexpr int C = N; static void put(Vec<T, N>& k, const double* c) { for (int i = 0; i < N; ++i) k[i] = (T)c[i]; } };
template <typename T> struct Kind<Quat<T>> { static constexpr int C = 4; static void put(Quat<T>& k, const double* c) { for (int i = 0; i < 4; ++i) k[i] = (T)c[i]; } };
template <typename T, index_t M, index_t N> struct Kind<SimpleMatrix<T, M, N>> { static constexpr int C = M * N; static void put(SimpleMatrix<T, M, N>& k, const double* c) { for (int i = 0; i < C; ++i) k.set(i / N, i % N, (T)c[i]); } };
template <typename T, index_t N> struct Kind<AffineTransform<T, N>> { static constexpr int H = N * (N + 1), C = 2 * H; static void put(AffineTransform<T, N>& k, const double* c) { for (int i = 0; i < H; ++i) { k.mat.set(i / (N + 1), i % (N + 1), (T)c[i]); k.inv.set(i / (N + 1), i % (N + 1), (T)c[H + i]); } for (int i = 0; i < N; ++i) k.mat.set(N, i, 0); k.mat.set(N, N, 1); } };
template <typename T, index_t N> struct Kind<Rect<T, N>> { static constexpr int C = 2 * N; static void put(Rect<T, N>& k, const double* c) { T* l = PointType<T, N>::iterator(k.lo); T* h = PointType<T, N>::iterator(k.hi); for (int i = 0; i < N; ++i) { l[i] = (T)c[i]; h[i] = (T)c[N + i]; } } };
template <typename T, index_t N> struct Kind<Sphere<T, N>> { static constexpr int C = N + 1; static void put(Sphere<T, N>& k, const double* c) { Kind<Vec<T, N>>::put(k.center, c); k.r = (T)c[N]; } };
template <typename T, index_t N> struct Kind<Plane<T, N>> { static constexpr int C = N + 1; static void put(Plane<T, N>& k, const double* c) { Kind<Vec<T, N>>::put(k.normal, c); k.d = (T)c[N]; } };
template <typename T, index_t N> struct Kind<Capsule<T, N>> { static constexpr int C = 2 * N + 1; static void put(Capsule<T, N>& k, const double* c) { Kind<Vec<T, N>>::put(k.p0, c); Kind<Vec<T, N>>::put(k.p1, c + N); k.radius = (T)c[2 * N]; } };
template <typename T, index_t N> struct Kind<Cylinder<T, N>> { static constexpr int C = 2 * N + 1; static void put(Cylinder<T, N>& k, const double* c) { Kind<Vec<T, N>>::put(k.p0, c); Kind<Vec<T, N>>::put(k.p1, c + N); k.radius = (T)c[2 * N]; } };
template <typename S> struct Kind<Dilated<S>> { static constexpr int C = Kind<S>::C + 1; static void put(Dilated<S>& k, const double* c) { Kind<S>::put(k.shape, c); k.dilation = c[C - 1]; } };
template <typename S> struct Kind<Oriented<S>> { typedef AffineTransform<typename S::elem_t, S::N> X; static constexpr int C = Kind<S>::C + Kind<X>::C; static void put(Oriented<S>& k, const double* c) { Kind<S>::put(k.shape, c); Kind<X>::put(k.xf, c + Kind<S>::C); } };
template <typename S> struct Kind<Extruded<S>> { static constexpr int C = Kind<S>::C + 2; static void put(Extruded<S>& k, const double* c) { Kind<S>::put(k.base, c); k.height.lo = c[C - 2]; k.height.hi = c[C - 1]; } };
template <typename S> struct Kind<Frustum<S>> { static constexpr int C = Kind<S>::C + 2; static void put(Frustum<S>& k, const double* c) { Kind<S>::put(k.base, c); k.height.lo = c[C - 2]; k.height.hi = c[C - 1]; } };
template <typename T, index_t N> struct Kind<Simplex<T, N>> { static constexpr int C = N * (N + 1) + 1; static void put(Simplex<T, N>& k, const double* c) { k.n = 1 + (index_t)std::fabs(c[0]) % (N + 1); for (int i = 0; i < k.n; ++i) Kind<Vec<T, N>>::put(k.pts[i], c + 1 + i * N); } };
template <typename T> struct Kind<Dual<T>> { static constexpr int C = 2; static void put(Dual<T>& k, const double* c) { k.x = (T)c[0]; k.dx = (T)c[1]; } };
// which of the numbers equality looks at
template <typename K> struct Parts { static bool used(const double*, int) { return true; } };
template <typename T, index_t N> struct Parts<AffineTransform<T, N>> { static bool used(const double*, int i) { return i < N * (N + 1); } };
template <typename S> struct Parts<Oriented<S>> { static bool used(const double* c, int i) { return i < Kind<S>::C || Parts<typename Kind<Oriented<S>>::X>::used(c + Kind<S>::C, i - Kind<S>::C); } };
template <> struct Parts<Dual<double>> { static bool used(const double*, int i) { return i == 0; } };
template <typename T, index_t N> struct Parts<Simplex<T, N>> { static bool used(const double* c, int i) { return i == 0 || i <= N * (1 + (int)std::fabs(c[0]) % (N + 1)); } };
// the number as equality sees it
template <typename K> struct Seen { static double of(const double* c, int i) { return c[i]; } };
template <typename T, index_t N> struct Seen<Simplex<T, N>> { static double of(const double* c, int i) { return i ? c[i] : (double)((int)std::fabs(c[0]) % (N + 1)); } };

template <typename K>
struct World {
    typedef Kind<K> Kd; static constexpr int C = Kd::C, SLOTS = 4;
    struct Cell { alignas(32) unsigned char mem[sizeof(K) + 32]; K* k = nullptr; double c[C] = {0}; };
    struct Entry { double c[C]; i64 v; size_t h; };
    const Trace& t; u64 h = 0;
    Cell s[SLOTS]; std::unordered_map<K, i64> table; std::vector<Entry> model;
    explicit World(const Trace& t) : t(t) {}
    u64 draw(u64 n) { h = mix64(h + 1); return h % n; }

    static int differ(const double* a, const double* b) { int n = 0; for (int i = 0; i < C; ++i) if (Parts<K>::used(a, i) || Parts<K>::used(b, i)) n += !(Seen<K>::of(a, i) == Seen<K>::of(b, i)); return n; }
    void drop(Cell& x) { if (x.k) { x.k->~K(); x.k = nullptr; } }
    void* dirty(Cell& x) { u64 how = draw(3); for (auto& b : x.mem) b = how == 0 ? 0 : how == 1 ? 0xFF : (unsigned char)draw(256); return x.mem + (draw(2) ? 0 : alignof(K)); }
    void numbers(double* c) { for (int i = 0; i < C; ++i) { static const double big[] = {12, 1024, -3, 7}; c[i] = draw(6) ? (double)draw(3) - (draw(3) == 0) : big[draw(4)]; if (c[i] == 0 && draw(2)) c[i] = -0.0; } }
    Entry* known(const double* c) { for (auto& e : model) if (!differ(e.c, c)) return &e; return nullptr; }
    static std::string show(const double* c) { std::string r; char b[32]; for (int i = 0; i < C; ++i) { snprintf(b, sizeof b, "%s%g", i ? " " : "", c[i]); r += b; } return r; }
    static size_t hash_of(const K& k) { Lib l; return std::hash<K>()(k); }

    void compare(const Cell& a, const Cell& b) {
        bool eq, eq2; { Lib l; eq = *(const K*)a.k == *(const K*)b.k; eq2 = !(*(const K*)a.k != *(const K*)b.k); }
        int d = differ(a.c, b.c);
        SIM_REQUIRE(P, "equality", eq == (d == 0) && eq2 == eq, "values (%s) and (%s) compare %s", show(a.c).c_str(), show(b.c).c_str(), eq ? "equal" : "unequal");
        size_t x = hash_of(*a.k), y = hash_of(*b.k); unsigned x4, y4; unsigned short x2, y2; size_t x8, y8;
        { Lib l; x8 = geom::hash<K, size_t>(*a.k); y8 = geom::hash<K, size_t>(*b.k); x4 = geom::hash<K, unsigned>(*a.k); y4 = geom::hash<K, unsigned>(*b.k); x2 = geom::hash<K, unsigned short>(*a.k); y2 = geom::hash<K, unsigned short>(*b.k); }
        if (!d) SIM_REQUIRE(P, "hash", x == y && x8 == y8 && x4 == y4 && x2 == y2, "values (%s) and (%s) are equal but hash differently", show(a.c).c_str(), show(b.c).c_str());
        if (d == 1 && (x == y || x8 == y8)) {      // by chance, or because that number takes no part in the hash?
            int i = 0; while (!(Parts<K>::used(a.c, i) && !(Seen<K>::of(a.c, i) == Seen<K>::of(b.c, i)))) ++i;
            bool takes = false; double c[C]; memcpy(c, a.c, sizeof c);
            for (double v : {2.0, 5.0, 17.0, 100.0, 3000.0}) { c[i] = a.c[i] + v; K k = *(const K*)a.k; { Lib l; Kd::put(k, c); } takes |= hash_of(k) != x; }
            SIM_REQUIRE(P, "collision", takes, "the number in which values (%s) and (%s) differ takes no part in their hash", show(a.c).c_str(), show(b.c).c_str());
        }
    }
    void step(const Step& st) {
        h = (u64)st.arg(2);
        Cell &x = s[st.idx(0, SLOTS)], &y = s[st.idx(1, SLOTS)];
        switch (st.op) {
            case MAKE: { drop(x); numbers(x.c); void* p = dirty(x);
                if (attempt(st, P, [&] { x.k = new (p) K(); }) == FAILED) { x.k = nullptr; break; }
                if (attempt(st, P, [&] { Kd::put(*x.k, x.c); }) == FAILED) drop(x); } break;
            case COPY: if (&x != &y && y.k) { drop(x); void* p = dirty(x); if (attempt(st, P, [&] { x.k = new (p) K(*(const K*)y.k); }) == DONE) memcpy(x.c, y.c, sizeof x.c); else x.k = nullptr; } break;
            case ASSIGN: if (x.k && y.k) { if (attempt(st, P, [&] { *x.k = *(const K*)y.k; }) == DONE) memcpy(x.c, y.c, sizeof x.c); else drop(x); } break;
            case MOVE: if (&x != &y && y.k) { drop(x); void* p = dirty(x); if (attempt(st, P, [&] { x.k = new (p) K(std::move(*y.k)); }) == DONE) memcpy(x.c, y.c, sizeof x.c); else x.k = nullptr; drop(y); } break;
            // one number changes, or zeros change their sign
            case VARY: if (x.k && y.k) { double c[C]; memcpy(c, y.c, sizeof c); if (draw(2)) for (double& d : c) { if (d == 0 && draw(2)) d = -d; } else { int i = (int)draw(C); c[i] = c[i] + 1; }
                if (attempt(st, P, [&] { Kd::put(*x.k, c); }) == DONE) memcpy(x.c, c, sizeof c); else drop(x); } break;
            case INSERT: if (x.k) { Entry* e = known(x.c); i64 v = (i64)draw(1000); bool fresh_key = false;
                if (attempt(st, P, [&] { fresh_key = table.emplace(*(const K*)x.k, v).second; }) == FAILED) break;
                SIM_REQUIRE(P, "table", fresh_key == !e, "inserting (%s) %s", show(x.c).c_str(), e ? "made a second entry for an equal key" : "found an entry although there is none");
                if (!e) { Entry n; memcpy(n.c, x.c, sizeof n.c); n.v = v; n.h = hash_of(*x.k); model.push_back(n); } } break;
            case FIND: if (x.k) { Entry* e = known(x.c); typename std::unordered_map<K, i64>::iterator it; { Lib l; it = table.find(*x.k); }
                SIM_REQUIRE(P, "table", (it != table.end()) == (e != nullptr) && (!e || it == table.end() || it->second == e->v), "looking up (%s): %s", show(x.c).c_str(), e ? "the entry of the equal key is not found" : "found an entry although there is none");
                if (e) SIM_REQUIRE(P, "hash", hash_of(*x.k) == e->h, "(%s) hashes differently than the equal key did when it was inserted", show(x.c).c_str()); } break;
            case ERASE: if (x.k) { Entry* e = known(x.c); size_t n; { Lib l; n = table.erase(*x.k); } SIM_REQUIRE(P, "table", n == (e ? 1u : 0u), "erasing (%s) removed %zu entries", show(x.c).c_str(), n); if (e) { *e = model.back(); model.pop_back(); } } break;
            case REHASH: { size_t n = draw(200); (void)attempt(st, P, [&] { table.rehash(n); }); } break;
            case CLEAR: { { Lib l; table.clear(); } model.clear(); } break;
            case COMPARE: if (x.k && y.k) compare(x, y); break;
            case BYTES: {       // the same bytes at two places
                unsigned char a[96], b[96]; for (auto& c : a) c = (unsigned char)draw(256); for (auto& c : b) c = (unsigned char)draw(256);
                size_t n = draw(60), o = draw(16), q = draw(16), w = o + n, z = q + n; bool same = draw(3) != 0;
                unsigned char* p = (unsigned char*)malloc(w + 1); unsigned char* r = (unsigned char*)malloc(z + 1); memcpy(p, a, w); memcpy(r, b, z); memcpy(r + q, p + o, n);
                p = (unsigned char*)realloc(p, w ? w : 1); r = (unsigned char*)realloc(r, z ? z : 1);
                if (!same && n) r[q + draw(n)] ^= (unsigned char)(1u << draw(8));
                u64 nonce = draw(1 << 20); size_t h1, h2; unsigned __int128 g1, g2;
                { Lib l; h1 = geom::hash_bytes<size_t>(nonce, p + o, n); h2 = geom::hash_bytes<size_t>(nonce, r + q, n); g1 = geom::hash_bytes<unsigned __int128>(nonce, p + o, n); g2 = geom::hash_bytes<unsigned __int128>(nonce, r + q, n); }
                bool eq = same || !n; free(p); free(r);
                SIM_REQUIRE(P, "bytes", (h1 == h2) == eq && (g1 == g2) == eq, "%zu bytes that %s at two places hash %s", n, eq ? "agree" : "differ in one bit", eq ? "differently" : "equally");
            } break;
        }
        rec.check();
    }
    void verify() {
        SIM_REQUIRE(P, "table", table.size() == model.size(), "the table holds %zu entries instead of %zu", table.size(), model.size());
        for (int i = 0; i < SLOTS; ++i) for (int j = i + 1; j < SLOTS; ++j) if (s[i].k && s[j].k && !differ(s[i].c, s[j].c)) compare(s[i], s[j]);
        rec.check();
    }
    void run() {
        int no = 0;
        for (auto& st : t.steps) {
            rec.cur_step = no++; rec.log((u64)st.op); for (i64 a : st.a) rec.log((u64)a); rec.count(OPS[st.op]); faults.reset();
            step(st); verify();
            u64 eqs = 0; for (int i = 0; i < SLOTS; ++i) for (int j = i + 1; j < SLOTS; ++j) eqs = eqs * 4 + (!s[i].k || !s[j].k ? 0 : 1 + (u64)std::min(2, differ(s[i].c, s[j].c)));
            rec.state(mix64(eqs * 64 + (u64)st.op * 4 + std::min<u64>(3, model.size())) ^ mix64(sizeof(K) * 131 + (u64)t.get("type"))); rec.log(eqs + model.size());
        }
        for (auto& x : s) drop(x);
        { Lib l; std::unordered_map<K, i64>().swap(table); }
        alloc_check_leaks(); rec.check();
    }
};

template <typename... Ks> struct List {};
typedef List<Vec<double, 3>, Vec<float, 2>, Vec<int, 3>, Vec<float, 4>, Vec<double, 6>, Quat<double>, SimpleMatrix<double, 2, 2>, AffineTransform<double, 2>, Rect<int, 2>, Rect<double, 1>, Rect<double, 3>,
    Sphere<double, 3>, Plane<double, 2>, Capsule<float, 3>, Cylinder<double, 3>, Dilated<Rect<double, 2>>, Oriented<Rect<double, 2>>, Oriented<Sphere<double, 2>>, Extruded<Sphere<double, 2>>, Frustum<Rect<double, 2>>, Simplex<double, 3>, Dual<double>> Kinds;
template <typename... Ks> static int count(List<Ks...>) { return sizeof...(Ks); }
template <typename... Ks> static void play(List<Ks...>, int n, const Trace& t) { int i = 0; (void)((i++ == n ? (World<Ks>(t).run(), true) : false) || ...); }

struct KeysScenario : Scenario {
    const char* name() const override { return "keys"; }
    std::vector<const char*> ops() const override { return std::vector<const char*>(OPS, OPS + OP_COUNT); }
    void generate(Rng& r, Trace& t, int) override {
        t.cfg["type"] = (i64)r.below((u64)count(Kinds()));
        unsigned fp = r.chance(1, 2) ? 0 : (unsigned)r.range(5, 40);
        int n = (int)r.range(6, 60);
        std::vector<unsigned> w(OP_COUNT); for (auto& x : w) x = r.chance(1, 5) ? 0 : 1 + (unsigned)r.below(4);
        w[MAKE] += 2; w[VARY] += 3; w[INSERT] += 2; w[FIND] += 2; w[CLEAR] = r.chance(1, 4);
        unsigned tot = 0; for (unsigned x : w) tot += x;
        static const std::vector<int> kinds = {F_ALLOC};
        for (int q = 0; q < n; ++q) {
            unsigned z = (unsigned)r.below(tot); int op = 0; while (z >= w[(size_t)op]) z -= w[(size_t)op++]; if (q < 2) op = MAKE;
            add_step(t, op, {q < 2 ? q : (i64)r.below(4), (i64)r.below(4), (i64)r.below(1ull << 40)});
            maybe_fault(r, t, kinds, fp, 2);
        }
    }
    void execute(const Trace& t) override { alloc_prop = P; play(Kinds(), (int)t.get("type"), t); }
};
sim::Scenario* sim::make_scenario() { return new KeysScenario; }
