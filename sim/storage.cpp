// C05: histories over pools of array storage of every ownership policy, with allocator and element faults.
#include "core/sim.h"
#include "core/elem.h"
#include "core/ops.h"
#include <algorithm>
#include <initializer_list>
#include <functional>
#include <memory>
#include <geomc/Storage.h>

using namespace sim;

enum { NEW_DEFAULT, NEW_N, NEW_DATA, NEW_LIST, COPY_CTOR, MOVE_CTOR, COPY_ASSIGN, MOVE_ASSIGN, DROP, WRITE, WRITE_PTR, READ, OP_COUNT };
static const char* OPS[] = {"new_default", "new_n", "new_data", "new_list", "copy_ctor", "move_ctor", "copy_assign", "move_assign", "drop", "write", "write_ptr", "read"};
static const int POOL = 4;
#define P "C05"

enum { UNIQUE, SHARED, WRAPPED };
enum { C_UNIQUE, C_STORAGE, C_SIZED, C_WRAPPED, C_GUNIQUE, C_GSHARED, C_GWRAPPED, CLASSES };

template <int C, typename E, long N> struct Make;
template <typename E, long N> struct Make<C_UNIQUE, E, N>   { typedef geom::UniqueStorage<E, N> S; };
template <typename E, long N> struct Make<C_STORAGE, E, N>  { typedef geom::Storage<E, N> S; };
template <typename E, long N> struct Make<C_SIZED, E, N>    { typedef geom::SizedStorage<E, N> S; };
template <typename E, long N> struct Make<C_WRAPPED, E, N>  { typedef geom::WrappedStorage<E, N> S; };
template <typename E, long N> struct Make<C_GUNIQUE, E, N>  { typedef geom::GenericStorage<E, N, geom::STORAGE_UNIQUE> S; };
template <typename E, long N> struct Make<C_GSHARED, E, N>  { typedef geom::GenericStorage<E, N, geom::STORAGE_SHARED> S; };
template <typename E, long N> struct Make<C_GWRAPPED, E, N> { typedef geom::GenericStorage<E, N, geom::STORAGE_WRAPPED> S; };

typedef std::vector<i64> Arr;

template <int K, int C, long N>
struct World {
    typedef Elem<K> E;
    typedef typename Make<C, E, N>::S S;
    static constexpr bool wrapped = C == C_WRAPPED || C == C_GWRAPPED;
    static constexpr bool shared  = (C == C_STORAGE || C == C_SIZED || C == C_GSHARED) && N == 0;
    static constexpr bool sized   = !(shared && C != C_SIZED);
    struct Cell { alignas(64) char mem[sizeof(S) + 64]; S* s = nullptr; std::shared_ptr<Arr> m; };   // m null: holds no array
    Cell c[POOL];
    const Trace& t;
    // caller-owned arrays
    std::vector<E> ext[3]; std::shared_ptr<Arr> ext_m[3];
    size_t ext_count = 0;
    explicit World(const Trace& t) : t(t) {}

    void destroy(Cell& x) { if (x.s) { Lib l; x.s->~S(); } x.s = nullptr; x.m.reset(); rec.check(); }

    void verify() {
        std::vector<Arr*> seen; size_t elems = ext_count, blocks = 0;
        for (int i = 0; i < POOL; ++i) {
            Cell& x = c[i];
            if (!x.s) continue;
            size_t n = x.m ? x.m->size() : 0;
            if constexpr (sized) if (x.m || C == C_UNIQUE || C == C_GUNIQUE || wrapped) if (!(wrapped && N && !x.m)) SIM_REQUIRE(P, "size", (size_t)((const S*)x.s)->size() == (N && !x.m ? (size_t)N : n), "storage %d reports size %lld, expected %zu", i, (long long)x.s->size(), n);
            rec.check();
            for (size_t k = 0; k < n; ++k) {
                i64 v = peek(((const S*)x.s)->get()[k], P);
                SIM_REQUIRE(P, "content", v == (*x.m)[k], "storage %d element %zu is %lld, expected %lld", i, k, (long long)v, (long long)(*x.m)[k]);
                SIM_REQUIRE(P, "address", &(*x.s)[(long)k] == x.s->get() + k && (const void*)((const S*)x.s)->get() == (const void*)x.s->get(), "operator[] and get() disagree");
                rec.check();
            }
            if (x.m && !wrapped && std::find(seen.begin(), seen.end(), x.m.get()) == seen.end()) { seen.push_back(x.m.get()); elems += n; blocks += N == 0; }
            if (wrapped && x.m) { bool own = false; for (int q = 0; q < 3; ++q) own |= x.s->get() == ext[q].data(); SIM_REQUIRE(P, "wrapped", own, "wrapped storage refers to other memory than the caller's"); }
        }
        // two handles are one array exactly when the policy says so
        for (int i = 0; i < POOL; ++i) for (int j = i + 1; j < POOL; ++j) if (c[i].s && c[j].s && c[i].m && c[j].m && c[i].m->size() && c[j].m->size())
            SIM_REQUIRE(P, "sharing", (c[i].s->get() == c[j].s->get()) == (c[i].m == c[j].m), "storage %d and %d %s one array", i, j, c[i].m == c[j].m ? "no longer share" : "wrongly share");
        for (int q = 0; q < 3; ++q) for (size_t k = 0; k < ext[q].size(); ++k) SIM_REQUIRE(P, "caller-array", peek(ext[q][k], P) == (*ext_m[q])[k], "the caller's array changed");
        if (K != 4) SIM_REQUIRE(P, reg::count() > elems ? "element-leak" : "lost-elements", reg::count() == elems, "%llu elements alive, %zu owned", (unsigned long long)reg::count(), elems);
        rec.check();
    }
    // after a failure inside an assignment: contents may be any mixture of old, new, default and moved-from values
    void resync(Cell& x, const Arr& allowed, size_t max_n, bool moved) {
        if (!x.s) return;
        if constexpr (sized && !wrapped) {
            size_t n = (size_t)x.s->size();
            SIM_REQUIRE(P, "size", n <= max_n, "after a failure a storage claims %zu elements, at most %zu possible", n, max_n);
            rec.check();
            Arr now;
            for (size_t k = 0; k < n; ++k) {
                i64 v = peek(x.s->get()[k], P); rec.check();
                SIM_REQUIRE(P, "invented-value", v == DEFAULTED || (moved && v == MOVED) || std::find(allowed.begin(), allowed.end(), v) != allowed.end(), "after a failure a storage holds %lld, which was never put into it", (long long)v);
                now.push_back(v);
            }
            if (x.m) *x.m = now; else if (n) x.m.reset(new Arr(now));
        }
    }
    bool move_failed() { return faults.fired_any && (faults.fired_kind == F_MOVE || faults.fired_kind == F_MASSIGN || faults.fired_kind == F_COPY || faults.fired_kind == F_CASSIGN); }

    void construct(const Step& s, int i, const std::shared_ptr<Arr>& after, const std::function<void(void*)>& f) {
        Cell& x = c[i];
        destroy(x);
        memset(x.mem, 0xA5, sizeof x.mem);
        if (attempt(s, P, [&] { f(x.mem); }) == DONE) { x.s = (S*)x.mem; x.m = after; }
    }
    static Arr filled(size_t n) { return Arr(n, K == 4 ? 0 : DEFAULTED); }

    void step(const Step& s) {
        int i = (int)s.idx(0, POOL), j = (int)s.idx(1, POOL);
        Cell& x = c[i]; Cell& y = c[j];
        rec.state(mix64((u64)s.op * 100 + (u64)K * 7 + (u64)C) ^ (u64)(x.s ? 1 + (x.m ? x.m->size() : 50) : 0) * 1000 ^ (u64)(y.s ? 1 + (y.m ? y.m->size() : 50) : 0) * 77777 ^ (u64)N ^ (u64)(s.f.empty() ? 0 : 1 + s.f[0].kind) << 40);
        size_t n = N ? (size_t)N : s.idx(1, 512);
        switch (s.op) {
            case NEW_DEFAULT:
                if constexpr (K != 4 && N != 0 && (C == C_UNIQUE || C == C_STORAGE || C == C_SIZED)) construct(s, i, std::make_shared<Arr>(filled(N)), [](void* p) { new (p) S(); });
                break;
            case NEW_N: {
                if constexpr (K == 4) break;            // uninitialised contents
                if constexpr (C == C_GWRAPPED) { if constexpr (N == 0) construct(s, i, nullptr, [&](void* p) { new (p) S((long)n); }); }
                else if constexpr (!wrapped) construct(s, i, std::make_shared<Arr>(filled(n)), [&](void* p) { new (p) S((long)n); });
                break;
            }
            case NEW_DATA: {
                if constexpr (wrapped) {
                    int q = (int)s.idx(2, 3);
                    if (N == 0 || ext[q].size() == (size_t)N) construct(s, i, ext_m[q], [&](void* p) { new (p) S((long)ext[q].size(), ext[q].data()); });
                } else if constexpr (C != C_SIZED && E::copyable) {
                    std::vector<E> src; src.reserve(n + 1); auto m = std::make_shared<Arr>();
                    for (size_t k = 0; k < n; ++k) { i64 v = 1000 + (i64)s.idx(2, 1000) * 16 + (i64)k; src.push_back(E{v}); m->push_back(v); }
                    size_t base = ext_count; ext_count += src.size();
                    construct(s, i, m, [&](void* p) {
                        if constexpr (C == C_STORAGE && N != 0) if (s.idx(2, 2)) { new (p) S((const E*)src.data()); return; }
                        new (p) S((long)n, (const E*)src.data());
                    });
                    for (size_t k = 0; k < n; ++k) SIM_REQUIRE(P, "source", peek(src[k], P) == 1000 + (i64)s.idx(2, 1000) * 16 + (i64)k, "constructing from an array changed the array");
                    ext_count = base;
                }
                break;
            }
            case NEW_LIST: {
                if constexpr ((C == C_UNIQUE || C == C_GUNIQUE || C == C_GSHARED) && E::copyable) {
                    i64 v = 5000 + (i64)s.idx(2, 1000) * 16;
                    // a braced list's elements live in the caller's frame
                    struct { std::initializer_list<E>* l; } h;
                    auto go = [&](std::initializer_list<E> l) {
                        (void)h; size_t base = ext_count; ext_count += l.size();
                        auto m = std::make_shared<Arr>(); for (size_t k = 0; k < l.size(); ++k) m->push_back(v + (i64)k);
                        construct(s, i, m, [&](void* p) { new (p) S(l); });
                        ext_count = base;
                    };
                    switch (n) {
                        case 0: go({}); break;
                        case 1: go({E{v}}); break;
                        case 2: go({E{v}, E{v + 1}}); break;
                        case 3: go({E{v}, E{v + 1}, E{v + 2}}); break;
                        default: if (N == 0 || N == 4) go({E{v}, E{v + 1}, E{v + 2}, E{v + 3}});
                    }
                }
                break;
            }
            case COPY_CTOR:
                if constexpr (E::copyable || shared || wrapped) if (i != j && y.s && usable(y)) {
                    auto m = (shared || wrapped) ? y.m : y.m ? std::make_shared<Arr>(*y.m) : empty();
                    construct(s, i, m, [&](void* p) { new (p) S(*(const S*)y.s); });
                }
                break;
            case MOVE_CTOR:
                if constexpr (E::copyable || N == 0 || wrapped || E::movable) if (i != j && y.s && usable(y)) {
                    Arr old = y.m ? *y.m : Arr();
                    auto m = y.m; if (!shared && !wrapped) m = y.m ? std::make_shared<Arr>(*y.m) : empty();
                    construct(s, i, m, [&](void* p) { new (p) S(std::move(*y.s)); });
                    if (x.s || N) moved_from(y, x.s != nullptr, old);
                }
                break;
            case COPY_ASSIGN:
                if constexpr (E::copyable || shared || wrapped) if (x.s && y.s && usable(y)) {
                    Arr ox = x.m ? *x.m : Arr(), oy = y.m ? *y.m : Arr();
                    Outcome o = attempt(s, P, [&] { *x.s = *(const S*)y.s; });
                    if (shared || wrapped) { if (o == DONE) x.m = y.m; }
                    else if (o == DONE) { if (i != j) x.m = y.m ? std::make_shared<Arr>(oy) : empty(); }
                    else if (i != j) { Arr all = ox; all.insert(all.end(), oy.begin(), oy.end()); resync(x, all, std::max(ox.size(), oy.size()), false); }
                }
                break;
            case MOVE_ASSIGN:
                if (x.s && y.s && usable(y)) {
                    Arr ox = x.m ? *x.m : Arr(), oy = y.m ? *y.m : Arr();
                    auto ym = y.m;
                    Outcome o = attempt(s, P, [&] { *x.s = std::move(*y.s); });
                    if (o == DONE && i == j) {        // self-move: the object stays usable, its value is free
                        if (shared || wrapped) { if (!still_there(x)) x.m.reset(); }
                        else resync(x, ox, ox.size(), true);
                    } else if (o == DONE) {
                        if (shared || wrapped) x.m = ym; else x.m = ym ? std::make_shared<Arr>(oy) : empty();
                        moved_from(y, true, oy);
                    } else if (!shared && !wrapped) {
                        Arr all = ox; all.insert(all.end(), oy.begin(), oy.end());
                        resync(x, all, std::max(ox.size(), oy.size()), true);
                        if (i != j) resync(y, oy, oy.size(), true);
                    }
                }
                break;
            case DROP: destroy(x); break;
            case WRITE: case WRITE_PTR:
                if (x.s && x.m && x.m->size()) {
                    size_t k = s.idx(1, x.m->size()); i64 v = 100000 + (i64)s.idx(2, 100000);
                    E val{v}; ++ext_count;
                    Outcome o = attempt(s, P, [&] { if (s.op == WRITE) (*x.s)[(long)k] = std::move(val); else x.s->get()[k] = std::move(val); });
                    if (o == DONE) (*x.m)[k] = v;
                    --ext_count;
                }
                break;
            case READ:
                if constexpr (E::copyable) if (x.s && x.m && x.m->size()) {
                    size_t k = s.idx(1, x.m->size()); i64 v = 0; bool got = false;
                    Outcome o = attempt(s, P, [&] { E e = (*(const S*)x.s)[(long)k]; NoLib nl; v = peek(e, P); got = true; });
                    if (o == DONE && got) SIM_REQUIRE(P, "content", v == (*x.m)[k], "operator[] const returned %lld, expected %lld", (long long)v, (long long)(*x.m)[k]);
                }
                break;
        }
        rec.check();
        verify();
        for (int q = 0; q < POOL; ++q) { rec.log(c[q].s ? 1 : 0); if (c[q].m) for (i64 v : *c[q].m) rec.log((u64)v); }
    }
    std::shared_ptr<Arr> empty() { return (C == C_UNIQUE || C == C_GUNIQUE) && N == 0 ? nullptr : nullptr; }
    // may this object's array be read by a copy?
    bool usable(Cell& x) { return x.m || N == 0; }
    bool still_there(Cell& x) { return N != 0 || x.s->get() != nullptr; }
    void moved_from(Cell& y, bool done, const Arr& old) {
        if (!y.s) return;
        if constexpr (wrapped) return;
        if constexpr (shared) { if (done) { if (y.s->get() == nullptr) y.m.reset(); } return; }   // a moved-from handle may let go
        if constexpr (N == 0) { if constexpr (!shared) if (done) { if (y.s->get() == nullptr || y.s->size() == 0) { SIM_REQUIRE(P, "moved-from", y.s->size() == 0, "a storage that was moved from has no array but size %lld", (long long)y.s->size()); y.m.reset(); } else resync(y, old, old.size(), true); } return; }
        resync(y, old, old.size(), true);
    }
    void run() {
        for (int q = 0; q < 3; ++q) {
            size_t n = N ? (q == 2 ? (size_t)N + 1 : (size_t)N) : (size_t)q * 3;
            ext[q].reserve(n + 1); ext_m[q] = std::make_shared<Arr>();
            for (size_t k = 0; k < n; ++k) { ext[q].push_back(E{(i64)(q * 100 + (int)k)}); ext_m[q]->push_back(q * 100 + (i64)k); }
            ext_count += n;
        }
        int no = 0;
        for (auto& s : t.steps) {
            rec.cur_step = no++; rec.log((u64)s.op); rec.count(OPS[s.op]);
            faults.reset();
            step(s);
        }
        for (int i = 0; i < POOL; ++i) destroy(c[i]);
        if (K != 4) SIM_REQUIRE(P, "element-leak", reg::count() == ext_count, "%llu elements alive after every storage is gone", (unsigned long long)(reg::count() - ext_count));
        alloc_check_leaks();
        rec.check();
    }
};

#ifdef SIM_K
template <int C> static void run_n(const Trace& t) {
    switch (t.get("n")) {
        case 0: { World<SIM_K, C, 0> w(t); w.run(); break; }
        case 1: { World<SIM_K, C, 1> w(t); w.run(); break; }
        default: { World<SIM_K, C, 4> w(t); w.run(); break; }
    }
}
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(run_storage_, SIM_K)(const Trace& t) {
    switch (t.get("class")) {
        case C_UNIQUE:  run_n<C_UNIQUE>(t); break;
        case C_STORAGE: run_n<C_STORAGE>(t); break;
        case C_SIZED:   run_n<C_SIZED>(t); break;
        case C_WRAPPED: run_n<C_WRAPPED>(t); break;
        case C_GUNIQUE: run_n<C_GUNIQUE>(t); break;
        case C_GSHARED: run_n<C_GSHARED>(t); break;
        default:        run_n<C_GWRAPPED>(t); break;
    }
}
#else
void run_storage_0(const Trace&); void run_storage_1(const Trace&); void run_storage_2(const Trace&); void run_storage_3(const Trace&); void run_storage_4(const Trace&);
struct StorageScenario : Scenario {
    const char* name() const override { return "storage"; }
    std::vector<const char*> ops() const override { return std::vector<const char*>(OPS, OPS + OP_COUNT); }
    void generate(Rng& r, Trace& t, int) override {
        t.cfg["kind"] = (i64)r.below(5);
        t.cfg["class"] = (i64)(r.chance(1, 2) ? (r.chance(1, 2) ? C_UNIQUE : C_GUNIQUE) : (int)r.below(CLASSES));
        t.cfg["n"] = r.chance(3, 5) ? 0 : (i64)r.range(1, 2);
        unsigned fp = r.chance(1, 4) ? 0 : (unsigned)r.range(5, 45);
        std::vector<unsigned> w(OP_COUNT); for (auto& x : w) x = r.chance(1, 5) ? 0 : 1 + (unsigned)r.below(8);
        w[NEW_DATA] += 2; w[NEW_N] += 2;
        unsigned tot = 0; for (unsigned x : w) tot += x;
        int n = (int)r.range(4, 40); u64 many = r.chance(1, 12) ? 300 : 9;
        static const std::vector<int> kinds = {F_ALLOC, F_DEFAULT, F_COPY, F_MOVE, F_CASSIGN, F_MASSIGN};
        for (int q = 0; q < n; ++q) {
            unsigned z = (unsigned)r.below(tot); int op = 0; while (z >= w[(size_t)op]) z -= w[(size_t)op++];
            add_step(t, op, {(i64)r.below(POOL), (i64)r.below(many), (i64)r.below(1000)});
            maybe_fault(r, t, kinds, fp, 8);
        }
    }
    void execute(const Trace& t) override {
        alloc_prop = P; elem_prop = P;
        switch (t.get("kind")) { case 0: run_storage_0(t); break; case 1: run_storage_1(t); break; case 2: run_storage_2(t); break; case 3: run_storage_3(t); break; default: run_storage_4(t); }
    }
};
sim::Scenario* sim::make_scenario() { return new StorageScenario; }
#endif
