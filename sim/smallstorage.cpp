// C03 / C04: histories over a pool of geom::SmallStorage with allocator and element faults.
#include "core/sim.h"
#include "core/elem.h"
#include "core/ops.h"
#include <optional>
#include <algorithm>
#include <initializer_list>
#include <geomc/SmallStorage.h>

using namespace sim;
using geom::SmallStorage;

enum { PUSH_BACK, PUSH_BACK_SELF, EMPLACE_VAL, EMPLACE_COPY, EMPLACE_MOVE, EMPLACE_SELF, POP_BACK, PUSH_MANY, POP_MANY,
       RESIZE, RESIZE_VAL, RESIZE_SELF, RESERVE, CLEAR, COPY_CTOR, MOVE_CTOR, COPY_ASSIGN, MOVE_ASSIGN,
       NEW_EMPTY, NEW_N, NEW_LIST, NEW_PTR, NEW_FILL, SET, SET_ENDS, ITERATE, EQUAL, OP_COUNT };
static const char* OPS[] = { "push_back", "push_back_self", "emplace_val", "emplace_copy", "emplace_move", "emplace_self", "pop_back", "push_many", "pop_many",
       "resize", "resize_val", "resize_self", "reserve", "clear", "copy_ctor", "move_ctor", "copy_assign", "move_assign",
       "new_empty", "new_n", "new_list", "new_ptr", "new_fill", "set", "set_ends", "iterate", "equal" };

static const int POOL = 3;

template <int K, size_t N>
struct World {
    typedef Elem<K> E;
    typedef SmallStorage<E, N> D;
    struct Cell { void* mem; D* d; std::vector<i64> m; };
    Cell c[POOL];
    const Trace& t;
    explicit World(const Trace& t) : t(t) {}

    static void* raw() { void* p = ::operator new(sizeof(D), std::align_val_t(64)); memset(p, 0xA5, sizeof(D)); return p; }
    void make_empty(Cell& x) { Lib l; x.d = new (x.mem) D(); x.m.clear(); }
    void destroy(Cell& x) { { Lib l; x.d->~D(); } x.d = nullptr; x.m.clear(); rec.check(); }

    bool owned(Cell& x, const void* p) {
        if ((char*)p >= (char*)x.mem && (char*)p < (char*)x.mem + sizeof(D)) return true;
        return alloc_find(p, nullptr, nullptr);
    }

    void verify(int i) {
        Cell& x = c[i];
        D& d = *x.d; const D& cd = d;
        size_t n = x.m.size();
        SIM_REQUIRE("C03", "size", cd.size() == n, "array %d holds %zu items, expected %zu", i, cd.size(), n);
        SIM_REQUIRE("C03", "empty", cd.empty() == (n == 0), "empty() is wrong");
        rec.check();
        for (size_t k = 0; k < n && !rec.violated; ++k) {
            if (k == 0 || k + 1 == n) SIM_REQUIRE("C04", "not-owned", owned(x, &cd[k]), "item %zu of array %d lies outside memory the array owns", k, i);
            rec.check();
            i64 v = peek(cd[k], "C04");
            SIM_REQUIRE("C03", "content", v == x.m[k], "array %d item %zu is %lld, expected %lld", i, k, (long long)v, (long long)x.m[k]);
        }
        rec.check();
        SIM_REQUIRE("C03", "iterators", (size_t)(d.end() - d.begin()) == n && (size_t)(cd.end() - cd.begin()) == n && d.begin() == cd.begin() && d.data() == d.begin() && cd.data() == cd.begin(), "begin/end/data disagree with size");
        if (n) SIM_REQUIRE("C03", "ends", &d.front() == &d[0] && &cd.front() == &d[0] && &d.back() == &d[n - 1] && &cd.back() == &d[n - 1] && d.begin() == &d[0], "front/back/begin do not address the first/last item");
        SIM_REQUIRE("C03", "capacity", cd.capacity() >= cd.size() && cd.capacity() >= N && D::static_capacity() == N, "capacity %zu with %zu items", cd.capacity(), cd.size());
        rec.check();
    }
    void resync(int i, const std::vector<i64>& allowed, size_t max_size, bool moved_ok) {
        Cell& x = c[i];
        std::vector<i64> now;
        size_t n = x.d->size();
        SIM_REQUIRE("C03", "size", n <= max_size, "after a failed operation array %d claims %zu items, at most %zu possible", i, n, max_size);
        rec.check();
        for (size_t k = 0; k < n; ++k) {
            i64 v = peek((*x.d)[k], "C04");
            bool ok = (moved_ok && v == MOVED) || std::find(allowed.begin(), allowed.end(), v) != allowed.end();
            SIM_REQUIRE("C03", "invented-value", ok, "after a failed operation array %d holds %lld, which was never put into it", i, (long long)v);
            rec.check();
            now.push_back(v);
        }
        x.m = now;
    }
    static std::vector<i64> join(const std::vector<i64>& a, const std::vector<i64>& b) { std::vector<i64> r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
    bool throwing_move_fired() { return faults.fired_any && (faults.fired_kind == F_MOVE || faults.fired_kind == F_MASSIGN); }

    void settle(int i, Outcome o, const std::vector<i64>& after) {
        if (o == DONE) { c[i].m = after; return; }
        if (throwing_move_fired()) resync(i, join(c[i].m, after), c[i].m.size(), true);
    }

    static E make(i64 v) { return E{v}; }

    void append(const Step& s, int i, int how, i64 val) {
        Cell& x = c[i];
        std::vector<i64> after = x.m; after.push_back(val);
        const E* got = nullptr; Outcome o = FAILED;
        if (how == EMPLACE_VAL) o = attempt(s, "C04", [&] { got = &x.d->emplace_back(val); });
        else {
            E e{val};
            if constexpr (E::copyable) {
                if (how == PUSH_BACK)         o = attempt(s, "C04", [&] { got = &x.d->push_back(e); });
                else if (how == EMPLACE_COPY) o = attempt(s, "C04", [&] { const E& r = e; got = &x.d->emplace_back(r); });
                else                          o = attempt(s, "C04", [&] { got = &x.d->emplace_back(std::move(e)); });
                if (how != EMPLACE_MOVE) SIM_REQUIRE("C03", "argument", e.v == val, "appending a constant lvalue changed the argument");
            } else o = attempt(s, "C04", [&] { got = &x.d->emplace_back(std::move(e)); });
        }
        settle(i, o, after);
        if (o == DONE && x.d->size() == x.m.size()) SIM_REQUIRE("C03", "append-result", got == &(*x.d)[x.m.size() - 1], "append returned a reference to the wrong item");
        rec.check();
    }
    void pop(const Step& s, int i) {
        Cell& x = c[i];
        std::vector<i64> after = x.m; bool any = !after.empty(); i64 want = any ? after.back() : 0;
        if (any) after.pop_back();
        i64 val = 0; bool has = false;
        Outcome o = attempt(s, "C04", [&] { auto r = x.d->pop_back(); NoLib nl; has = r.has_value(); if (has) val = peek(*r, "C04"); });
        settle(i, o, after);
        if (o == DONE) {
            SIM_REQUIRE("C03", "pop-presence", has == any, "pop on an array of %zu returned %s", x.m.size(), has ? "an item" : "nothing");
            if (any && has) SIM_REQUIRE("C03", "pop-value", val == want, "pop returned %lld, expected %lld", (long long)val, (long long)want);
        }
        rec.check();
    }
    // resize; fill is the value new items must have
    template <typename F> void resize(const Step& s, int i, size_t n, i64 fill, F f) {
        Cell& x = c[i];
        std::vector<i64> old = x.m, after = x.m;
        after.resize(n, fill);
        Outcome o = attempt(s, "C04", f);
        if (o == DONE) x.m = after;
        else resync(i, join(old, {fill}), std::max(n, old.size()), throwing_move_fired());
        rec.check();
    }
    template <typename F> Outcome rebuild(const Step& s, int i, F mk) {
        destroy(c[i]);
        memset(c[i].mem, 0xA5, sizeof(D));
        Outcome o = attempt(s, "C04", [&] { c[i].d = mk(c[i].mem); });
        if (o == FAILED) make_empty(c[i]);
        return o;
    }
    template <size_t... I> static D* new_list(void* m, i64 v, std::index_sequence<I...>) {
        return new (m) D({E{v + (i64)I}...});
    }

    void step(const Step& s, int n) {
        rec.cur_step = n;
        int i = (int)s.idx(0, POOL);
        int j = (int)s.idx(1, POOL);
        Cell& x = c[i];
        rec.log((u64)s.op * 8 + (u64)i);
        rec.count(OPS[s.op]);
        switch (s.op) {
        case PUSH_BACK: case EMPLACE_VAL: case EMPLACE_COPY: case EMPLACE_MOVE: append(s, i, s.op, s.arg(1)); break;
        case PUSH_MANY: { size_t k = s.idx(2, 256) + 1; for (size_t q = 0; q < k; ++q) append(s, i, EMPLACE_MOVE, s.arg(1) + (i64)q); break; }
        case PUSH_BACK_SELF: case EMPLACE_SELF:
            if constexpr (E::copyable) {
                if (x.m.empty()) break;
                size_t k = s.idx(1, x.m.size());
                std::vector<i64> after = x.m; after.push_back(x.m[k]);
                Outcome o = attempt(s, "C04", [&] { E& r = (*x.d)[k]; if (s.op == PUSH_BACK_SELF) x.d->push_back(r); else x.d->emplace_back(r); });
                settle(i, o, after);
            }
            break;
        case POP_BACK: pop(s, i); break;
        case POP_MANY: { size_t k = s.idx(2, 256) + 1; for (size_t q = 0; q < k; ++q) pop(s, i); break; }
        case RESIZE: { size_t k = s.idx(1, 512); resize(s, i, k, default_value<K>(), [&] { x.d->resize(k); }); break; }
        case RESIZE_VAL: { size_t k = s.idx(1, 512); i64 v = s.arg(2); resize(s, i, k, v, [&] { x.d->resize(k, v); }); break; }
        case RESIZE_SELF:
            if constexpr (E::copyable) {
                if (x.m.empty()) break;
                size_t k = s.idx(1, 512), w = s.idx(2, x.m.size());
                resize(s, i, k, x.m[w], [&] { const E& r = (*x.d)[w]; x.d->resize(k, r); });
            }
            break;
        case RESERVE: {
            size_t cap = s.idx(1, 40);
            Outcome o = attempt(s, "C04", [&] { x.d->reserve(cap); });
            settle(i, o, x.m);
            if (o == DONE) SIM_REQUIRE("C03", "capacity", x.d->capacity() >= cap, "capacity %zu after reserve(%zu)", x.d->capacity(), cap);
            break;
        }
        case CLEAR: attempt(s, "C04", [&] { x.d->clear(); }); x.m.clear(); break;
        case COPY_CTOR:
            if constexpr (E::copyable) {
                if (i == j) break;
                Outcome o = rebuild(s, i, [&](void* m) { const D& src = *c[j].d; return new (m) D(src); });
                if (o == DONE) { x.m = c[j].m; SIM_REQUIRE("C03", "copy-unequal", *x.d == *c[j].d, "a copy does not compare equal to its source"); }
            }
            break;
        case MOVE_CTOR: {
            if (i == j) break;
            std::vector<i64> src = c[j].m;
            Outcome o = rebuild(s, i, [&](void* m) { return new (m) D(std::move(*c[j].d)); });
            if (o == DONE) { x.m = src; c[j].m.clear(); }
            else resync(j, src, src.size(), true);
            break;
        }
        case COPY_ASSIGN:
            if constexpr (E::copyable) {
                std::vector<i64> old = x.m, src = c[j].m;
                Outcome o = attempt(s, "C04", [&] { const D& k = *c[j].d; *x.d = k; });
                if (o == DONE) x.m = src;
                else resync(i, join(old, src), std::max(old.size(), src.size()), throwing_move_fired());
            }
            break;
        case MOVE_ASSIGN: {
            if (i == j) {
                // onto itself: the elements stay, or the container ends up empty; it must stay sound
                std::vector<i64> old = x.m;
                Outcome o = attempt(s, "C04", [&] { D& me = *x.d; me = std::move(*c[j].d); });
                if (o != DONE) resync(i, old, old.size(), true);
                else if (x.d->size() == 0) x.m.clear();
                break;
            }
            std::vector<i64> old = x.m, src = c[j].m;
            Outcome o = attempt(s, "C04", [&] { *x.d = std::move(*c[j].d); });
            if (o == DONE) { x.m = src; c[j].m.clear(); }
            else { resync(i, join(old, src), std::max(old.size(), src.size()), true); resync(j, src, src.size(), true); }
            break;
        }
        case NEW_EMPTY: destroy(x); memset(x.mem, 0xA5, sizeof(D)); make_empty(x); break;
        case NEW_N: { size_t k = s.idx(1, 20); Outcome o = rebuild(s, i, [&](void* m) { return new (m) D(k); }); if (o == DONE) x.m.assign(k, default_value<K>()); break; }
        case NEW_LIST:
            if constexpr (E::copyable) {
                i64 v = s.arg(2); size_t k = s.idx(1, 6);
                static const size_t lens[] = {0, 1, 2, 3, 5, 9};
                Outcome o = rebuild(s, i, [&](void* m) -> D* {
                    switch (k) { case 0: return new (m) D(std::initializer_list<E>()); case 1: return new_list(m, v, std::make_index_sequence<1>()); case 2: return new_list(m, v, std::make_index_sequence<2>());
                                 case 3: return new_list(m, v, std::make_index_sequence<3>()); case 4: return new_list(m, v, std::make_index_sequence<5>()); default: return new_list(m, v, std::make_index_sequence<9>()); }
                });
                if (o == DONE) for (size_t q = 0; q < lens[k]; ++q) x.m.push_back(v + (i64)q);
            }
            break;
        case NEW_PTR: case NEW_FILL:
            if constexpr (E::copyable) {
                size_t k = s.idx(1, 14); i64 v = s.arg(2);
                std::vector<E> src; src.reserve(k + 1); std::vector<i64> vals;
                for (size_t q = 0; q < k; ++q) { vals.push_back(s.op == NEW_PTR ? v + (i64)q : v); src.push_back(E{vals.back()}); }
                E one{v};
                Outcome o = rebuild(s, i, [&](void* m) { return s.op == NEW_PTR ? new (m) D(src.data(), k) : new (m) D(one, k); });
                if (o == DONE) x.m = vals;
            }
            break;
        case SET: if (!x.m.empty()) { size_t k = s.idx(1, x.m.size()); (*x.d)[k].v = s.arg(2); x.m[k] = s.arg(2); } break;
        case SET_ENDS: if (!x.m.empty()) { if (s.arg(1) & 1) { x.d->front().v = s.arg(2); x.m.front() = s.arg(2); } else { x.d->back().v = s.arg(2); x.m.back() = s.arg(2); } } break;
        case ITERATE: {
            size_t k = 0; bool ok = true;
            for (E& e : *x.d) { if (k >= x.m.size() || peek(e, "C04") != x.m[k]) ok = false; e.v = s.arg(1) + (i64)k; if (k < x.m.size()) x.m[k] = e.v; ++k; }
            SIM_REQUIRE("C03", "iteration", ok && k == x.m.size(), "iteration visited %zu of %zu items or the wrong ones", k, x.m.size());
            break;
        }
        case EQUAL: {
            bool want = x.m == c[j].m, eq = false;
            attempt(Step(), "C04", [&] { const D& a = *x.d; eq = a == *c[j].d; });
            SIM_REQUIRE("C03", "equality", eq == want, "comparing arrays %d and %d gave %d, expected %d", i, j, eq, want);
            break;
        }
        }
        rec.check();
        for (int q = 0; q < POOL; ++q) verify(q);
        u64 st = (u64)s.op;
        for (int q = 0; q < POOL; ++q) { st = mix64(st ^ (u64)c[q].d->size() * 131 ^ (u64)c[q].d->capacity() * 7919); rec.log((u64)c[q].m.size()); for (i64 v : c[q].m) rec.log((u64)v); }
        st = mix64(st ^ (faults.fired_any ? 1 + (u64)faults.fired_kind : 0));
        rec.state(st ^ (u64)(K * 16 + N));
        if (rec.verbose)
            for (int q = 0; q < POOL; ++q) {
                std::string m; for (i64 v : c[q].m) m += std::to_string(v) + " ";
                rec.log_text("step %d %s: array %d = [%s] cap %zu", n, OPS[s.op], q, m.c_str(), c[q].d->capacity());
            }
    }

    void run() {
        for (int i = 0; i < POOL; ++i) { c[i].mem = raw(); make_empty(c[i]); }
        int n = 0;
        for (auto& s : t.steps) step(s, n++);
        rec.cur_step = n;
        for (int i = 0; i < POOL; ++i) { destroy(c[i]); ::operator delete(c[i].mem, std::align_val_t(64)); }
        rec.check();
        SIM_REQUIRE("C04", "leaked-element", reg::count() == 0, "%llu item(s) never destroyed", (unsigned long long)reg::count());
        rec.check();
        alloc_check_leaks();
        rec.check();
    }
};

template <int K> void by_n(const Trace& t) {
    switch (t.get("N")) {
        case 0: { World<K, 0> w(t); w.run(); break; }
        case 1: { World<K, 1> w(t); w.run(); break; }
        case 3: { World<K, 3> w(t); w.run(); break; }
        default: { World<K, 6> w(t); w.run(); break; }
    }
}

#ifdef SIM_K
template void by_n<SIM_K>(const Trace&);
#else
extern template void by_n<0>(const Trace&);
extern template void by_n<1>(const Trace&);
extern template void by_n<2>(const Trace&);
extern template void by_n<3>(const Trace&);
extern template void by_n<4>(const Trace&);

struct SmallScenario : Scenario {
    const char* name() const override { return "smallstorage"; }
    std::vector<const char*> ops() const override { return std::vector<const char*>(OPS, OPS + OP_COUNT); }
    void generate(Rng& r, Trace& t, int tier) override {
        static const int Ns[] = {0, 1, 3, 6};
        t.cfg["K"] = (i64)r.below(5);
        t.cfg["N"] = Ns[r.below(4)];
        std::vector<int> kinds; unsigned pct = 0;
        if (!r.chance(1, 3)) {
            for (int k : {F_ALLOC, F_COPY, F_MOVE, F_DEFAULT}) if (r.chance(1, 2)) kinds.push_back(k);
            if (kinds.empty()) kinds.push_back(F_ALLOC);
            pct = (unsigned)r.range(5, 40);
        }
        int n = r.chance(1, 3) ? (int)r.range(1, 8) : (int)r.range(5, tier ? 120 : 50);
        u64 many = r.chance(1, 16) ? 200 : 12;      // few runs hold many elements
        std::vector<int> w(OP_COUNT);
        for (int k = 0; k < OP_COUNT; ++k) w[k] = r.chance(1, 4) ? 0 : (int)r.range(1, 6);
        w[PUSH_BACK] += 2; w[EMPLACE_MOVE] += 2;
        int tot = 0; for (int k : w) tot += k;
        i64 val = 100;
        for (int q = 0; q < n; ++q) {
            int z = (int)r.below(tot), op = 0; while (z >= w[op]) z -= w[op++];
            i64 i = (i64)r.below(POOL);
            switch (op) {
                case COPY_CTOR: case MOVE_CTOR: case COPY_ASSIGN: case MOVE_ASSIGN: case EQUAL: add_step(t, op, {i, (i64)r.below(POOL)}); break;
                case PUSH_BACK_SELF: case EMPLACE_SELF: add_step(t, op, {i, (i64)r.below(64)}); break;
                case RESIZE: add_step(t, op, {i, r.small(many > 12 ? 300 : 23)}); break;
                case RESIZE_VAL: add_step(t, op, {i, r.small(many > 12 ? 300 : 23), ++val}); break;
                case RESIZE_SELF: add_step(t, op, {i, (i64)r.below(2 * many), (i64)r.below(64)}); break;
                case RESERVE: add_step(t, op, {i, r.small(many > 12 ? 600 : 39)}); break;
                case NEW_N: add_step(t, op, {i, r.small(19)}); break;
                case NEW_LIST: add_step(t, op, {i, (i64)r.below(6), val += 20}); break;
                case NEW_PTR: case NEW_FILL: add_step(t, op, {i, r.small(13), val += 20}); break;
                case PUSH_MANY: case POP_MANY: add_step(t, op, {i, val += (i64)many + 8, (i64)r.below(many)}); break;
                case SET: add_step(t, op, {i, (i64)r.below(64), ++val}); break;
                case SET_ENDS: add_step(t, op, {i, (i64)r.below(2), ++val}); break;
                case ITERATE: add_step(t, op, {i, val += 40}); break;
                default: add_step(t, op, {i, ++val}); break;
            }
            if (op != SET && op != SET_ENDS && op != EQUAL && op != NEW_EMPTY && op != ITERATE && op != CLEAR) maybe_fault(r, t, kinds, pct);
        }
    }
    void execute(const Trace& t) override {
        alloc_prop = "C04"; elem_prop = "C04";
        switch (t.get("K")) { case 0: by_n<0>(t); break; case 1: by_n<1>(t); break; case 2: by_n<2>(t); break; case 3: by_n<3>(t); break; default: by_n<4>(t); }
    }
};
sim::Scenario* sim::make_scenario() { return new SmallScenario; }
#endif
