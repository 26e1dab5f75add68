// C01 / C02: histories over a pool of geom::Deque with allocator and element faults.
#include "core/sim.h"
#include "core/elem.h"
#include "core/ops.h"
#include <optional>
#include <algorithm>
#include <geomc/geomc_defs.h>
#include <geomc/Deque.h>

using namespace sim;
using geom::Deque;

enum { PUSH_BACK, PUSH_BACK_MOVE, PUSH_FRONT, PUSH_FRONT_MOVE, PUSH_BACK_SELF, PUSH_FRONT_SELF,
       POP_BACK, POP_FRONT, CLEAR, RESERVE, COPY_CTOR, MOVE_CTOR, COPY_ASSIGN, MOVE_ASSIGN,
       NEW_EMPTY, NEW_CAP, NEW_RANGE, SET, SET_ENDS, EQUAL, PUSH_MANY, POP_MANY, OP_COUNT };
static const char* OPS[] = { "push_back", "push_back_move", "push_front", "push_front_move", "push_back_self", "push_front_self",
       "pop_back", "pop_front", "clear", "reserve", "copy_ctor", "move_ctor", "copy_assign", "move_assign",
       "new_empty", "new_cap", "new_range", "set", "set_ends", "equal", "push_many", "pop_many" };

static const int POOL = 3;

template <int K, index_t N>
struct World {
    typedef Elem<K> E;
    typedef Deque<E, N> D;
    struct Cell { void* mem; D* d; std::vector<i64> m; };
    Cell c[POOL];
    const Trace& t;
    explicit World(const Trace& t) : t(t) {}

    static void* raw() { return ::operator new(sizeof(D), std::align_val_t(64)); }
    void free_raw(Cell& x) { ::operator delete(x.mem, std::align_val_t(64)); x.mem = nullptr; }

    void make_empty(Cell& x) { Lib l; x.d = new (x.mem) D(); x.m.clear(); }
    void destroy(Cell& x) { { Lib l; x.d->~D(); } x.d = nullptr; x.m.clear(); rec.check(); }

    bool owned(Cell& x, const void* p) {
        if ((char*)p >= (char*)x.mem && (char*)p < (char*)x.mem + sizeof(D)) return true;
        return alloc_find(p, nullptr, nullptr);
    }

    // compare a queue with its model through the public interface
    void verify(int i) {
        Cell& x = c[i];
        D& d = *x.d; const D& cd = d;
        SIM_REQUIRE("C01", "size", (u64)cd.size() == x.m.size(), "queue %d holds %lld elements, expected %zu", i, (long long)cd.size(), x.m.size());
        rec.check();
        index_t n = (index_t)x.m.size();
        for (index_t k = 0; k < n && !rec.violated; ++k) {
            const E* p = &cd[k];
            if (k == 0 || k == n - 1) {
                SIM_REQUIRE("C02", "not-owned", owned(x, p), "element %lld of queue %d lies outside memory the queue owns", (long long)k, i);
                rec.check();
            }
            i64 v = peek(*p, "C02");
            // a dead element is also a wrong sequence
            SIM_REQUIRE("C01", "content", v == x.m[k], "queue %d element %lld is %lld, expected %lld", i, (long long)k, (long long)v, (long long)x.m[k]);
        }
        rec.check();
        if (n > 0) {
            SIM_REQUIRE("C01", "front", &d.front() == &d[0] && &cd.front() == &d[0], "front() is not the first element");
            SIM_REQUIRE("C01", "back", &d.back() == &d[n - 1] && &cd.back() == &d[n - 1], "back() is not the last element");
            for (index_t k = -2 * n; k < 3 * n; k += (n > 6 ? 5 : 1)) {
                index_t w = ((k % n) + n) % n;
                if (&d[k] != &d[w] || &cd[k] != &d[w]) { SIM_REQUIRE("C01", "wrap", false, "index %lld of %lld does not wrap to %lld", (long long)k, (long long)n, (long long)w); break; }
            }
        }
        SIM_REQUIRE("C01", "capacity", cd.capacity() >= cd.size() && cd.capacity() >= N, "capacity %lld with %lld elements", (long long)cd.capacity(), (long long)cd.size());
        rec.check();
    }
    // after an interrupted multi-element operation: adopt whatever valid sequence is there
    void resync(int i, const std::vector<i64>& allowed, size_t max_size, bool moved_ok) {
        Cell& x = c[i];
        std::vector<i64> now;
        size_t n = (size_t)x.d->size();
        SIM_REQUIRE("C01", "size", n <= max_size, "after a failed operation queue %d claims %zu elements, at most %zu possible", i, n, max_size);
        rec.check();
        for (size_t k = 0; k < n; ++k) {
            i64 v = peek((*x.d)[(index_t)k], "C02");
            bool ok = (moved_ok && v == MOVED) || std::find(allowed.begin(), allowed.end(), v) != allowed.end();
            SIM_REQUIRE("C01", "invented-value", ok, "after a failed operation queue %d holds %lld, which was never put into it", i, (long long)v);
            rec.check();
            now.push_back(v);
        }
        x.m = now;
    }
    static std::vector<i64> join(const std::vector<i64>& a, const std::vector<i64>& b) { std::vector<i64> r = a; r.insert(r.end(), b.begin(), b.end()); return r; }

    bool throwing_move_fired() { return faults.fired_any && (faults.fired_kind == F_MOVE || faults.fired_kind == F_MASSIGN); }

    // outcome of a push/pop/reserve that must be all-or-nothing unless a *move* threw
    void settle(int i, Outcome o, const std::vector<i64>& after, size_t old_n) {
        if (o == DONE) { c[i].m = after; return; }
        if (throwing_move_fired()) resync(i, join(c[i].m, after), old_n, true);
    }

    void push(const Step& s, int i, bool front, bool mv, i64 val) {
        Cell& x = c[i];
        std::vector<i64> after = x.m;
        if (front) after.insert(after.begin(), val); else after.push_back(val);
        E e(val);
        const E* got = nullptr;
        Outcome o = FAILED;
        size_t n = x.m.size();
        if (mv) {
            o = attempt(s, "C02", [&] { got = front ? &x.d->push_front(std::move(e)) : &x.d->push_back(std::move(e)); });
        } else if constexpr (E::copyable) {
            o = attempt(s, "C02", [&] { got = front ? &x.d->push_front(e) : &x.d->push_back(e); });
            SIM_REQUIRE("C01", "argument", e.v == val, "pushing a constant lvalue changed the argument");
        } else {
            o = attempt(s, "C02", [&] { got = front ? &x.d->push_front(std::move(e)) : &x.d->push_back(std::move(e)); });
        }
        settle(i, o, after, n);
        if (o == DONE) {
            index_t last = (index_t)x.m.size() - 1;
            if (x.d->size() == last + 1) SIM_REQUIRE("C01", "push-result", got == &(*x.d)[front ? 0 : last], "push returned a reference to the wrong element");
        }
        rec.check();
    }

    void push_self(const Step& s, int i, bool front, size_t k) {
        if constexpr (E::copyable) {
            Cell& x = c[i];
            if (x.m.empty()) return;
            std::vector<i64> after = x.m;
            i64 val = x.m[k];
            if (front) after.insert(after.begin(), val); else after.push_back(val);
            size_t n = x.m.size();
            Outcome o = attempt(s, "C02", [&] { const E& ref = (*x.d)[(index_t)k]; if (front) x.d->push_front(ref); else x.d->push_back(ref); });
            settle(i, o, after, n);
            rec.check();
        }
    }

    void pop(const Step& s, int i, bool front) {
        Cell& x = c[i];
        std::vector<i64> after = x.m;
        i64 want = 0; bool any = !after.empty();
        if (any) { if (front) { want = after.front(); after.erase(after.begin()); } else { want = after.back(); after.pop_back(); } }
        std::optional<E> got;
        size_t n = x.m.size();
        // the popped value is received into a fresh object, as a caller would
        Outcome o = FAILED;
        i64 val = 0; bool has = false;
        o = attempt(s, "C02", [&] {
            if (front) { auto r = x.d->pop_front(); NoLib nl; has = r.has_value(); if (has) val = peek(*r, "C02"); }
            else       { auto r = x.d->pop_back();  NoLib nl; has = r.has_value(); if (has) val = peek(*r, "C02"); }
        });
        settle(i, o, after, n);
        if (o == DONE) {
            SIM_REQUIRE("C01", "pop-presence", has == any, "pop on a queue of %zu returned %s", n, has ? "a value" : "nothing");
            if (any && has) SIM_REQUIRE("C01", "pop-value", val == want, "pop returned %lld, expected %lld", (long long)val, (long long)want);
        }
        rec.check();
    }

    struct It {           // input iterator over freshly made elements
        const E* p;
        const E& operator*() const { return *p; }
        It& operator++() { ++p; return *this; }
    };

    // replace queue i by a new one built by `make`; on failure the slot gets a fresh empty queue
    template <typename F>
    Outcome rebuild(const Step& s, int i, F make) {
        destroy(c[i]);
        Outcome o = attempt(s, "C02", [&] { c[i].d = make(c[i].mem); });
        if (o == FAILED) make_empty(c[i]);
        return o;
    }

    void step(const Step& s, int n) {
        rec.cur_step = n;
        int i = (int)s.idx(0, POOL);
        Cell& x = c[i];
        rec.log((u64)s.op * 8 + (u64)i);
        rec.count(OPS[s.op]);
        int j = (int)s.idx(1, POOL);
        bool touched_j = false;
        switch (s.op) {
        case PUSH_BACK:       push(s, i, false, false, s.arg(1)); break;
        case PUSH_BACK_MOVE:  push(s, i, false, true,  s.arg(1)); break;
        case PUSH_FRONT:      push(s, i, true,  false, s.arg(1)); break;
        case PUSH_FRONT_MOVE: push(s, i, true,  true,  s.arg(1)); break;
        case PUSH_BACK_SELF:  push_self(s, i, false, s.idx(1, x.m.size())); break;
        case PUSH_FRONT_SELF: push_self(s, i, true,  s.idx(1, x.m.size())); break;
        case POP_BACK:  pop(s, i, false); break;
        case POP_FRONT: pop(s, i, true); break;
        case PUSH_MANY: { size_t k = s.idx(2, 256) + 1; for (size_t q = 0; q < k; ++q) push(s, i, s.arg(3) & 1, true, s.arg(1) + (i64)q); break; }
        case POP_MANY:  { size_t k = s.idx(2, 256) + 1; for (size_t q = 0; q < k; ++q) pop(s, i, s.arg(3) & 1); break; }
        case CLEAR: { Outcome o = attempt(s, "C02", [&] { x.d->clear(); }); if (o == DONE) x.m.clear(); break; }
        case RESERVE: {
            size_t cap = s.idx(1, 40);
            size_t old = x.m.size();
            Outcome o = attempt(s, "C02", [&] { x.d->reserve((index_t)cap); });
            settle(i, o, x.m, old);
            if (o == DONE) SIM_REQUIRE("C01", "capacity", (u64)x.d->capacity() >= cap, "capacity %lld after reserve(%zu)", (long long)x.d->capacity(), cap);
            break;
        }
        case COPY_CTOR:
            if constexpr (E::copyable) {
                if (i == j) break;
                touched_j = true;
                Outcome o = rebuild(s, i, [&](void* m) { const D& src = *c[j].d; return new (m) D(src); });
                if (o == DONE) x.m = c[j].m;
                rec.check();
                if (o == DONE) SIM_REQUIRE("C01", "copy-unequal", *x.d == *c[j].d, "a copy does not compare equal to its source");
            }
            break;
        case MOVE_CTOR: {
            if (i == j) break;
            touched_j = true;
            std::vector<i64> src = c[j].m;
            Outcome o = rebuild(s, i, [&](void* m) { return new (m) D(std::move(*c[j].d)); });
            if (o == DONE) { x.m = src; c[j].m.clear(); }
            else resync(j, src, src.size(), true);
            break;
        }
        case COPY_ASSIGN:
            if constexpr (E::copyable) {
                touched_j = true;
                std::vector<i64> old = x.m, src = c[j].m;
                Outcome o = attempt(s, "C02", [&] { const D& k = *c[j].d; *x.d = k; });
                if (o == DONE) x.m = src;
                else resync(i, join(old, src), std::max(old.size(), src.size()), throwing_move_fired());
            }
            break;
        case MOVE_ASSIGN: {
            if (i == j) {
                // onto itself: the elements stay, or the container ends up empty; it must stay sound
                std::vector<i64> old = x.m;
                Outcome o = attempt(s, "C02", [&] { D& me = *x.d; me = std::move(*c[j].d); });
                if (o != DONE) resync(i, old, old.size(), true);
                else if (x.d->size() == 0) x.m.clear();
                break;
            }
            touched_j = true;
            std::vector<i64> old = x.m, src = c[j].m;
            Outcome o = attempt(s, "C02", [&] { *x.d = std::move(*c[j].d); });
            if (o == DONE) { x.m = src; c[j].m.clear(); }
            else { resync(i, join(old, src), std::max(old.size(), src.size()), true); resync(j, src, src.size(), true); }
            break;
        }
        case NEW_EMPTY: destroy(x); make_empty(x); break;
        case NEW_CAP: {
            index_t cap = (index_t)s.idx(1, 20);
            rebuild(s, i, [&](void* m) { return new (m) D(cap); });
            if (c[i].d->capacity() < 0) {}
            break;
        }
        case NEW_RANGE:
            if constexpr (E::copyable) {
                size_t n = s.idx(1, 14);
                std::vector<E> src; src.reserve(n ? n : 1);
                std::vector<i64> vals;
                for (size_t k = 0; k < n; ++k) { src.emplace_back(s.arg(2) + (i64)k); vals.push_back(s.arg(2) + (i64)k); }
                It it{src.data()};
                Outcome o = rebuild(s, i, [&](void* m) { return new (m) D(it, (index_t)n); });
                if (o == DONE) x.m = vals;
            }
            break;
        case SET:
            if (!x.m.empty()) {
                i64 k = s.arg(1) % (i64)(3 * x.m.size());
                i64 n = (i64)x.m.size();
                i64 w = ((k % n) + n) % n;
                (*x.d)[k].v = s.arg(2); x.m[(size_t)w] = s.arg(2);
            }
            break;
        case SET_ENDS:
            if (!x.m.empty()) { if (s.arg(1) & 1) { x.d->front().v = s.arg(2); x.m.front() = s.arg(2); } else { x.d->back().v = s.arg(2); x.m.back() = s.arg(2); } }
            break;
        case EQUAL: {
            touched_j = true;
            bool want = x.m == c[j].m;
            bool eq = false, ne = false;
            attempt(Step(), "C02", [&] { eq = *x.d == *c[j].d; ne = *x.d != *c[j].d; });
            SIM_REQUIRE("C01", "equality", eq == want && ne == !want, "comparing queues %d and %d gave %d/%d, expected equal=%d", i, j, eq, ne, want);
            break;
        }
        }
        rec.check();
        for (int q = 0; q < POOL; ++q) verify(q);
        (void)touched_j;
        u64 st = (u64)s.op;
        for (int q = 0; q < POOL; ++q) { st = mix64(st ^ (u64)c[q].d->size() * 131 ^ (u64)c[q].d->capacity() * 7919); rec.log((u64)c[q].m.size()); for (i64 v : c[q].m) rec.log((u64)v); }
        st = mix64(st ^ (faults.fired_any ? 1 + (u64)faults.fired_kind : 0));
        rec.state(st ^ (u64)(K * 16 + N));
        if (rec.verbose) {
            for (int q = 0; q < POOL; ++q) {
                std::string m; for (i64 v : c[q].m) m += std::to_string(v) + " ";
                rec.log_text("step %d %s: queue %d = [%s] cap %lld", n, OPS[s.op], q, m.c_str(), (long long)c[q].d->capacity());
            }
        }
    }

    void run() {
        for (int i = 0; i < POOL; ++i) { c[i].mem = raw(); make_empty(c[i]); }
        int n = 0;
        for (auto& s : t.steps) step(s, n++);
        rec.cur_step = n;
        for (int i = 0; i < POOL; ++i) { destroy(c[i]); free_raw(c[i]); }
        rec.check();
        SIM_REQUIRE("C02", "leaked-element", reg::count() == 0, "%llu element(s) never destroyed", (unsigned long long)reg::count());
        rec.check();
        alloc_check_leaks();
        rec.check();
    }
};

template <int K> void by_n(const Trace& t) {
    switch (t.get("N")) {
        case 0: { World<K, 0> w(t); w.run(); break; }
        case 1: { World<K, 1> w(t); w.run(); break; }
        case 2: { World<K, 2> w(t); w.run(); break; }
        case 4: { World<K, 4> w(t); w.run(); break; }
        default: { World<K, 7> w(t); w.run(); break; }
    }
}

#ifdef SIM_K
template void by_n<SIM_K>(const Trace&);
#else
extern template void by_n<0>(const Trace&);
extern template void by_n<1>(const Trace&);
extern template void by_n<2>(const Trace&);
extern template void by_n<3>(const Trace&);

struct DequeScenario : Scenario {
    const char* name() const override { return "deque"; }
    std::vector<const char*> ops() const override { return std::vector<const char*>(OPS, OPS + OP_COUNT); }
    void generate(Rng& r, Trace& t, int tier) override {
        static const int Ns[] = {0, 1, 2, 4, 7};
        t.cfg["K"] = (i64)r.below(4);
        t.cfg["N"] = Ns[r.below(5)];
        // fault mix: a third of the runs have none
        std::vector<int> kinds; unsigned pct = 0;
        if (!r.chance(1, 3)) {
            for (int k : {F_ALLOC, F_COPY, F_MOVE, F_CASSIGN}) if (r.chance(1, 2)) kinds.push_back(k);
            if (kinds.empty()) kinds.push_back(F_ALLOC);
            pct = (unsigned)r.range(5, 40);
        }
        int n = r.chance(1, 3) ? (int)r.range(1, 8) : (int)r.range(5, tier ? 120 : 50);
        u64 many = r.chance(1, 16) ? 200 : 12;      // few runs hold many elements
        // swarm: a random subset of operations is enabled
        std::vector<int> w(OP_COUNT);
        for (int k = 0; k < OP_COUNT; ++k) w[k] = r.chance(1, 4) ? 0 : (int)r.range(1, 6);
        w[PUSH_BACK] += 2; w[PUSH_FRONT] += 2;
        int tot = 0; for (int k : w) tot += k;
        i64 val = 100;
        for (int q = 0; q < n; ++q) {
            int z = (int)r.below(tot), op = 0; while (z >= w[op]) z -= w[op++];
            i64 i = (i64)r.below(POOL);
            switch (op) {
                case COPY_CTOR: case MOVE_CTOR: case COPY_ASSIGN: case MOVE_ASSIGN: case EQUAL: add_step(t, op, {i, (i64)r.below(POOL)}); break;
                case PUSH_BACK_SELF: case PUSH_FRONT_SELF: add_step(t, op, {i, (i64)r.below(64)}); break;
                case RESERVE: add_step(t, op, {i, r.small(many > 12 ? 600 : 39)}); break;
                case NEW_CAP: add_step(t, op, {i, r.small(19)}); break;
                case NEW_RANGE: add_step(t, op, {i, r.small(13), val += 20}); break;
                case PUSH_MANY: case POP_MANY: add_step(t, op, {i, val += (i64)many + 8, (i64)r.below(many), (i64)r.below(2)}); break;
                case SET: add_step(t, op, {i, r.range(-30, 30), ++val}); break;
                case SET_ENDS: add_step(t, op, {i, (i64)r.below(2), ++val}); break;
                default: add_step(t, op, {i, ++val}); break;
            }
            if (op != SET && op != SET_ENDS && op != EQUAL && op != NEW_EMPTY) maybe_fault(r, t, kinds, pct);
        }
    }
    void execute(const Trace& t) override {
        alloc_prop = "C02"; elem_prop = "C02";
        switch (t.get("K")) { case 0: by_n<0>(t); break; case 1: by_n<1>(t); break; case 2: by_n<2>(t); break; default: by_n<3>(t); }
    }
};
sim::Scenario* sim::make_scenario() { return new DequeScenario; }
#endif
