// C28: histories over lattice partitions (spatial hash grids), with refused allocations and failing element copies.
#include "core/sim.h"
#include "core/elem.h"
#include "core/ops.h"
#include <geomc/shape/BinLatticePartition.h>
#include <algorithm>
#include <cmath>
#include <memory>

using namespace sim;
#define P "C28"

enum { NEW, INSERT, INSERT_MANY, ERASE, ERASE_BIN, CLEAR, COPY, ASSIGN, DROP, WRITE, QUERY_POINT, QUERY_RECT, REWIND, BINS, OP_COUNT };
static const char* OPS[] = {"new", "insert", "insert_many", "erase", "erase_bin_iterator", "clear", "copy", "assign", "drop", "write", "query_point", "query_rect", "rewind", "bins"};
static const int POOL = 3;

template <typename T, index_t N, int K>
struct World {
    typedef Elem<K> E;
    typedef geom::BinLatticePartition<T, N, E> B;
    typedef typename B::point_t point;
    struct Item { T p[N]; i64 v; bool operator<(const Item& o) const { for (index_t i = 0; i < N; ++i) if (p[i] != o.p[i]) return p[i] < o.p[i]; return v < o.v; } bool operator==(const Item& o) const { return !(*this < o) && !(o < *this); } };
    typedef std::vector<Item> Set;
    struct Cell { B* b = nullptr; T cs; Set m; };
    const Trace& t;
    Cell c[POOL];
    i64 serial = 0;
    explicit World(const Trace& t) : t(t) {}

    static i64 value(const E& e) {
        NoLib nl;
        SIM_REQUIRE(P, "dead-element", reg::live(&e), "an iterator gives an element that is not alive");
        rec.check();
        return e.v;
    }
    static Item item(const typename B::item_t& i) { Item r; for (index_t k = 0; k < N; ++k) r.p[k] = i.first[k]; r.v = value(i.second); return r; }
    static Set contents(B& b) { Set s; for (auto i = b.begin(); i != b.end(); ++i) { s.push_back(item(*i)); if (s.size() > 10000) break; } std::sort(s.begin(), s.end()); return s; }
    // a coordinate on, next to or between the boundaries of bins
    T coord(u64 h, T cs) const {
        i64 k = (i64)(h % 33) - 16;
        T v = (T)k * cs / 4;
        switch ((h >> 20) % 6) { case 0: return std::nextafter(v, (T)1e9); case 1: return std::nextafter(v, (T)-1e9); case 2: return v + cs * (T)((h >> 30) % 64) / 128; default: return v; }
    }
    void fail_check(Outcome o, Cell& x, const Set& before, const char* what) {
        if (o == DONE) return;
        Set now = contents(*x.b);
        SIM_REQUIRE(P, "failed-operation", now == before, "%s failed, and the partition holds %zu items where it held %zu", what, now.size(), before.size());
        rec.check();
    }
    void drop(Cell& x) { Lib l; delete x.b; x.b = nullptr; NoLib nl; x.m.clear(); }

    void insert(const Step& st, Cell& x, u64 h) {
        point p; Item m;
        for (index_t a = 0; a < N; ++a) { h = mix64(h); m.p[a] = p[a] = coord(h, x.cs); }
        if (!x.m.empty() && (h >> 50) % 4 == 0) { m = x.m[(h >> 10) % x.m.size()]; for (index_t a = 0; a < N; ++a) p[a] = m.p[a]; }   // many items in one place
        m.v = ++serial;
        Outcome o = attempt(st, P, [&] { x.b->insert(p, E(m.v)); });
        fail_check(o, x, x.m, "an insertion");
        if (o == DONE) { x.m.push_back(m); std::sort(x.m.begin(), x.m.end()); }
    }
    template <typename It> void results(Cell& x, It it, const T* lo, const T* hi, const char* what) {
        Set got;
        bool far = false, bin = true; Item worst;
        It end; { Lib l; end = it.end(); }
        while (true) {
            bool more; { Lib l; more = it != end; }
            if (!more) break;
            Item m = item(*it); got.push_back(m);
            for (index_t a = 0; a < N; ++a) { T slack = x.cs + (std::fabs(lo[a]) + std::fabs(hi[a]) + x.cs) * (T)1e-5; if (m.p[a] < lo[a] - slack || m.p[a] > hi[a] + slack) { far = true; worst = m; } }
            { Lib l; point p; for (index_t a = 0; a < N; ++a) p[a] = m.p[a]; bin = bin && it.current_bin() == x.b->binOf(p); }
            SIM_REQUIRE(P, "query-repeats", got.size() <= x.m.size(), "%s gives more items than are stored", what);
            rec.check();
            { Lib l; ++it; }
        }
        std::sort(got.begin(), got.end());
        for (size_t k = 0; k < got.size(); ++k) {
            SIM_REQUIRE(P, "query-repeats", k == 0 || !(got[k] == got[k - 1]), "%s gives one item twice", what);
            SIM_REQUIRE(P, "query-foreign", std::binary_search(x.m.begin(), x.m.end(), got[k]), "%s gives an item that is not stored", what);
        }
        for (auto& m : x.m) {
            bool in = true; for (index_t a = 0; a < N; ++a) in = in && m.p[a] >= lo[a] && m.p[a] <= hi[a];
            SIM_REQUIRE(P, "query-misses", !in || std::binary_search(got.begin(), got.end(), m), "%s misses the item at (%.9g, %.9g, ...), bins of %.9g, region (%.9g, %.9g, ...) to (%.9g, %.9g, ...)", what, (double)m.p[0], (double)m.p[1], (double)x.cs, (double)lo[0], (double)lo[1], (double)hi[0], (double)hi[1]);
        }
        SIM_REQUIRE(P, "query-far", !far, "%s gives an item more than a bin away from the region, at (%.9g, %.9g, ...)", what, (double)worst.p[0], (double)worst.p[1]);
        SIM_REQUIRE(P, "bin", bin, "%s: current_bin() is not the bin of the item", what);
        rec.log(got.size());
        rec.count("items_found", got.size());
        rec.check();
    }
    void step(const Step& st) {
        Cell& x = c[st.idx(0, POOL)]; Cell& y = c[st.idx(1, POOL)];
        u64 h = mix64((u64)st.arg(2));
        auto next = [&] { return h = mix64(h); };
        const size_t most = (size_t)t.get("most", 60);
        static const T sizes[] = {(T)1, (T)0.5, (T)0.3, (T)7, (T)0.1};
        switch (st.op) {
            case NEW: {
                drop(x);
                x.cs = sizes[next() % 5]; B* b = nullptr;
                Outcome o = attempt(st, P, [&] { b = x.cs == 1 && (h >> 40) % 2 ? new B() : new B(x.cs); });
                if (o == DONE) x.b = b;
            } break;
            case INSERT: if (x.b && x.m.size() < most) insert(st, x, next()); break;
            case INSERT_MANY: if (x.b && x.m.size() < most) for (int k = 0; k < (most > 60 ? 60 : 6); ++k) insert(k == 3 ? st : Step(), x, next()); break;
            case ERASE: case ERASE_BIN: if (x.b && !x.m.empty()) {
                size_t k = (size_t)(next() % x.m.size());
                Item gone;
                if (st.op == ERASE) { auto i = x.b->begin(); while (k--) ++i; gone = item(*i); Lib l; x.b->erase(i); }
                else { auto i = x.b->binsBegin(); while (k--) ++i; gone = item(i->second); Lib l; x.b->erase(i); }
                auto q = std::lower_bound(x.m.begin(), x.m.end(), gone);
                if (q != x.m.end() && *q == gone) x.m.erase(q);
            } break;
            case CLEAR: if (x.b) { { Lib l; x.b->clear(); } x.m.clear(); } break;
            case COPY: if (y.b && &x != &y) {
                drop(x); B* b = nullptr;
                Outcome o = attempt(st, P, [&] { b = new B(*(const B*)y.b); });
                if (o == DONE) { x.b = b; x.cs = y.cs; x.m = y.m; }
            } break;
            case ASSIGN: if (x.b && y.b) {
                Outcome o = attempt(st, P, [&] { *x.b = *(const B*)y.b; });
                if (o == DONE) { x.cs = y.cs; x.m = y.m; }
                else { Lib l; B* b = x.b; x.b = nullptr; delete b; NoLib nl; x.m.clear(); }   // may hold anything: destroy it
            } break;
            case DROP: drop(x); break;
            case WRITE: if (x.b && !x.m.empty()) {
                size_t k = (size_t)(next() % x.m.size());
                auto i = x.b->begin(); while (k--) ++i;
                Item old = item(*i); i64 v = ++serial; E e(v);
                Outcome o = attempt(st, P, [&] { (*i).second = (const E&)e; });
                if (o == DONE) { auto q = std::lower_bound(x.m.begin(), x.m.end(), old); if (q != x.m.end() && *q == old) { q->v = v; std::sort(x.m.begin(), x.m.end()); } }
            } break;
            case QUERY_POINT: case QUERY_RECT: case REWIND: if (x.b) {
                point p, q; T lo[N], hi[N];
                if (st.op == QUERY_POINT) {
                    T r = x.cs * (T)(next() % 9) / 4;
                    for (index_t a = 0; a < N; ++a) { p[a] = coord(next(), x.cs); lo[a] = p[a] - r; hi[a] = p[a] + r; }
                    decltype(x.b->query(p, r)) it; { Lib l; it = x.b->query(p, r); }
                    results(x, it, lo, hi, "a query around a point");
                } else {
                    for (index_t a = 0; a < N; ++a) { lo[a] = p[a] = coord(next(), x.cs); hi[a] = q[a] = p[a] + x.cs * (T)(next() % 13) / 4; }
                    decltype(x.b->query(p, x.cs)) it; { Lib l; it = x.b->query(geom::Rect<T, N>(p, q)); }
                    if (st.op == REWIND) {                 // restart an iterator that has moved on
                        size_t k = next() % 5; Lib l; while (k-- && it != it.end()) ++it;
                        it = it.begin();
                    }
                    results(x, it, lo, hi, "a query over a rectangle");
                }
            } break;
            case BINS: if (x.b) {
                size_t n = 0; Lib l;
                for (auto i = x.b->binsBegin(); i != x.b->binsEnd(); ++i, ++n) { bool ok = i->first == x.b->binOf(i->second.first); NoLib nl; SIM_REQUIRE(P, "bin", ok, "an item is kept in a bin that is not its own"); rec.check(); }
                NoLib nl; SIM_REQUIRE(P, "size", n == x.m.size(), "%zu items in bins, expected %zu", n, x.m.size());
            } break;
        }
        rec.check();
        verify();
        u64 sh = (u64)st.op;
        for (auto& z : c) sh = mix64(sh * 31 + (z.b ? 1 + z.m.size() : 0));
        rec.state(mix64(sh + (faults.fired_any ? 1 : 0)));
    }
    void verify() {
        u64 total = 0;
        for (auto& x : c) if (x.b) {
            Set s = contents(*x.b);
            SIM_REQUIRE(P, "content", s == x.m, "a partition holds %zu items, expected %zu (or others)", s.size(), x.m.size());
            SIM_REQUIRE(P, "size", (size_t)x.b->size() == x.m.size(), "size() is %zu, expected %zu", (size_t)x.b->size(), x.m.size());
            total += x.m.size();
        }
        SIM_REQUIRE(P, "element-count", reg::count() == total, "%llu elements are alive, expected %llu", (unsigned long long)reg::count(), (unsigned long long)total);
        rec.check();
    }
    void run() {
        int no = 0;
        for (auto& st : t.steps) { rec.cur_step = no++; rec.log((u64)st.op); for (i64 a : st.a) rec.log((u64)a); rec.count(OPS[st.op]); faults.reset(); step(st); }
        for (auto& x : c) drop(x);
        SIM_REQUIRE(P, "element-leak", reg::count() == 0, "%llu elements alive after every partition is gone", (unsigned long long)reg::count());
        alloc_check_leaks();
        rec.check();
    }
};

struct LatticeScenario : Scenario {
    const char* name() const override { return "lattice"; }
    std::vector<const char*> ops() const override { return std::vector<const char*>(OPS, OPS + OP_COUNT); }
    void generate(Rng& r, Trace& t, int) override {
        t.cfg["type"] = (i64)r.below(5);
        int n = (int)r.range(4, 36);
        if (r.chance(1, 24)) t.cfg["most"] = 400;
        unsigned fp = r.chance(1, 3) ? 0 : (unsigned)r.range(5, 40);
        std::vector<unsigned> w(OP_COUNT); for (auto& x : w) x = r.chance(1, 6) ? 0 : 1 + (unsigned)r.below(5);
        w[INSERT] += 3; w[INSERT_MANY] += 1; w[QUERY_POINT] += 1; w[QUERY_RECT] += 1;
        unsigned tot = 0; for (unsigned x : w) tot += x;
        add_step(t, NEW, {(i64)r.below(POOL), 0, (i64)r.below(1ull << 40)});
        for (int q = 0; q < n; ++q) {
            unsigned z = (unsigned)r.below(tot); int op = 0; while (z >= w[(size_t)op]) z -= w[(size_t)op++];
            add_step(t, op, {(i64)r.below(POOL), (i64)r.below(POOL), (i64)r.below(1ull << 40)});
            maybe_fault(r, t, {F_ALLOC, F_COPY, F_MOVE, F_CASSIGN}, fp, 6);
        }
    }
    template <typename T, index_t N, int K> static void go(const Trace& t) { World<T, N, K> w(t); w.run(); }
    void execute(const Trace& t) override {
        alloc_prop = P; elem_prop = P;
        switch (t.get("type")) {
            case 0: go<double, 2, 0>(t); break;  case 1: go<float, 3, 1>(t); break;   case 2: go<double, 3, 2>(t); break;
            case 3: go<float, 2, 0>(t); break;  default: go<double, 2, 1>(t); break;
        }
    }
};
sim::Scenario* sim::make_scenario() { return new LatticeScenario; }
