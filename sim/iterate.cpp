// C30: histories of walks with random-access iterators over grids and over the rows, columns and elements of matrices.
#include "core/sim.h"
#include "core/ops.h"
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/Vec.h>
#include <geomc/shape/GridIterator.h>
#include <algorithm>
#include <functional>
#include <iterator>
#include <memory>

using namespace sim;
using namespace geom;
#define P "C30"

enum { FIRST, LAST, INC, DEC, POST_INC, POST_DEC, ADD, SUB, PLUS, MINUS, COPY, ASSIGN, SWAP, COMPARE, AT, WRITE, CHANGE, ALGORITHM, OP_COUNT };
static const char* OPS[] = {"first", "last", "inc", "dec", "post_inc", "post_dec", "add", "sub", "plus", "minus", "copy", "assign", "swap", "compare", "at", "write", "change", "algorithm"};
static const int HANDS = 4;

// Walks of four iterators over one sequence of n places. `It` may be a pointer.
template <typename It>
struct Walk {
    const Trace& t;
    long n = 0;
    std::function<It()> first, last;
    std::function<void(long, It&)> look;                 // the iterator is at place k: what it shows must be right
    std::function<void(long, It&, long)> look_off;       // it[off]
    std::function<void(long, It&, i64)> put;             // write through the iterator (none: read-only)
    std::function<void(i64, i64)> change;                // change the sequence directly
    std::function<void()> whole;                         // everything is as the model says
    std::unique_ptr<It> it[HANDS]; long at[HANDS] = {0, 0, 0, 0};
    u64 kind = 0;
    explicit Walk(const Trace& t) : t(t) {}

    void check(int i) {
        if (!it[i]) return;
        NoLib nl;
        if (at[i] < n) look(at[i], *it[i]);
    }
    void set(int i, long k, It&& v) { it[i].reset(new It(std::move(v))); at[i] = k; }
    void step(const Step& s) {
        int i = (int)s.idx(0, HANDS), j = (int)s.idx(1, HANDS);
        i64 v = s.arg(2);
        if (s.op != FIRST && s.op != LAST && s.op != CHANGE && !it[i]) { Lib l; it[i].reset(new It(first())); at[i] = 0; }
        // a distance which stays inside
        long to = n ? (long)((u64)v % (u64)(n + 1)) : 0, d = to - at[i];
        rec.state(mix64((u64)s.op * 64 + kind) ^ (u64)(n << 20) ^ (u64)(at[i] == 0) << 40 ^ (u64)(at[i] == n) << 41 ^ (u64)(d < 0) << 42 ^ (u64)std::min(labs(d), 12l) << 44);
        switch (s.op) {
            case FIRST: { Lib l; set(i, 0, first()); } break;
            case LAST:  { Lib l; set(i, n, last()); } break;
            case INC: if (at[i] < n) { It* r; { Lib l; r = &++*it[i]; } SIM_REQUIRE(P, "result", r == it[i].get(), "++i is not i"); at[i]++; } break;
            case DEC: if (at[i] > 0) { It* r; { Lib l; r = &--*it[i]; } SIM_REQUIRE(P, "result", r == it[i].get(), "--i is not i"); at[i]--; } break;
            case POST_INC: if (at[i] < n) { It old(*it[i]); { Lib l; It r((*it[i])++); SIM_REQUIRE(P, "result", r == old, "i++ is not the old i"); } at[i]++; } break;
            case POST_DEC: if (at[i] > 0) { It old(*it[i]); { Lib l; It r((*it[i])--); SIM_REQUIRE(P, "result", r == old, "i-- is not the old i"); } at[i]--; } break;
            case ADD: { Lib l; *it[i] += d; } at[i] = to; break;
            case SUB: { Lib l; *it[i] -= -d; } at[i] = to; break;
            case PLUS:  if (i != j) { Lib l; if (v & 1) set(j, to, *it[i] + d); else set(j, to, plus(d, *it[i])); } break;
            case MINUS: if (i != j) { Lib l; set(j, to, *it[i] - -d); } break;
            case COPY: if (i != j) { Lib l; set(j, at[i], It(*it[i])); } break;
            case ASSIGN: if constexpr (std::is_copy_assignable_v<It>) if (it[j]) { { Lib l; *it[j] = *(const It*)it[i].get(); } at[j] = at[i]; } break;
            case SWAP: if constexpr (std::is_copy_assignable_v<It>) if (it[j] && i != j) { { Lib l; std::swap(*it[i], *it[j]); } std::swap(at[i], at[j]); } break;
            case COMPARE: if (it[j]) {
                const It &a = *it[i], &b = *it[j]; long x = at[i], y = at[j], diff; bool q[6];
                { Lib l; q[0] = a == b; q[1] = a != b; q[2] = a < b; q[3] = a <= b; q[4] = a > b; q[5] = a >= b; diff = (long)(a - b); }
                bool w[6] = {x == y, x != y, x < y, x <= y, x > y, x >= y};
                static const char* op[] = {"==", "!=", "<", "<=", ">", ">="};
                for (int k = 0; k < 6; ++k) SIM_REQUIRE(P, "comparison", q[k] == w[k], "place %ld %s place %ld is %d", x, op[k], y, q[k]);
                SIM_REQUIRE(P, "distance", diff == x - y, "place %ld - place %ld is %ld", x, y, diff);
                { Lib l; q[0] = b == a; diff = (long)std::distance(a, b); }
                SIM_REQUIRE(P, "distance", diff == y - x && q[0] == w[0], "from place %ld to place %ld is %ld", x, y, diff);
            } break;
            case AT: if (to < n) look_off(at[i], *it[i], d); break;
            case WRITE: if (put && at[i] < n) { put(at[i], *it[i], v % 1000); rec.count("writes"); } break;
            case CHANGE: if (change) change(v >> 12, v % 1000); break;
            case ALGORITHM: {
                // forwards and backwards over everything
                It a(first()), z(last()); long k = 0, c;
                { Lib l; c = (long)(z - a); }
                SIM_REQUIRE(P, "distance", c == n, "end - begin is %ld for %ld places", c, n);
                for (; k < n && !(a == z); ++k) { { NoLib nl; look(k, a); } Lib l; ++a; }
                SIM_REQUIRE(P, "walk", k == n && a == z, "a walk to the end takes %ld steps or more, not %ld", k, n);
                for (k = n; k > 0;) { { Lib l; --z; } --k; NoLib nl; look(k, z); }
                It b(first()); SIM_REQUIRE(P, "walk", z == b, "a walk back from the end misses the beginning");
            } break;
        }
        rec.check();
        for (int k = 0; k < HANDS; ++k) check(k);
        whole();
    }
    static It plus(long d, const It& i) { return d + i; }
    void run() {
        int no = 0;
        for (auto& s : t.steps) {
            rec.cur_step = no++; rec.log((u64)s.op); for (i64 a : s.a) rec.log((u64)a); rec.count(OPS[s.op]); faults.reset();
            step(s); rec.check();
            for (int k = 0; k < HANDS; ++k) rec.log((u64)at[k]);
        }
    }
};

// ---- integer points of a box
template <typename T, index_t N, ArrayOrder O>
static void grid(const Trace& t, u64 kind) {
    typedef GridIterator<T, N, O> It; typedef typename PointType<T, N>::point_t V; typedef PointType<T, N> pt;
    u64 h = (u64)t.get("world"); auto draw = [&](u64 m) { h = mix64(h + 1); return (long)(h % m); };
    V lo, hi; long dim[N], n = 1; bool neg = draw(3) > 0;
    static const int most[] = {0, 40, 9, 6, 4}; index_t wide = draw(16) ? N : draw(N);
    for (index_t i = 0; i < N; ++i) { dim[i] = 1 + draw(most[N]); if (i == wide) dim[i] += draw(300); pt::iterator(lo)[i] = (T)(neg ? draw(30) - 20 : draw(10)); pt::iterator(hi)[i] = (T)(pt::iterator(lo)[i] + dim[i] - 1); n *= dim[i]; }
    Rect<T, N> box(lo, hi);
    V past; for (index_t i = 0; i < N; ++i) pt::iterator(past)[i] = (T)(pt::iterator(hi)[i] + 1);
    std::vector<V> place;
    for (long k = 0; k < n; ++k) {
        V p; long r = k;
        for (index_t q = 0; q < N; ++q) { index_t i = O == ARRAYORDER_FIRST_DIM_CONSECUTIVE ? q : N - 1 - q; pt::iterator(p)[i] = (T)(pt::iterator(lo)[i] + r % dim[i]); r /= dim[i]; }
        place.push_back(p);
    }
    int how = (int)draw(4);
    Walk<It> w(t); w.n = n; w.kind = kind;
    w.first = [&]() -> It { if (how == 0) return It(lo, past); if (how == 1) return It(box).begin(); return It(box); };
    w.last = [&]() -> It { if (how == 0) return It(lo, past).end(); return It(box).end(); };
    auto same = [](const V& a, const V& b) { return a == b; };
    w.look = [&](long k, It& i) { V v; { Lib l; v = *i; } SIM_REQUIRE(P, "place", same(v, place[(size_t)k]), "an iterator over %ld points in %d dimensions is not at point %ld", n, (int)N, k); };
    w.look_off = [&](long k, It& i, long d) { V v; { Lib l; v = i[d]; } SIM_REQUIRE(P, "place", same(v, place[(size_t)(k + d)]), "i[%ld] is not the point %ld places away", d, d); };
    w.whole = [] {};
    w.run();
}

// ---- matrices
template <bool writes, typename It, typename M>
static void walk_matrix(const Trace& t, u64 kind, M& m, std::vector<double>& model, std::vector<size_t> order, std::function<It()> first, std::function<It()> last, bool direct) {
    Walk<It> w(t); w.n = (long)order.size(); w.kind = kind; w.first = first; w.last = last;
    long cols = (long)m.cols();
    w.look = [&](long k, It& i) { double v; { Lib l; v = *i; } SIM_REQUIRE(P, "element", v == model[order[(size_t)k]], "an iterator at element %ld shows %g instead of %g", k, v, model[order[(size_t)k]]); };
    w.look_off = [&](long k, It& i, long d) { double v; { Lib l; v = i[d]; } SIM_REQUIRE(P, "element", v == model[order[(size_t)(k + d)]], "i[%ld] at element %ld is %g instead of %g", d, k, v, model[order[(size_t)(k + d)]]); };
    if constexpr (writes) w.put = [&](long k, It& i, i64 v) { { Lib l; *i = (double)v; } model[order[(size_t)k]] = (double)v; };
    if constexpr (requires { m.set((index_t)0, (index_t)0, 1.0); })
        if (direct) w.change = [&](i64 k, i64 v) { size_t q = (size_t)k % model.size(); { Lib l; m.set((index_t)q / cols, (index_t)q % cols, (double)v); } model[q] = (double)v; };
    const std::remove_const_t<M>& cm = m;
    w.whole = [&] { for (size_t q = 0; q < model.size(); ++q) { double v; { Lib l; v = cm((index_t)q / cols, (index_t)q % cols); } SIM_REQUIRE(P, "matrix", v == model[q], "element (%ld, %ld) of the matrix is %g instead of %g", (long)q / cols, (long)q % cols, v, model[q]); } };
    w.run();
}
template <typename M>
static void matrix(const Trace& t, u64 kind, M& m, bool direct) {
    u64 h = mix64((u64)t.get("world") ^ 77); auto draw = [&](u64 k) { h = mix64(h + 1); return (long)(h % k); };
    long R = (long)m.rows(), C = (long)m.cols();
    std::vector<double> model; const M& c = m;
    for (long r = 0; r < R; ++r) for (long q = 0; q < C; ++q) model.push_back((double)c(r, q));
    std::vector<size_t> all, row, col; long r = draw((u64)R), q = draw((u64)C);
    for (long k = 0; k < R * C; ++k) all.push_back((size_t)k);
    for (long k = 0; k < C; ++k) row.push_back((size_t)(r * C + k));
    for (long k = 0; k < R; ++k) col.push_back((size_t)(k * C + q));
    int how = (int)t.get("how") % 6;
    kind = kind * 8 + (u64)how;
    if (how == 0) walk_matrix<false, decltype(c.begin())>(t, kind, m, model, all, [&] { return c.begin(); }, [&] { return c.end(); }, direct);
    if (how == 1) walk_matrix<false, decltype(c.row(0))>(t, kind, m, model, row, [&] { return c.row(r); }, [&] { return c.row(r) + (index_t)C; }, direct);
    if (how == 2) walk_matrix<false, decltype(c.col(0))>(t, kind, m, model, col, [&] { return c.col(q); }, [&] { return c.col(q) + (index_t)R; }, direct);
    if constexpr (requires { m.set((index_t)0, (index_t)0, 1.0); }) {
        if (how == 3) walk_matrix<true, decltype(m.begin())>(t, kind, m, model, all, [&] { return m.begin(); }, [&] { return m.end(); }, direct);
        if (how == 4) walk_matrix<true, decltype(m.row(0))>(t, kind, m, model, row, [&] { return m.row(r); }, [&] { return m.row(r) + (index_t)C; }, direct);
        if (how == 5) walk_matrix<true, decltype(m.col(0))>(t, kind, m, model, col, [&] { return m.col(q); }, [&] { return m.col(q) + (index_t)R; }, direct);
    }
}

struct IterateScenario : Scenario {
    const char* name() const override { return "iterate"; }
    std::vector<const char*> ops() const override { return std::vector<const char*>(OPS, OPS + OP_COUNT); }
    void generate(Rng& r, Trace& t, int) override {
        t.cfg["type"] = (i64)r.below(22);
        t.cfg["world"] = (i64)r.below(1ull << 40);
        t.cfg["how"] = (i64)r.below(6);
        int n = (int)r.range(6, 50);
        std::vector<unsigned> w(OP_COUNT); for (auto& x : w) x = r.chance(1, 5) ? 0 : 1 + (unsigned)r.below(4);
        w[INC] += 1;
        unsigned tot = 0; for (unsigned x : w) tot += x;
        for (int q = 0; q < n; ++q) {
            unsigned z = (unsigned)r.below(tot); int op = 0; while (z >= w[(size_t)op]) z -= w[(size_t)op++];
            add_step(t, op, {(i64)r.below(HANDS), (i64)r.below(HANDS), (i64)(r.chance(1, 4) ? r.below(4) : r.below(1ull << 30))});
        }
    }
    template <typename M, typename... A> static void simple(const Trace& t, u64 kind, A... a) { M m(a...); u64 h = (u64)t.get("world"); for (index_t i = 0; i < m.rows(); ++i) for (index_t j = 0; j < m.cols(); ++j) m.set(i, j, (double)((h = mix64(h)) % 1000)); matrix(t, kind, m, true); }
    void execute(const Trace& t) override {
        alloc_prop = P;
        constexpr ArrayOrder F = ARRAYORDER_FIRST_DIM_CONSECUTIVE, L = ARRAYORDER_LAST_DIM_CONSECUTIVE;
        u64 h = mix64((u64)t.get("world") + 5), k = (u64)t.get("type"); index_t R = 1 + (index_t)(h % 6), C = 1 + (index_t)(h / 7 % 6);
        switch (k) {
            case 0: grid<int, 2, F>(t, k); break;       case 1: grid<int, 2, L>(t, k); break;
            case 2: grid<index_t, 3, F>(t, k); break;   case 3: grid<index_t, 3, L>(t, k); break;
            case 4: grid<index_t, 1, F>(t, k); break;   case 5: grid<int, 1, L>(t, k); break;
            case 6: grid<int, 4, F>(t, k); break;       case 7: grid<short, 4, L>(t, k); break;
            case 8: grid<index_t, 2, F>(t, k); break;   case 9: grid<index_t, 2, L>(t, k); break;
            case 10: simple<SimpleMatrix<double, 3, 4>>(t, k); break;
            case 11: simple<SimpleMatrix<double, 3, 4, COL_MAJOR>>(t, k); break;
            case 12: simple<SimpleMatrix<double, 0, 0>>(t, k, R, C); break;
            case 13: simple<SimpleMatrix<double, 0, 0, COL_MAJOR>>(t, k, R, C); break;
            case 14: simple<SimpleMatrix<double, 0, 3>>(t, k, R, (index_t)3); break;
            case 15: simple<SimpleMatrix<double, 2, 0, COL_MAJOR>>(t, k, (index_t)2, C); break;
            case 16: simple<SimpleMatrix<double, 5, 1, COL_MAJOR>>(t, k); break;
            case 17: simple<SimpleMatrix<double, 1, 5>>(t, k); break;
            case 18: { DiagMatrix<double, 0, 0> m(R, C); for (index_t i = 0; i < std::min(R, C); ++i) m.diagonal(i) = (double)(h % 100 + 1 + (u64)i); matrix(t, k, m, false); } break;
            case 19: { DiagMatrix<double, 3, 4> m; for (index_t i = 0; i < 3; ++i) m.diagonal(i) = (double)(h % 100 + 1 + (u64)i); matrix(t, k, m, false); } break;
            case 20: { PermutationMatrix<0> m(R); for (index_t i = 0; i < R; ++i) { h = mix64(h); m.swap_rows(i, (index_t)(h % (u64)R)); } matrix(t, k, m, false); } break;
            default: { PermutationMatrix<4> m; for (index_t i = 0; i < 4; ++i) { h = mix64(h); m.swap_rows(i, (index_t)(h % 4)); } matrix(t, k, m, false); } break;
        }
    }
};
sim::Scenario* sim::make_scenario() { return new IterateScenario; }
