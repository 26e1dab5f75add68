// C10 C11 C12 C14 C18: draws, samples and shuffles over scripted bit sources.
#include "core/sim.h"
#include "core/elem.h"
#include "core/source.h"
#include "core/sample.h"
#include <algorithm>
#include <limits>
#include <numeric>

using namespace sim;

enum { SCRIPT, DRAW, SAMPLE, SHUFFLE, UNBIASED, ENUM, FAIRPERM, COVER, STAT, STATDRAW, OP_COUNT };
static const char* OPS[] = {"script", "draw", "sample", "shuffle", "unbiased", "enum_shuffle", "fair_shuffles", "cover", "stat", "stat_draws"};

enum { T_BOOL, T_INT, T_UINT, T_LONG, T_ULONG, T_LL, T_ULL, T_FLOAT, T_DOUBLE, T_COUNT };
static const char* TN[] = {"bool", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "float", "double"};
static const u64 BUDGET = 20000;     // source words allowed per draw once the source is fair

static double fpval(i64 code) {      // a floating-point bound: mantissa in the low bits, exponent above
    double m = (double)((code % 4001 + 4001) % 4001 - 2000) / 1000;
    i64 e = (code / 4001) % 61;
    return std::ldexp(m, (int)(e < 0 ? e + 61 : e) - 30);
}

struct Drawn {
    bool  is_fp = false;
    double d = 0;            // floating value
    double u = -1;           // position in [0,1] within the requested range
    bool  bad = false; char why[160];
    u64   cells = 0, cell = 0; // discrete outcome (when few)
    u64   width = 0;         // number of discrete outcomes, when a bounded integer draw
};

template <typename I> static void check_int(Drawn& r, I v, I lo, I hi, const char* t) {
    // bounds as documented: one end included, the other excluded; lo is the included end
    bool ok = lo < hi ? (v >= lo && v < hi) : (v > hi && v <= lo);
    if (!ok) { r.bad = true; snprintf(r.why, sizeof r.why, "an %s draw bounded by %lld and %lld gave %lld", t, (long long)lo, (long long)hi, (long long)v); }
    typedef typename std::make_unsigned<I>::type U;
    U w = lo < hi ? (U)hi - (U)lo : (U)lo - (U)hi;
    U p = lo < hi ? (U)v - (U)lo : (U)lo - (U)v;
    r.u = ((double)p + 0.5) / (double)w;
    if (r.u >= 1) r.u = std::nextafter(1.0, 0.0);
    r.width = (u64)w;
    if (w <= 32) { r.cells = (u64)w; r.cell = (u64)p; }
}

static bool fp_two_ended(int type) { return type == T_FLOAT || type == T_DOUBLE; }

// one draw. form: 0 rand(), 1 rand(hi), 2 rand(lo,hi)
static Drawn do_draw(geom::Random& g, int type, int form, i64 a, i64 b) {
    Drawn r; r.why[0] = 0;
    if (form == 2 && !(type == T_INT || type == T_LL || fp_two_ended(type))) form = 1;
    if (type == T_BOOL) form = 0;
    rec.log((u64)type * 4 + (u64)form);
    if (form == 0) {
        switch (type) {
            case T_BOOL:  { bool v = g.rand<bool>(); r.u = v ? 0.75 : 0.25; r.cells = 2; r.cell = v; break; }
            case T_INT:   { unsigned v = (unsigned)g.rand<int>(); r.u = ((double)v + 0.5) / 4294967296.0; break; }
            case T_UINT:  { unsigned v = g.rand<unsigned>(); r.u = ((double)v + 0.5) / 4294967296.0; break; }
            case T_LONG:  { u64 v = (u64)g.rand<long>(); r.u = (double)(v >> 11) / 9007199254740992.0; break; }
            case T_ULONG: { u64 v = (u64)g.rand<unsigned long>(); r.u = (double)(v >> 11) / 9007199254740992.0; break; }
            case T_LL:    { u64 v = (u64)g.rand<long long>(); r.u = (double)(v >> 11) / 9007199254740992.0; break; }
            case T_ULL:   { u64 v = (u64)g.rand<unsigned long long>(); r.u = (double)(v >> 11) / 9007199254740992.0; break; }
            case T_FLOAT: case T_DOUBLE: {
                double v = type == T_FLOAT ? (double)g.rand<float>() : g.rand<double>();
                r.is_fp = true; r.d = v; r.u = v;
                if (!(v >= 0 && v <= 1)) { r.bad = true; snprintf(r.why, sizeof r.why, "a unit-interval %s draw gave %.17g", TN[type], v); }
                break;
            }
        }
    } else if (form == 1) {
        switch (type) {
            case T_INT:   { int h = (int)a; if (!h) h = 7; check_int<int>(r, g.rand<int>(h), 0, h, "int"); break; }
            case T_UINT:  { unsigned h = (unsigned)a; if (!h) h = 7; unsigned v = g.rand<unsigned>(h); check_int<i64>(r, (i64)v, 0, (i64)h, "unsigned"); break; }
            case T_LONG:  { long h = (long)a; if (!h) h = 7; check_int<long>(r, g.rand<long>(h), 0L, h, "long"); break; }
            case T_LL:    { long long h = (long long)a; if (!h) h = 7; check_int<long long>(r, g.rand<long long>(h), 0LL, h, "long long"); break; }
            case T_ULONG: case T_ULL: {
                u64 h = (u64)a; if (!h) h = 7;
                u64 v = type == T_ULONG ? (u64)g.rand<unsigned long>((unsigned long)h) : (u64)g.rand<unsigned long long>((unsigned long long)h);
                if (v >= h) { r.bad = true; snprintf(r.why, sizeof r.why, "an %s draw bounded by %llu gave %llu", TN[type], (unsigned long long)h, (unsigned long long)v); }
                r.u = ((double)v + 0.5) / (double)h; if (r.u >= 1) r.u = std::nextafter(1.0, 0.0);
                r.width = h;
                if (h <= 32) { r.cells = h; r.cell = v; }
                break;
            }
            case T_FLOAT: { float h = (float)fpval(a); float v = g.rand<float>(h); r.is_fp = true; r.d = v; r.u = h != 0 ? v / h : -1;
                            if (!((h >= 0 && v >= 0 && v <= h) || (h < 0 && v <= 0 && v >= h))) { r.bad = true; snprintf(r.why, sizeof r.why, "a float draw bounded by %.9g gave %.9g", h, v); } break; }
            case T_DOUBLE:{ double h = fpval(a); double v = g.rand<double>(h); r.is_fp = true; r.d = v; r.u = h != 0 ? v / h : -1;
                            if (!((h >= 0 && v >= 0 && v <= h) || (h < 0 && v <= 0 && v >= h))) { r.bad = true; snprintf(r.why, sizeof r.why, "a double draw bounded by %.17g gave %.17g", h, v); } break; }
        }
    } else {
        switch (type) {
            case T_INT: { int l = (int)a, h = (int)b; if (l == h) h = l == INT32_MAX ? l - 1 : l + 1; check_int<int>(r, g.rand<int>(l, h), std::min(l, h), std::max(l, h), "int"); break; }
            case T_LL:  { long long l = a, h = b; if (l == h) h = l == INT64_MAX ? l - 1 : l + 1; check_int<long long>(r, g.rand<long long>(l, h), std::min(l, h), std::max(l, h), "long long"); break; }
            default: {
                double v, l, h, e;
                if (type == T_FLOAT) { float fl = (float)fpval(a), fh = (float)fpval(b); v = g.rand<float>(fl, fh); l = fl; h = fh; e = 2.4e-7; }
                else { l = fpval(a); h = fpval(b); v = g.rand<double>(l, h); e = 4.5e-16; }
                r.is_fp = true; r.d = v;
                double lo = std::min(l, h), hi = std::max(l, h), slack = e * std::max(std::fabs(l), std::fabs(h));
                if (hi > lo) r.u = (v - lo) / (hi - lo);
                if (!(v >= lo - slack && v <= hi + slack)) { r.bad = true; snprintf(r.why, sizeof r.why, "a %s draw between %.17g and %.17g gave %.17g", TN[type], l, h, v); }
            }
        }
    }
    rec.log(r.is_fp ? (u64)(i64)(r.d * 1e15) : (u64)(r.u * 1e15));
    return r;
}

struct World {
    const Trace& t;
    Source src;
    explicit World(const Trace& t) : t(t), src(t.seed) {}

    // run f with the bounded-progress budget in force
    template <typename F> bool bounded(const char* what, F f, u64 budget = BUDGET) {
        src.begin_draw(budget);
        try { f(); }
        catch (const Runaway&) {
            rec.violation("C12", "no-progress", "%s consumed more than %llu words of a fair source without finishing", what, (unsigned long long)budget);
            // for the other properties a draw that never ends decides nothing
            rec.check();
            throw Abort();
        }
        return true;
    }

    void draw(const Step& s) {
        int type = (int)s.idx(0, T_COUNT), form = (int)s.idx(1, 3);
        bounded("a draw", [&] {
            Drawn d = do_draw(src, type, form, s.arg(2), s.arg(3));
            if (d.bad) rec.violation("C10", "out-of-range", "%s", d.why);
            if (d.is_fp && !std::isfinite(d.d)) rec.violation("C10", "out-of-range", "a draw gave a value that is not finite");
        });
    }
    void sample(const Step& s) {
        Region g = Region::decode(s, false);
        double x[5] = {0};
        bounded(sample_names[g.kind], [&] { g.draw(&src, x); });
        const char* why = g.outside(x);
        for (int i = 0; i < g.dims(); ++i) rec.log((u64)(i64)(std::isfinite(x[i]) ? x[i] * 1e9 : 7));
        rec.state(mix64((u64)g.kind * 8 + (u64)g.N * 2 + (u64)g.T) ^ (src.scripted() ? (u64)src.script.front().kind + 1 : 0));
        if (why) rec.violation("C11", "outside-region", "a %s sample (%s, dimension %d, r %g..%g, angle %g, dir %g %g %g, arc %g..%g) %s: %g %g %g", sample_names[g.kind], g.T ? "double" : "float", g.dims(), g.r0, g.r, g.ha, g.dir[0], g.dir[1], g.dir[2], g.a0, g.a1, why, x[0], x[1], g.dims() > 2 ? x[2] : 0.0);
    }

    // ---- shuffles
    template <typename V> bool is_perm(const V& v, size_t n, i64 (*val)(const typename V::value_type&)) {
        std::vector<char> seen(n, 0);
        for (size_t i = 0; i < n; ++i) { i64 k = val(v[i]); if (k < 0 || (size_t)k >= n || seen[(size_t)k]) return false; seen[(size_t)k] = 1; }
        return true;
    }
    void shuffle(const Step& s) {
        size_t n = s.idx(0, 1024);
        int variant = (int)s.idx(1, 3);
        bool ok = true, guard = true;
        u64 h = 0;
        bounded("a shuffle", [&] {
            if (variant == 0) {          // plain array with guards on both sides
                std::vector<i64> a(n + 8, -99);
                for (size_t i = 0; i < n; ++i) a[4 + i] = (i64)i;
                geom::permute(a.data() + 4, n, src);
                for (size_t i = 0; i < 4; ++i) guard &= a[i] == -99 && a[4 + n + i] == -99;
                std::vector<i64> m(a.begin() + 4, a.begin() + 4 + (long)n);
                ok = is_perm(m, n, +[](const i64& x) { return x; });
                for (i64 x : m) h = mix64(h ^ (u64)x);
            } else if (variant == 1) {
                std::vector<i64> a(n); std::iota(a.begin(), a.end(), 0);
                geom::permute(a, src);
                guard = a.size() == n;
                ok = guard && is_perm(a, n, +[](const i64& x) { return x; });
                for (i64 x : a) h = mix64(h ^ (u64)x);
            } else {                     // elements whose lifetime is tracked
                typedef Elem<0> E;
                std::vector<E> a; a.reserve(n + 2);
                for (size_t i = 0; i < n; ++i) a.emplace_back((i64)i);
                geom::permute(a, src);
                guard = a.size() == n;
                ok = guard && is_perm(a, n, +[](const E& e) { return e.v; });
                for (auto& x : a) h = mix64(h ^ (u64)x.v);
            }
        }, BUDGET + (n + 64) * 400);
        rec.log(h);
        if (!ok) rec.violation("C14", "not-a-permutation", "a shuffle of %zu elements lost or duplicated an element", n);
        if (!guard) rec.violation("C14", "out-of-bounds-write", "a shuffle of %zu elements wrote outside the array", n);
    }
    static size_t perm_index(const std::vector<int>& a) {
        size_t r = 0;
        for (size_t i = 0; i < a.size(); ++i) { size_t c = 0; for (size_t j = i + 1; j < a.size(); ++j) c += a[j] < a[i]; r = r * (a.size() - i) + c; }
        return r;
    }
    struct Digits : geom::Random {      // 64-bit draws receive the digits; counts words
        const std::vector<u64>* d = nullptr; size_t pos = 0;
        void rseed(uint64_t) override {}
        uint32_t rand32() override { size_t i = pos++; return i & 1 ? (i / 2 < d->size() ? (uint32_t)(*d)[i / 2] : 0) : 0; }
    };
    void enumerate(const Step& s) {
        size_t n = 2 + s.idx(0, 3), L = n == 2 ? 2 : n == 3 ? 6 : 12, fact = n == 2 ? 2 : n == 3 ? 6 : 24;
        bool vec = s.arg(1) & 1;
        // the enumeration assumes bounded draws reduce a small word modulo the bound
        Digits g; std::vector<u64> d(n, 0);
        for (u64 w = 0; w < L; ++w) for (u64 b = 1; b <= n; ++b) { d[0] = w; g.d = &d; g.pos = 0; if (g.rand<unsigned long>(b) != w % b || g.pos != 2) { rec.count("enum_skipped"); return; } }
        std::vector<u64> cnt(fact, 0);
        size_t total = 1; for (size_t i = 0; i < n; ++i) total *= L;
        std::vector<int> a(n);
        for (size_t q = 0; q < total; ++q) {
            size_t z = q; for (size_t i = 0; i < n; ++i) { d[i] = z % L; z /= L; }
            std::iota(a.begin(), a.end(), 0);
            g.d = &d; g.pos = 0;
            if (vec) geom::permute(a, g); else geom::permute(a.data(), n, g);
            if (g.pos > 2 * n) { rec.count("enum_skipped"); return; }
            std::vector<char> seen(n, 0); bool ok = true;
            for (int v : a) { if (v < 0 || (size_t)v >= n || seen[(size_t)v]) ok = false; else seen[(size_t)v] = 1; }
            if (!ok) { rec.violation("C14", "not-a-permutation", "a shuffle of %zu elements lost or duplicated an element", n); return; }
            cnt[perm_index(a)]++;
        }
        for (size_t i = 0; i < fact; ++i) { rec.log(cnt[i]); if (cnt[i] != total / fact) { rec.violation("C14", "unequal-permutations", "over all %zu outcomes of its draws a shuffle of %zu elements reaches arrangement %zu %llu times instead of %zu", total, n, i, (unsigned long long)cnt[i], total / fact); return; } }
    }
    void fairperm(const Step& s) {
        size_t n = 2 + s.idx(0, 4), fact = n == 2 ? 2 : n == 3 ? 6 : n == 4 ? 24 : 120;
        bool vec = s.arg(1) & 1;
        u64 trials = 300 * fact;
        std::vector<u64> cnt(fact, 0); std::vector<int> a(n);
        Source f(t.seed ^ (u64)s.arg(2));
        for (u64 q = 0; q < trials; ++q) {
            std::iota(a.begin(), a.end(), 0);
            f.begin_draw(BUDGET);
            try { if (vec) geom::permute(a, f); else geom::permute(a.data(), n, f); } catch (const Runaway&) { rec.violation("C12", "no-progress", "a shuffle never finished on a fair source"); throw Abort(); }
            std::vector<char> seen(n, 0); bool ok = true;
            for (int v : a) { if (v < 0 || (size_t)v >= n || seen[(size_t)v]) ok = false; else seen[(size_t)v] = 1; }
            if (!ok) { rec.violation("C14", "not-a-permutation", "a shuffle of %zu elements lost or duplicated an element", n); return; }
            cnt[perm_index(a)]++;
        }
        for (u64 c : cnt) rec.log(c);
        double z = uniform_score(cnt, trials);
        if (z > 8) rec.violation("C14", "unequal-permutations", "%llu fair shuffles of %zu elements do not reach all arrangements equally often (score %.1f)", (unsigned long long)trials, n, z);
    }

    // ---- unbiased bounded draws
    struct Words : geom::Random {
        uint32_t w[2]; size_t n, pos = 0;
        void rseed(uint64_t) override {}
        uint32_t rand32() override { return pos < n ? w[pos++] : (++pos, 0u); }
    };
    template <typename U, typename D> void unbiased_t(U hi, D drawfn, const char* tn) {
        const int words = sizeof(U) / 4;
        const U MAX = ~(U)0;
        auto probe = [&](U w, U& v) { Words g; g.n = words; if (words == 1) g.w[0] = (uint32_t)w; else { g.w[0] = (uint32_t)((u64)w >> 32); g.w[1] = (uint32_t)w; } v = drawfn(g, hi); return g.pos == (size_t)words; };
        Rng r(t.seed ^ (u64)hi);
        // does an accepted word w yield w % hi?  (otherwise the mapping is a different one; see STATDRAW)
        for (int i = 0; i < 16; ++i) { U w = (U)r.next(), v; if (probe(w, v) && v != (U)(w % hi)) { rec.count("unbiased_probe_skipped"); return; } }
        U full = MAX / hi, rest = MAX % hi;      // chunks 0..full; chunk `full` holds values 0..rest only
        std::vector<U> vs = {0, (U)(hi - 1), rest, (U)((rest + 1) % hi), (U)(hi / 2)};
        for (int i = 0; i < 12; ++i) vs.push_back((U)(r.next() % hi));
        std::vector<U> ks;
        bool all = full < 64;
        if (all) for (U k = 0; k <= full; ++k) ks.push_back(k);
        else { ks = {0, 1, (U)(full / 2), (U)(full / 2 + 1), (U)(full - 1), full}; for (int i = 0; i < 8; ++i) ks.push_back((U)(r.next() % full)); }
        std::vector<u64> total(vs.size(), 0);
        for (U k : ks) {
            u64 acc0 = 2; U ref = 0;
            for (size_t i = 0; i < vs.size(); ++i) {
                U v = vs[i], got; u64 acc = 0;
                if (k < full || v <= rest) { U w = (U)(k * hi + v); acc = probe(w, got) ? 1 : 0; if (acc && got != v) { rec.count("unbiased_probe_skipped"); return; } }
                total[i] += acc;
                if (!all) { if (acc0 == 2) { acc0 = acc; ref = v; } else if (acc != acc0) {
                    rec.violation("C10", "biased-bound", "%s draws bounded by %llu accept a source word for value %llu but not the corresponding word for value %llu", tn, (unsigned long long)hi, (unsigned long long)(acc ? v : ref), (unsigned long long)(acc ? ref : v)); return; } }
            }
        }
        if (all) for (size_t i = 1; i < vs.size(); ++i) if (total[i] != total[0] || total[i] == 0) {
            rec.violation("C10", "biased-bound", "%s draws bounded by %llu accept %llu source words for value %llu but %llu for value %llu", tn, (unsigned long long)hi, (unsigned long long)total[i], (unsigned long long)vs[i], (unsigned long long)total[0], (unsigned long long)vs[0]); return; }
        rec.log((u64)hi);
    }
    void unbiased(const Step& s) {
        i64 a = s.arg(1);
        switch (s.idx(0, 6)) {
            case 0: { unsigned h = (unsigned)a; if (!h) h = 3; unbiased_t<unsigned>(h, [](Words& g, unsigned x) { return g.rand<unsigned>(x); }, "unsigned"); break; }
            case 1: { unsigned long h = (unsigned long)a; if (!h) h = 3; unbiased_t<unsigned long>(h, [](Words& g, unsigned long x) { return g.rand<unsigned long>(x); }, "unsigned long"); break; }
            case 2: { unsigned long long h = (unsigned long long)a; if (!h) h = 3; unbiased_t<unsigned long long>(h, [](Words& g, unsigned long long x) { return g.rand<unsigned long long>(x); }, "unsigned long long"); break; }
            case 3: { unsigned h = (unsigned)a & 0x7fffffffu; if (!h) h = 3; bool neg = a < 0;
                      if (neg) unbiased_t<unsigned>(h, [](Words& g, unsigned x) { return (unsigned)-g.rand<int>(-(int)x); }, "int");
                      else unbiased_t<unsigned>(h, [](Words& g, unsigned x) { return (unsigned)g.rand<int>((int)x); }, "int"); break; }
            case 4: { u64 h = (u64)a & INT64_MAX; if (!h) h = 3; bool neg = a < 0;
                      if (neg) unbiased_t<u64>(h, [](Words& g, u64 x) { return (u64)-g.rand<long>(-(long)x); }, "long");
                      else unbiased_t<u64>(h, [](Words& g, u64 x) { return (u64)g.rand<long>((long)x); }, "long"); break; }
            default: { unsigned h = (unsigned)a; if (h < 2) h = 3; // two-sided draws of any width
                      i64 lo64 = (i64)INT32_MIN + (i64)((u64)mix64((u64)a) % (4294967296ull - h)); int lo = (int)lo64, hi = (int)(lo64 + h);
                      if ((i64)lo + h > INT32_MAX) { hi = INT32_MAX; h = (unsigned)((i64)hi - lo); if (h < 2) { lo = INT32_MIN; h = UINT32_MAX; } }
                      unbiased_t<unsigned>(h, [lo, hi](Words& g, unsigned) { return (unsigned)g.rand<int>(lo, hi) - (unsigned)lo; }, "int (two-sided)"); break; }
        }
    }

    // ---- uniformity
    static u64 volume(const Step& s, size_t i, int tier) { static const u64 v[] = {2000, 8000, 24000}; u64 m = v[s.idx(i, 3)]; return tier ? m * 4 : m; }
    void stat(const Step& s, bool cover) {
        Region g = Region::decode(s, true);
        if (!g.T && g.ha < 0.5) g.ha = 0.5;
        u64 M = cover ? 1500 : volume(s, 12, (int)t.get("tier"));
        Source f(t.seed ^ 0x5757);
        std::vector<double> u; double x[5];
        const int B = 16, J = 5;
        std::vector<std::vector<u64>> bins, joint;
        std::vector<double> mn, mx;
        for (u64 q = 0; q < M; ++q) {
            f.begin_draw(BUDGET);
            try { g.draw(&f, x); } catch (const Runaway&) { rec.violation("C12", "no-progress", "a %s sample never finished on a fair source", sample_names[g.kind]); throw Abort(); }
            const char* why = g.outside(x);
            if (why) { rec.violation("C11", "outside-region", "a %s sample (%s) from a fair source %s", sample_names[g.kind], g.T ? "double" : "float", why); throw Abort(); }
            g.canon(x, u);
            if (bins.empty()) { bins.assign(u.size(), std::vector<u64>(B, 0)); joint.assign(u.size() * u.size(), std::vector<u64>(J * J, 0)); mn.assign(u.size(), 2); mx.assign(u.size(), -1); }
            if (u.size() != bins.size()) continue;
            for (size_t i = 0; i < u.size(); ++i) {
                if (!(u[i] >= 0 && u[i] < 1)) u[i] = 0;
                bins[i][(size_t)(u[i] * B)]++; mn[i] = std::min(mn[i], u[i]); mx[i] = std::max(mx[i], u[i]);
                for (size_t j = i + 1; j < u.size(); ++j) joint[i * u.size() + j][(size_t)(u[i] * J) * J + (size_t)(u[j] * J)]++;
            }
        }
        rec.count("samples_binned", M);
        for (size_t i = 0; i < bins.size(); ++i) {
            for (u64 c : bins[i]) rec.log(c);
            if (cover) {
                bool hole = false; for (u64 c : bins[i]) hole |= c == 0;
                if (mn[i] > 0.03 || mx[i] < 0.97 || hole) { rec.violation("C11", "unreached", "%llu fair %s samples (%s, dimension %d, r %g..%g, angle %g, dir %g %g %g, arc %g..%g) never reach part of the region (coordinate %zu spans %.3f..%.3f)", (unsigned long long)M, sample_names[g.kind], g.T ? "double" : "float", g.dims(), g.r0, g.r, g.ha, g.dir[0], g.dir[1], g.dir[2], g.a0, g.a1, i, mn[i], mx[i]); return; }
            } else {
                double z = uniform_score(bins[i], M);
                if (z > 8) { rec.violation("C18", "not-uniform", "%llu fair %s samples (%s, dimension %d, r %g..%g, angle %g) are not uniform in coordinate %zu (score %.1f)", (unsigned long long)M, sample_names[g.kind], g.T ? "double" : "float", g.dims(), g.r0, g.r, g.ha, i, z); return; }
                for (size_t j = i + 1; j < bins.size(); ++j) {
                    double zz = uniform_score(joint[i * bins.size() + j], M);
                    if (zz > 8) { rec.violation("C18", "not-uniform", "%llu fair %s samples (%s, dimension %d) have dependent coordinates %zu and %zu (score %.1f)", (unsigned long long)M, sample_names[g.kind], g.T ? "double" : "float", g.dims(), i, j, zz); return; }
                }
            }
        }
    }
    struct Bins { std::vector<u64> c; u64 n = 0, width = 0; };
    void stat_draws(const Step& s) {
        u64 M = volume(s, 0, (int)t.get("tier"));
        size_t len = 1 + s.idx(1, 4);
        struct P { int type, form; i64 a, b; };
        std::vector<P> p;
        for (size_t i = 0; i < len; ++i) {
            P x{(int)s.idx(2 + 4 * i, T_COUNT), (int)s.idx(3 + 4 * i, 3), s.arg(4 + 4 * i), s.arg(5 + 4 * i)};
            p.push_back(x);
        }
        Source f(t.seed ^ 0x9393);
        std::vector<Bins> pos(len), fine(len), expo(len), next(len);
        std::vector<double> last(len, -1);
        for (size_t i = 0; i < len; ++i) { pos[i].c.assign(16, 0); fine[i].c.assign(8, 0); expo[i].c.assign(10, 0); next[i].c.assign(16, 0); }
        double prev = -1;
        for (u64 q = 0; q < M; ++q) {
            for (size_t i = 0; i < len; ++i) {
                f.begin_draw(BUDGET);
                Drawn d;
                try { d = do_draw(f, p[i].type, p[i].form, p[i].a, p[i].b); } catch (const Runaway&) { rec.violation("C12", "no-progress", "a draw never finished on a fair source"); throw Abort(); }
                if (d.bad) { rec.violation("C10", "out-of-range", "%s", d.why); throw Abort(); }
                if (d.u < 0 || d.u > 1.0001) { prev = -1; continue; }
                double u = std::min(d.u, std::nextafter(1.0, 0.0));
                if (d.cells) { if (pos[i].c.size() != d.cells) pos[i].c.assign(d.cells, 0); pos[i].c[d.cell]++; }
                else pos[i].c[(size_t)(u * 16)]++;
                pos[i].n++; pos[i].width = d.cells ? 0 : d.width;
                bool fine_ok = d.is_fp && p[i].form == 0;
                if (fine_ok) {
                    double sc = p[i].type == T_FLOAT ? 1048576.0 : 1099511627776.0;
                    double fr = u * sc; fr -= std::floor(fr);
                    fine[i].c[(size_t)(fr * 8)]++; fine[i].n++;
                    int e = u > 0 ? (int)std::floor(-std::log2(u)) : 9; if (e < 0) e = 0; if (e > 9) e = 9;
                    expo[i].c[(size_t)e]++; expo[i].n++;
                }
                if (prev >= 0 && (d.cells == 0 || d.cells == 2 || d.cells == 4)) { size_t a = (size_t)(prev * 4), b = (size_t)(u * 4); next[i].c[a * 4 + b]++; next[i].n++; }
                prev = (d.cells == 0 || d.cells == 2 || d.cells == 4) ? u : -1;
            }
        }
        rec.count("draws_binned", M * len);
        auto name = [&](size_t i) { static char b[160]; snprintf(b, sizeof b, "%s draws (form %d, bounds %lld %lld)", TN[p[i].type], p[i].form, (long long)p[i].a, (long long)p[i].b); return b; };
        for (size_t i = 0; i < len; ++i) {
            for (u64 c : pos[i].c) rec.log(c);
            if (pos[i].n > 1500 && pos[i].c.size() > 1) { double z = uniform_score(pos[i].c, pos[i].n, pos[i].width); if (z > 8) { rec.violation("C18", "not-uniform", "%llu fair %s are not uniform (score %.1f)", (unsigned long long)pos[i].n, name(i), z); return; } }
            if (fine[i].n > 1500) { double z = uniform_score(fine[i].c, fine[i].n); if (z > 8) { rec.violation("C18", "not-uniform", "the low-order bits of %llu fair %s are not uniform (score %.1f)", (unsigned long long)fine[i].n, name(i), z); return; } }
            if (expo[i].n > 1500) {
                double x = 0, pr = 0.5; for (int e = 0; e < 10; ++e) { double ex = (double)expo[i].n * (e < 9 ? pr : pr * 2); double dd = (double)expo[i].c[(size_t)e] - ex; x += dd * dd / ex; pr /= 2; }
                double z = chi_score(x, 9); if (z > 9) { rec.violation("C18", "not-uniform", "%llu fair %s do not halve in frequency with each binary order of magnitude (score %.1f)", (unsigned long long)expo[i].n, name(i), z); return; }
            }
            if (next[i].n > 1500) {
                // rows may be unequally frequent only for two- and four-cell draws; test independence
                double x = 0; double row[4] = {0}, col[4] = {0}; for (int a = 0; a < 16; ++a) { row[a / 4] += (double)next[i].c[(size_t)a]; col[a % 4] += (double)next[i].c[(size_t)a]; }
                int r0 = 0, c0 = 0; for (int a = 0; a < 4; ++a) { r0 += row[a] > 0; c0 += col[a] > 0; }
                for (int a = 0; a < 16; ++a) { double ex = row[a / 4] * col[a % 4] / (double)next[i].n; if (ex > 0) { double dd = (double)next[i].c[(size_t)a] - ex; x += dd * dd / ex; } }
                if (r0 > 1 && c0 > 1) { double z = chi_score(x, (r0 - 1) * (c0 - 1)); if (z > 8) { rec.violation("C18", "dependent-draws", "%llu fair %s depend on the draw before them (score %.1f)", (unsigned long long)next[i].n, name(i), z); return; } }
            }
        }
    }

    void run() {
        int n = 0;
        for (auto& s : t.steps) {
            rec.cur_step = n++;
            rec.log((u64)s.op);
            rec.count(OPS[s.op]);
            switch (s.op) {
                case SCRIPT: src.script.push_back(Segment{(int)s.idx(0, SEG_KINDS), (uint32_t)s.arg(1), 1 + s.idx(2, 3000)}); break;
                case DRAW: draw(s); rec.state(mix64((u64)s.idx(0, T_COUNT) * 3 + s.idx(1, 3)) ^ (src.scripted() ? (u64)src.script.front().kind + 1 : 0)); break;
                case SAMPLE: sample(s); break;
                case SHUFFLE: shuffle(s); break;
                case UNBIASED: unbiased(s); break;
                case ENUM: enumerate(s); break;
                case FAIRPERM: fairperm(s); break;
                case COVER: stat(s, true); break;
                case STAT: stat(s, false); break;
                case STATDRAW: stat_draws(s); break;
            }
            rec.log(src.words);
            rec.state(mix64((u64)s.op * 977 + (u64)s.idx(0, 32)));
            rec.check();
        }
    }
};

struct RngScenario : Scenario {
    const char* name() const override { return "rng"; }
    std::vector<const char*> ops() const override { return std::vector<const char*>(OPS, OPS + OP_COUNT); }
    static i64 bound(Rng& r) {
        switch (r.below(6)) {
            case 0: return (i64)(1 + r.below(40));
            case 1: { int b = (int)r.below(64); return (i64)((1ull << b) + r.below(5) - 2); }
            case 2: { int b = (int)r.below(62); return (i64)((3ull << b) + r.below(1000)); }
            case 3: return (i64)((u64)r.next() >> r.below(64));
            case 4: return -(i64)((u64)r.next() >> (1 + r.below(62)));
            default: { int b = (int)r.below(32); return (i64)((1ull << 32) - 1 - ((1ull << b) - 1)); }
        }
    }
    static void region(Rng& r, Trace& t, int op) {
        add_step(t, op, {(i64)r.below(S_COUNT), (i64)r.below(2), (i64)r.below(4), (i64)r.below(4096), (i64)r.below(1001), (i64)r.below(1000), (i64)r.below(24), (i64)r.below(15), (i64)r.below(100000),
                         (i64)r.below(2001), (i64)r.below(1001), (i64)r.below(1000000), (i64)r.below(3)});
    }
    static void script(Rng& r, Trace& t) {
        static const uint32_t w[] = {0u, 0xFFFFFFFFu, 1u, 0x80000000u, 0x7FFFFFFFu, 0xFFFFFFFEu, 0x1FFu, 0x200u, 0xFFFFFE00u};
        add_step(t, SCRIPT, {(i64)r.below(SEG_KINDS), r.chance(2, 3) ? (i64)w[r.below(9)] : (i64)(uint32_t)r.next(), (i64)(r.chance(3, 4) ? r.below(12) : r.chance(1, 2) ? r.below(100) : r.below(3000))});
    }
    static void draw(Rng& r, Trace& t) {
        int ty = (int)r.below(T_COUNT), fm = (int)r.below(3);
        i64 a, b;
        if (ty >= T_FLOAT) { a = (i64)r.below(4001 * 61); b = (i64)r.below(4001 * 61); if (r.chance(1, 3)) b = a / 4001 * 4001 + (i64)r.below(4001); }
        else { a = bound(r); b = bound(r); }
        add_step(t, DRAW, {ty, fm, a, b});
    }
    void generate(Rng& r, Trace& t, int tier) override {
        t.cfg["tier"] = tier;
        const std::string& f = t.focus;
        if (f == "C18") {
            if (r.chance(3, 5)) region(r, t, STAT);
            else {
                std::initializer_list<i64> none = {};
                add_step(t, STATDRAW, none);
                Step& s = t.steps.back();
                s.a = {(i64)r.below(3), (i64)r.below(4)};
                for (int i = 0; i < 4; ++i) {
                    int ty = (int)r.below(T_COUNT);
                    i64 a, b;
                    if (ty >= T_FLOAT) { // bounds of comparable size
                        i64 e = (i64)r.below(61) * 4001; a = e + 2000 + (r.chance(1, 2) ? 1 : -1) * (i64)r.range(200, 2000); b = e + 2000 + (r.chance(1, 2) ? 1 : -1) * (i64)r.range(200, 2000); if (std::llabs(a - b) < 300) b = e + 2000;
                    } else { a = bound(r); b = bound(r); }
                    s.a.push_back(ty); s.a.push_back((i64)r.below(3)); s.a.push_back(a); s.a.push_back(b);
                }
            }
            add_step(t, SCRIPT, {0, 0, 0});
            return;
        }
        int n = (int)r.range(6, 40);
        for (int q = 0; q < n; ++q) {
            u64 z = r.below(100);
            if (z < 35) { script(r, t); continue; }
            if (f == "C10") { if (z < 45) add_step(t, UNBIASED, {(i64)r.below(6), bound(r)}); else draw(r, t); }
            else if (f == "C11") { if (z < 37) region(r, t, COVER); else if (z < 45) draw(r, t); else region(r, t, SAMPLE); }
            else if (f == "C14") { if (z < 37) add_step(t, ENUM, {(i64)r.below(3), (i64)r.below(2)}); else if (z < 39) add_step(t, FAIRPERM, {(i64)r.below(4), (i64)r.below(2), (i64)r.below(1 << 30)}); else if (z < 50) draw(r, t); else add_step(t, SHUFFLE, {(i64)(r.chance(1, 2) ? r.below(7) : r.chance(1, 12) ? r.below(1000) : r.below(65)), (i64)r.below(3)}); }
            else { if (z < 60) draw(r, t); else if (z < 90) region(r, t, SAMPLE); else add_step(t, SHUFFLE, {(i64)r.below(65), (i64)r.below(3)}); }
        }
    }
    void execute(const Trace& t) override {
        alloc_prop = "C14"; elem_prop = "C14";
        World w(t); w.run();
    }
};
sim::Scenario* sim::make_scenario() { return new RngScenario; }
