// C09 C13: generator histories on simulated threads under simulated clocks.
#include "core/sim.h"
#include "core/sched.h"
#include "core/clock.h"
#include <geomc/random/LCRand.h>
#include <geomc/random/MTRand.h>
#include <geomc/random/Xorshiro.h>
#include <geomc/random/RandomTools.h>
#include <memory>

using namespace sim;
using geom::Random;

enum { CLOCK, JUMP, DEFAULT, SEED, RESEED, XSEED, XENTROPY, DRAW, SAMPLE, SHUFFLE, COPY, ASSIGN, DROP, GLOBAL, PREEMPT, OP_COUNT };
static const char* OPS[] = {"clock", "jump", "default", "seed", "reseed", "xseed", "xentropy", "draw", "sample", "shuffle", "copy", "assign", "drop", "global", "preempt"};
enum { LC, MT, XO, KINDS };
static const char* KN[] = {"LCRand", "MTRand", "XoshiroRand"};
static const int SLOTS = 4;

template <typename T> static u64 bits_of(T v) { u64 r = 0; memcpy(&r, &v, sizeof v < 8 ? sizeof v : 8); return r; }
template <typename T> static u64 draw_t(Random& g, int form, T a, T b) { return bits_of(form == 0 ? g.rand<T>() : g.rand<T>(a)); }
static u64 draw_one(Random& g, int type, int form, i64 a, i64 b) {
    switch (type) {
        case 0: return g.rand<bool>();
        case 1: { int x = (int)a ? (int)a : 5, y = (int)b; if (x == y) y = x ^ 1; return form == 2 ? bits_of(g.rand<int>(x, y)) : draw_t<int>(g, form, x, y); }
        case 2: { unsigned x = (unsigned)a ? (unsigned)a : 5; return draw_t<unsigned>(g, form, x, x); }
        case 3: { long x = a ? (long)a : 5; return draw_t<long>(g, form, x, x); }
        case 4: { unsigned long x = a ? (unsigned long)a : 5; return draw_t<unsigned long>(g, form, x, x); }
        case 5: { long long x = a ? a : 5, y = b; if (x == y) y = x ^ 1; return form == 2 ? bits_of(g.rand<long long>(x, y)) : draw_t<long long>(g, form, x, y); }
        case 6: { unsigned long long x = a ? (unsigned long long)a : 5; return draw_t<unsigned long long>(g, form, x, x); }
        case 7: return form == 2 ? bits_of(g.rand<float>((float)a, (float)b)) : draw_t<float>(g, form, (float)a, (float)b);
        case 8: return form == 2 ? bits_of(g.rand<double>((double)a, (double)b)) : draw_t<double>(g, form, (double)a, (double)b);
        default: return g.rand32();
    }
}
static u64 sample_one(Random& g, int which) {
    u64 h = 0;
    auto v3 = [&](auto v) { for (int i = 0; i < (int)v.size(); ++i) h = mix64(h ^ bits_of(v[i])); };
    geom::Sampler<double> d(&g); geom::Sampler<float> f(&g);
    switch (which) {
        case 0: v3(d.unit<3>()); break;
        case 1: v3(f.unit<2>()); break;
        case 2: v3(d.solidball<4>(3)); break;
        case 3: v3(f.shell<3>(1, 2)); break;
        case 4: v3(d.cap(geom::Vec<double, 3>(1, 2, 3), 0.5)); break;
        case 5: v3(f.box<5>()); break;
        case 6: v3(d.solidarc(0, 1, 1, 2)); break;
        default: v3(d.oriented_disk(geom::Vec<double, 3>(0, 1, 3), 2)); break;
    }
    return h;
}
static u64 shuffle_one(Random& g, size_t n) {
    std::vector<int> a(n); for (size_t i = 0; i < n; ++i) a[i] = (int)i;
    geom::permute(a, g);
    u64 h = 0; for (int v : a) h = mix64(h ^ (u64)v);
    return h;
}
struct Ent { const u64* e; int i = 0; u64 operator()() { return e[i++ & 3]; } };
static void entropy(i64 s, u64 e[4]) { for (int i = 0; i < 4; ++i) e[i] = mix64((u64)s * 4 + (u64)i) | (i == 0); }

static Random* make(int kind) { switch (kind) { case LC: return new geom::LCRand(); case MT: return new geom::MTRand(); default: return new geom::XoshiroRand(); } }
static Random* make(int kind, u64 s) { switch (kind) { case LC: return new geom::LCRand(s); case MT: return new geom::MTRand(s); default: return new geom::XoshiroRand(s); } }
static Random* make_x(const u64 e[4]) { return new geom::XoshiroRand((const uint64_t*)e); }
static Random* dup(int kind, Random* o) {
    switch (kind) { case LC: return new geom::LCRand(*(geom::LCRand*)o); case MT: return new geom::MTRand(*(geom::MTRand*)o); default: return new geom::XoshiroRand(*(geom::XoshiroRand*)o); }
}
static void assign(int kind, Random* d, Random* s) {
    switch (kind) { case LC: *(geom::LCRand*)d = *(geom::LCRand*)s; break; case MT: *(geom::MTRand*)d = *(geom::MTRand*)s; break; default: *(geom::XoshiroRand*)d = *(geom::XoshiroRand*)s; }
}

// what happened to a generator since it was last seeded
struct Event { int op; i64 a[4]; u64 n; u64 out; int step; };
struct Slot { int kind = 0; Random* g = nullptr; bool seeded = false; int how = 0; i64 seed = 0; std::vector<Event> ev; };
struct Fresh { int kind; u64 w[6]; int step; };
struct Life { int kind; int how; i64 seed; std::vector<Event> ev; };

static u64 perform(Random& g, int kind, const Event& e) {
    u64 h = 0;
    for (u64 i = 0; i < e.n; ++i) {
        u64 r;
        if (e.op == DRAW) {
            if (e.a[0] == 10) r = kind == LC ? ((geom::LCRand&)g).rand64() : kind == XO ? ((geom::XoshiroRand&)g).rand64() : g.rand32();
            else r = draw_one(g, (int)e.a[0], (int)e.a[1], e.a[2], e.a[3]);
        } else if (e.op == SAMPLE) r = sample_one(g, (int)e.a[0]);
        else r = shuffle_one(g, (size_t)e.a[0]);
        h = mix64(h ^ r) + i;
    }
    return h;
}

struct Worker {
    std::vector<std::pair<int, const Step*>> steps;
    Slot slot[SLOTS];
    std::vector<Fresh> fresh;
    std::vector<Life> lives;
    bool single = false;

    void retire(Slot& s) { if (s.g && s.seeded && !s.ev.empty()) lives.push_back(Life{s.kind, s.how, s.seed, s.ev}); }
    void drop(Slot& s) { retire(s); Random* g = s.g; s.g = nullptr; s.ev.clear(); s.seeded = false; if (g) { sched::Lib l; delete g; } }
    void seeded(Slot& s, int how, i64 seed) { s.seeded = true; s.how = how; s.seed = seed; s.ev.clear(); }

    void step(int no, const Step& st) {
        Slot& s = slot[st.idx(1, SLOTS)];
        sched::set_op((u64)st.op * 8 + (u64)(s.g ? s.kind + 1 : 0));
        switch (st.op) {
            case CLOCK: simclock::set_mode((int)st.idx(1, simclock::MODES), st.arg(2)); rec.count("fault:clock_mode"); break;
            case JUMP:  simclock::jump(st.arg(1), st.arg(2), st.arg(3)); rec.count(st.arg(1) < 0 || st.arg(2) < 0 || st.arg(3) < 0 ? "fault:clock_backwards" : "fault:clock_forwards"); break;
            case DEFAULT: {
                int k = (int)st.idx(2, KINDS);
                if (st.arg(3) & 1) {           // keep it, to be reseeded or copied over later
                    drop(s); s.kind = k;
                    Fresh f{k, {}, no};
                    { sched::Lib l; s.g = make(k); for (u64& w : f.w) w = s.g->rand32(); }
                    fresh.push_back(f);
                } else {
                    Fresh f{k, {}, no};
                    { sched::Lib l; Random* g = make(k); for (u64& w : f.w) w = g->rand32(); delete g; }
                    fresh.push_back(f);
                }
                break;
            }
            case SEED: { int k = (int)st.idx(2, KINDS); drop(s); s.kind = k; { sched::Lib l; s.g = make(k, (u64)st.arg(3)); } seeded(s, 0, st.arg(3)); break; }
            case RESEED: if (s.g) { retire(s); { sched::Lib l; s.g->rseed((u64)st.arg(2)); } seeded(s, 0, st.arg(2)); } break;
            case XSEED: {
                u64 e[4]; entropy(st.arg(2), e);
                if (s.g && s.kind == XO) { retire(s); { sched::Lib l; ((geom::XoshiroRand*)s.g)->seed((const uint64_t*)e); } seeded(s, 1, st.arg(2)); }
                else if (!s.g) { s.kind = XO; { sched::Lib l; s.g = make_x(e); } seeded(s, 1, st.arg(2)); }
                break;
            }
            case XENTROPY: if (s.g && s.kind == XO) { u64 e[4]; entropy(st.arg(2), e); retire(s); { sched::Lib l; ((geom::XoshiroRand*)s.g)->seed(Ent{e}); } seeded(s, 2, st.arg(2)); } break;
            case DRAW: case SAMPLE: case SHUFFLE: {
                if (!s.g) break;
                Event e; e.op = st.op; e.step = no; e.n = 1;
                if (st.op == DRAW) { e.a[0] = (i64)st.idx(2, 11); e.a[1] = (i64)st.idx(3, 3); e.a[2] = st.arg(4); e.a[3] = st.arg(5); e.n = 1 + st.idx(6, 1400); }
                else { e.a[0] = (i64)st.idx(2, st.op == SAMPLE ? 8 : 20); e.a[1] = e.a[2] = e.a[3] = 0; }
                { sched::Lib l; e.out = perform(*s.g, s.kind, e); }
                if (s.seeded) s.ev.push_back(e);
                break;
            }
            case COPY: {
                Slot& o = slot[st.idx(2, SLOTS)];
                if (&o == &s || !o.g) break;
                drop(s); s.kind = o.kind; s.seeded = o.seeded; s.how = o.how; s.seed = o.seed; s.ev = o.ev;
                { sched::Lib l; s.g = dup(o.kind, o.g); }
                break;
            }
            case ASSIGN: {
                Slot& o = slot[st.idx(2, SLOTS)];
                if (!o.g || !s.g || s.kind != o.kind) break;
                if (&o != &s) { retire(s); s.seeded = o.seeded; s.how = o.how; s.seed = o.seed; s.ev = o.ev; }
                { sched::Lib l; assign(s.kind, s.g, o.g); }
                break;
            }
            case DROP: drop(s); break;
            case GLOBAL: if (single) { sched::Lib l; for (int i = 0; i < 3; ++i) draw_one(*geom::getRandom(), (int)st.idx(2, 10), 0, 0, 0); } break;   // the shared default generator, documented as not thread-safe
        }
    }
    void run() { for (auto& p : steps) step(p.first, *p.second); }
};

struct GenScenario : Scenario {
    const char* name() const override { return "gens"; }
    bool isolated() const override { return true; }
    std::vector<const char*> ops() const override { return std::vector<const char*>(OPS, OPS + OP_COUNT); }

    static i64 seedval(Rng& r) { switch (r.below(4)) { case 0: return (i64)r.below(4); case 1: return (i64)~0ull - (i64)r.below(3); case 2: return (i64)(1ull << r.below(64)); default: return (i64)r.next(); } }
    static i64 delta(Rng& r) { i64 v; switch (r.below(6)) { case 0: v = (i64)r.below(4); break; case 1: v = 1000 * (i64)r.below(6); break; case 2: v = 1000000000ll * (i64)r.below(6); break; case 3: v = (i64)1 << r.below(50); break; case 4: v = 1000ll << r.below(30); break; default: v = (i64)(r.next() >> (20 + r.below(40))); } return r.chance(1, 2) ? -v : v; }
    void generate(Rng& r, Trace& t, int tier) override {
        bool c13 = t.focus == "C13";
        int nt = r.chance(1, 3) ? 1 : (int)r.range(2, 4);
        t.cfg["threads"] = nt;
        t.cfg["wall"] = (i64)(r.below(4) == 0 ? r.below(5000000000ull) : 1700000000000000000ull + r.below(1000000000000ull));
        int np = nt > 1 ? (int)r.below(25) : 0;
        int scale = (int)r.below(12);
        for (int i = 0; i < np; ++i) add_step(t, PREEMPT, {1 + (i64)(r.next() >> (63 - scale + (r.chance(1, 3) ? (int)r.below((u64)scale + 1) : 0))), (i64)r.below(4)});
        int n = (int)r.range(3, 40);
        bool longdraw = r.chance(1, 3);
        for (int q = 0; q < n; ++q) {
            i64 th = (i64)r.below((u64)nt), sl = (i64)r.below(SLOTS);
            u64 z = r.below(100);
            if (c13) {
                if (z < 10) add_step(t, CLOCK, {th, (i64)r.below(3), r.chance(1, 2) ? (i64)r.below(3000) : (i64)1 << r.below(34)});
                else if (z < 30) { if (r.chance(1, 2)) { i64 d = delta(r); add_step(t, JUMP, {th, d, d, d}); } else add_step(t, JUMP, {th, delta(r), delta(r), delta(r)}); }
                else if (z < 95) add_step(t, DEFAULT, {th, sl, (i64)r.below(KINDS), (i64)r.below(2)});
                else add_step(t, DRAW, {th, sl, (i64)r.below(11), 0, 0, 0, (i64)r.below(8)});
                continue;
            }
            if (z < 14) add_step(t, SEED, {th, sl, (i64)r.below(KINDS), seedval(r)});
            else if (z < 24) add_step(t, RESEED, {th, sl, seedval(r)});
            else if (z < 27) add_step(t, XSEED, {th, sl, (i64)r.below(1000)});
            else if (z < 30) add_step(t, XENTROPY, {th, sl, (i64)r.below(1000)});
            else if (z < 62) { i64 cnt = longdraw && r.chance(1, 4) ? (i64)r.below(1400) : (i64)r.below(6); add_step(t, DRAW, {th, sl, (i64)(r.chance(1, 4) ? 0 : r.below(11)), (i64)r.below(3), (i64)(r.chance(1, 2) ? r.below(100) : (u64)delta(r)), (i64)r.below(100) - 50, cnt}); }
            else if (z < 67) add_step(t, SAMPLE, {th, sl, (i64)r.below(8)});
            else if (z < 70) add_step(t, SHUFFLE, {th, sl, (i64)r.below(20)});
            else if (z < 80) add_step(t, COPY, {th, sl, (i64)r.below(SLOTS)});
            else if (z < 86) add_step(t, ASSIGN, {th, sl, (i64)r.below(SLOTS)});
            else if (z < 89) add_step(t, DROP, {th, sl});
            else if (z < 93) add_step(t, DEFAULT, {th, sl, (i64)r.below(KINDS), (i64)r.below(2)});
            else if (z < 95) add_step(t, GLOBAL, {th, sl, (i64)r.below(10)});
            else if (z < 98) { i64 d = delta(r); add_step(t, JUMP, {th, d, d, d}); }
            else add_step(t, CLOCK, {th, (i64)r.below(3), (i64)1 << r.below(34)});
        }
    }

    void execute(const Trace& t) override {
        sched::race_prop = "C13"; sched::mem_prop = t.focus == "C09" ? "C09" : "C13";
        sched::reset();
        simclock::reset(t.get("wall"));
        int nt = (int)t.get("threads", 1); if (nt < 1) nt = 1; if (nt > 4) nt = 4;
        std::vector<std::unique_ptr<Worker>> w;
        for (int i = 0; i < nt; ++i) { w.emplace_back(new Worker); w.back()->single = nt == 1; }
        std::vector<sched::Preempt> plan;
        int no = 0;
        for (auto& s : t.steps) {
            rec.count(OPS[s.op]);
            rec.log((u64)s.op); for (i64 a : s.a) rec.log((u64)a);
            if (s.op == PREEMPT) plan.push_back(sched::Preempt{(u64)std::max<i64>(1, s.arg(0)), (int)s.idx(1, 8)});
            else w[s.idx(0, (size_t)nt)]->steps.push_back({no, &s});
            ++no;
        }
        if (nt == 1) w[0]->run();              // no second thread: run on the main one
        else { for (auto& x : w) { Worker* p = x.get(); sched::spawn([p] { p->run(); }); } sched::run(plan); }
        rec.log(sched::schedule_hash());
        rec.count("context_switches", sched::switches()); rec.count("scheduling_points", sched::points()); rec.count("clock_readings", simclock::readings);

        // C13: no two default-constructed generators of a kind alike
        std::vector<Fresh> all;
        for (auto& x : w) all.insert(all.end(), x->fresh.begin(), x->fresh.end());
        rec.count("default_generators", all.size());
        for (size_t i = 0; i < all.size(); ++i) for (size_t j = i + 1; j < all.size(); ++j)
            if (all[i].kind == all[j].kind && !memcmp(all[i].w, all[j].w, sizeof all[i].w)) {
                rec.cur_step = all[j].step;
                rec.violation("C13", "same-state", "two %s generators constructed without a seed (steps %d and %d) produce the same stream", KN[all[i].kind], all[i].step, all[j].step);
            }

        // C09: replay every life from its seed on a generator of its own, with nothing else going on
        for (auto& x : w) for (auto& s : x->slot) x->retire(s);
        for (auto& x : w) for (auto& l : x->lives) {
            Random* g;
            u64 e[4]; entropy(l.seed, e);
            if (l.how == 0) g = make(l.kind, (u64)l.seed);
            else if (l.how == 1) g = make_x(e);
            else { geom::XoshiroRand* q = new geom::XoshiroRand((u64)0); q->seed(Ent{e}); g = q; }
            rec.count("lives_replayed");
            for (auto& ev : l.ev) {
                u64 out = perform(*g, l.kind, ev);
                rec.log(out);
                rec.state(mix64((u64)l.kind * 64 + (u64)ev.op * 4 + (u64)l.how) ^ (u64)ev.a[0]);
                if (out != ev.out) {
                    rec.cur_step = ev.step;
                    rec.violation("C09", "seed-determinism", "a %s seeded with %llu gives other results (step %d, %s) than a fresh one given the same seed and draws", KN[l.kind], (unsigned long long)l.seed, ev.step, OPS[ev.op]);
                    delete g;
                    return;
                }
            }
            delete g;
        }
        rec.log(all.size());
    }
};
sim::Scenario* sim::make_scenario() { return new GenScenario; }
