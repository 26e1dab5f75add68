// C15: read-only use of shared objects, and use of private ones, by simulated threads.
#include "const/constops.h"
#include <algorithm>

using namespace sim;
using constops::Op; using constops::Args; using constops::Group;

std::vector<Group>& constops::groups() { static std::vector<Group> g; return g; }
static std::vector<Group> sorted_groups() {                     // independent of link order
    std::vector<Group> g = constops::groups();
    std::sort(g.begin(), g.end(), [](const Group& a, const Group& b) { return strcmp(a.name, b.name) < 0; });
    return g;
}

enum { CALL, PREEMPT, OP_COUNT };
static const char* OPS[] = {"call", "preempt"};
#define P "C15"
static const u64 NO_RESULT = 0x4E4F4E45, THREW = 0x7472657721ull;

struct World {
    struct Call { const Step* s; int op; u64 result = NO_RESULT; };
    const Trace& t;
    std::vector<Op> ops;
    std::vector<Call> calls[4];
    explicit World(const Trace& t) : t(t) {}

    void build(std::vector<Op>& out) {
        std::vector<Group> g = sorted_groups();
        u64 seed = (u64)t.get("objects");
        for (const char* k : {"group", "group2"}) {
            i64 i = t.get(k, -1);
            if (i >= 0) g[(size_t)i % g.size()].build(seed ^ (u64)i * 77, out);
        }
    }
    static u64 call(const Op& op, u64 args) {
        Args a(args);
        try { sched::Lib l; return op.f(a); } catch (const std::bad_alloc&) { return NO_RESULT; } catch (...) { return THREW; }
    }
    void execute() {
        int nt = (int)t.get("threads", 2); nt = nt < 1 ? 1 : nt > 4 ? 4 : nt;
        build(ops);
        if (ops.empty()) return;
        std::vector<sched::Preempt> plan;
        for (auto& s : t.steps) {
            rec.count(OPS[s.op]); rec.log((u64)s.op); for (i64 a : s.a) rec.log((u64)a);
            for (auto& f : s.f) if (f.kind == F_ALLOC) faults.total_armed[F_ALLOC]++;
            if (s.op == PREEMPT) plan.push_back(sched::Preempt{(u64)std::max<i64>(1, s.arg(0)), (int)s.idx(1, 8)});
            else {
                Call c; c.s = &s; c.op = (int)s.idx(1, ops.size());
                calls[s.idx(0, (size_t)nt)].push_back(c);
                rec.count(ops[(size_t)c.op].own ? "private_object_calls" : "shared_object_calls");
            }
        }
        // the threads: nothing has been called on the objects yet, so whatever is prepared on first use is prepared here
        for (int i = 0; i < nt; ++i) sched::spawn([this, i] {
            for (Call& c : calls[i]) {
                sched::set_op((u64)t.get("group") * 4096 + (u64)c.op);
                int nth = c.s->f.empty() ? 0 : c.s->f[0].nth;
                sched::fail_alloc(nth);
                u64 r = call(ops[(size_t)c.op], (u64)c.s->arg(2));
                bool fired = sched::alloc_failed();
                sched::fail_alloc(0);
                if (r == NO_RESULT && !fired) rec.violation(P, "unexpected-exception", "%s ran out of memory although memory was available", ops[(size_t)c.op].name.c_str());
                c.result = fired ? NO_RESULT : r;
            }
        });
        sched::run(plan);
        rec.log(sched::schedule_hash());
        rec.count("context_switches", sched::switches()); rec.count("scheduling_points", sched::points());
        // the same calls on one thread: on the same objects in the opposite order, and on fresh objects in order
        std::vector<Op> fresh; build(fresh);
        for (int i = nt; i-- > 0;) for (size_t k = calls[i].size(); k-- > 0;) compare(calls[i][k], ops, "the same objects");
        for (int i = 0; i < nt; ++i) for (Call& c : calls[i]) compare(c, fresh, "fresh objects");
    }
    void compare(Call& c, std::vector<Op>& o, const char* what) {
        if (c.result == NO_RESULT) return;
        u64 r = call(o[(size_t)c.op], (u64)c.s->arg(2));
        rec.log(r);
        if (r != c.result) rec.violation(P, "result", "%s gave one result among %d threads and another on one thread (%s, arguments %lld)",
            o[(size_t)c.op].name.c_str(), (int)t.get("threads"), what, (long long)c.s->arg(2));
    }
};

struct ConstUse : Scenario {
    const char* name() const override { return "constuse"; }
    bool isolated() const override { return true; }
    std::vector<const char*> ops() const override { return std::vector<const char*>(OPS, OPS + OP_COUNT); }
    void generate(Rng& r, Trace& t, int) override {
        int nt = (int)r.range(2, 4), ng = (int)constops::groups().size();
        t.cfg["threads"] = nt; t.cfg["objects"] = (i64)r.below(1000);
        t.cfg["group"] = (i64)r.below((u64)ng); t.cfg["group2"] = r.chance(1, 6) ? (i64)r.below((u64)ng) : -1;
        int np = 1 + (int)r.below(20), scale = (int)r.below(11);
        for (int i = 0; i < np; ++i) add_step(t, PREEMPT, {1 + (i64)(r.next() >> (63 - scale + (r.chance(1, 3) ? (int)r.below((u64)scale + 1) : 0))), (i64)r.below(4)});
        int n = (int)r.range(2, 12);
        i64 base = (i64)r.below(1 << 20), args = (i64)r.below(1 << 20);
        int spread = 1 + (int)r.below(12);
        for (int q = 0; q < n; ++q) {
            i64 op = r.chance(1, 6) ? (i64)r.below(1 << 20) : base + (i64)r.below((u64)spread);
            add_step(t, CALL, {(i64)r.below((u64)nt), op, r.chance(1, 4) ? args : (i64)r.below(1 << 20)});
            if (r.chance(1, 12)) t.steps.back().f.push_back(Fault{F_ALLOC, 1 + (int)r.below(3)});
        }
    }
    void execute(const Trace& t) override {
        sched::race_prop = sched::mem_prop = P;
        sched::reset();
        World* w = new World(t); w->execute();
    }
};
sim::Scenario* sim::make_scenario() { return new ConstUse; }
