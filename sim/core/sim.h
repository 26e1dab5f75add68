// Deterministic simulation core: traces, faults, allocator seam, element seam, run recording.
//
// One seed -> one trace (generate) -> one execution (execute). Execution draws no randomness.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <new>
#include <set>
#include <string>
#include <vector>

namespace sim {

typedef uint64_t u64;
typedef int64_t  i64;

// ---------------------------------------------------------------- randomness (generation only)

inline u64 mix64(u64 x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(mix64(seed ^ 0x5eed5eed5eedull)) {}
    u64 next() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
    u64 below(u64 n) { return n ? (u64)(((unsigned __int128)next() * n) >> 64) : 0; }
    i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); }   // inclusive
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    // small values likely, large ones possible
    i64 small(i64 max) { i64 m = max; while (m > 1 && chance(1, 2)) m = (m + 1) / 2; return (i64)below((u64)m + 1); }
};

// ---------------------------------------------------------------- faults

enum FaultKind {
    F_ALLOC = 0,   // operator new throws bad_alloc
    F_DEFAULT,     // element default / value constructor throws
    F_COPY,        // element copy constructor throws
    F_MOVE,        // element move constructor throws
    F_CASSIGN,     // element copy assignment throws
    F_MASSIGN,     // element move assignment throws
    F_CALLBACK,    // caller-supplied callback throws
    F_KINDS
};
extern const char* const fault_names[F_KINDS];

struct SimFault : std::exception {
    int kind;
    explicit SimFault(int k) : kind(k) {}
    const char* what() const noexcept override { return fault_names[kind]; }
};

struct Fault { int kind; int nth; };          // fire at the nth (1-based) event of that kind in the step

struct Step {
    int op = 0;
    std::vector<i64> a;
    std::vector<Fault> f;
    i64 arg(size_t i) const { return i < a.size() ? a[i] : 0; }
    // argument reduced to [0,n)
    size_t idx(size_t i, size_t n) const { i64 v = arg(i); if (n == 0) return 0; i64 m = v % (i64)n; return (size_t)(m < 0 ? m + (i64)n : m); }
};

struct Trace {
    std::string scenario;
    std::string focus;
    u64 seed = 0;
    std::map<std::string, i64> cfg;
    std::vector<Step> steps;
    i64 get(const char* k, i64 d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
};

// ---------------------------------------------------------------- violations, counters, log

struct Abort {};    // thrown (outside library code) to end a run after a violation

struct Recorder {
    // set at run start
    std::string focus;          // only violations of this property end the run ("" = all)
    bool   verbose = false;
    // results
    bool        violated = false;
    std::string v_prop, v_class, v_msg;
    int         v_step = -1;
    int         cur_step = -1;
    u64         other_violations = 0;
    u64         hash = 0;
    std::map<std::string, u64> counters;
    std::set<u64> states;       // distinct abstract states/transitions reached (whole batch)
    u64 state_cap = 400000;
    u64 sim_events = 0;         // simulated events (whole batch)

    void begin(const std::string& focus_) {
        focus = focus_; violated = false; v_prop.clear(); v_class.clear(); v_msg.clear();
        v_step = cur_step = -1; hash = 0xcbf29ce484222325ull;
    }
    void log(u64 v) { hash = mix64(hash ^ v) + 0x632BE59BD9B4E019ull; ++sim_events; }
    void log_text(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void state(u64 v) { if (states.size() < state_cap) states.insert(v); }
    void count(const char* k, u64 n = 1) { counters[k] += n; }
    // record a violation; never throws (may be called inside destructors)
    void violation(const char* prop, const char* cls, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
    // end the run if something was recorded
    void check() { if (violated) throw Abort(); }
};
extern Recorder rec;

#define SIM_REQUIRE(prop, cls, cond, ...) do { if (!(cond)) { ::sim::rec.violation(prop, cls, __VA_ARGS__); } } while (0)

// ---------------------------------------------------------------- fault engine

struct FaultEngine {
    int  countdown[F_KINDS];      // 0 = none armed
    u64  events[F_KINDS];         // events seen in this step
    bool fired_any = false;
    int  fired_kind = -1;
    u64  total_fired[F_KINDS] = {0};
    u64  total_armed[F_KINDS] = {0};
    FaultEngine() { reset(); }
    void reset() { for (int i = 0; i < F_KINDS; ++i) { countdown[i] = 0; events[i] = 0; } fired_any = false; fired_kind = -1; }
    void arm(const Step& s) { reset(); for (auto& f : s.f) if (f.kind >= 0 && f.kind < F_KINDS && f.nth > 0) { countdown[f.kind] = f.nth; total_armed[f.kind]++; } }
    // returns true if this event must fail
    bool hit(int k) {
        ++events[k];
        if (countdown[k] > 0 && --countdown[k] == 0) { fired_any = true; fired_kind = k; total_fired[k]++; return true; }
        return false;
    }
    void disarm() { for (int i = 0; i < F_KINDS; ++i) countdown[i] = 0; }
};
extern FaultEngine faults;

// ---------------------------------------------------------------- library scope + allocator seam

extern int  lib_depth;            // >0 while library code runs
struct Lib   { Lib() { ++lib_depth; } ~Lib() { --lib_depth; } };
struct NoLib { int d; NoLib() : d(lib_depth) { lib_depth = 0; } ~NoLib() { lib_depth = d; } };

struct AllocStats { u64 allocs, frees, live, live_bytes; };
extern AllocStats alloc_stats;
extern const char* alloc_prop;    // property blamed for allocator misuse
void alloc_reset();               // forget everything (start of run)
void alloc_check_leaks();         // violation if blocks allocated in library scope remain
bool alloc_find(const void* p, const void** base, size_t* size); // live tracked block containing p

// ---------------------------------------------------------------- object registry (element seam)

extern const char* elem_prop;     // property blamed for lifetime errors
namespace reg {
    void reset();
    void born(const void* p, int size);            // construction
    bool dead(const void* p);                      // destruction; false if not live
    bool live(const void* p);
    u64  count();
}

// ---------------------------------------------------------------- scenarios

struct Scenario {
    virtual ~Scenario() {}
    virtual const char* name() const = 0;
    virtual std::vector<const char*> ops() const = 0;
    virtual void generate(Rng& r, Trace& t, int tier) = 0;
    virtual void execute(const Trace& t) = 0;
    virtual bool isolated() const { return false; }   // run each trace in a process of its own
    virtual const char* crash_prop(const Trace& t) const { return t.focus.c_str(); }
};
[[noreturn]] void finish_isolated();   // end an isolated run at once, from any thread, keeping what was recorded
Scenario* make_scenario();        // supplied by each scenario program

inline void add_step(Trace& t, int op, std::initializer_list<i64> a) { Step s; s.op = op; s.a = a; t.steps.push_back(std::move(s)); }

} // namespace sim
