// Running one library operation under the fault engine.
#pragma once
#include "sim.h"
#include <exception>
#include <typeinfo>

namespace sim {

enum Outcome { DONE, FAILED };

// Run f as library code with the step's faults armed. Exceptions raised by injected faults are
// reported as FAILED; any other exception, and a fired fault that does not surface, is a violation
// of `prop`. If the exception type E is expected (allowed) it also maps to FAILED.
template <typename F>
Outcome attempt(const Step& s, const char* prop, F f) {
    faults.arm(s);
    Outcome r = DONE;
    bool foreign = false;
    const char* what = "";
    std::string keep;
    try { Lib l; f(); }
    catch (const SimFault&)       { r = FAILED; }
    catch (const std::bad_alloc&) { r = FAILED; }
    catch (const Abort&)          { throw; }
    catch (const std::exception& e) { r = FAILED; foreign = true; lib_depth = 0; keep = e.what(); what = keep.c_str(); }
    catch (...)                   { r = FAILED; foreign = true; what = "unknown"; }
    lib_depth = 0;
    bool fired = faults.fired_any;
    faults.disarm();
    if (foreign) rec.violation(prop, "foreign-exception", "unexpected exception: %s", what);
    else if (r == FAILED && !fired) rec.violation(prop, "spurious-exception", "exception thrown although nothing failed");
    else if (r == DONE && fired)    rec.violation(prop, "swallowed-exception", "a %s failure inside the operation did not reach the caller", fault_names[faults.fired_kind]);
    if (r == FAILED) rec.count("ops_failed_by_fault");
    rec.log((u64)r * 2 + 1);
    return r;
}

// attach random faults to the last step of a trace
inline void maybe_fault(Rng& r, Trace& t, const std::vector<int>& kinds, unsigned percent, int max_nth = 6) {
    if (percent == 0 || kinds.empty() || !r.chance(percent, 100)) return;
    Fault f; f.kind = r.pick(kinds);
    f.nth = 1 + (int)r.small(max_nth - 1);
    t.steps.back().f.push_back(f);
    if (r.chance(1, 12)) { Fault g; g.kind = r.pick(kinds); g.nth = 1 + (int)r.below(max_nth); t.steps.back().f.push_back(g); }
}

} // namespace sim
