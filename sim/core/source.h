// A scripted bit source behind the library's own seam (geom::Random::rand32).
#pragma once
#include "sim.h"
#include <geomc/random/Random.h>
#include <deque>

namespace sim {

enum SegKind { SEG_STUCK, SEG_ALT, SEG_BOUNDARY, SEG_COUNTER, SEG_ONEHOT, SEG_REPEATED, SEG_FAIR, SEG_KINDS };
static const char* const seg_names[SEG_KINDS] = {"fault:source_stuck_words", "fault:source_alternating_words", "fault:source_boundary_words",
    "fault:source_counter_words", "fault:source_onehot_words", "fault:source_repeating_words", "source_fair_words"};

struct Runaway { };          // thrown by the source when a draw exceeds its word budget

struct Segment { int kind; uint32_t a; uint64_t n; };

// Delivers the scripted segments in order, then fair words for ever.
struct Source : geom::Random {
    std::deque<Segment> script;
    Rng  fair;
    Rng  aux;
    u64  at = 0;              // words delivered from the current segment
    u64  words = 0;           // words delivered in total
    u64  fair_run = 0;        // consecutive words delivered by the final fair source
    u64  budget = ~0ull;      // maximum fair_run growth within one draw
    u64  fair_at_start = 0;
    explicit Source(u64 seed) : fair(seed), aux(seed ^ 0xABCDEF) {}
    void rseed(uint64_t) override {}
    bool scripted() const { return !script.empty(); }
    void begin_draw(u64 b) { budget = b; fair_at_start = fair_run; }
    u64  fair_used() const { return fair_run - fair_at_start; }
    uint32_t rand32() override {
        NoLib nl; ++words;
        while (!script.empty() && at >= script.front().n) { script.pop_front(); at = 0; }
        if (script.empty()) {
            ++fair_run;
            if (fair_run - fair_at_start > budget) throw Runaway();
            return (uint32_t)(fair.next() >> 32);
        }
        Segment& s = script.front();
        u64 i = at++;
        rec.count(seg_names[s.kind]);
        switch (s.kind) {
            case SEG_STUCK:    return s.a;
            case SEG_ALT:      return i & 1 ? ~s.a : s.a;
            case SEG_BOUNDARY: {
                static const uint32_t w[] = {0u, 1u, 2u, 0x7FFFFFFFu, 0x80000000u, 0x80000001u, 0xFFFFFFFEu, 0xFFFFFFFFu, 0x1FFu, 0x200u, 0x000001FFu, 0xFFFFFE00u, 0x00000FFFu, 0xFFFFF000u, 0x55555555u, 0xAAAAAAAAu};
                return w[mix64(s.a * 1000003ull + i) % (sizeof w / sizeof *w)];
            }
            case SEG_COUNTER:  return s.a + (uint32_t)i;
            case SEG_ONEHOT:   return 1u << (mix64(s.a * 7919ull + i) % 32);
            case SEG_REPEATED: return (uint32_t)mix64(s.a + (i % 3));
            default:           return (uint32_t)(mix64(s.a * 31ull + i * 0x9E3779B97F4A7C15ull) >> 32);
        }
    }
};

} // namespace sim
