// Tracked element types: every special member call is an event of the simulation.
#pragma once
#include "sim.h"

namespace sim {

const i64 MOVED = -777;
const i64 DEFAULTED = -555;

// Kind:
//   0  copyable, move never throws (noexcept)
//   1  copyable, move may throw
//   2  copy-only (no move operations: copies instead; copies may throw)
//   3  move-only, move never throws
struct ElemBase {
    i64 v;
    u64 magic;
    static const u64 MAGIC = 0xE1E3E1E3C0FFEE11ull;

    static void maybe_fail(int kind) {
        if (lib_depth > 0 && faults.hit(kind)) throw SimFault(kind);
    }
    static void check_live(const void* p, const char* what) {
        NoLib nl;
        if (!reg::live(p)) rec.violation(elem_prop, "dead-element", "%s an element that is not alive", what);
    }
    void birth(i64 val) { v = val; magic = MAGIC; NoLib nl; reg::born(this, sizeof(*this)); if (lib_depth) {} }
    void death() {
        NoLib nl;
        if (!reg::dead(this)) rec.violation(elem_prop, "double-destroy", "destroyed an element that is not alive");
        else if (magic != MAGIC) rec.violation(elem_prop, "clobbered-element", "an element's memory was overwritten while it was alive");
        magic = 0xDEADDEADDEADDEADull; v = -999;
    }
};

template <int K> struct Elem;

template <> struct Elem<0> : ElemBase {
    static constexpr bool copyable = true, movable = true, nothrow_move = true;
    Elem()              { maybe_fail(F_DEFAULT); birth(DEFAULTED); }
    explicit Elem(i64 x){ maybe_fail(F_DEFAULT); birth(x); }
    Elem(const Elem& o) { check_live(&o, "copied"); maybe_fail(F_COPY); birth(o.v); }
    Elem(Elem&& o) noexcept { check_live(&o, "moved"); i64 x = o.v; o.v = MOVED; birth(x); }
    Elem& operator=(const Elem& o) { check_live(&o, "assigned from"); check_live(this, "assigned to"); maybe_fail(F_CASSIGN); v = o.v; return *this; }
    Elem& operator=(Elem&& o) noexcept { check_live(&o, "assigned from"); check_live(this, "assigned to"); i64 x = o.v; o.v = MOVED; v = x; return *this; }
    ~Elem() { death(); }
    bool operator==(const Elem& o) const { check_live(&o, "compared"); check_live(this, "compared"); return v == o.v; }
    bool operator!=(const Elem& o) const { return !(*this == o); }
};
template <> struct Elem<1> : ElemBase {
    static constexpr bool copyable = true, movable = true, nothrow_move = false;
    Elem()              { maybe_fail(F_DEFAULT); birth(DEFAULTED); }
    explicit Elem(i64 x){ maybe_fail(F_DEFAULT); birth(x); }
    Elem(const Elem& o) { check_live(&o, "copied"); maybe_fail(F_COPY); birth(o.v); }
    Elem(Elem&& o)      { check_live(&o, "moved"); maybe_fail(F_MOVE); i64 x = o.v; o.v = MOVED; birth(x); }
    Elem& operator=(const Elem& o) { check_live(&o, "assigned from"); check_live(this, "assigned to"); maybe_fail(F_CASSIGN); v = o.v; return *this; }
    Elem& operator=(Elem&& o) { check_live(&o, "assigned from"); check_live(this, "assigned to"); maybe_fail(F_MASSIGN); i64 x = o.v; o.v = MOVED; v = x; return *this; }
    ~Elem() { death(); }
    bool operator==(const Elem& o) const { check_live(&o, "compared"); check_live(this, "compared"); return v == o.v; }
    bool operator!=(const Elem& o) const { return !(*this == o); }
};
template <> struct Elem<2> : ElemBase {
    static constexpr bool copyable = true, movable = false, nothrow_move = false;
    Elem()              { maybe_fail(F_DEFAULT); birth(DEFAULTED); }
    explicit Elem(i64 x){ maybe_fail(F_DEFAULT); birth(x); }
    Elem(const Elem& o) { check_live(&o, "copied"); maybe_fail(F_COPY); birth(o.v); }
    Elem& operator=(const Elem& o) { check_live(&o, "assigned from"); check_live(this, "assigned to"); maybe_fail(F_CASSIGN); v = o.v; return *this; }
    ~Elem() { death(); }
    bool operator==(const Elem& o) const { check_live(&o, "compared"); check_live(this, "compared"); return v == o.v; }
    bool operator!=(const Elem& o) const { return !(*this == o); }
};
template <> struct Elem<3> : ElemBase {
    static constexpr bool copyable = false, movable = true, nothrow_move = true;
    Elem()              { maybe_fail(F_DEFAULT); birth(DEFAULTED); }
    explicit Elem(i64 x){ maybe_fail(F_DEFAULT); birth(x); }
    Elem(const Elem& o) = delete;
    Elem(Elem&& o) noexcept { check_live(&o, "moved"); i64 x = o.v; o.v = MOVED; birth(x); }
    Elem& operator=(const Elem& o) = delete;
    Elem& operator=(Elem&& o) noexcept { check_live(&o, "assigned from"); check_live(this, "assigned to"); i64 x = o.v; o.v = MOVED; v = x; return *this; }
    ~Elem() { death(); }
    bool operator==(const Elem& o) const { check_live(&o, "compared"); check_live(this, "compared"); return v == o.v; }
    bool operator!=(const Elem& o) const { return !(*this == o); }
};

// trivially destructible, over-aligned aggregate: no special member is observable
template <> struct Elem<4> {
    static constexpr bool copyable = true, movable = true, nothrow_move = true;
    alignas(32) i64 v;
    bool operator==(const Elem& o) const { return v == o.v; }
    bool operator!=(const Elem& o) const { return v != o.v; }
};
template <int K> inline i64 default_value() { return K == 4 ? 0 : DEFAULTED; }
inline i64 peek(const Elem<4>& e, const char* prop) {
    if ((uintptr_t)&e % 32) rec.violation(prop, "misaligned", "a stored element is misaligned");
    return e.v;
}

// read an element's value on behalf of an oracle
inline i64 peek(const ElemBase& e, const char* prop) {
    if (!reg::live(&e)) { rec.violation(prop, "dead-element", "a stored element is not alive"); return -12345; }
    return e.v;
}

} // namespace sim
