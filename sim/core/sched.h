// Simulated threads. Threads are OS threads that pass one baton: exactly one runs at a time, and
// the simulator decides when the baton moves. Code built with -fsanitize=thread calls the hooks in
// sched.cpp (our own, not the sanitizer's runtime) at every memory access and atomic operation;
// each is a scheduling point and an event for the happens-before race detector.
#pragma once
#include "sim.h"
#include <functional>

namespace sched {

using sim::u64;

struct Preempt { u64 gap; int target; };      // after `gap` scheduling points hand the baton to the target-th other runnable thread

extern const char* race_prop;      // properties blamed for races, use after free, double free, leaks, deadlock
extern const char* mem_prop;

void reset();
int  spawn(std::function<void()> body);       // before run()
void run(const std::vector<Preempt>& plan);   // to completion; reports deadlock and runaway
u64  points();
u64  switches();
u64  schedule_hash();
int  self();                                  // 0 outside run(), else 1..n
void set_op(u64 tag);                         // what the current thread is doing (coverage of switch points)
void point();                                 // explicit scheduling point (harness)

// memory seam: blocks allocated by library code
u64  live_blocks();
void fail_alloc(int nth);                     // the nth allocation of the current thread's library code throws (0: none)
bool alloc_failed();                          // did it fire?

extern thread_local int lib;                  // >0 while library code runs in this thread
struct Lib { Lib() { ++lib; } ~Lib() { --lib; } };
struct NoLib { int d; NoLib() : d(lib) { lib = 0; } ~NoLib() { lib = d; } };

} // namespace sched
