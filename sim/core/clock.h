// Simulated clocks: every clock the process can read goes through here.
#pragma once
#include "sim.h"
namespace simclock {
using sim::u64; using sim::i64;
enum Mode { FROZEN, TICK, COARSE, MODES };
void reset(i64 start_ns);
void set_mode(int mode, i64 step_ns);      // per reading: nothing; advance by step; advance by step but report multiples of 2^20 ns
void jump(i64 wall_ns, i64 mono_ns, i64 cpu_ns);
extern u64 readings;
extern i64 wall, mono, cpu;
}
