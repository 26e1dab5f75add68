#include "clock.h"
#include <sys/time.h>
#include <time.h>
namespace simclock {
u64 readings = 0;
i64 wall = 0, mono = 0, cpu = 0;
static int mode = FROZEN; static i64 step = 0;
void reset(i64 s) { wall = s; mono = 1000000000; cpu = 5000000; mode = FROZEN; step = 0; readings = 0; }
void set_mode(int m, i64 s) { mode = m; step = s; }
void jump(i64 w, i64 m, i64 c) { wall += w; mono += m; cpu += c; if (cpu < 0) cpu = 0; if (mono < 0) mono = 0; if (wall < 0) wall = 0; }
static i64 read(i64& c) { ++readings; if (mode != FROZEN) { wall += step; mono += step; cpu += step; } return mode == COARSE ? c & ~((1ll << 20) - 1) : c; }
}
using namespace simclock;
extern "C" {
time_t time(time_t* t) noexcept { time_t r = (time_t)(read(wall) / 1000000000); if (t) *t = r; return r; }
clock_t clock() noexcept { return (clock_t)(read(cpu) / 1000); }
int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
    i64 v = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? read(wall) : id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID ? read(cpu) : read(mono);
    ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept { i64 v = read(wall); tv->tv_sec = v / 1000000000; tv->tv_usec = v % 1000000000 / 1000; return 0; }
int timespec_get(struct timespec* ts, int base) noexcept { i64 v = read(wall); ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; return base; }
}
