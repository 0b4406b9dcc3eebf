// The seam for clocks and randomness: while a run is going, every reading of a clock and every random number the
// library may ask for is a choice of the run's tape. Time moves in steps the simulator picks, jumps included.
// (GTMesh reads neither today; a change that starts to do so stays repeatable.)
#include "sim.h"
#include <cstdlib>
#include <ctime>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim {
bool inRun();

static int64_t nowNs = 1500000000000000000LL;

static int64_t simClock() {
    Ctx c;
    c.probe("clock readings");
    static const int64_t steps[] = {1000, 0, 1000000, 1000000000, 3600000000000LL, -1000000000LL, -3600000000000LL};
    nowNs += steps[c.pick(7, "clock step")];
    return nowNs;
}
static uint32_t simRandom() {
    Ctx c;
    c.probe("random numbers");
    return static_cast<uint32_t>(c.pick(1ULL << 32, "random number"));
}
} // namespace sim

extern "C" {
int clock_gettime(clockid_t id, struct timespec* ts) {
    if (!sim::inRun()) return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
    int64_t t = sim::simClock();
    ts->tv_sec = t / 1000000000LL;
    ts->tv_nsec = t % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept {
    struct timespec ts;
    if (!sim::inRun()) syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    else clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* t) noexcept {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
clock_t clock(void) noexcept {
    struct timespec ts;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
int rand(void) noexcept {
    static uint32_t x = 12345;
    if (sim::inRun()) return sim::simRandom() & RAND_MAX;
    return (x = x * 1103515245u + 12345u) & RAND_MAX;
}
long random(void) noexcept { return rand(); }
void srand(unsigned) noexcept {}
void srandom(unsigned) noexcept {}
/// std::random_device::_M_getval()
unsigned _ZNSt13random_device9_M_getvalEv(void*) { return sim::simRandom(); }
}
