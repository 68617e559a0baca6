/* Simulated wall clock of one process: starts at SIM_CLOCK_START and advances SIM_CLOCK_STEP_NS per reading. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static long long now_ns(void) {
    static long long t, step, jump_every, jump, n;
    if (!n) {
        const char *s = getenv("SIM_CLOCK_START"), *d = getenv("SIM_CLOCK_STEP_NS");
        const char *e = getenv("SIM_CLOCK_JUMP_EVERY"), *j = getenv("SIM_CLOCK_JUMP_NS");
        t = s ? atoll(s) * 1000000000LL : 0;
        step = d ? atoll(d) : 1000;
        jump_every = e ? atoll(e) : 0;
        jump = j ? atoll(j) : 0;
    }
    n++;
    t += step;
    if (jump_every && n % jump_every == 0) t += jump;
    return t;
}

int clock_gettime(clockid_t id, struct timespec *ts) {
    if (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE) return (int)syscall(SYS_clock_gettime, id, ts);
    long long t = now_ns();
    ts->tv_sec = t / 1000000000LL;
    ts->tv_nsec = t % 1000000000LL;
    return 0;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    (void)tz;
    long long t = now_ns();
    tv->tv_sec = t / 1000000000LL;
    tv->tv_usec = (t % 1000000000LL) / 1000;
    return 0;
}

time_t time(time_t *p) {
    time_t t = (time_t)(now_ns() / 1000000000LL);
    if (p) *p = t;
    return t;
}
