// Virtual wall clock and shortened sleeps for the code under test (symbols of the
// executable take precedence over libc's, no change to the library is needed).
#pragma once
#include <atomic>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <pthread.h>
#include <dlfcn.h>
#include <cerrno>
namespace vclock {
inline std::atomic<bool>& on() { static std::atomic<bool> b(false); return b; }
inline std::atomic<long long>& us() { static std::atomic<long long> v(0); return v; }
inline std::atomic<long long>& sleep_cap_us() { static std::atomic<long long> v(100); return v; }
inline std::atomic<long long>& sleeps() { static std::atomic<long long> v(0); return v; }   // sleeps begun by the code under test
inline std::atomic<bool>& main_only() { static std::atomic<bool> b(false); return b; }   // only the main thread waits with a limit
inline std::atomic<int>& threads() { static std::atomic<int> v(0); return v; }   // threads that have slept so far, and their sleeps
inline std::atomic<long long>* sleeps_of() { static std::atomic<long long> v[512]; return v; }
inline void set(long long sec, int ms = 0) { us() = sec * 1000000 + (long long)ms * 1000 + 123; on() = true; }
inline void advance_ms(long long ms) { us() += ms * 1000; }
inline long long now() { return us() / 1000000; }
// until the code under test has begun two more sleeps (its writer thread has gone through its loop): if none is ever
// seen it waits in a way unknown here, and later calls just give it time
inline void wait_idle() {
    static std::atomic<bool> blind(false); long long z = sleeps(); struct timespec ts = {0, 50000};
    if (blind) { ts.tv_nsec = 40000000; syscall(SYS_nanosleep, &ts, (void*)0); return; }
    for (int i = 0; i < 60000 && sleeps() < z + 2; i++) syscall(SYS_nanosleep, &ts, (void*)0);
    if (sleeps() == z) blind = true;
}
}
#ifndef VCLOCK_NO_DEFS
extern "C" {
int gettimeofday(struct timeval* tv, void*) __THROW {
    if (vclock::on()) { long long v = vclock::us(); long long s = v / 1000000, u = v % 1000000; if (u < 0) { u += 1000000; s--; } tv->tv_sec = s; tv->tv_usec = u; return 0; }
    return (int)syscall(SYS_gettimeofday, tv, 0);
}
time_t time(time_t* t) __THROW {
    time_t r;
    if (vclock::on()) { long long v = vclock::us(); r = v / 1000000; if (v % 1000000 < 0) r--; }
    else { struct timeval tv; syscall(SYS_gettimeofday, &tv, 0); r = tv.tv_sec; }
    if (t) *t = r;
    return r;
}
int clock_gettime(clockid_t k, struct timespec* t) __THROW {
    if (vclock::on() && (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE)) { struct timeval tv; gettimeofday(&tv, 0); t->tv_sec = tv.tv_sec; t->tv_nsec = tv.tv_usec * 1000; return 0; }
    return (int)syscall(SYS_clock_gettime, k, t);
}
static int vclock_sleep(const struct timespec* a) {
    vclock::sleeps()++;
    static thread_local int slot = -1; if (slot < 0) slot = vclock::threads()++ & 511;
    if (a->tv_sec || a->tv_nsec != 1000000) vclock::sleeps_of()[slot]++;   // not a wait for a lock
    long long us = a->tv_sec * 1000000LL + a->tv_nsec / 1000; long long cap = vclock::sleep_cap_us();
    // a long sleep repeated by one thread is a wait with a time limit: give the others real time after a while
    static thread_local long long same = 0; static thread_local int times = 0; times = us == same ? times + 1 : 0; same = us;
    if (cap > 0 && us > cap && !(us >= 10000 && us <= 20000 && times > 20 && (!vclock::main_only() || syscall(SYS_gettid) == (long)getpid()))) us = cap;
    struct timespec ts = { us / 1000000, (us % 1000000) * 1000 };
    return (int)syscall(SYS_nanosleep, &ts, (void*)0);
}
int nanosleep(const struct timespec* a, struct timespec*) { return vclock_sleep(a); }
// waits on condition variables count as sleeps and take as long (the code has none today)
static long long vclock_ns(const struct timespec* t) { return t->tv_sec * 1000000000LL + t->tv_nsec; }
static void vclock_count() { static thread_local int slot = -1; if (slot < 0) slot = vclock::threads()++ & 511; vclock::sleeps()++; vclock::sleeps_of()[slot]++; }
static int vclock_cond(pthread_cond_t* c, pthread_mutex_t* m, long long ns) {
    static auto r = (int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*))dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2");
    vclock_count(); long long cap = vclock::sleep_cap_us() * 1000; if (cap > 0 && ns > cap) ns = cap; if (ns < 0) ns = 0;
    struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); ns += vclock_ns(&t); t.tv_sec = ns / 1000000000; t.tv_nsec = ns % 1000000000; return r(c, m, &t);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* a) { struct timespec n; clock_gettime(CLOCK_REALTIME, &n); return vclock_cond(c, m, vclock_ns(a) - vclock_ns(&n)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* a) { struct timespec n; clock_gettime(k, &n); return vclock_cond(c, m, vclock_ns(a) - vclock_ns(&n)); }
int usleep(useconds_t us) { struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return vclock_sleep(&ts); }
int clock_nanosleep(clockid_t, int flags, const struct timespec* a, struct timespec*) { if (flags) { struct timespec ts = {0, 100000}; return (int)syscall(SYS_nanosleep, &ts, (void*)0); } return vclock_sleep(a); }
}
#endif
