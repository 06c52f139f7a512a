// Runtime of the controlled scheduler (compiled without instrumentation).
#include <sys/stat.h>
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <unordered_set>
#include <map>
#define VCLOCK_NO_DEFS
#include "ctlsched.h"
#include <linux/futex.h>

namespace sched {
enum St { READY, SLEEP, MUTEX, JOIN, COND, RWLOCK, DONE };
struct Th { int id; St st = READY; long long wake = 0; void* obj = nullptr; int prio = 0; std::atomic<int> go{0}; pthread_t pt; void* (*fn)(void*); void* arg; bool finished = false; bool sig = false, excl = false; };
static const int MAXT = 64;
static bool g_on = false; static Plan P; static void (*g_fail)(const char*) = nullptr;
static Th* T[MAXT]; static int nT = 0; static int cur = 0; static unsigned long long g_step = 0, g_sw = 0; static long long vt = 0; static int low = 0; static unsigned long long rng = 0; static size_t next_change = 0;
static thread_local Th* me = nullptr;
static Range W[16]; static int nW = 0; static std::vector<Range>* ign = nullptr;
struct Mx { int owner = -1; int count = 0; };
static std::map<void*, Mx>* mx = nullptr;
struct Rw { int writer = -1, readers = 0; };
static std::map<void*, Rw>* rw = nullptr;
static std::unordered_set<FILE*>* closed = nullptr;

static void futex_wait(std::atomic<int>* a, int v) { syscall(SYS_futex, (int*)a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(std::atomic<int>* a) { syscall(SYS_futex, (int*)a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
bool active() { return g_on && me; }
unsigned long long step() { return g_step; }
unsigned long long switches() { return g_sw; }
int self() { return me ? me->id : -1; }
long long vtime_us() { return vt / 1000; }
std::string describe() {
    static const char* n[] = {"ready", "sleeping", "waiting for a mutex", "joining", "waiting for a condition", "waiting for a read-write lock", "done"}; std::string o;
    for (int i = 0; i < nT; i++) { o += pbt::fmt("T%d %s", i, n[T[i]->st]); if (T[i]->st == MUTEX && mx->count(T[i]->obj)) o += pbt::fmt(" held by T%d", (*mx)[T[i]->obj].owner); o += "; "; }
    return o + pbt::fmt("step %llu", g_step);
}
static void fail(const char* why) { g_on = false; g_fail((std::string(why) + ": " + describe()).c_str()); _exit(77); }
static unsigned long long rnd() { rng += 0x9e3779b97f4a7c15ULL; return pbt::mix(rng); }
static bool enabled(Th* t) {
    switch (t->st) {
    case READY: return true;
    case SLEEP: return t->wake <= vt;
    case MUTEX: { Mx& m = (*mx)[t->obj]; return m.owner < 0; }
    case JOIN: return ((Th*)t->obj)->finished;
    case COND: return t->sig || (t->wake >= 0 && t->wake <= vt);
    case RWLOCK: { Rw& l = (*rw)[t->obj]; return l.writer < 0 && (!t->excl || l.readers == 0); }
    default: return false;
    }
}
static int choose(bool stay_ok) {
    for (;;) {
        int best = -1, n = 0; int en[MAXT];
        for (int i = 0; i < nT; i++) if (enabled(T[i])) en[n++] = i;
        if (n) {
            if (P.mode == 1) {
                if (stay_ok && enabled(T[cur]) && rnd() % P.walk_den) return cur;
                return en[rnd() % n];
            }
            for (int k = 0; k < n; k++) if (best < 0 || T[en[k]]->prio > T[best]->prio) best = en[k];
            return best;
        }
        long long w = -1; for (int i = 0; i < nT; i++) if ((T[i]->st == SLEEP || (T[i]->st == COND && T[i]->wake >= 0)) && (w < 0 || T[i]->wake < w)) w = T[i]->wake;
        if (w < 0) fail("deadlock");
        vt = w;
    }
}
static void switch_to(int n, bool wait) {
    Th* self_ = me; if (n == self_->id) { T[n]->st = READY; return; }
    g_sw++; cur = n; T[n]->st = READY; T[n]->go.store(1); futex_wake(&T[n]->go);
    if (!wait) return;
    while (self_->go.load() == 0) futex_wait(&self_->go, 0);
    self_->go.store(0);
}
static unsigned long long g_die = 0;
bool write_through = false; std::atomic<long long>* writes_seen = nullptr;
void die_after(unsigned long long n) { g_die = g_step + n + 1; }
static inline void step_up() { if (++g_step > P.max_steps) fail("no progress: step limit reached"); if (g_die && g_step >= g_die) _exit(66); }
static void point(bool stay_ok) {
    step_up();
    vt += P.tick_ns; vclock::us().fetch_add(0);
    if (P.mode == 0 && next_change < P.change.size() && g_step >= P.change[next_change]) { next_change++; me->prio = --low; }
    switch_to(choose(stay_ok), true);
}
void yield() { if (active()) point(true); }
static void block(St st, void* obj, long long wake) { me->st = st; me->obj = obj; me->wake = wake; step_up(); switch_to(choose(false), true); }
void watch(const void* b, size_t n) { if (nW < 16) W[nW++] = Range{(const char*)b, n}; }
void ignore(const void* b, size_t n) { if (!ign) ign = new std::vector<Range>(); ign->push_back(Range{(const char*)b, n}); std::sort(ign->begin(), ign->end(), [](const Range& a, const Range& c) { return a.base < c.base; }); }
void unwatch_all() { nW = 0; if (ign) ign->clear(); }
static inline bool watched(const void* p) {
    const char* a = (const char*)p;
    for (int i = 0; i < nW; i++) if ((size_t)(a - W[i].base) < W[i].size) {
        if (!ign || ign->empty()) return true;
        auto it = std::upper_bound(ign->begin(), ign->end(), a, [](const char* x, const Range& r) { return x < r.base; });
        if (it == ign->begin()) return true;
        --it; return (size_t)(a - it->base) >= it->size;
    }
    return false;
}
static inline void acc(const void* p) { if (g_on && me && watched(p)) point(true); }
static Th* add() { if (nT >= MAXT) { fprintf(stderr, "too many threads\n"); abort(); } Th* t = new Th(); t->id = nT; t->prio = (size_t)nT < P.prio.size() ? P.prio[nT] : nT; T[nT++] = t; return t; }
void begin(const Plan& p, void (*on_fail)(const char*)) {
    if (!mx) mx = new std::map<void*, Mx>(); mx->clear(); if (!rw) rw = new std::map<void*, Rw>(); rw->clear(); if (!closed) closed = new std::unordered_set<FILE*>();
    P = p; std::sort(P.change.begin(), P.change.end()); g_fail = on_fail; nT = 0; g_step = 0; g_sw = 0; vt = 0; low = -1; rng = p.seed; next_change = 0; g_die = 0;
    me = add(); cur = 0; g_on = true;
}
static int (*real_fclose)(FILE*) = nullptr;
void end() {
    for (int i = 1; i < nT; i++) if (!T[i]->finished) { g_on = false; g_fail("a thread is still running at the end"); _exit(77); }
    g_on = false; me = nullptr; unwatch_all();
    for (FILE* f : *closed) real_fclose(f);
    closed->clear();
    for (int i = 0; i < nT; i++) delete T[i];
    nT = 0;
}
static void* tramp(void* a) {
    Th* t = (Th*)a; me = t;
    while (t->go.load() == 0) futex_wait(&t->go, 0);
    t->go.store(0);
    if (g_on && (size_t)t->id < P.late_ns.size() && P.late_ns[t->id] > 0) block(SLEEP, nullptr, vt + P.late_ns[t->id]);
    void* r = t->fn(t->arg);
    t->finished = true; t->st = DONE; me = t;
    if (g_on) { int n = choose(false); switch_to(n, false); }
    me = nullptr;
    return r;
}
template <class F> static F real(const char* n) { void* p = dlsym(RTLD_NEXT, n); return (F)p; }
}
using namespace sched;
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    static auto r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (!active()) return r(t, at, fn, arg);
    Th* n = add(); n->fn = fn; n->arg = arg; int e = r(&n->pt, at, tramp, n); if (e) { nT--; delete n; return e; }
    *t = n->pt; point(true); return 0;
}
int pthread_join(pthread_t t, void** v) {
    static auto r = real<int (*)(pthread_t, void**)>("pthread_join");
    if (active()) for (int i = nT - 1; i > 0; i--) if (pthread_equal(T[i]->pt, t)) {   // handles are reused, the newest is meant
            if (!T[i]->finished) block(JOIN, T[i], 0); else point(true); break; }
    return r(t, v);
}
int pthread_mutex_lock(pthread_mutex_t* m) __THROWNL {
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    if (!active()) return r(m);
    point(true);
    Mx& x = (*mx)[m];
    if (x.owner == me->id) { if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { x.count++; return 0; } fail("a thread locks a mutex it already holds"); }
    while ((*mx)[m].owner >= 0) block(MUTEX, m, 0);
    (*mx)[m].owner = me->id; (*mx)[m].count = 1; return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) __THROWNL {
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    if (!active()) return r(m);
    point(true);
    Mx& x = (*mx)[m];
    if (x.owner == me->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { x.count++; return 0; }
    if (x.owner >= 0) return EBUSY;
    x.owner = me->id; x.count = 1; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) __THROWNL {
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    if (!active() || !mx->count(m) || (*mx)[m].owner < 0) return r(m);
    Mx& x = (*mx)[m];
    if (x.owner != me->id) fail("a thread unlocks a mutex it does not hold");
    if (--x.count == 0) { x.owner = -1; point(true); }
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) __THROWNL { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) __THROWNL { return pthread_mutex_lock(m); }
// condition variables and read-write locks (the code has none today)
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, long long wake) {
    Mx& x = (*mx)[m]; if (x.owner != me->id) fail("a condition is waited for without its mutex");
    int n = x.count; x.owner = -1; x.count = 0; me->sig = false; block(COND, c, wake); bool sig = me->sig;
    while ((*mx)[m].owner >= 0) block(MUTEX, m, 0);
    (*mx)[m].owner = me->id; (*mx)[m].count = n; return sig ? 0 : ETIMEDOUT;
}
static long long ns_of(const struct timespec* t) { return t->tv_sec * 1000000000LL + t->tv_nsec; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static auto r = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    return active() ? cond_wait(c, m, -1) : r(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    static auto r = (int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*))dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2");
    if (!active()) return r(c, m, t);
    struct timeval tv; gettimeofday(&tv, nullptr); return cond_wait(c, m, std::max(vt + 1, vt + ns_of(t) - (tv.tv_sec * 1000000LL + tv.tv_usec) * 1000));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
    if (!active()) return r(c, m, k, t);
    struct timespec now; clock_gettime(k, &now); return cond_wait(c, m, std::max(vt + 1, vt + ns_of(t) - ns_of(&now)));
}
static void wake_cond(pthread_cond_t* c, bool all) { int s0 = P.mode == 1 && nT ? (int)(rnd() % nT) : 0; for (int k = 0; k < nT; k++) { Th* t = T[(s0 + k) % nT]; if (t->st == COND && t->obj == c && !t->sig) { t->sig = true; if (!all) break; } } point(true); }
int pthread_cond_signal(pthread_cond_t* c) __THROWNL { static auto r = (int (*)(pthread_cond_t*))dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2"); if (!active()) return r(c); wake_cond(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) __THROWNL { static auto r = (int (*)(pthread_cond_t*))dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2"); if (!active()) return r(c); wake_cond(c, true); return 0; }
static int rw_lock(pthread_rwlock_t* l, bool excl, bool wait) {
    point(true); me->excl = excl;
    for (;;) { Rw& x = (*rw)[l]; if (x.writer < 0 && (!excl || x.readers == 0)) { if (excl) x.writer = me->id; else x.readers++; return 0; } if (!wait) return EBUSY; if (x.writer == me->id) return EDEADLK; block(RWLOCK, l, 0); }
}
#define RWL(name, excl, wait) int name(pthread_rwlock_t* l) __THROWNL { static auto r = real<int (*)(pthread_rwlock_t*)>(#name); return active() ? rw_lock(l, excl, wait) : r(l); }
RWL(pthread_rwlock_rdlock, false, true) RWL(pthread_rwlock_wrlock, true, true) RWL(pthread_rwlock_tryrdlock, false, false) RWL(pthread_rwlock_trywrlock, true, false)
int pthread_rwlock_unlock(pthread_rwlock_t* l) __THROWNL {
    static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); if (!active() || !rw->count(l)) return r(l);
    Rw& x = (*rw)[l]; if (x.writer == me->id) x.writer = -1; else if (x.readers > 0) x.readers--; else fail("a read-write lock is released that is not held");
    point(true); return 0;
}
int sched_yield(void) __THROW { if (active()) { point(false); return 0; } return (int)syscall(SYS_sched_yield); }
static int do_sleep(long long ns) {
    if (active()) { block(SLEEP, nullptr, vt + (ns > 0 ? ns : 1)); return 0; }
    long long cap = vclock::sleep_cap_us() * 1000; if (cap > 0 && ns > cap) ns = cap;
    struct timespec ts = {(time_t)(ns / 1000000000LL), (long)(ns % 1000000000LL)}; return (int)syscall(SYS_nanosleep, &ts, nullptr);
}
int nanosleep(const struct timespec* a, struct timespec*) { return do_sleep(a->tv_sec * 1000000000LL + a->tv_nsec); }
int clock_nanosleep(clockid_t, int flags, const struct timespec* a, struct timespec*) { if (flags) return do_sleep(1000000); return do_sleep(a->tv_sec * 1000000000LL + a->tv_nsec); }
int usleep(useconds_t us) { return do_sleep((long long)us * 1000); }
// the wall clock: the harness's virtual time plus the scheduler's
int gettimeofday(struct timeval* tv, void*) __THROW {
    if (vclock::on()) { long long v = vclock::us() + (g_on ? vt / 1000 : 0); tv->tv_sec = v / 1000000; tv->tv_usec = v % 1000000; return 0; }
    return (int)syscall(SYS_gettimeofday, tv, 0);
}
int clock_gettime(clockid_t k, struct timespec* t) __THROW { if (vclock::on() && (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE)) { struct timeval tv; gettimeofday(&tv, nullptr); t->tv_sec = tv.tv_sec; t->tv_nsec = tv.tv_usec * 1000; return 0; }
    int r = (int)syscall(SYS_clock_gettime, k, t); if (r == 0 && k == CLOCK_MONOTONIC && active()) { t->tv_sec = 1000 + vt / 1000000000; t->tv_nsec = vt % 1000000000; } return r; }
time_t time(time_t* t) __THROW { struct timeval tv; gettimeofday(&tv, nullptr); if (t) *t = tv.tv_sec; return tv.tv_sec; }
// stdio: scheduling points; closed handles are kept so that a later use is seen
static void chk(FILE* f, const char* what) { if (active()) { point(true); if (closed->count(f)) fail((std::string(what) + " on a FILE that was already closed").c_str()); } }
int fclose(FILE* f) { if (!real_fclose) real_fclose = real<int (*)(FILE*)>("fclose"); if (!active()) return real_fclose(f); chk(f, "fclose"); fflush_unlocked(f); closed->insert(f); return 0; }
int fflush(FILE* f) { static auto r = real<int (*)(FILE*)>("fflush"); if (f) chk(f, "fflush"); return r(f); }
size_t fwrite(const void* p, size_t a, size_t b, FILE* f) { static auto r = real<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite"); chk(f, "fwrite"); size_t n = r(p, a, b, f); if (writes_seen) ++*writes_seen; if (write_through && active()) fflush_unlocked(f); return n; }

// the file system: scheduling points
static void fsp() { if (active()) point(true); }
FILE* fopen(const char* p, const char* m) { static auto r = real<FILE* (*)(const char*, const char*)>("fopen"); fsp(); return r(p, m); }
int mkdir(const char* p, mode_t m) __THROW { static auto r = real<int (*)(const char*, mode_t)>("mkdir"); fsp(); return r(p, m); }
int unlink(const char* p) __THROW { static auto r = real<int (*)(const char*)>("unlink"); fsp(); return r(p); }
int rename(const char* a, const char* b) __THROW { static auto r = real<int (*)(const char*, const char*)>("rename"); fsp(); return r(a, b); }
int remove(const char* p) __THROW { static auto r = real<int (*)(const char*)>("remove"); fsp(); return r(p); }
int stat(const char* p, struct stat* b) __THROW { static auto r = real<int (*)(const char*, struct stat*)>("stat"); fsp(); return r(p, b); }
int access(const char* p, int m) __THROW { static auto r = real<int (*)(const char*, int)>("access"); fsp(); return r(p, m); }

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define A1(n) void __tsan_read##n(void* p) { acc(p); } void __tsan_write##n(void* p) { acc(p); } void __tsan_volatile_read##n(void* p) { acc(p); } void __tsan_volatile_write##n(void* p) { acc(p); } void __tsan_unaligned_read##n(void* p) { acc(p); } void __tsan_unaligned_write##n(void* p) { acc(p); } void __tsan_read##n##_pc(void* p, void*) { acc(p); } void __tsan_write##n##_pc(void* p, void*) { acc(p); }
A1(1) A1(2) A1(4) A1(8) A1(16)
void __tsan_read_range(void* p, long) { acc(p); }
void __tsan_write_range(void* p, long) { acc(p); }
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* a, int) { acc((const void*)a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##bits##_store(volatile T* a, T v, int) { acc((const void*)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { acc((const void*)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { acc((const void*)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { acc((const void*)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { acc((const void*)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { acc((const void*)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { acc((const void*)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { acc((const void*)a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { acc((const void*)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { acc((const void*)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { acc((const void*)a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}
