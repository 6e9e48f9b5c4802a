// Cooperative scheduling of real threads: exactly one simulated thread runs at any moment;
// who runs next at a scheduling point is a recorded decision. Blocking primitives used by
// Qt (pthread conditions, futexes, sleeps) and the clocks are replaced by simulated ones.
#include "sim_p.h"

#include <QMetaObject>
#include <QObject>
#include <QThread>
#include <QCoreApplication>

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace sim {

static long rawSyscall(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

struct Th {
    int id = 0;
    std::atomic<uint32_t> sem{0}, up{0};
    bool dead = false;
    bool blocked = false;
    const std::function<bool()> *pred = nullptr;
    std::function<int64_t()> deadline;
    void *(*fn)(void *) = nullptr;
    void *arg = nullptr;
};
static std::vector<Th *> ths;
thread_local int noYield = 0;
static thread_local Th *self = nullptr;

void threadsInit() {
    auto *t = new Th;
    t->id = 0;
    ths.push_back(t);
    self = t;
}
bool inSimThread() { return W->active && self; }
int currentThread() { return self ? self->id : -1; }
void checkHome() {
    if (W->home && self && self->id != W->home && !noYield) fail("wrong-thread", "code of the program continues on another thread than the one it belongs to");
}
void setYieldGap(uint32_t n) { W->yieldGap = n ? n : 1; W->yieldIn = 1; }

Atomic::Atomic() { ++noYield; }
Atomic::~Atomic() { --noYield; }

static void waitSem(std::atomic<uint32_t> &sem) {
    while (sem.exchange(0, std::memory_order_acquire) == 0)
        rawSyscall(SYS_futex, long(&sem), FUTEX_WAIT, 0, 0, 0, 0);
}
static void postSem(std::atomic<uint32_t> &sem) {
    sem.store(1, std::memory_order_release);
    rawSyscall(SYS_futex, long(&sem), FUTEX_WAKE, 1, 0, 0, 0);
}
static void switchTo(Th *t) {
    if (t == self) return;
    ++W->rec->threadSwitches;
    trace("switch to T%d", t->id);
    auto *me = self;
    postSem(t->sem);
    if (me->dead) for (;;) pause();
    waitSem(me->sem);
    W->mayRun = true;
}
static bool runnable(Th *t) {
    if (t->dead) return false;
    if (!t->blocked) return true;
    if ((*t->pred)()) return true;
    return t->deadline && t->deadline() <= W->now;
}
static std::vector<Th *> others() {
    std::vector<Th *> r;
    for (auto *t : ths) if (t != self && runnable(t)) r.push_back(t);
    return r;
}

// Core of all blocking: true when pred holds, false when the deadline passed (or, on the
// main thread, when the world is quiescent).
static bool blockImpl(const std::function<bool()> &pred, std::function<int64_t()> deadline, bool dispatcherIdle) {
    NoYield guard;
    self->pred = &pred;
    self->deadline = deadline;
    self->blocked = true;
    bool result;
    for (;;) {
        if (pred()) { result = true; break; }
        if (!dispatcherIdle && deadline && deadline() <= W->now) { result = false; break; }
        if (self->id == W->home && W->quiescent) { result = false; break; }
        auto o = others();
        if (!o.empty()) { switchTo(o[o.size() > 1 ? choose(uint32_t(o.size())) : 0]); continue; }
        if (runKernelDue()) continue;
        if (W->mainLoopIdle) // nothing can happen at this time any more
            for (auto &h : W->idleHooks) h();
        int64_t d = INT64_MAX;
        for (auto *t : ths) if (!t->dead && t->blocked && t->deadline) d = std::min(d, t->deadline());
        if (!W->kernel.empty()) d = std::min(d, W->kernel.front().at);
        if (d == INT64_MAX || d > W->runLimit) {
            if (d != INT64_MAX) W->now = std::max(W->now, W->runLimit);
            W->quiescent = true;
            if (self->id == W->home) { result = false; break; }
            switchTo(ths[size_t(W->home)]);
            continue;
        }
        if (d > W->now) W->now = d;
        runKernelDue();
        // An environment event whose thread is blocked outside its dispatcher cannot run yet.
        static int spin = 0;
        if (pred() || !others().empty()) { spin = 0; continue; }
        if (!dispatcherIdle && deadline && deadline() <= W->now) continue;
        if (self->id == W->home && !dispatcherIdle && !W->env.empty() && W->env.front().at <= W->now) {
            // home blocks in a wait primitive; its environment events stay queued
            int64_t d2 = INT64_MAX;
            for (auto *t : ths) if (!t->dead && t->blocked && t->deadline) { auto x = t->deadline(); if (x > W->now) d2 = std::min(d2, x); }
            if (!W->kernel.empty()) d2 = std::min(d2, W->kernel.front().at);
            if (d2 == INT64_MAX) {
                self->blocked = false;
                if (W->stuck) { W->stuck(); endRun(); }
                fail("deadlock", "the thread blocks forever at simulated %.3f ms", W->now / 1e6);
            }
            W->now = std::max(W->now, d2);
            continue;
        }
        if (++spin > 100000) fail("livelock", "scheduler makes no progress at simulated %.3f ms", W->now / 1e6);
    }
    self->blocked = false;
    self->pred = nullptr;
    self->deadline = nullptr;
    W->mayRun = true;
    return result;
}

bool idle(const std::function<bool()> &ready, const std::function<int64_t()> &deadline) {
    return blockImpl(ready, deadline, true);
}

void blockUntil(const std::function<bool()> &pred, const char *) {
    if (!inSimThread()) return;
    NoYield guard;
    if (!blockImpl(pred, nullptr, false)) {
        if (W->stuck) { W->stuck(); endRun(); }
        fail("deadlock", "thread %d blocks forever", self->id);
    }
}

// Every `yieldIn`-th scheduling point another runnable thread takes over.
void yieldPoint(const char *tag) {
    if (!W || !inSimThread() || noYield || ths.size() < 2 || --W->yieldIn > 0) return;
    // Basic blocks alone (no tag) make no other thread runnable, only what they call does.
    if (!tag && !W->mayRun) { W->yieldIn = 1; return; }
    NoYield guard;
    auto o = others();
    if (o.empty()) { W->yieldIn = 1; W->mayRun = false; W->alone = true; return; }
    W->yieldIn = W->yieldGap - choose(W->yieldGap);
    if (W->alone) { // another thread woke up just now; it need not take over at once
        W->alone = false;
        if (chance(75)) return;
    }
    switchTo(o[o.size() > 1 ? choose(uint32_t(o.size())) : 0]);
}

static void *trampoline(void *p) {
    auto *t = static_cast<Th *>(p);
    self = t;
    postSem(t->up);
    waitSem(t->sem);
    t->fn(t->arg);
    ++noYield;
    t->dead = true;
    trace("thread T%d ends", t->id);
    // hand over for good; the native thread is parked so that nothing runs concurrently
    auto o = others();
    if (!o.empty()) switchTo(o[o.size() > 1 ? choose(uint32_t(o.size())) : 0]);
    // nobody runnable: let time advance on behalf of the others
    static const std::function<bool()> never = [] { return false; };
    blockImpl(never, nullptr, false);
    for (;;) pause();
}

// ---- simulated condition variables, futexes, sleeps ------------------------------
struct Waiter { const void *addr; bool woken; };
static std::vector<Waiter *> waiters;

static bool waitOn(const void *addr, int64_t deadline, const std::function<void()> &release) {
    NoYield guard;
    Waiter w{addr, false};
    waiters.push_back(&w);
    release();
    std::function<int64_t()> dl;
    if (deadline != INT64_MAX) dl = [deadline] { return deadline; };
    bool ok = blockImpl([&w] { return w.woken; }, dl, false);
    std::erase(waiters, &w);
    if (!ok && deadline == INT64_MAX) {
        if (W->stuck) { W->stuck(); endRun(); }
        fail("deadlock", "thread %d waits forever on a condition at simulated %.3f ms", self->id, W->now / 1e6);
    }
    return w.woken;
}
static int wakeOn(const void *addr, int n) {
    NoYield guard;
    int woken = 0;
    while (woken < n) {
        std::vector<Waiter *> c;
        for (auto *w : waiters) if (w->addr == addr && !w->woken) c.push_back(w);
        if (c.empty()) break;
        c[c.size() > 1 ? choose(uint32_t(c.size())) : 0]->woken = true;
        W->mayRun = true;
        ++woken;
    }
    return woken;
}
static int64_t fromTimespec(const timespec *ts) { return int64_t(ts->tv_sec) * sec + ts->tv_nsec; }
static void lockAgain(pthread_mutex_t *m) {
    NoYield guard;
    while (pthread_mutex_trylock(m) != 0) {
        const std::function<bool()> p = [] { return true; };
        auto o = others();
        if (!o.empty()) switchTo(o[0]); else fail("deadlock", "mutex held by a blocked thread");
    }
}

} // namespace sim

using namespace sim;

#define REAL(name) static auto real = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))

static int rawClock(int id, struct timespec *ts) {
    REAL(clock_gettime);
    return real(id, ts);
}
extern "C" int sim_real_clock_gettime(int id, struct timespec *ts) { return rawClock(id, ts); }

extern "C" {

int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!W->active || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) return rawClock(id, ts);
    int64_t t = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? wallNow() : MonoBase + W->now;
    ts->tv_sec = t / sec;
    ts->tv_nsec = t % sec;
    return 0;
}
int gettimeofday(struct timeval *tv, void *) {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t) {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    REAL(pthread_create);
    if (!inSimThread()) return real(t, a, fn, arg);
    NoYield guard;
    auto *th = new Th;
    th->id = int(ths.size());
    th->fn = fn;
    th->arg = arg;
    ths.push_back(th);
    W->mayRun = true;
    trace("thread T%d created", th->id);
    const int r = real(t, a, trampoline, th);
    if (r == 0) waitSem(th->up); // it must not allocate anything beside us
    return r;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    REAL(pthread_cond_wait);
    if (!inSimThread()) return real(c, m);
    NoYield guard;
    waitOn(c, INT64_MAX, [m] { pthread_mutex_unlock(m); });
    lockAgain(m);
    return 0;
}
static int timedWait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline) {
    NoYield guard;
    bool ok = waitOn(c, deadline, [m] { pthread_mutex_unlock(m); });
    lockAgain(m);
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    REAL(pthread_cond_timedwait);
    if (!inSimThread()) return real(c, m, ts);
    NoYield guard;
    int64_t t = fromTimespec(ts);
    return timedWait(c, m, t > WallBase / 2 ? t - WallBase - W->wallOffset : t - MonoBase); // Qt uses a monotonic condition clock
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *ts) {
    REAL(pthread_cond_clockwait);
    if (!inSimThread()) return real(c, m, id, ts);
    NoYield guard;
    int64_t t = fromTimespec(ts);
    return timedWait(c, m, id == CLOCK_REALTIME ? t - WallBase - W->wallOffset : t - MonoBase);
}
int pthread_cond_signal(pthread_cond_t *c) {
    REAL(pthread_cond_signal);
    if (!inSimThread()) return real(c);
    NoYield guard;
    wakeOn(c, 1);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    REAL(pthread_cond_broadcast);
    if (!inSimThread()) return real(c);
    NoYield guard;
    wakeOn(c, 1 << 30);
    return 0;
}
int nanosleep(const struct timespec *req, struct timespec *rem) {
    REAL(nanosleep);
    if (!inSimThread()) return real(req, rem);
    NoYield guard;
    int64_t d = W->now + fromTimespec(req);
    static const std::function<bool()> never = [] { return false; };
    blockImpl(never, [d] { return d; }, false);
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem) {
    REAL(clock_nanosleep);
    if (!inSimThread()) return real(id, flags, req, rem);
    NoYield guard;
    int64_t d = (flags & TIMER_ABSTIME) ? fromTimespec(req) - (id == CLOCK_REALTIME ? WallBase + W->wallOffset : MonoBase) : W->now + fromTimespec(req);
    static const std::function<bool()> never = [] { return false; };
    blockImpl(never, [d] { return d; }, false);
    return 0;
}
int sched_getaffinity(pid_t, size_t n, cpu_set_t *set) { // as many processors everywhere
    memset(set, 0, n);
    for (int i = 0; i < 4; ++i) CPU_SET(i, set);
    return 0;
}
int sched_yield(void) {
    if (inSimThread()) { yieldPoint("sched_yield"); return 0; }
    return int(rawSyscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
}

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (auto &x : a) x = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && inSimThread()) {
        NoYield guard;
        auto *addr = reinterpret_cast<std::atomic<uint32_t> *>(a[0]);
        int op = int(a[1]) & 0x7f;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (addr->load() != uint32_t(a[2])) { errno = EAGAIN; return -1; }
            int64_t dl = INT64_MAX;
            if (auto *ts = reinterpret_cast<const timespec *>(a[3])) dl = op == FUTEX_WAIT ? W->now + fromTimespec(ts) : fromTimespec(ts) - MonoBase;
            if (!waitOn(addr, dl, [] {})) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) return wakeOn(addr, int(a[2]));
        if (op == FUTEX_WAKE_OP) { // QSemaphore: conditional second wake; waking spuriously is allowed
            int r = wakeOn(addr, int(a[2]));
            rawSyscall(n, a[0], (a[1] & ~0x7f) | FUTEX_WAKE_OP, 0, a[3], a[4], a[5]);
            return r + wakeOn(reinterpret_cast<void *>(a[4]), int(a[3]));
        }
    }
    if (n == SYS_getrandom && W->active) { memset(reinterpret_cast<void *>(a[0]), 0x5a, size_t(a[1])); return a[1]; }
    long r = rawSyscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) { errno = int(-r); return -1; }
    return r;
}
int getentropy(void *buf, size_t n) {
    if (W->active) { for (size_t i = 0; i < n; ++i) static_cast<unsigned char *>(buf)[i] = static_cast<unsigned char>(i * 37 + 11); return 0; }
    return rawSyscall(SYS_getrandom, long(buf), long(n), 0, 0, 0, 0) == long(n) ? 0 : -1;
}

} // extern "C"
