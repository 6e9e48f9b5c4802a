// The simulated event dispatcher: which posted event batch, timer, descriptor or
// environment event is handled next is a recorded decision; time is simulated.
#include "dispatcher.h"

#include <QCoreApplication>
#include <QEventLoop>
#include <QThread>
#include <private/qcoreapplication_p.h>
#include <private/qthread_p.h>

#include <algorithm>

namespace sim {

bool (*fdReady)(int, int) = nullptr;
static SimDispatcher *mainDispatcher = nullptr;
static QEventLoop *runLoop = nullptr;
static int runLevel = 0;

void insertEvent(std::vector<Event> &v, int64_t after, std::function<void()> fn, const char *name) {
    NoYield guard;
    Event e{W->now + (after < 0 ? 0 : after), W->seq++, std::move(fn), name};
    auto it = std::upper_bound(v.begin(), v.end(), e, EventOrder{});
    v.insert(it, std::move(e));
}
void at(int64_t after, std::function<void()> fn, const char *name) { insertEvent(W->env, after, std::move(fn), name); }
void kernelAt(int64_t after, std::function<void()> fn, const char *name) { insertEvent(W->kernel, after, std::move(fn), name); }
void poke() {}
int64_t deadline(int64_t timeout) {
    if (timeout >= 0) at(timeout * ms + (timeout > INT32_MAX ? ms : 0), [] {}, "deadline");
    return W->now;
}
void onIdle(std::function<void()> fn) { W->idleHooks.push_back(std::move(fn)); }
void onStuck(std::function<void()> fn) { W->stuck = std::move(fn); }

bool runKernelDue() {
    NoYield guard;
    bool any = false;
    while (!W->kernel.empty() && W->kernel.front().at <= W->now) {
        auto e = std::move(W->kernel.front());
        W->kernel.erase(W->kernel.begin());
        trace("kernel %s", e.name);
        e.fn();
        any = true;
    }
    return any;
}

void step(const char *what) {
    auto *r = W->rec;
    ++r->steps;
    trace("step %s", what);
    if (r->steps > W->cfg.maxSteps || r->overflow)
        fail("livelock", "the event loop never becomes idle: %u steps at simulated %.3f ms", r->steps, W->now / 1e6);
}

SimDispatcher::SimDispatcher(bool home, QObject *parent) : QAbstractEventDispatcher(parent), mHome(home) {}
SimDispatcher::~SimDispatcher() { if (!mHome) yieldPoint("dispatcher-gone"); }

QAbstractEventDispatcher *newDispatcher() { return new SimDispatcher(false); }
void prepareThread(QThread *t, const char *name) {
    t->setObjectName(QString::fromLatin1(name));
    t->setEventDispatcher(new SimDispatcher(false));
}

void installMainDispatcher() {
    mainDispatcher = new SimDispatcher(true);
    QCoreApplication::setEventDispatcher(mainDispatcher);
}

bool SimDispatcher::postedPending() const {
    auto *data = QThreadData::get2(thread());
    return !data->canWaitLocked();
}

const SimDispatcher::Timer *SimDispatcher::dueTimer() const {
    const Timer *best = nullptr;
    for (auto &t : mTimers) {
        if (t.active || t.deadline > W->now) continue;
        if (!best || t.deadline < best->deadline || (t.deadline == best->deadline && t.seq < best->seq)) best = &t;
    }
    return best;
}

QList<QSocketNotifier *> SimDispatcher::ready(QEventLoop::ProcessEventsFlags flags) const {
    QList<QSocketNotifier *> r;
    if (!fdReady || flags.testFlag(QEventLoop::ExcludeSocketNotifiers)) return r;
    for (auto *n : mNotifiers)
        if (n->isEnabled() && !(n->socket() == userInputFd && flags.testFlag(QEventLoop::ExcludeUserInputEvents)) && fdReady(int(n->socket()), n->type())) r.append(n);
    return r;
}

int64_t SimDispatcher::nextDeadline() const {
    int64_t d = INT64_MAX;
    for (auto &t : mTimers) if (!t.active) d = std::min(d, t.deadline);
    if (mHome && !W->env.empty()) d = std::min(d, W->env.front().at);
    return d;
}

bool SimDispatcher::hasWork(QEventLoop::ProcessEventsFlags flags) const {
    if (mInterrupt || mWake || postedPending()) return true;
    if (!flags.testFlag(QEventLoop::X11ExcludeTimers) && dueTimer()) return true;
    if (!ready(flags).isEmpty()) return true;
    if (mHome && !W->env.empty() && W->env.front().at <= W->now) return true;
    return false;
}

// Only precise timers keep their time; Qt may round others by about 5 %, and long ones to whole seconds.
static int64_t inaccuracy(Qt::TimerType type, int64_t interval) {
    if (!W->active || !W->cfg.coarseTimers || type == Qt::PreciseTimer || interval <= 20 * ms) return 0;
    const bool very = type == Qt::VeryCoarseTimer || interval >= 20 * sec;
    const int64_t most = very ? std::min(interval, sec / 2) : interval < 50 * ms ? ms : interval < 100 * ms ? 3 * ms : interval / 20;
    if (!chance(50)) return 0;
    fault("coarse-timer");
    return range(-most / ms, most / ms) * ms;
}

bool SimDispatcher::processEvents(QEventLoop::ProcessEventsFlags flags) {
    NoYield guard;
    mInterrupt = false;
    Q_EMIT awake();
    for (;;) {
        if (!W->active) { // before/after a run: only posted events
            UserCode user;
            QCoreApplicationPrivate::sendPostedEvents(nullptr, 0, QThreadData::get2(thread()));
            return false;
        }
        if (mInterrupt) return false;
        if (W->cfg.stallPercent && hasWork(flags) && chance(W->cfg.stallPercent)) {
            int64_t d = range(1, W->cfg.stallMax / us) * us;
            W->now += d;
            fault("event-loop-stall");
        }
        runKernelDue();
        { UserCode user; yieldPoint("loop"); }
        mWake = false;
        enum Kind { Posted, TimerK, Notifier, Env };
        struct Opt { Kind k; int i; };
        std::vector<Opt> opts;
        auto fds = ready(flags);
        if (postedPending()) opts.push_back({Posted, 0});
        for (int i = 0; i < fds.size(); ++i) opts.push_back({Notifier, i});
        auto *due = flags.testFlag(QEventLoop::X11ExcludeTimers) ? nullptr : dueTimer();
        if (due) opts.push_back({TimerK, 0});
        if (mHome && !W->env.empty() && W->env.front().at <= W->now) opts.push_back({Env, 0});
        if (!opts.empty()) {
            auto o = opts[W->cfg.shuffle ? choose(uint32_t(opts.size())) : 0];
            if (opts.size() > 1) probe("contended-step");
            switch (o.k) {
            case Posted:
                step("posted");
                { UserCode user; QCoreApplicationPrivate::sendPostedEvents(nullptr, 0, QThreadData::get2(thread())); }
                break;
            case TimerK: {
                step("timer");
                int id = due->id;
                auto *obj = due->obj;
                for (auto &t : mTimers) if (t.id == id) {
                    t.active = 1;
                    t.base += t.interval;
                    if (t.base <= W->now) t.base = W->now + t.interval;
                    t.deadline = t.base + inaccuracy(t.type, t.interval);
                    t.seq = W->seq++;
                }
                QTimerEvent ev(id);
                { UserCode user; QCoreApplication::sendEvent(obj, &ev); }
                for (auto &t : mTimers) if (t.id == id) { t.active = 0; if (t.interval == 0) W->now += 20 * us; } // handling an event takes time
                break;
            }
            case Notifier: {
                auto *n = fds[o.i];
                step(n->type() == QSocketNotifier::Read ? "fd-read" : n->type() == QSocketNotifier::Write ? "fd-write" : "fd-ex");
                QEvent ev(QEvent::SockAct);
                { UserCode user; QCoreApplication::sendEvent(n, &ev); }
                break;
            }
            case Env: {
                auto e = std::move(W->env.front());
                W->env.erase(W->env.begin());
                step(e.name);
                UserCode user;
                e.fn();
                break;
            }
            }
            return true;
        }
        if (!flags.testFlag(QEventLoop::WaitForMoreEvents)) return false;
        Q_EMIT aboutToBlock();
        // A full event loop, not one that leaves some events alone.
        if (mHome) W->mainLoopIdle = (flags & ~QEventLoop::ProcessEventsFlags(QEventLoop::EventLoopExec)) == QEventLoop::WaitForMoreEvents;
        bool ok = idle([this, flags] { return hasWork(flags); }, [this] { return nextDeadline(); });
        if (mHome) W->mainLoopIdle = false;
        if (!ok) { // quiescent (home thread only)
            auto *data = QThreadData::get2(thread());
            if (runLoop && data->loopLevel == runLevel) { runLoop->quit(); return false; }
            if (W->stuck) { W->stuck(); endRun(); }
            fail("stuck", "a nested event loop waits forever: nothing can happen any more at simulated %.3f ms", W->now / 1e6);
        }
        Q_EMIT awake();
    }
}

void runAwayFromMain(void (*fn)()) {
    struct Home : QThread {
        void (*fn)();
        void run() override {
            W->home = sim::currentThread();
            fn();
            endRun();
        }
    };
    NoYield guard;
    auto *home = new Home;
    home->fn = fn;
    home->setStackSize(256u << 20);
    home->setEventDispatcher(new SimDispatcher(true));
    mainDispatcher->mHome = false;
    QEventLoop loop;
    probe("off-main-thread");
    home->start();
    UserCode user;
    for (;;) loop.exec();
}

bool run(int64_t limit) {
    QEventLoop loop;
    auto *prevLoop = runLoop;
    int prevLevel = runLevel;
    W->quiescent = false;
    W->runLimit = limit >= INT64_MAX - W->now ? INT64_MAX : W->now + limit;
    runLoop = &loop;
    runLevel = QThreadData::get2(QThread::currentThread())->loopLevel + 1;
    loop.exec();
    runLoop = prevLoop;
    runLevel = prevLevel;
    bool q = W->now < W->runLimit;
    W->runLimit = INT64_MAX;
    W->quiescent = false;
    return q;
}

void SimDispatcher::registerSocketNotifier(QSocketNotifier *n) { NoYield guard; if (!mNotifiers.contains(n)) mNotifiers.append(n); }
void SimDispatcher::unregisterSocketNotifier(QSocketNotifier *n) { NoYield guard; mNotifiers.removeAll(n); }
void SimDispatcher::registerTimer(int id, qint64 interval, Qt::TimerType type, QObject *obj) {
    NoYield guard;
    const int64_t base = W->now + interval * ms;
    mTimers.push_back({id, interval * ms, base, base + inaccuracy(type, interval * ms), W->seq++, type, obj, 0});
}
bool SimDispatcher::unregisterTimer(int id) {
    NoYield guard;
    auto n = mTimers.size();
    std::erase_if(mTimers, [id](const Timer &t) { return t.id == id; });
    return n != mTimers.size();
}
bool SimDispatcher::unregisterTimers(QObject *obj) {
    NoYield guard;
    auto n = mTimers.size();
    std::erase_if(mTimers, [obj](const Timer &t) { return t.obj == obj; });
    return n != mTimers.size();
}
QList<QAbstractEventDispatcher::TimerInfo> SimDispatcher::registeredTimers(QObject *obj) const {
    NoYield guard;
    QList<TimerInfo> r;
    for (auto &t : mTimers) if (t.obj == obj) r.append(TimerInfo(t.id, int(t.interval / ms), t.type));
    return r;
}
int SimDispatcher::remainingTime(int id) {
    NoYield guard;
    for (auto &t : mTimers) if (t.id == id) return t.deadline <= W->now ? 0 : int((t.deadline - W->now + ms - 1) / ms);
    return -1;
}
void SimDispatcher::wakeUp() {
    mWake = true;
    W->mayRun = true;
    if (W->active && thread() != QThread::currentThread()) yieldPoint("wakeup");
}
void SimDispatcher::interrupt() { mInterrupt = true; wakeUp(); }
void SimDispatcher::closingDown() { if (W->active) yieldPoint("closing"); }

} // namespace sim
