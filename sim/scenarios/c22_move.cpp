// C22: Moving a coroutine to a thread resumes it there, exactly once.
#include "qcorothread.h"
#include "qcorolazytask.h"
#include "qcoroasyncgenerator.h"
#include "threadgate.h"
#include "jobs.h"

using namespace sim;

namespace {

class Worker : public QThread {
public:
    int starts = 0;
    explicit Worker(const char *name) : mName(name) { prepareThread(this, name); }
    void launch() {
        if (isRunning() && !mEnded) return;
        if (starts) { // a thread that is about to end cannot be started
            wait();
            prepareThread(this, mName);
            probe("restarted");
        }
        ++starts;
        mEnded = false;
        start();
    }
    void run() override {
        exec();
        mEnded = true;
    }
private:
    const char *mName;
    bool mEnded = false;
};
std::vector<Worker *> workers;
std::vector<QThread *> targets; // the main thread and the workers

// Suspends and resumes later on the same thread; notices when something else resumes it.
struct Pause {
    int ms;
    bool due = false;
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> h) { QTimer::singleShot(ms, [this, h] { due = true; h.resume(); }); }
    void await_resume() const noexcept { SIM_CHECK(due, "resumed-twice", "a coroutine was resumed that does not wait for a move"); }
};

struct Hopper {
    int id;
    int held = 0;             // objects its coroutines hold
    QThread *to = nullptr;    // where it is moving
    bool arrived = true, finished = false, inside = false;
    int moves = 0, results = 0;
};
std::vector<Hopper *> hoppers;

void arrive(Hopper *h, QThread *t) {
    Atomic a;
    SIM_CHECK(!h->arrived, "resumed-twice", "the coroutine continued twice after one move");
    h->arrived = true;
    SIM_CHECK(QThread::currentThread() == t, "wrong-thread", "the coroutine continued on another thread than the one it moved to");
    SIM_CHECK(t->loopLevel() > 0, "no-event-loop", "the coroutine continued outside of the event loop of the thread");
    ++h->moves;
    probe(t == targets[0] ? "moved-to-main" : "moved-to-worker");
}
void leave(Hopper *h, QThread *t) {
    Atomic a;
    h->to = t;
    h->arrived = false;
    trace("hopper %d moves to target %d", h->id, int(std::find(targets.begin(), targets.end(), t) - targets.begin()));
    if (t == QThread::currentThread()) probe("moved-to-same");
    else if (!t->isRunning()) probe("moved-to-stopped");
}
QThread *anywhere() { return targets[choose(uint32_t(targets.size()))]; }

QCoro::Task<int> nested(Hopper *h, QThread *back);

// Moves around; returns on `back` (anywhere if null).
template<typename TaskT>
TaskT hop(Hopper *h, int depth, QThread *back) {
    Tracked local(&h->held);
    auto owned = std::make_unique<Tagged>(h->id, &h->held);
    const QString text = QStringLiteral("hopper %1").arg(h->id);
    auto *here = QThread::currentThread();
    for (int n = 1 + int(choose(4)); n > 0; --n) {
        auto *t = anywhere();
        SIM_CHECK(QThread::currentThread() == here, "wrong-thread", "the coroutine left its thread without moving");
        leave(h, t);
        if (chance(75)) co_await QCoro::moveToThread(t);
        else { auto context = QCoro::moveToThread(t); co_await context; }
        arrive(h, t);
        SIM_CHECK(local.alive() && owned && owned->id == h->id && owned->t.alive() && text.endsWith(QString::number(h->id)), "lost-state", "something the coroutine holds did not survive the move");
        here = t;
        if (chance(40)) co_await Pause{int(choose(10))};
        if (depth < 2 && chance(20)) {
            const int r = co_await hop<TaskT>(h, depth + 1, t);
            SIM_CHECK(r == h->id, "wrong-result", "the result did not survive the move");
            SIM_CHECK(QThread::currentThread() == t, "wrong-thread", "the awaiting coroutine was resumed on another thread");
            probe("nested");
        }
    }
    if (back) {
        leave(h, back);
        co_await QCoro::moveToThread(back);
        arrive(h, back);
    }
    if (depth == 0 && chance(15)) { probe("thrown"); throw JobErr(h->id, &h->held); }
    co_return h->id;
}

QCoro::AsyncGenerator<Tagged> walker(Hopper *h) {
    Tracked local(&h->held);
    for (int n = 1 + int(choose(3)); n > 0; --n) {
        auto *t = anywhere();
        leave(h, t);
        co_await QCoro::moveToThread(t);
        arrive(h, t);
        co_yield Tagged(h->id, &h->held);
    }
}

// The task moves before and after its awaiter awaits it, but suspends on the awaiter's thread
// and only then leaves for good.
QCoro::Task<int> leaver(Hopper *h) {
    Tracked local(&h->held);
    co_await Pause{int(choose(5))};
    co_return co_await hop<QCoro::Task<int>>(h, 1, QThread::currentThread());
}
QCoro::Task<int> oneWay(Hopper *h, QThread *t) {
    Tracked local(&h->held);
    co_await Pause{int(choose(5))};
    leave(h, t);
    co_await QCoro::moveToThread(t);
    arrive(h, t);
    co_return h->id;
}

Detached drive(Hopper *h, int form) {
    Tracked local(&h->held);
    auto *here = QThread::currentThread();
    h->inside = true;
    int r = -1;
    QThread *end = here;
    try {
        switch (form) {
        case 0: r = co_await hop<QCoro::Task<int>>(h, 0, here); break;
        case 1: { auto task = hop<QCoro::Task<int>>(h, 0, here); co_await Pause{int(choose(20))}; r = co_await task; break; }
        case 2: r = co_await leaver(h); break;
        case 3: end = anywhere(); r = co_await oneWay(h, end); break;
        case 4: end = anywhere(); r = co_await hop<QCoro::LazyTask<int>>(h, 0, end); break;
        case 5: {
            r = h->id;
            auto g = walker(h);
            for (auto it = co_await g.begin(); it != g.end(); co_await ++it) {
                SIM_CHECK((*it).id == h->id && (*it).t.alive(), "lost-state", "the value did not survive the move");
                SIM_CHECK(QThread::currentThread() == h->to, "wrong-thread", "the consumer was resumed on another thread than the generator");
                if (chance(50)) co_await Pause{int(choose(5))};
            }
            end = QThread::currentThread();
            probe("generator");
            break;
        }
        }
    } catch (const JobErr &e) {
        r = e.id;
    }
    SIM_CHECK(r == h->id, "wrong-result", "the result did not survive the move");
    SIM_CHECK(QThread::currentThread() == end, "wrong-thread", "the awaiting coroutine was resumed on another thread than the one the task ended on");
    // An ordinary coroutine can be moved on from wherever it is.
    h->finished = true;
    ++h->results;
    SIM_CHECK(h->results == 1, "resumed-twice", "the awaiter of a moving task was resumed twice");
    trace("hopper %d finished", h->id);
}

// Nobody awaits it: the handle is dropped at once or kept.
QCoro::Task<> alone(Hopper *h) {
    Tracked local(&h->held);
    h->inside = true;
    struct Done { Hopper *h; ~Done() { ++h->results; SIM_CHECK(h->results == 1, "resumed-twice", "the coroutine ended twice"); h->finished = true; } } done{h};
    for (int n = 1 + int(choose(5)); n > 0; --n) {
        auto *t = anywhere();
        leave(h, t);
        co_await QCoro::moveToThread(t);
        arrive(h, t);
        SIM_CHECK(local.alive(), "lost-state", "something the coroutine holds did not survive the move");
        if (chance(30)) co_await Pause{int(choose(10))};
    }
}

} // namespace

SIM_SCENARIO("C22", move_to_thread, 1) {
    swarm();
    swarmThreads();
    targets.push_back(QThread::currentThread());
    static const char *names[] = {"w0", "w1", "w2"};
    const int n = 1 + int(choose(3));
    for (int i = 0; i < n; ++i) {
        workers.push_back(new Worker(names[i]));
        targets.push_back(workers.back());
    }
    const bool stopping = chance(30);
    for (auto *w : workers) {
        switch (choose(stopping ? 4 : 3)) {
        case 0: w->launch(); break;
        case 3: break; // maybe never
        default: at(delay(40 * ms), [w] { w->launch(); }, "start");
        }
        // Asks code that looks to stop, the event loop goes on.
        if (chance(15)) at(delay(60 * ms), [w] { if (w->isRunning()) { probe("interruption-requested"); w->requestInterruption(); } }, "interrupt");
    }
    if (stopping)
        for (int i = 1 + int(choose(4)); i > 0; --i) {
            auto *w = workers[choose(uint32_t(n))];
            if (chance(50)) at(delay(60 * ms), [w] { if (w->starts) { probe("quit"); w->quit(); } }, "quit");
            else at(delay(80 * ms), [w] { w->launch(); }, "start");
        }
    std::vector<QCoro::Task<>> kept;
    for (int i = 1 + int(choose(5)); i > 0; --i) {
        auto *h = new Hopper{int(hoppers.size())};
        hoppers.push_back(h);
        auto *from = anywhere();
        at(delay(40 * ms), [h, from, &kept] {
            if (from != targets[0]) {
                const int form = int(choose(7));
                onThread(from, [h, form] { if (form == 6) alone(h); else drive(h, form); });
                return;
            }
            switch (choose(3)) {
            case 0: alone(h); break;
            case 1: kept.push_back(alone(h)); break;
            default: drive(h, int(choose(6)));
            }
        }, "hopper");
    }
    SIM_CHECK(run(), "not-idle", "the program never becomes idle");
    for (auto *h : hoppers) {
        if (!h->inside) continue; // its first thread does not run
        if (!h->arrived) {
            SIM_CHECK(h->to != targets[0] && !h->to->isRunning(), "not-resumed", "the coroutine never continued after its move to %s", h->to == targets[0] ? "the main thread" : "a running thread");
            probe("target-not-running");
            continue;
        }
        if (stopping && !h->finished) continue; // its timer ended with its thread
        SIM_CHECK(h->finished, "not-resumed", "the coroutine never finished");
        SIM_CHECK(h->held == 0, "leaked", "%d objects of a finished coroutine are still alive", h->held);
    }
}
