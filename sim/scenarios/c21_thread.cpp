// C21: Thread waits report start and end truthfully under every interleaving.
#include "qcorothread.h"
#include "threadgate.h"

#include <private/qthread_p.h>

using namespace sim;
using std::chrono::milliseconds;

namespace {

uint64_t seq = 0;

struct Run { uint64_t startBegin = 0, startEnd = 0, body = 0, finish = 0; };

class SimThread : public QThread {
public:
    std::vector<Run *> runs;
    int kind = int(choose(4));
    int life = int(choose(50));
    SimThread() {
        prepareThread(this, "awaited");
        connect(this, &QThread::finished, this, [this] { sync(); trace("finished() emitted"); }, Qt::DirectConnection);
    }
    void launch() {
        if (!runs.empty() && !runs.back()->finish) return;
        if (!runs.empty()) { // a thread that is about to end cannot be started
            wait();
            prepareThread(this, "awaited");
            probe("restarted");
        }
        trace("start()");
        Run *r;
        { Atomic a; r = new Run{++seq}; runs.push_back(r); }
        start();
        r->startEnd = ++seq;
    }
    void run() override {
        runs.back()->body = ++seq;
        trace("thread body");
        switch (kind) {
        case 0: probe("body-returns-at-once"); break;
        case 1: msleep(ulong(life)); break;
        case 2: { QTimer::singleShot(life, this, [this] { exit(3); }); exec(); break; }
        default: exec();
        }
    }
    // The thread counts as ended a little before it says so.
    void sync() {
        Atomic a;
        auto *d = static_cast<QThreadPrivate *>(QObjectPrivate::get(this));
        if (!runs.empty() && !runs.back()->finish && (d->isInFinish || d->finished) && runs.back()->body) runs.back()->finish = ++seq;
    }
    bool ended() { return static_cast<QThreadPrivate *>(QObjectPrivate::get(this))->finished; }
};
SimThread *thread = nullptr;
QPointer<QThread> alive;
std::vector<Run *> *runs = nullptr;

struct Op {
    bool finish, onMain;
    int64_t timeout;
    bool immediate = false;
    int64_t began = now(), armed = -1;
    uint64_t b = ++seq, e = 0;
    bool due() const { return timeout >= 0 && now() >= began + timeout * ms; }
    bool overdue() const { return timeout >= 0 && armed >= 0 && now() >= armed + timeout * ms; }
};
std::vector<Op *> ops;

bool running(uint64_t b, uint64_t e) {
    for (auto *r : *runs) if (r->startBegin <= e && (!r->finish || r->finish >= b)) return true;
    return false;
}
bool ended(uint64_t b, uint64_t e) {
    for (size_t i = 0; i < runs->size(); ++i) {
        auto *r = (*runs)[i];
        const uint64_t until = i + 1 < runs->size() ? (*runs)[i + 1]->startEnd ? (*runs)[i + 1]->startEnd : UINT64_MAX : UINT64_MAX;
        if (r->finish && r->finish <= e && until >= b) return true;
    }
    return false;
}
// Both fell into the wait: no snapshot of the state tells this from a thread never started.
bool restarted(uint64_t b, uint64_t e) {
    for (size_t i = 0; i + 1 < runs->size(); ++i) if ((*runs)[i]->finish > b && (*runs)[i + 1]->startBegin < e) return true;
    return false;
}
bool fresh(uint64_t b) { return runs->empty() || !(*runs)[0]->startEnd || (*runs)[0]->startEnd > b; }

void check(Op *o, bool result) {
    Atomic a;
    thread->sync();
    o->e = ++seq;
    trace("%s -> %d", o->finish ? "finished" : "started", int(result));
    if (!o->finish) {
        if (result) { SIM_CHECK(running(o->b, o->e), "wrong-result", "the wait reported the start of a thread that %s", runs->empty() ? "was never started" : "had ended"); probe("started"); }
        else if (ended(o->b, o->e)) probe("start-had-ended");
        else { SIM_CHECK(o->due(), "wrong-result", "waiting for the start returned false %.3f ms after its start, the timeout is %d ms", (now() - o->began) / 1e6, int(o->timeout)); probe("start-timed-out"); }
    } else {
        if (result) { SIM_CHECK(ended(o->b, o->e), "wrong-result", "the wait reported the end of a thread that %s", runs->empty() ? "was never started" : "still runs"); probe("finished"); }
        else if (fresh(o->b)) probe("finish-not-started");
        else if (o->immediate && restarted(o->b, o->e)) probe("ended-and-restarted-meanwhile");
        else { SIM_CHECK(o->due(), "wrong-result", "waiting for the end returned false %.3f ms after its start, the timeout is %d ms", (now() - o->began) / 1e6, int(o->timeout)); probe("finish-timed-out"); }
    }
}

Detached awaiter(int rounds, bool onMain) {
    auto *here = QThread::currentThread();
    for (int i = 0; i < rounds && alive; ++i) {
        const int form = int(choose(8));
        Op *o;
        { Atomic a; o = new Op{form >= 4, onMain, form % 4 == 0 || chance(40) ? -1 : int64_t(choose(50))}; ops.push_back(o); }
        const milliseconds t(o->timeout);
        std::optional<Atomic> atomic(std::in_place);
        thread->sync();
        const auto before = seq;
        const bool steady = runs->empty() || runs->back()->startEnd;
        const bool wasRunning = !runs->empty() && !runs->back()->finish, wasFresh = runs->empty();
        trace("form %d timeout %d", form, int(o->timeout));
        atomic.reset();
        auto wrapper = qCoro(thread);
        bool r = false;
        QCoro::Task<bool> task;
        switch (form) {
        case 0: task = wrapper.waitForStarted(); break;
        case 1: task = qCoro(thread).waitForStarted(t); break;
        case 2: task = qCoro(*thread).waitForStarted(t); break;
        case 3: task = wrapper.waitForStarted(t); break;
        case 4: task = wrapper.waitForFinished(); break;
        case 5: task = qCoro(thread).waitForFinished(t); break;
        case 6: task = qCoro(*thread).waitForFinished(t); break;
        default: task = wrapper.waitForFinished(t); break;
        }
        if (Atomic a; thread->sync(), seq == before && steady) { // nothing happened meanwhile
            const bool ready = task.isReady(), wantReady = o->finish ? !wasRunning : !wasFresh;
            SIM_CHECK(ready == wantReady, "suspended", "waiting for the %s of a thread that %s %s", o->finish ? "end" : "start", wasFresh ? "was not started" : wasRunning ? "runs" : "has ended", ready ? "finished at once" : "suspended");
            if (ready) probe("immediate");
        }
        o->immediate = task.isReady();
        o->armed = deadline(o->timeout); // other threads may have run, and time passed, since it began
        r = co_await std::move(task);
        SIM_CHECK(QThread::currentThread() == here, "wrong-thread", "the awaiting coroutine was resumed on another thread");
        check(o, r);
        if (chance(60)) co_await ThreadGate{int(choose(30))};
    }
}

void idle() {
    for (auto *o : ops) {
        if (o->e || !o->onMain || !alive) continue;
        SIM_CHECK(!o->overdue(), "missed-timeout", "the wait goes on %.3f ms after its start, the timeout is %d ms", (now() - o->armed) / 1e6, int(o->timeout));
        if (runs->empty()) continue;
        auto *r = runs->back();
        if (o->finish) SIM_CHECK(!(thread->ended() && r->finish > o->b), "hangs", "waiting for the end goes on although the thread has ended");
        else SIM_CHECK(!r->body || r->body < o->b, "hangs", "waiting for the start goes on although the thread has started");
    }
}

} // namespace

SIM_SCENARIO("C21", thread_waits, 1) {
    swarm();
    swarmThreads();
    onIdle(idle);
    thread = new SimThread;
    alive = thread;
    runs = &thread->runs;
    auto *helper = chance(60) ? eventThread("helper") : nullptr;
    auto *other = helper && chance(50) ? eventThread("starter") : nullptr; // starts and ends the thread
    for (int i = 1 + int(choose(4)); i > 0; --i) {
        const bool away = helper && chance(60);
        at(delay(50 * ms), [=] {
            const int rounds = 1 + int(choose(4));
            if (away) onThread(helper, [=] { awaiter(rounds, false); });
            else awaiter(rounds, true);
        }, "awaiter");
    }
    auto act = [=](std::function<void()> fn) { if (other) onThread(other, fn); else fn(); };
    for (int i = chance(85) ? 1 + int(choose(2)) : 0; i > 0; --i) at(delay(60 * ms), [=] { act([] { if (alive) thread->launch(); }); }, "start");
    for (int i = int(choose(3)); i > 0; --i) at(delay(120 * ms), [=] { act([] { if (alive) { trace("quit()"); thread->quit(); } }); }, "quit");
    if (chance(20)) at(delay(60 * ms), [=] { act([] { if (alive) { trace("requestInterruption()"); probe("interruption-requested"); thread->requestInterruption(); } }); }, "interrupt");
    SIM_CHECK(run(), "not-idle", "the program never becomes idle");
    idle();
    for (auto *o : ops) {
        if (o->e) continue;
        SIM_CHECK(!o->overdue(), "missed-timeout", "the wait goes on %.3f ms after its start, the timeout is %d ms", (now() - o->armed) / 1e6, int(o->timeout));
        if (o->finish) {
            SIM_CHECK(!runs->empty() && !runs->back()->finish, "hangs", "waiting for the end never finishes although the thread %s", runs->empty() ? "was never started" : "has ended");
            for (auto *r : *runs) SIM_CHECK(!r->finish || r->finish < o->b, "hangs", "waiting for the end never finishes although the thread ended");
        } else SIM_CHECK(runs->empty(), "hangs", "waiting for the start never finishes although the thread was started");
        probe("still-waiting");
    }
}
