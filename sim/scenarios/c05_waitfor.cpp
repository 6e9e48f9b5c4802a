// C05: waitFor() returns exactly when the awaited work is done and keeps events flowing.
#include "jobs.h"
#include "qcorolazytask.h"
#include "qcorofuture.h"
#include "qcorosignal.h"
#include "dispatcher.h"

#include <QCoreApplication>
#include <QEvent>
#include <QSocketNotifier>

using namespace sim;

namespace {

// A descriptor that becomes readable again a while after it was served.
struct Descriptor : QSocketNotifier {
    static inline bool ready[2];
    int which;
    int n = 0;
    int64_t period;
    Descriptor(int w, int64_t p) : QSocketNotifier(w ? userInputFd : 20000, QSocketNotifier::Read), which(w), period(p) {
        fdReady = [](int fd, int) { return fd == 20000 ? ready[0] : fd == userInputFd && ready[1]; };
        connect(this, &QSocketNotifier::activated, this, [this] { ready[which] = false; ++n; arm(); });
        arm();
    }
    void arm() { kernelAt(period, [this] { ready[which] = true; }, "readable"); }
};
// Something that posts itself the next event when it gets one.
struct Poster : QObject {
    int n = 0;
    bool event(QEvent *e) override {
        if (e->type() != QEvent::User) return QObject::event(e);
        ++n;
        at(3 * ms, [this] { QCoreApplication::postEvent(this, new QEvent(QEvent::User)); }, "post");
        return true;
    }
};

int waits = 0, active = 0;
int ticks = 0;

struct Custom2 { // awaitable completing with a value or an exception
    Job *j; int64_t d;
    bool await_ready() const { if (d == 0) ++j->finishedCount; return d == 0; }
    void await_suspend(std::coroutine_handle<> h) { auto *k = j; at(d, [h, k] { ++k->finishedCount; h.resume(); }, "custom"); }
    int await_resume() const {
        if (j->outcome.end == End::StdErr) throw Err(j->id);
        if (j->outcome.end == End::Other) throw OtherErr{j->id};
        return j->id;
    }
};
struct Custom2Member { Job *j; int64_t d; Custom2 operator co_await() const { return {j, d}; } };

int nextJob = 0;

void wait(int depth);
// Environment event that itself blocks: nested waits.
void maybeNest(int depth) {
    if (depth >= 3 || !chance(60)) return;
    at(delay(30 * ms), [depth] { if (active > 0) probe("nested-wait"); wait(depth + 1); }, "nested");
}

void wait(int depth) {
    ++active;
    auto *j = Job::random(++nextJob);
    ++waits;
    const int form = int(choose(11));
    const int64_t pre = chance(30) ? delay(60 * ms) : 0; // let it progress before waiting
    maybeNest(depth);
    auto passTime = [pre] { if (pre > 0) { QEventLoop l; at(pre, [&l] { l.quit(); }, "quit"); l.exec(); } };
    Outcome got;
    bool sawFinishedBefore = false;
    auto note = [&] { sawFinishedBefore = j->finished(); if (sawFinishedBefore) probe("wait-after-finish"); };
    switch (form) {
    case 0: got = SIM_OUTCOME((QCoro::waitFor(job<QCoro::Task, int>(j, Tracked(&j->args))))); break;
    case 1: got = SIM_OUTCOME((QCoro::waitFor(job<QCoro::Task, void>(j, Tracked(&j->args))), j->id)); break;
    case 2: { auto t = job<QCoro::Task, int>(j, Tracked(&j->args)); passTime(); note(); got = SIM_OUTCOME(QCoro::waitFor(t)); break; }
    case 3: { auto t = job<QCoro::Task, void>(j, Tracked(&j->args)); passTime(); note(); got = SIM_OUTCOME((QCoro::waitFor(t), j->id)); break; }
    case 4: { auto t = job<QCoro::Task, std::unique_ptr<Tagged>>(j, Tracked(&j->args)); passTime(); note(); got = SIM_OUTCOME(valueId(QCoro::waitFor(std::move(t)))); break; }
    case 5: { auto t = job<QCoro::Task, Tagged>(j, Tracked(&j->args)); passTime(); note(); got = SIM_OUTCOME(valueId(QCoro::waitFor(t))); break; }
    case 6: got = SIM_OUTCOME(QCoro::waitFor(Custom2{j, delay(30 * ms)})); break;
    case 7: { Custom2Member m{j, delay(30 * ms)}; got = SIM_OUTCOME(QCoro::waitFor(m)); break; }
    case 8: got = SIM_OUTCOME((QCoro::waitFor(job<QCoro::LazyTask, int>(j, Tracked(&j->args))))); break;
    case 9: { auto t = job<QCoro::LazyTask, Tagged>(j, Tracked(&j->args)); passTime(); SIM_CHECK(j->runs == 0, "lazy-ran", "a lazy task ran before it was awaited"); got = SIM_OUTCOME(valueId(QCoro::waitFor(t))); break; }
    case 10: { // chained
        auto t = job<QCoro::Task, int>(j, Tracked(&j->args)).then([](int v) { return v; });
        passTime(); note();
        got = SIM_OUTCOME(QCoro::waitFor(std::move(t)));
        break;
    }
    }
    SIM_CHECK(j->finished(), "returned-early", "waitFor() returned before the awaited work finished");
    checkOutcome(got, j->outcome, "waitFor");
    --active;
    trace("wait %d returned", j->id);
}

} // namespace

SIM_SCENARIO("C05", blocking_wait, 1) {
    swarm();
    onStuck([] { fail("hang", "waitFor() blocks forever: nothing can happen any more and it has not returned"); });
    // unrelated activity that has to go on during the waits
    const int step_ms = 1 + int(choose(5));
    struct Ticker : QObject { int64_t last = 0; int n = 0; void timerEvent(QTimerEvent *) override { ++n; ++ticks; last = now(); } } ticker;
    const int64_t t0 = now();
    ticker.startTimer(step_ms);
    Descriptor descriptor(0, 1 * ms + delay(4 * ms)), input(1, 3 * ms);
    Poster poster;
    QCoreApplication::postEvent(&poster, new QEvent(QEvent::User));
    const int n = 1 + int(choose(4));
    int completed = 0;
    for (int i = 0; i < n; ++i) {
        if (chance(50)) {
            const int before = ticker.n, beforeFd = descriptor.n, beforeInput = input.n, beforePosted = poster.n;
            const int64_t began = now();
            const int stalls = int(config().stallPercent);
            wait(0);
            const int64_t took = now() - began;
            if (!stalls) { // a repeating timer fires once per interval while the wait is on, so do the others
                SIM_CHECK(ticker.n - before >= took / (step_ms * ms) - 1, "events-starved", "only %d ticks of %d ms during a wait of %.3f ms", ticker.n - before, step_ms, took / 1e6);
                SIM_CHECK(descriptor.n - beforeFd >= took / descriptor.period - 1, "events-starved", "a descriptor was served %d times during a wait of %.3f ms", descriptor.n - beforeFd, took / 1e6);
                SIM_CHECK(input.n - beforeInput >= took / input.period - 1, "events-starved", "%d user inputs were delivered during a wait of %.3f ms", input.n - beforeInput, took / 1e6);
                SIM_CHECK(poster.n - beforePosted >= took / (3 * ms) - 1, "events-starved", "%d posted events were delivered during a wait of %.3f ms", poster.n - beforePosted, took / 1e6);
            }
            ++completed;
        } else {
            QEventLoop l;
            at(delay(40 * ms), [&] { wait(0); ++completed; l.quit(); }, "wait");
            l.exec();
        }
    }
    SIM_CHECK(completed == n, "hang", "%d of %d blocking waits returned", completed, n);
    (void)t0;
}
