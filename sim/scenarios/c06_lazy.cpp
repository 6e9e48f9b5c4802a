// C06: a lazy task runs only when awaited, and then exactly once.
#include "jobs.h"
#include "qcorolazytask.h"

using namespace sim;

namespace {

struct Item {
    Job *job;
    bool demanded = false; // somebody awaited it (or an eager continuation was attached)
    bool handleGone = false;
    int consumers = 0, resumed = 0;
    int links = 0; // live callback closures
    int thenCalls = 0, errCalls = 0;
    bool chained = false;
    int handledTo = 0; // an error callback handles the error: even: a default value, odd: this error
    std::vector<std::shared_ptr<void>> kept;
};
std::vector<Item *> items;

void invariant(const char *when) {
    for (auto *it : items) {
        SIM_CHECK(it->demanded || it->job->runs == 0, "ran-unawaited", "%s: the body of a lazy task ran although nobody awaited it", when);
        SIM_CHECK(!it->demanded || it->job->runs == 1, "not-run-once", "%s: the body of an awaited lazy task ran %d times", when, it->job->runs);
        SIM_CHECK(it->job->finishedCount <= 1, "not-run-once", "%s: the body ended %d times", when, it->job->finishedCount);
        if (it->job->runs && !it->job->finished())
            SIM_CHECK(it->job->args > 0 && it->job->locals > 0, "destroyed-early", "%s: the frame of a running lazy task is gone", when);
    }
}

template<typename T>
Detached consume(Item *it, std::shared_ptr<QCoro::LazyTask<T>> task, int form, bool takesValue) {
    ++it->consumers;
    Outcome got;
    const bool again = it->job->finished();
    if (again) probe("await-after-finish");
    else if (it->demanded) probe("await-while-running");
    it->demanded = true;
    auto inner = [&]() -> QCoro::Task<Outcome> {
        Outcome o;
        try {
            if constexpr (std::is_void_v<T>) {
                if (form == 0) co_await *task;
                else if (form == 1) { const auto &ref = *task; co_await ref; }
                else co_await std::move(*task);
                o = {End::Value, it->job->id};
            } else {
                if (form == 0) o = {End::Value, valueId(co_await *task)};
                else if (form == 1) { const auto &ref = *task; T v = co_await ref; o = {End::Value, valueId(v)}; }
                else o = {End::Value, valueId(co_await std::move(*task))};
            }
        } catch (const Err &e) { o = {End::StdErr, e.id};
        } catch (const OtherErr &e) { o = {End::Other, e.id}; }
        co_return o;
    };
    got = co_await inner();
    ++it->resumed;
    SIM_CHECK(it->job->finished(), "resumed-early", "an awaiter was resumed before the lazy task finished");
    if (!takesValue && got.end == End::Value) got.id = it->job->id;
    auto want = it->job->outcome;
    if (it->handledTo && want.end == End::StdErr) want = it->handledTo % 2 ? Outcome{End::StdErr, it->handledTo} : Outcome{End::Value, 0};
    checkOutcome(got, want, "lazy awaiter");
    invariant("after await");
}

// Awaits a lazy task that nobody else owns; its result has to outlive it.
template<typename T>
Detached consumeTemporary(Item *it) {
    ++it->consumers;
    it->demanded = true;
    auto lazy = [it] { return job<QCoro::LazyTask, T>(it->job, Tracked(&it->job->args)); };
    Outcome got;
    const int form = int(choose(3));
    auto inner = [&]() -> QCoro::Task<Outcome> {
        Outcome o;
        try {
            if constexpr (std::is_void_v<T>) { co_await lazy(); o = {End::Value, it->job->id}; }
            else if (form == 0) { T v = co_await lazy(); o = {End::Value, valueId(v)}; }
            else if (form == 1) { const auto &v = co_await lazy(); o = {End::Value, valueId(v)}; }
            else { auto &&v = co_await lazy(); co_await Gate(delay(10 * ms)); o = {End::Value, valueId(v)}; }
        } catch (const Err &e) { o = {End::StdErr, e.id};
        } catch (const OtherErr &e) { o = {End::Other, e.id}; }
        co_return o;
    };
    got = co_await inner();
    ++it->resumed;
    it->handleGone = true;
    SIM_CHECK(it->job->finished(), "resumed-early", "an awaiter was resumed before the lazy task finished");
    checkOutcome(got, it->job->outcome, "awaiter of a temporary lazy task");
}

template<typename T>
void plan(Item *it) {
    if (chance(15)) { probe("temporary"); at(delay(40 * ms), [=] { consumeTemporary<T>(it); }, "await-temporary"); return; }
    // lazy tasks can not be moved
    auto task = std::shared_ptr<QCoro::LazyTask<T>>(new QCoro::LazyTask<T>(job<QCoro::LazyTask, T>(it->job, Tracked(&it->job->args))));
    SIM_CHECK(it->job->runs == 0, "ran-unawaited", "creating a lazy task ran its body");
    SIM_CHECK(!task->isReady(), "wrong-ready", "a lazy task that has not run reports ready");
    constexpr bool trivial = std::is_void_v<T> || std::is_same_v<T, int>;
    switch (choose(8)) {
    case 0: case 1: case 4: { // one await
        int form = int(choose(3));
        at(delay(40 * ms), [=] { consume<T>(it, task, form, true); }, "await");
        break;
    }
    case 2: { // several awaits of the same task
        int n = 2 + int(choose(2));
        for (int i = 0; i < n; ++i)
            at(delay(60 * ms), [=] { consume<T>(it, task, 0, trivial || it->consumers == 0); }, "await");
        break;
    }
    case 3: // never awaited
        probe("dropped-unawaited");
        at(delay(40 * ms), [it, task = std::move(task)]() mutable { task.reset(); it->handleGone = true; }, "drop");
        break;
    case 5: { // a lazy continuation does not start it ...
        Tracked closure(&it->links);
        const bool named = chance(50), handles = chance(50);
        const int errId = 900 + it->job->id;
        // On a task that stays or on one that is given away, with callbacks that stay or go.
        auto attach = [=](QCoro::LazyTask<T> &t) -> QCoro::LazyTask<int> {
            auto own = std::make_shared<int>(1);
            auto err = [it, closure, own, errId](const std::exception &e) {
                SIM_CHECK(own && closure.alive(), "destroyed-early", "the error callback object is gone while it is called");
                SIM_CHECK(it->job->finished() && it->job->outcome.end == End::StdErr, "wrong-callback", "the error callback of a lazy task was called although it did not fail");
                auto *x = dynamic_cast<const Err *>(&e);
                SIM_CHECK(x && x->id == it->job->id, "wrong-argument", "the error callback got another exception");
                ++it->errCalls;
                if (errId % 2) throw Err(errId);
            };
            auto go = [&](auto fn) -> QCoro::LazyTask<int> {
                if (named) { if (handles) return t.then(std::move(fn), std::move(err)); return t.then(std::move(fn)); }
                if (handles) return std::move(t).then(fn, err);
                return std::move(t).then(fn);
            };
            auto called = [it, closure, own] {
                SIM_CHECK(own && closure.alive(), "destroyed-early", "the callback object is gone while it is called");
                SIM_CHECK(it->job->finished() && it->job->outcome.end == End::Value, "wrong-callback", "the callback of a lazy task was called although it has no value");
                ++it->thenCalls;
            };
            if constexpr (std::is_void_v<T>) return go([it, called]() -> int { called(); return it->job->id; });
            else return go([called](T v) -> int { called(); return valueId(v); });
        };
        auto chained = std::shared_ptr<QCoro::LazyTask<int>>(new QCoro::LazyTask<int>(attach(*task)));
        if (handles) it->handledTo = errId;
        if (!named) task.reset(); // it was given away
        SIM_CHECK(it->job->runs == 0, "ran-unawaited", "attaching a lazy continuation started the task");
        if (chance(50)) {
            probe("lazy-chain-awaited");
            it->chained = true;
            at(delay(40 * ms), [=, keep = task] { consume<int>(it, chained, 0, true); it->kept.push_back(keep); }, "await-chain");
        } else {
            probe("lazy-chain-dropped");
            at(delay(40 * ms), [it, chained = std::move(chained), task = std::move(task)]() mutable { chained.reset(); task.reset(); it->handleGone = true; }, "drop-chain");
        }
        break;
    }
    case 6: { // ... an eager one does
        Tracked closure(&it->links);
        int64_t d = delay(40 * ms);
        probe("eager-continuation");
        at(d, [=] {
            it->demanded = true;
            auto body = [it, closure](int id) -> QCoro::Task<int> { ++it->thenCalls; SIM_CHECK(it->job->finished(), "called-early", "continuation before the end"); co_return id; };
            QCoro::Task<int> t;
            if constexpr (std::is_void_v<T>) t = std::move(*task).then([it, body]() -> QCoro::Task<int> { return body(it->job->id); });
            else t = std::move(*task).then([body](T v) -> QCoro::Task<int> { return body(valueId(v)); });
            SIM_CHECK(it->job->runs == 1, "not-started", "an eager continuation did not start the lazy task");
            (void)t;
        }, "eager-then");
        break;
    }
    case 7: // blocking wait
        at(delay(40 * ms), [=] {
            it->demanded = true;
            probe("blocking-wait");
            Outcome got;
            if constexpr (std::is_void_v<T>) got = SIM_OUTCOME((QCoro::waitFor(*task), it->job->id));
            else got = SIM_OUTCOME(valueId(QCoro::waitFor(*task)));
            checkOutcome(got, it->job->outcome, "waitFor");
        }, "waitFor");
        break;
    }
}

// Lazy tasks awaiting lazy tasks.
int depthRuns = 0;
QCoro::LazyTask<int> tower(int depth) {
    ++depthRuns;
    if (depth == 0) { co_await Gate(delay(10 * ms)); co_return 0; }
    auto below = tower(depth - 1);
    const int before = depthRuns;
    if (chance(50)) co_await Gate(delay(5 * ms));
    SIM_CHECK(depthRuns == before, "ran-unawaited", "an inner lazy task ran before it was awaited");
    co_return 1 + co_await below;
}

} // namespace

SIM_SCENARIO("C06", lazy_tasks, 5) {
    swarm();
    onStuck([] { fail("hang", "a blocking wait on a lazy task never returns"); });
    const int n = 1 + int(choose(4));
    for (int i = 0; i < n; ++i) {
        auto *it = new Item{Job::random(i + 1)};
        items.push_back(it);
        switch (choose(4)) {
        case 0: plan<int>(it); break;
        case 1: plan<void>(it); break;
        case 2: plan<Tagged>(it); break;
        case 3: plan<QString>(it); break;
        }
    }
    for (int i = int(choose(4)); i > 0; --i) at(delay(80 * ms), [] { invariant("checkpoint"); }, "checkpoint");
    SIM_CHECK(run(), "not-idle", "the program is still busy after an hour");
    invariant("at the end");
    for (auto *it : items) {
        it->kept.clear();
        if (it->demanded) SIM_CHECK(it->job->finished(), "never-finished", "an awaited lazy task did not finish");
        SIM_CHECK(it->resumed == it->consumers, "never-resumed", "%d of %d awaiters of a lazy task were resumed", it->resumed, it->consumers);
        if (it->handleGone || it->demanded)
            SIM_CHECK(it->job->args == 0 && it->job->locals == 0, "leak", "the frame of a %s lazy task was not released (args %d, locals %d)", it->demanded ? "finished" : "dropped", it->job->args, it->job->locals);
        if (it->chained) {
            const auto end = it->job->outcome.end;
            SIM_CHECK(it->thenCalls == (end == End::Value) && it->errCalls == (end == End::StdErr && it->handledTo), "callback-count", "after %s: the continuation of a lazy task was called %d times, the error callback %d times", it->job->outcome.name(), it->thenCalls, it->errCalls);
        }
        if (it->handleGone || it->demanded) SIM_CHECK(it->links == 0, "leak", "a continuation of a lazy task was not released");
    }
}

SIM_SCENARIO("C06", lazy_tower, 1) {
    swarm();
    const int depth = int(choose(6));
    int result = -1;
    bool started = false;
    auto t = std::shared_ptr<QCoro::LazyTask<int>>(new QCoro::LazyTask<int>(tower(depth)));
    at(delay(20 * ms), [&, t] {
        SIM_CHECK(depthRuns == 0, "ran-unawaited", "a lazy task ran before it was awaited");
        started = true;
        [](std::shared_ptr<QCoro::LazyTask<int>> t, int *out) -> QCoro::Task<> { *out = co_await *t; }(t, &result);
    }, "await");
    SIM_CHECK(run(), "not-idle", "the program is still busy after an hour");
    SIM_CHECK(started && result == depth, "wrong-outcome", "nested lazy tasks delivered %d instead of %d", result, depth);
    SIM_CHECK(depthRuns == depth + 1, "not-run-once", "%d bodies ran instead of %d", depthRuns, depth + 1);
}

SIM_SCENARIO("C06", lazy_empty, 1) {
    swarm();
    bool resumed = false;
    const int form = int(choose(2));
    at(delay(20 * ms), [&] {
        [](bool *r, int form) -> QCoro::Task<> {
            QCoro::LazyTask<int> a;
            if (form) { auto b = job<QCoro::LazyTask, int>(new Job, Tracked()); { auto drop = std::move(b).then([](int v) { return v; }); } co_await b; }
            else co_await a;
            *r = true;
        }(&resumed, form);
    }, "await-empty");
    SIM_CHECK(run(), "not-idle", "the program is still busy after an hour");
    SIM_CHECK(!resumed, "resumed-without-task", "awaiting an empty lazy task resumed");
}
