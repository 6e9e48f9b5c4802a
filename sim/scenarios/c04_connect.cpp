// C04: connect() calls its callback once, and only while the context object lives.
#include "jobs.h"
#include "qcorolazytask.h"
#include "qcorofuture.h"

#include <QPromise>

using namespace sim;

namespace {

struct Conn {
    int id;
    Job *job = nullptr;
    bool completed = false;     // awaited operation finished (for awaitables without a job)
    bool fails = false;
    bool contextGone = false;   // destroyed before the operation finished
    bool contextWasAlive = false;
    int calls = 0;
    int closures = 0;
    int expectArg = 0;
};
std::vector<Conn *> conns;

// Called when the connected operation is about to finish.
void onCall(Conn *c, bool contextAlive, const int *arg) {
    ++c->calls;
    trace("callback of connection %d", c->id);
    SIM_CHECK(contextAlive, "called-after-destruction", "the callback of connection %d was called although its context object is destroyed", c->id);
    SIM_CHECK(c->calls == 1, "called-twice", "the callback of connection %d was called %d times", c->id, c->calls);
    if (c->job) {
        SIM_CHECK(c->job->finished(), "called-early", "the callback was called before the task finished");
        SIM_CHECK(c->job->outcome.end == End::Value, "called-on-failure", "the callback was called although the task failed");
    } else {
        SIM_CHECK(c->completed, "called-early", "the callback was called before the awaitable completed");
    }
    if (arg) SIM_CHECK(*arg == c->expectArg, "wrong-argument", "the callback of connection %d got %d instead of %d", c->id, *arg, c->expectArg);
}

struct Context : QObject {
    bool alive = true;
    Conn *slotConn = nullptr; // for member-function callbacks
    ~Context() override { alive = false; }
    void slotNone() { onCall(slotConn, alive, nullptr); }
    void slotInt(int v) { onCall(slotConn, alive, &v); }
    void slotTagged(Tagged v) { int i = valueId(v); onCall(slotConn, alive, &i); }
};

struct Ctx { // shared knowledge about a context object that outlives it
    Context *obj = nullptr;
    std::shared_ptr<bool> alive = std::make_shared<bool>(true);
};

// An awaitable with state of its own.
struct Custom {
    Custom() = default;
    explicit Custom(Conn *k, int64_t delayNs) : c(k), d(delayNs), t(nullptr) {}
    Conn *c = nullptr;
    int64_t d = 0;
    Tracked t;
    bool await_ready() const { return d == 0; }
    void await_suspend(std::coroutine_handle<> h) { auto *k = c; at(d, [h, k] { k->completed = true; h.resume(); }, "custom"); }
    int await_resume() { SIM_CHECK(t.alive(), "destroyed-early", "the awaitable passed to connect() is gone before it completed"); c->completed = true; return c->expectArg; }
};

std::vector<std::shared_ptr<void>> kept; // named tasks that stay with the caller

// Connects a temporary task or (callbacks without argument only) a named one.
template<typename T, typename F>
void doConnect(QCoro::Task<T> t, Context *obj, F f) {
    if constexpr (std::is_invocable_v<F> || std::is_same_v<F, void (Context::*)()>) {
        if (chance(30)) {
            probe("named-task");
            auto k = std::make_shared<QCoro::Task<T>>(std::move(t));
            kept.push_back(k);
            QCoro::connect(*k, obj, std::move(f));
            return;
        }
    }
    QCoro::connect(std::move(t), obj, std::move(f));
}

void connectTask(Conn *c, Ctx ctx, int type, int form) {
    auto *obj = ctx.obj;
    obj->slotConn = c;
    c->expectArg = c->job->id;
    Tracked closure(&c->closures);
    auto alive = ctx.alive;
    switch (type) {
    case 0: {
        auto t = job<QCoro::Task, int>(c->job, Tracked(&c->job->args));
        if (form == 0) doConnect(std::move(t), obj, [c, alive, closure](int v) { onCall(c, *alive, &v); });
        else if (form == 1) doConnect(std::move(t), obj, [c, alive, closure] { onCall(c, *alive, nullptr); });
        else if (form == 2) doConnect(std::move(t), obj, &Context::slotInt);
        else doConnect(std::move(t), obj, &Context::slotNone);
        break;
    }
    case 1: {
        auto t = job<QCoro::Task, void>(c->job, Tracked(&c->job->args));
        if (form < 2) doConnect(std::move(t), obj, [c, alive, closure] { onCall(c, *alive, nullptr); });
        else doConnect(std::move(t), obj, &Context::slotNone);
        break;
    }
    default: {
        auto t = job<QCoro::Task, Tagged>(c->job, Tracked(&c->job->args));
        if (form == 0) doConnect(std::move(t), obj, [c, alive, closure](Tagged v) { int i = valueId(v); onCall(c, *alive, &i); });
        else if (form == 1) doConnect(std::move(t), obj, [c, alive, closure] { onCall(c, *alive, nullptr); });
        else if (form == 2) doConnect(std::move(t), obj, &Context::slotTagged);
        else doConnect(std::move(t), obj, &Context::slotNone);
        break;
    }
    }
}

} // namespace

SIM_SCENARIO("C04", connect_context, 1) {
    swarm();
    const int n = 1 + int(choose(4));
    for (int i = 0; i < n; ++i) {
        auto *c = new Conn{i + 1};
        conns.push_back(c);
        Ctx ctx;
        ctx.obj = new Context;
        QObject::connect(ctx.obj, &QObject::destroyed, [a = ctx.alive] { *a = false; });
        const int source = int(choose(8));
        const bool preFinished = chance(25);
        int64_t start = delay(20 * ms);
        const int form = int(choose(4));
        // destroy the context: never, or at some time (before, at or after completion)
        if (chance(60)) {
            auto kill = [=] { probe("context-destroyed"); trace("context %d destroyed", c->id); delete ctx.obj; };
            if (chance(20)) { at(start + delay(60 * ms), [=] { trace("deleteLater"); ctx.obj->deleteLater(); }, "kill-later"); probe("context-delete-later"); }
            else at(start + delay(60 * ms), kill, "kill");
        }
        if (source < 5) {
            c->job = Job::random(100 + i, preFinished ? 0 : 3);
            int type = int(choose(3));
            at(start, [=] { if (*ctx.alive) connectTask(c, ctx, type, form); else c->job = nullptr; }, "connect");
        } else if (source == 5) { // a custom awaitable passed as a temporary
            int64_t d = preFinished ? 0 : delay(40 * ms);
            c->expectArg = 500 + i;
            at(start, [=] {
                if (!*ctx.alive) return;
                Tracked closure(&c->closures);
                if (form % 2) QCoro::connect(Custom(c, d), ctx.obj, [c, a = ctx.alive, closure](int v) { onCall(c, *a, &v); });
                else if (chance(40)) { Custom local(c, d); QCoro::connect(local, ctx.obj, [c, a = ctx.alive, closure]() { onCall(c, *a, nullptr); }); }
                else QCoro::connect(Custom(c, d), ctx.obj, [c, a = ctx.alive, closure]() { onCall(c, *a, nullptr); });
                probe("temporary-awaitable");
            }, "connect");
        } else if (source == 6) { // a timer
            auto *t = new QTimer;
            t->setSingleShot(chance(50));
            QObject::connect(t, &QTimer::timeout, [c, t] { c->completed = true; t->stop(); });
            int iv = int(choose(40));
            at(start, [=] {
                if (!*ctx.alive) return;
                t->start(iv);
                Tracked closure(&c->closures);
                QCoro::connect(static_cast<QTimer *>(t), ctx.obj, [c, a = ctx.alive, closure]() { onCall(c, *a, nullptr); });
            }, "connect");
        } else { // a future
            auto p = std::make_shared<QPromise<int>>();
            p->start();
            c->expectArg = 700 + i;
            auto finish = [c, p] { c->completed = true; p->addResult(c->expectArg); p->finish(); };
            if (preFinished) finish(); else at(start + delay(40 * ms), finish, "future-done");
            at(start, [=] {
                if (!*ctx.alive) return;
                Tracked closure(&c->closures);
                QFuture<int> f = p->future();
                if (form % 2) QCoro::connect(std::move(f), ctx.obj, [c, a = ctx.alive, closure](int v) { onCall(c, *a, &v); });
                else if (chance(40)) QCoro::connect(f, ctx.obj, [c, a = ctx.alive, closure]() { onCall(c, *a, nullptr); });
                else QCoro::connect(std::move(f), ctx.obj, [c, a = ctx.alive, closure]() { onCall(c, *a, nullptr); });
            }, "connect");
        }
        // remember whether the context was alive when the job finished, and whether it was connected
        c->contextWasAlive = true;
        QObject::connect(ctx.obj, &QObject::destroyed, [c] { c->contextGone = true; if (c->calls == 0) c->contextWasAlive = c->job ? c->job->finished() : false; });
    }
    SIM_CHECK(run(), "not-idle", "the program is still busy after an hour");
    kept.clear();
    for (auto *c : conns) {
        if (c->job) {
            SIM_CHECK(c->job->runs == 1 && c->job->finishedCount == 1, "never-finished", "the task of connection %d did not run to completion", c->id);
            SIM_CHECK(c->job->args == 0 && c->job->locals == 0 && c->job->results == 0 && c->job->errors == 0, "leak", "the task of connection %d was not cleaned up (args %d locals %d results %d errors %d)", c->id, c->job->args, c->job->locals, c->job->results, c->job->errors);
            if (c->job->outcome.end == End::Value && c->contextWasAlive)
                SIM_CHECK(c->calls == 1, "never-called", "the callback of connection %d was called %d times although its task succeeded while the context lived", c->id, c->calls);
            if (c->job->outcome.end != End::Value) SIM_CHECK(c->calls == 0, "called-on-failure", "failed task called the callback");
        } else if (c->completed && !c->contextGone) {
            SIM_CHECK(c->calls == 1, "never-called", "the callback of connection %d was called %d times although its awaitable completed while the context lived", c->id, c->calls);
        }
        SIM_CHECK(c->closures == 0, "leak", "the callback object of connection %d is still alive", c->id);
    }
}
