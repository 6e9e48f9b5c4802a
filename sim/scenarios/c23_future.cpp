// C23: Awaiting a future yields its result, exception or cancellation exactly once.
#include "qcorofuture.h"
#include "threadgate.h"
#include "jobs.h"

#include <QCoreApplication>
#include <QEventLoop>
#include <QTimer>
#include <QException>
#include <QPromise>
#include <QThreadPool>
#include <QtConcurrent/QtConcurrentRun>

using namespace sim;

namespace {

struct QErr : QException { // the exception type Qt knows about
    int id;
    explicit QErr(int i) : id(i) {}
    void raise() const override { throw *this; }
    QException *clone() const override { return new QErr(*this); }
};

enum Kind { Value, Std, Qt_, Other, Cancelled };
const char *const kinds[] = {"its result", "a standard exception", "a Qt exception", "another exception", "nothing"};

struct Base {
    int id = 0;
    int kind = Value;       // how it ends
    bool finished = false;  // finishing has completed
    bool finishing = false; // finishing may have begun
    bool cancelled = false, hasResult = false, threw = false;
    bool pool = false;
    int held = 0;
    int waiters = 0, resumed = 0;
    int pendingMain = 0;
};
std::vector<Base *> futures;

template<typename T> T makeValue(Base *f) {
    if constexpr (std::is_void_v<T>) return;
    else if constexpr (std::is_same_v<T, int>) return f->id;
    else if constexpr (std::is_same_v<T, Tagged>) return Tagged(f->id, &f->held);
    else if constexpr (std::is_same_v<T, QString>) return QStringLiteral("job %1").arg(f->id);
    else return std::make_unique<Tagged>(f->id, &f->held);
}
std::exception_ptr makeError(Base *f) {
    switch (f->kind) {
    case Std: return std::make_exception_ptr(Err(f->id));
    case Qt_: return std::make_exception_ptr(QErr(f->id));
    default: return std::make_exception_ptr(OtherErr{f->id});
    }
}

template<typename T>
struct Fut : Base {
    QFuture<T> future;
    QPromise<T> *promise = nullptr;
    int more = 0;        // further results, which nobody awaits
    bool intact = false; // never cancelled: another future continues it, or its result is taken (Qt forbids both)

    // The steps of a producer. Each may be followed by a switch to another thread.
    void begin() { promise->start(); }
    void produce() {
        Atomic a;
        if (kind == Value) {
            if (cancelled) return; // ignored by Qt
            if constexpr (!std::is_void_v<T>) promise->addResult(makeValue<T>(this));
            hasResult = true;
            if constexpr (std::is_same_v<T, int>) for (int i = 1; i <= more; ++i) promise->addResult(id + 1000 * i);
            if constexpr (std::is_same_v<T, QString>) for (int i = 1; i <= more; ++i) promise->addResult(QStringLiteral("job %1").arg(id + 1000 * i));
        } else if (kind != Cancelled) {
            if (!cancelled) threw = true;
            if (kind == Qt_ && chance(50)) promise->setException(QErr(id));
            else promise->setException(makeError(this));
        }
    }
    void end() {
        { Atomic a; finishing = true; trace("future %d finishes", id); }
        if (!intact && chance(30)) { // an abandoned promise cancels and finishes its future
            if (Atomic a; std::is_void_v<T> || hasResult || threw) {
                cancelled = true;
                probe("promise-abandoned");
            } else return promise->finish(), done();
            delete promise;
            promise = nullptr;
        } else promise->finish();
        done();
    }
    void drop() { // its owner does not need it any more; its result may have been taken
        if (promise) probe("promise-destroyed");
        delete std::exchange(promise, nullptr);
    }
    void done() { Atomic a; finished = true; trace("future %d finished", id); }
    // Cancelling a future that never gets a result leaves nothing to yield.
    void cancel() {
        Atomic a;
        if (intact || finishing || (!std::is_void_v<T> && !hasResult)) return;
        trace("future %d cancelled", id);
        fault("cancel");
        cancelled = true;
        future.cancel();
    }
};

// What the awaiter should have seen.
void verdict(Base *f, int kind, int id, bool isVoid, bool suspended, QThread *here, bool wasFinished, bool untouched) {
    Atomic a;
    trace("future %d yields %s", f->id, kinds[kind]);
    SIM_CHECK(QThread::currentThread() == here, "wrong-thread", "the awaiter was resumed on another thread");
    SIM_CHECK(f->finishing, "early", "the awaiter was resumed before the future finished%s", f->cancelled ? ", the future is cancelled" : f->threw ? ", the future has an exception" : "");
    if (wasFinished) { SIM_CHECK(!suspended, "suspended", "awaiting a finished future suspended"); probe("finished-before"); }
    if (f->threw) {
        SIM_CHECK(kind == f->kind && id == f->id, "wrong-outcome", "the future failed with %s, the awaiter saw %s", kinds[f->kind], kinds[kind]);
        probe("exception");
    } else {
        SIM_CHECK(kind == Value && (isVoid || id == f->id), "wrong-outcome", "the future did not fail, the awaiter saw %s", kinds[kind]);
        probe(f->cancelled ? "cancelled" : "value");
    }
    ++f->resumed;
}

struct Wait {
    int times = 0;
    void once() { SIM_CHECK(++times == 1, "resumed-twice", "the awaiter was resumed twice"); }
};

void nestedLoop(int forMs) { // e.g. a dialog
    probe("nested-loop");
    QEventLoop loop;
    QTimer::singleShot(forMs, &loop, &QEventLoop::quit);
    loop.exec();
}

// Yields 1 if the form takes the result away.
template<typename T>
QCoro::Task<> awaiter(Fut<T> *f, bool take, bool *suspended, Wait *w) {
    constexpr bool isVoid = std::is_void_v<T>, moveOnly = std::is_same_v<T, std::unique_ptr<Tagged>>;
    auto *here = QThread::currentThread();
    const bool onMain = here == QCoreApplication::instance()->thread();
    const bool wasFinished = f->future.isFinished();
    int kind = Value, id = f->id;
    { Atomic a; ++f->waiters; if (onMain) ++f->pendingMain; }
    QFuture<T> future = f->future;
    auto busy = [f, onMain](int n) { Atomic a; if (onMain) f->pendingMain -= n; }; // does something else
    const int form = int(choose(6));
    trace("awaiting future %d (%s, %s), form %d%s", f->id, typeid(T).name(), kinds[f->kind], form, take ? ", take" : "");
    try {
        if constexpr (isVoid) {
            switch (form) {
            case 0: co_await future; break;
            case 1: co_await QFuture<void>(f->future); break;
            case 2: co_await qCoro(f->future).result(); break;
            case 3: { auto c = qCoro(future); co_await c.waitForFinished(); break; }
            case 4: { auto t = qCoro(future).waitForFinished(); future = {}; busy(1); co_await ThreadGate{int(choose(10))}; busy(-1); *suspended = false; co_await t; break; }
            default: { bool called = false; co_await qCoro(future).result().then([&] { called = true; }); SIM_CHECK(called, "no-callback", "the continuation was not called"); break; }
            }
        } else if constexpr (moveOnly) {
            if (chance(50)) { auto r = co_await qCoro(future).takeResult(); id = valueId(r); }
            else { auto c = qCoro(f->future); future = {}; std::unique_ptr<Tagged> r = co_await c.takeResult(); id = valueId(r); }
        } else if (take) {
            if (chance(50)) { T r = co_await qCoro(future).takeResult(); id = valueId(r); }
            else { auto c = qCoro(f->future); auto t = c.takeResult(); T r = co_await std::move(t); id = valueId(r); }
        } else {
            switch (form) {
            case 0: { T r = co_await future; id = valueId(r); break; }
            case 1: id = valueId(co_await QFuture<T>(f->future)); break;
            case 2: id = valueId(co_await qCoro(f->future).result()); break;
            case 3: { auto c = qCoro(future); const T r = co_await c.waitForFinished(); id = valueId(r); break; }
            case 4: { auto t = qCoro(future).result(); future = {}; busy(1); co_await ThreadGate{int(choose(10))}; busy(-1); *suspended = false; T r = co_await t; id = valueId(r); break; }
            default: id = co_await qCoro(future).waitForFinished().then([](const T &v) { return valueId(v); }); break;
            }
        }
    } catch (...) {
        auto error = std::current_exception();
        for (int i = 0; i < 2; ++i) {
            try { std::rethrow_exception(error); }
            catch (const Err &e) { kind = Std; id = e.id; }
            catch (const QErr &e) { kind = Qt_; id = e.id; }
            catch (const OtherErr &e) { kind = Other; id = e.id; }
            catch (const QUnhandledException &e) { // QtConcurrent wraps what is not a QException
                SIM_CHECK(f->pool, "wrong-outcome", "the awaiter saw an unhandled exception");
                error = e.exception();
                continue;
            }
            break;
        }
    }
    w->once();
    { Atomic a; if (onMain) --f->pendingMain; }
    verdict(f, kind, id, isVoid, *suspended, here, wasFinished, true);
    if (chance(15)) nestedLoop(int(choose(30)));
}

template<typename T>
void start(Fut<T> *f, bool take) {
    auto *suspended = new bool(false);
    auto *w = new Wait;
    auto task = awaiter(f, take, suspended, w);
    if (!task.isReady()) *suspended = true; // (only read by the awaiter if the future was finished before)
}

// The awaiter notes whether it was finished when it began, and must then not suspend: it is
// resumed before start() gets to say that it suspended.
template<typename T> void mainProducer(Fut<T> *f) {
    const int64_t t1 = delay(30 * ms), t2 = t1 + delay(20 * ms), t3 = t2 + delay(20 * ms);
    at(t1, [f] { f->begin(); }, "begin");
    at(t2, [f] { f->produce(); }, "produce");
    at(t3, [f] { f->end(); }, "end");
    if (chance(40)) at(t3 + delay(30 * ms), [f] { f->drop(); }, "drop");
}
template<typename T> void threadProducer(Fut<T> *f) {
    struct P : QThread {
        Fut<T> *f;
        int a = int(choose(15)), b = int(choose(10)), c = int(choose(10)), d = chance(40) ? int(choose(15)) : -1;
        void run() override {
            if (a) msleep(ulong(a));
            f->begin();
            if (b) msleep(ulong(b));
            f->produce();
            if (c) msleep(ulong(c));
            f->end();
            if (d > 0) msleep(ulong(d));
            if (d >= 0) f->drop();
        }
    };
    auto *p = new P;
    p->f = f;
    prepareThread(p, "producer");
    at(delay(30 * ms), [p] { p->start(); }, "producer");
}

template<typename T> T poolBody(Fut<T> *f, int ms_) {
    if (ms_) QThread::msleep(ulong(ms_));
    Atomic a;
    f->finishing = true;
    if (f->kind == Value || f->kind == Cancelled) {
        f->hasResult = true;
        return makeValue<T>(f);
    }
    f->threw = true;
    std::rethrow_exception(makeError(f));
}

template<typename T> Fut<T> *create(int id, int producer, QThreadPool *pool) {
    auto *f = new Fut<T>;
    futures.push_back(f);
    f->id = id;
    f->kind = choose(10) < 6 ? Value : 1 + int(choose(3));
    if (std::is_void_v<T> && chance(10)) f->kind = Cancelled; // finishes without anything
    switch (producer) {
    case 0: case 1: {
        f->promise = new QPromise<T>;
        f->future = f->promise->future();
        producer ? threadProducer(f) : mainProducer(f);
        if (chance(25)) for (int i = 1 + int(choose(2)); i > 0; --i) at(delay(60 * ms), [f] { f->cancel(); }, "cancel");
        break;
    }
    case 2: {
        const int t = int(choose(20));
        f->pool = true;
        f->future = QtConcurrent::run(pool, [f, t] { return poolBody(f, t); });
        break;
    }
    case 3:
        if constexpr (!std::is_same_v<T, std::unique_ptr<Tagged>>) {
            f->finishing = true;
            if (f->kind == Value || f->kind == Cancelled) {
                f->kind = Value;
                if constexpr (std::is_void_v<T>) f->future = QtFuture::makeReadyFuture();
                else f->future = QtFuture::makeReadyFuture(makeValue<T>(f));
            } else { f->threw = true; f->future = QtFuture::makeExceptionalFuture<T>(makeError(f)); }
            f->finished = true;
            break;
        }
        [[fallthrough]];
    default: { // the continuation of another future
        f->promise = nullptr;
        auto *source = new Fut<int>;
        source->id = 1000 + id;
        source->kind = Value;
        source->intact = true;
        source->promise = new QPromise<int>;
        source->future = source->promise->future();
        const auto policy = chance(50) ? QtFuture::Launch::Sync : QtFuture::Launch::Inherit;
        f->future = source->future.then(policy, [f, source](int v) -> T {
            Atomic a;
            SIM_CHECK(v == source->id, "harness", "wrong value");
            f->finishing = true;
            if (f->kind == Value || f->kind == Cancelled) return makeValue<T>(f);
            f->threw = true;
            std::rethrow_exception(makeError(f));
        });
        chance(50) ? threadProducer(source) : mainProducer(source);
        probe("continuation");
    }
    }
    return f;
}

template<typename T> void one(int id, QThread *helper, QThreadPool *pool) {
    const int producer = int(choose(5));
    auto *f = create<T>(id, producer, pool);
    constexpr bool moveOnly = std::is_same_v<T, std::unique_ptr<Tagged>>;
    const bool take = moveOnly || (!std::is_void_v<T> && chance(20)); // takes the result away from all others
    f->intact |= take;
    if (!take && chance(20)) { f->more = 1 + int(choose(3)); probe("several-results"); }
    for (int i = take ? 1 : 1 + int(choose(3)); i > 0; --i) {
        const bool away = helper && chance(50);
        at(delay(60 * ms), [=] {
            if (away) onThread(helper, [=] { start(f, take); });
            else start(f, take);
        }, "awaiter");
    }
}

} // namespace

SIM_SCENARIO("C23", futures, 1) {
    swarm();
    swarmThreads();
    auto *helper = chance(60) ? eventThread("helper") : nullptr;
    auto *pool = new QThreadPool;
    pool->setMaxThreadCount(1 + int(choose(2)));
    pool->setExpiryTimeout(100);
    onIdle([] {
        for (auto *f : futures) SIM_CHECK(!f->finished || !f->pendingMain, "not-resumed", "the event loop is idle and the awaiter of a finished future was not resumed");
    });
    for (int i = 1 + int(choose(3)); i > 0; --i) {
        switch (choose(5)) {
        case 0: one<void>(i, helper, pool); break;
        case 1: one<int>(i, helper, pool); break;
        case 2: one<Tagged>(i, helper, pool); break;
        case 3: one<QString>(i, helper, pool); break;
        default: one<std::unique_ptr<Tagged>>(i, helper, pool); break;
        }
    }
    SIM_CHECK(run(), "not-idle", "the program never becomes idle");
    for (auto *f : futures) {
        SIM_CHECK(f->resumed == f->waiters, "not-resumed", "%d of %d awaiters of a finished future were resumed", f->resumed, f->waiters);
        if (f->waiters > 1) probe("several-awaiters");
    }
}
