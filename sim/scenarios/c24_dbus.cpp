// C24: Awaiting a D-Bus call yields its reply or error exactly once.
#include "qcorodbuspendingcall.h"
#include "qcorodbuspendingreply.h"
#include "threadgate.h"

#include <QCoreApplication>
#include <QDBusError>
#include <QDBusMessage>
#include <QDBusReply>
#include <private/qdbusmessage_p.h>
#include <private/qdbuspendingcall_p.h>

using namespace sim;

namespace {

// Messages that came over the bus know their signature.
template<QDBusMessagePrivate *QDBusMessage::*member> struct Access { friend QDBusMessagePrivate *priv(QDBusMessage &m) { return m.*member; } };
QDBusMessagePrivate *priv(QDBusMessage &);
template struct Access<&QDBusMessage::d_ptr>;

QDBusMessage makeReply(int id, bool error) {
    auto m = QDBusMessage::createMethodCall(QStringLiteral("org.sim"), QStringLiteral("/sim"), QStringLiteral("org.sim.If"), QStringLiteral("m"));
    if (error) return m.createErrorReply(QStringLiteral("org.sim.Error%1").arg(id), QStringLiteral("failed"));
    auto r = m.createReply(QVariantList{QStringLiteral("reply %1").arg(id), id});
    priv(r)->signature = QStringLiteral("si");
    return r;
}

// A call whose reply is delivered by the simulated bus, the way QDBusConnection's thread does it.
struct Pending : QDBusPendingCall {
    Pending() : QDBusPendingCall(fromCompletedCall(makeReply(0, false))) { d->replyMessage = {}; }
    void deliver(const QDBusMessage &reply) {
        QMutexLocker locker(&d->mutex);
        d->replyMessage = reply;
        if (d->watcherHelper) QMetaObject::invokeMethod(d->watcherHelper, "finished", Qt::DirectConnection);
        d->waitForFinishedCondition.wakeAll();
    }
};

struct Call {
    int id = 0;
    bool error = false;
    bool finishing = false, finished = false; // the reply may have been / was delivered
    QDBusMessage reply;
    std::optional<QDBusPendingCall> call;
    Pending *pending = nullptr;
    int waiters = 0, resumed = 0, onMain = 0;
};
std::vector<Call *> calls;

void finish(Call *c) {
    { Atomic a; if (c->finishing) return; c->finishing = true; trace("call %d %s", c->id, c->error ? "fails" : "is answered"); }
    c->pending->deliver(c->reply);
    { Atomic a; c->finished = true; }
}

// What an awaiter saw.
struct Seen { bool error; int id; bool finished; };
Seen see(const QDBusMessage &m) {
    if (m.type() == QDBusMessage::ErrorMessage) return {true, m.errorName().mid(13).toInt(), true};
    if (m.type() != QDBusMessage::ReplyMessage || m.arguments().size() != 2) return {false, -1, false};
    return {false, m.arguments()[1].toInt(), true};
}
template<typename... Args> Seen see(const QDBusPendingReply<Args...> &r) {
    if (!r.isFinished()) return {false, -1, false};
    auto s = see(r.reply());
    SIM_CHECK(r.isError() == s.error, "wrong-reply", "the awaited reply %s an error but its message %s", r.isError() ? "is" : "is not", s.error ? "is" : "is not");
    if (!s.error) {
        if constexpr (sizeof...(Args) >= 1) SIM_CHECK(r.template argumentAt<0>() == QStringLiteral("reply %1").arg(s.id), "wrong-reply", "wrong argument in the reply");
        if constexpr (sizeof...(Args) >= 2) SIM_CHECK(r.template argumentAt<1>() == s.id, "wrong-reply", "wrong argument in the reply");
    }
    return s;
}

// `variable` is assigned another call while it is awaited.
void reassign(std::shared_ptr<QDBusPendingCall> variable) {
    if (chance(20)) QTimer::singleShot(int(choose(10)), [variable] { probe("variable-reassigned"); *variable = QDBusPendingCall::fromError(QDBusError(QDBusError::Other, QStringLiteral("x"))); });
}

template<typename Reply>
QCoro::Task<Seen> awaitReply(QDBusPendingCall call, int form) {
    Reply reply = call;
    switch (form) {
    case 0: { auto r = co_await reply; co_return see(r); }
    case 1: co_return see(Reply(co_await Reply(call)));
    case 2: co_return see(co_await qCoro(reply).waitForFinished());
    case 3: co_return see(co_await qCoro(Reply(call)).waitForFinished());
    default: { auto w = qCoro(Reply(call)); auto t = w.waitForFinished(); co_return see(co_await t); }
    }
}
QCoro::Task<Seen> awaitCall(QDBusPendingCall call, int form) {
    auto variable = std::make_shared<QDBusPendingCall>(call);
    switch (form) {
    case 0: reassign(variable); co_return see(co_await *variable);
    case 1: co_return see(co_await QDBusPendingCall(call));
    case 2: reassign(variable); co_return see(co_await qCoro(*variable).waitForFinished());
    case 3: co_return see(co_await qCoro(QDBusPendingCall(call)).waitForFinished());
    case 4: { auto w = qCoro(QDBusPendingCall(call)); co_return see(co_await w.waitForFinished()); }
    case 5: { auto t = qCoro(QDBusPendingCall(call)).waitForFinished(); co_return see(co_await std::move(t)); }
    case 6: { QDBusPendingReply<QString, int> r = co_await call; co_return see(r); }
    default: { QDBusReply<QString> r = co_await call; if (r.isValid()) SIM_CHECK(r.value().startsWith(QStringLiteral("reply ")), "wrong-reply", "wrong argument in the reply"); co_return r.isValid() ? Seen{false, r.value().mid(6).toInt(), true} : Seen{true, r.error().name().mid(13).toInt(), true}; }
    }
}

Detached awaiter(Call *c, bool sticky) {
    auto *here = QThread::currentThread();
    const bool onMain = here == QCoreApplication::instance()->thread();
    for (int rounds = sticky ? 1 + int(choose(3)) : 1; rounds > 0; --rounds) {
        { Atomic a; ++c->waiters; if (onMain) ++c->onMain; }
        const int form = int(choose(20));
        const bool wasFinished = c->call->isFinished();
        trace("awaiting call %d, form %d%s", c->id, form, wasFinished ? ", finished" : "");
        QCoro::Task<Seen> task;
        if (form < 8) task = awaitCall(*c->call, form);
        else if (form < 13) task = awaitReply<QDBusPendingReply<QString, int>>(*c->call, form - 8);
        else if (form < 18) task = awaitReply<QDBusPendingReply<QString>>(*c->call, form - 13);
        else task = awaitReply<QDBusPendingReply<>>(*c->call, form - 18);
        if (wasFinished) { SIM_CHECK(task.isReady(), "suspended", "awaiting a call that has finished already suspended"); probe("finished-before"); }
        const Seen s = co_await std::move(task);
        trace("call %d yields %s %d", c->id, s.error ? "error" : "reply", s.id);
        SIM_CHECK(QThread::currentThread() == here, "wrong-thread", "the awaiter was resumed on another thread");
        SIM_CHECK(c->finishing, "early", "the awaiter was resumed before the call finished");
        SIM_CHECK(s.finished && s.error == c->error && s.id == c->id, "wrong-reply", "the call yielded another %s than its own", c->error ? "error" : "reply");
        probe(s.error ? "error" : "reply");
        { Atomic a; ++c->resumed; if (onMain) --c->onMain; }
        if (chance(50)) co_await ThreadGate{int(choose(10))};
    }
}

} // namespace

SIM_SCENARIO("C24", pending_calls, 1) {
    swarm();
    swarmThreads();
    auto *bus = chance(70) ? eventThread("bus") : nullptr;
    auto *helper = chance(40) ? eventThread("helper") : nullptr;
    onIdle([] {
        for (auto *c : calls) SIM_CHECK(!c->finished || !c->onMain, "not-resumed", "the event loop is idle and an awaiter of a finished call was not resumed");
    });
    for (int n = 1 + int(choose(3)); n > 0; --n) {
        auto *c = new Call;
        calls.push_back(c);
        c->id = n;
        c->error = chance(30);
        c->reply = makeReply(n, c->error);
        bool burst = false;
        if (chance(15)) { // never was pending
            c->finishing = c->finished = true;
            c->call = c->error && chance(50) ? QDBusPendingCall::fromError(QDBusError(c->reply)) : QDBusPendingCall::fromCompletedCall(c->reply);
            probe("never-pending");
        } else {
            c->pending = new Pending;
            c->call = *c->pending;
            const int64_t t = delay(50 * ms);
            burst = bus && chance(60);
            if (burst) { // the reply arrives while coroutines are starting to await it, one after another
                const bool away = helper && chance(50);
                const int n = 2 + int(choose(8)), before = int(choose(uint32_t(n)));
                auto all = [=] { for (int i = 0; i < n; ++i) { if (i == before) onThread(bus, [c] { finish(c); }); awaiter(c, false); } };
                at(t, [=] { if (away) onThread(helper, all); else all(); }, "awaiters");
                probe("reply-during-awaits");
            } else at(t, [=] { if (bus) onThread(bus, [c] { finish(c); }); else finish(c); }, "reply");
        }
        const bool together = chance(50);
        const int64_t t = delay(50 * ms);
        for (int i = 1 + int(choose(4)); i > 0; --i) {
            const bool away = helper && chance(50), sticky = chance(50);
            at(together ? t : delay(60 * ms), [=] {
                if (away) onThread(helper, [=] { awaiter(c, sticky); });
                else awaiter(c, sticky);
            }, "awaiter");
        }
    }
    SIM_CHECK(run(), "not-idle", "the program never becomes idle");
    for (auto *c : calls) {
        SIM_CHECK(c->resumed == c->waiters, "not-resumed", "%d of %d awaiters of a finished call were resumed", c->resumed, c->waiters);
        if (c->waiters > 1) probe("several-awaiters");
    }
}
