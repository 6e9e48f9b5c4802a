// C16: Awaiting a network reply finishes with the reply, and reads keep the body intact.
#include "qcoronetworkreply.h"
#include "fakenet.h"
#include "simdevice.h"

#include <QNetworkAccessManager>
#include <QNetworkReply>
#include <QNetworkRequest>

using namespace sim;
using std::chrono::milliseconds;

namespace {

struct Event { enum K { Arrival, Error, Finish, Close } kind; int64_t when; uint64_t seq; };
uint64_t seq = 0;

class SimReply;
struct Rep {
    int id;
    QPointer<QNetworkReply> r;
    SimReply *sim = nullptr;
    QByteArray body, got;
    std::vector<Event> log;
    int readers = 0, readersStarted = 0;
    bool finished = false, closed = false;
    void note(Event::K k) { log.push_back({k, now(), ++seq}); if (k == Event::Finish) finished = true; }
};
std::vector<Rep *> reps;

class SimReply : public QNetworkReply {
public:
    explicit SimReply(Rep *rep) : rep(rep) { open(QIODevice::ReadOnly); setUrl(QUrl(QStringLiteral("sim://body"))); }
    Rep *rep;
    QByteArray buffer;
    bool ended = false; // error or end of body: nothing more comes
    bool isSequential() const override { return true; }
    qint64 bytesAvailable() const override { return buffer.size() + QNetworkReply::bytesAvailable(); }
    void arrive(int n) {
        if (ended || !isOpen()) return;
        const auto chunk = streamBytes(rep->body.size(), n);
        rep->body += chunk;
        buffer += chunk;
        trace("reply %d: %d bytes arrive", rep->id, n);
        rep->note(Event::Arrival);
        Q_EMIT readyRead();
    }
    void fail(NetworkError e) {
        if (ended) return;
        ended = true;
        trace("reply %d: error %d", rep->id, int(e));
        fault("reply-error");
        setError(e, QStringLiteral("simulated"));
        rep->note(Event::Error);
        Q_EMIT errorOccurred(e);
    }
    void finish() {
        if (isFinished()) return;
        ended = true;
        trace("reply %d: finished", rep->id);
        setFinished(true);
        rep->note(Event::Finish);
        Q_EMIT finished();
    }
    void abort() override {
        if (isFinished()) return;
        QPointer<SimReply> self = this;
        const auto *r = rep;
        trace("reply %d: aborted", r->id);
        fail(OperationCanceledError);
        if (self) finish();
    }
    void close() override {
        if (!isOpen()) return;
        rep->closed = true;
        rep->note(Event::Close);
        QNetworkReply::close();
    }
protected:
    qint64 readData(char *data, qint64 max) override {
        const auto n = std::min<qint64>(max, buffer.size());
        if (n == 0 && ended) return -1;
        memcpy(data, buffer.constData(), size_t(n));
        buffer.remove(0, n);
        return n;
    }
};

struct Op {
    Rep *rep;
    const char *name;
    int64_t timeout;
    bool needsFinish; // waits for the end of the reply, not for data
    int64_t began = deadline(timeout);
    uint64_t beganSeq = ++seq;
    bool waiting = true;
    bool due() const { return timeout >= 0 && now() >= began + timeout * ms; }
    const Event *first() const {
        for (auto &e : rep->log) if (e.seq > beganSeq) return &e;
        return nullptr;
    }
};
std::vector<Op *> ops;
Op *newOp(Rep *rep, const char *name, int64_t timeout, bool needsFinish) {
    auto *o = new Op{rep, name, timeout, needsFinish};
    ops.push_back(o);
    trace("reply %d: %s, timeout %d", rep->id, name, int(timeout));
    return o;
}

QCoro::Task<QNetworkReply *> direct(QNetworkReply *r) { co_return co_await r; }
Detached awaitReply(Rep *rep) {
    if (!rep->r) co_return;
    auto *o = newOp(rep, "co_await", -1, true);
    QNetworkReply *given = rep->r;
    const bool finished = given->isFinished();
    const auto step = steps();
    QNetworkReply *r;
    r = co_await direct(given);
    o->waiting = false;
    trace("reply %d: awaited", rep->id);
    SIM_CHECK(r == rep->r.data(), "wrong-reply", "awaiting a reply yields another one");
    SIM_CHECK(rep->finished, "early", "awaiting a reply ended before it was finished");
    if (finished) { SIM_CHECK(steps() == step, "suspended", "awaiting a finished reply suspended"); probe("finished-already"); }
    else { SIM_CHECK(steps() != step, "early", "awaiting a reply did not suspend"); probe("finished-later"); }
    if (r && r->error() != QNetworkReply::NoError) probe("finished-with-error");
    if (r && chance(20)) { probe("reply-deleted-by-awaiter"); r->deleteLater(); }
}

Detached waitFinished(Rep *rep) {
    if (!rep->r) co_return;
    const int form = int(choose(4));
    auto *o = newOp(rep, "waitForFinished", form == 3 || chance(40) ? -1 : int64_t(choose(80)), true);
    const bool finished = rep->r->isFinished();
    const auto step = steps();
    bool result;
    switch (form) {
    case 0: result = co_await qCoro(rep->r.data()).waitForFinished(milliseconds(o->timeout)); break;
    case 1: { auto task = qCoro(*rep->r).waitForFinished(milliseconds(o->timeout)); result = co_await task; break; }
    case 2: { auto w = qCoro(*rep->r); result = co_await w.waitForFinished(milliseconds(o->timeout)); break; }
    default: result = co_await qCoro(rep->r.data()).waitForFinished(); break;
    }
    o->waiting = false;
    trace("reply %d: waitForFinished: %s", rep->id, result ? "true" : "false");
    if (finished) { SIM_CHECK(result && steps() == step, "wrong-result", "waiting for a finished reply %s", result ? "suspended" : "is false"); co_return; }
    if (!rep->finished) {
        SIM_CHECK(!result, "wrong-result", "waiting for the reply to finish is true although it is not finished");
        SIM_CHECK(o->due(), "early", "waiting for the reply to finish ended after %.3f ms, its timeout is %d ms", (now() - o->began) / 1e6, int(o->timeout));
        probe("timed-out");
    } else if (!o->due()) { SIM_CHECK(result, "wrong-result", "waiting for the reply to finish is false although it finished in time"); probe("finished-in-time"); }
    else probe("finish-and-timeout-both-due");
}

QCoro::Task<QByteArray> readOp(QNetworkReply *r, int kind, int64_t max, int64_t timeout) {
    const milliseconds t(timeout);
    switch (kind) {
    case 0: co_return co_await (timeout < 0 ? qCoro(r).readAll() : qCoro(*r).readAll(t));
    case 1: co_return co_await (timeout < 0 ? qCoro(r).read(max) : qCoro(*r).read(max, t));
    case 2: co_return co_await (timeout < 0 ? qCoro(r).readLine(max) : qCoro(*r).readLine(max, t));
    case 3: { auto task = qCoro(*r).read(max, t); co_return co_await task; }
    default: { auto w = qCoro(r); co_return co_await w.readAll(t); }
    }
}

void take(Rep *rep, const QByteArray &b) {
    SIM_CHECK(b == rep->body.mid(rep->got.size(), b.size()), "stream-corrupted", "%d bytes read at position %d are not the body", int(b.size()), int(rep->got.size()));
    rep->got += b;
}

Detached reader(Rep *rep, int rounds, bool toEnd) {
    ++rep->readers;
    ++rep->readersStarted;
    for (int i = 0; (i < rounds || toEnd) && rep->r; ++i) {
        const auto available = rep->r->bytesAvailable();
        const bool finished = rep->r->isFinished(), open = rep->r->isOpen();
        if (toEnd && finished && !available) break;
        if (toEnd && !open) break;
        const bool atOnce = !open || finished || available > 0;
        const int started = rep->readers == 1 ? rep->readersStarted : -1;
        const auto step = steps();
        QByteArray b;
        if (chance(25)) {
            auto *o = newOp(rep, "waitForReadyRead", chance(50) ? -1 : int64_t(choose(40)), false);
            bool result;
            switch (choose(3)) {
            case 0: result = co_await qCoro(rep->r.data()).waitForReadyRead(int(o->timeout)); break;
            case 1: result = co_await qCoro(*rep->r).waitForReadyRead(milliseconds(o->timeout)); break;
            default: { auto task = qCoro(rep->r.data()).waitForReadyRead(milliseconds(o->timeout)); result = co_await task; }
            }
            o->waiting = false;
            trace("reply %d: waitForReadyRead: %s", rep->id, result ? "true" : "false");
            if (atOnce) SIM_CHECK(steps() == step, "suspended", "waitForReadyRead() suspended although %s", available > 0 ? "data is available" : "the reply is finished");
            if (open && available > 0) SIM_CHECK(result, "wrong-readiness", "waitForReadyRead() is false with %d bytes available", int(available));
            auto *e = o->first();
            if (!atOnce && !e) { SIM_CHECK(o->due(), "early", "waitForReadyRead() ended although nothing happened"); SIM_CHECK(!result, "wrong-readiness", "waitForReadyRead() is true although nothing happened"); }
            if (!atOnce && e && e->kind == Event::Arrival && !o->due()) SIM_CHECK(result, "wrong-readiness", "waitForReadyRead() is false although data arrived");
            if (result && rep->r && rep->r->isOpen()) b = rep->r->readAll();
            take(rep, b);
        } else {
            const int kind = int(choose(5));
            const int64_t max = kind == 2 ? pick<int64_t>({0, 5, 1000}) : pick<int64_t>({1, 7, 64, 100000});
            auto *o = newOp(rep, "read", chance(50) ? -1 : int64_t(choose(40)), false);
            b = co_await readOp(rep->r.data(), kind, max, o->timeout);
            o->waiting = false;
            trace("reply %d: read %d bytes", rep->id, int(b.size()));
            take(rep, b);
            if (kind == 1 || kind == 3) SIM_CHECK(b.size() <= max, "too-much", "read(%d) returned %d bytes", int(max), int(b.size()));
            auto *e = o->first();
            if (atOnce) SIM_CHECK(steps() == step, "suspended", "a read suspended although %s", available > 0 ? "data is available" : "the reply is finished");
            if (available > 0 && open) SIM_CHECK(!b.isEmpty(), "lost-data", "a read with %d bytes available returned nothing", int(available));
            else if (!atOnce && b.isEmpty() && rep->r && started == rep->readersStarted) {
                // What arrived is gone when the reply is closed before the reader gets to it.
                SIM_CHECK(o->due() || (e && (e->kind != Event::Arrival || rep->closed)), "early", "a read ended with nothing after %.3f ms, its timeout is %d ms", (now() - o->began) / 1e6, int(o->timeout));
                if (e && e->kind != Event::Arrival) probe("ended-while-reading");
            }
            if ((kind == 0 || kind == 4) && !b.isEmpty() && rep->r && rep->r->isOpen()) SIM_CHECK(rep->r->bytesAvailable() == 0, "lost-data", "reading everything left %d bytes", int(rep->r->bytesAvailable()));
        }
        if (chance(30)) co_await Gate(delay(15 * ms));
        else if (steps() == step && b.isEmpty()) co_await Gate(ms);
    }
    --rep->readers;
    if (toEnd && rep->r && rep->r->isFinished() && !rep->closed && rep->sim && !rep->readers) {
        SIM_CHECK(rep->got == rep->body, "lost-data", "%d of %d body bytes were read", int(rep->got.size()), int(rep->body.size()));
        probe("whole-body");
    }
}

void idle() {
    for (auto *o : ops) {
        if (!o->waiting || !o->rep->r) continue;
        SIM_CHECK(!o->due(), "missed-timeout", "%s goes on %.3f ms after its start, the timeout is %d ms", o->name, (now() - o->began) / 1e6, int(o->timeout));
        SIM_CHECK(!o->rep->finished, "hangs", "%s goes on although the reply is finished", o->name);
        if (!o->needsFinish) {
            auto *e = o->first();
            SIM_CHECK(!e, "hangs", "%s goes on although %s", o->name, e && e->kind == Event::Arrival ? "data arrived" : "the reply failed");
        }
    }
}

void script(Rep *rep) {
    auto *r = rep->sim;
    auto with = [rep](auto f) { return [rep, f] { if (rep->r) f(); }; };
    int64_t t = 0;
    const bool lively = chance(50);
    for (int i = int(choose(8)); i > 0; --i) {
        t += delay(lively ? 5 * ms : 30 * ms);
        const int n = pick<int>({1, 3, 40, 500, 20000}), burst = chance(20) ? 2 : 1;
        at(t, with([rep, r, n, burst] { for (int k = 0; k < burst && rep->r; ++k) r->arrive(n); }), "arrival");
    }
    const int64_t end = chance(30) ? delay(t + ms) : t + delay(20 * ms);
    const auto how = choose(6);
    at(end, with([rep, r, how] {
        switch (how) {
        case 0: case 1: r->finish(); break;
        case 2: r->arrive(5); if (rep->r) r->finish(); break;
        case 3: r->fail(QNetworkReply::RemoteHostClosedError); if (rep->r) r->finish(); break;
        case 4: r->fail(QNetworkReply::TimeoutError);
                at(delay(20 * ms), [rep, r] { if (rep->r) r->finish(); }, "finish-after-error"); break;
        default: fault("abort"); r->abort(); break;
        }
    }), "end");
    if (chance(15)) at(delay(end + 20 * ms), with([r] { fault("close"); r->close(); }), "close");
    if (chance(20)) {
        const bool later = chance(50);
        at(delay(end + 20 * ms), with([r, later] { fault("reply-destroyed"); if (later) r->deleteLater(); else delete r; }), "destroy");
    }
}

} // namespace

SIM_SCENARIO("C16", reply, 1) {
    swarm();
    net::swarmNet();
    onIdle(idle);
    const int n = 1 + int(choose(2));
    for (int i = 0; i < n; ++i) {
        auto *rep = new Rep{i};
        reps.push_back(rep);
        if (chance(8)) { // a real reply
            auto *nam = new QNetworkAccessManager;
            rep->body = "a small body";
            rep->r = nam->get(QNetworkRequest(QUrl(QStringLiteral("data:text/plain,a%20small%20body"))));
            rep->finished = rep->r->isFinished();
            QObject::connect(rep->r.data(), &QNetworkReply::finished, rep->r.data(), [rep] { rep->note(Event::Finish); });
            probe("real-data-url");
        } else {
            rep->sim = new SimReply(rep);
            rep->r = rep->sim;
            script(rep);
        }
        for (int k = int(choose(4)); k > 0; --k) at(delay(80 * ms), [rep] { awaitReply(rep); }, "await");
        for (int k = int(choose(3)); k > 0; --k) at(delay(80 * ms), [rep] { waitFinished(rep); }, "wait-finished");
        const bool toEnd = chance(50);
        const int readers = pick<int>({0, 1, 1, 1, 2});
        for (int k = 0; k < readers; ++k) at(delay(50 * ms), [rep, toEnd, k] { reader(rep, 1 + int(choose(8)), toEnd && !k); }, "reader");
    }
    SIM_CHECK(run(), "not-idle", "the program never becomes idle");
    idle();
}
