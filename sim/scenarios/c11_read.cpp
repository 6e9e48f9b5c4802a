// C11: awaited device reads return the stream intact, waits for readiness report the truth.
#include "simdevice.h"
#include "qcoroiodevice.h"

using namespace sim;
using std::chrono::milliseconds;

namespace {

struct Event { enum K { Arrival, Close, Destroy } kind; int64_t when; uint64_t seq; };

struct Stream {
    int id;
    SimDevice *d = nullptr;
    bool alive = true;
    bool closed = false;      // no longer open
    bool silentDeath = false; // destroyed without having been closed
    QByteArray arrived, got;
    std::vector<Event> log;
    int readers = 0;
    int64_t available() const { return alive && !closed ? d->bytesAvailable() : 0; }
};
std::vector<Stream *> streams;
uint64_t seq = 0;

enum Op { ReadAll, Read, ReadLine, DirectPtr, DirectRef, Wait, OpCount };
const char *opNames[] = {"readAll", "read", "readLine", "await pointer", "await reference", "waitForReadyRead"};

struct Reading {
    Stream *s;
    Op op;
    int64_t max = 0;
    int64_t timeout = -1; // ms
    int64_t began = 0;
    uint64_t beganSeq = 0;
    bool waiting = false;
    bool due() const { return timeout >= 0 && now() >= began + timeout * ms; }
    const Event *first() const {
        for (auto &e : s->log) if (e.seq > beganSeq) return &e;
        return nullptr;
    }
};
std::vector<Reading *> readings;

// the device as seen through its base class: what is tested is the generic wrapper
QCoro::Task<QByteArray> readOp(Reading *r, QIODevice *d, int form) {
    const bool timed = r->timeout >= 0;
    const milliseconds t(r->timeout);
    switch (r->op) {
    case ReadAll:
        if (form == 0) { auto w = qCoro(d); co_return co_await (timed ? w.readAll(t) : w.readAll()); }
        if (form == 1) { auto task = timed ? qCoro(*d).readAll(t) : qCoro(*d).readAll(); co_return co_await task; }
        co_return co_await qCoro(d).readAll(t);
    case Read:
        if (form == 0) { auto w = qCoro(d); co_return co_await (timed ? w.read(r->max, t) : w.read(r->max)); }
        if (form == 1) { auto task = timed ? qCoro(*d).read(r->max, t) : qCoro(*d).read(r->max); co_return co_await task; }
        co_return co_await qCoro(d).read(r->max, t);
    case ReadLine:
        if (form == 0 && r->max == 0 && !timed) co_return co_await qCoro(d).readLine();
        if (form == 0 && !timed) co_return co_await qCoro(d).readLine(r->max);
        if (form == 1) { auto task = qCoro(*d).readLine(r->max, t); co_return co_await task; }
        co_return co_await qCoro(d).readLine(r->max, t);
    case DirectPtr: co_return co_await d;
    default: co_return co_await *d;
    }
}

QCoro::Task<bool> waitOp(Reading *r, QIODevice *d, int form) {
    switch (form) {
    case 0: co_return co_await qCoro(d).waitForReadyRead(int(r->timeout));
    case 1: co_return co_await qCoro(*d).waitForReadyRead(milliseconds(r->timeout));
    default: { auto task = qCoro(d).waitForReadyRead(milliseconds(r->timeout)); co_return co_await task; }
    }
}

void checkRead(Reading *r, const QByteArray &b, bool immediate) {
    auto *s = r->s;
    if (r->op == Read || (r->op == ReadLine && r->max > 0))
        SIM_CHECK(b.size() <= r->max, "too-much", "%s(%d) returned %d bytes", opNames[r->op], int(r->max), int(b.size()));
    if (r->op == ReadLine) {
        const auto nl = b.indexOf('\n');
        SIM_CHECK(nl < 0 || nl == b.size() - 1, "not-a-line", "readLine() returned more than one line");
    }
    const QByteArray expected = s->arrived.mid(s->got.size(), b.size());
    SIM_CHECK(b == expected, "stream-corrupted", "%s returned %d bytes that are not what arrived at position %d", opNames[r->op], int(b.size()), int(s->got.size()));
    s->got += b;
    if (s->closed || !s->alive) return;
    // whatever is still there was beyond what was asked for
    const auto left = s->d->bytesAvailable();
    if (!left) return;
    if (b.isEmpty() && r->due()) return; // timed out in the same moment: the data are for the next read
    if (r->op == Read) SIM_CHECK(b.size() == r->max, "too-little", "read(%d) returned %d bytes although %d more are available", int(r->max), int(b.size()), int(left));
    else if (r->op == ReadLine) SIM_CHECK(b.endsWith('\n') || (r->max && b.size() >= r->max - 1), "too-little", "readLine(%d) returned %d bytes without a line end although %d more are available", int(r->max), int(b.size()), int(left));
    else SIM_CHECK(false, "too-little", "%s returned %d bytes but left %d behind", opNames[r->op], int(b.size()), int(left));
}

Detached reader(Stream *s, int rounds) {
    ++s->readers;
    for (int i = 0; i < rounds && s->alive; ++i) {
        auto *r = new Reading{s, Op(choose(OpCount))};
        readings.push_back(r);
        if (r->op == Read) r->max = pick<int64_t>({1, 2, 7, 64, 100000});
        if (r->op == ReadLine) r->max = pick<int64_t>({0, 0, 2, 5, 1000, 100000});
        const bool direct = r->op == DirectPtr || r->op == DirectRef;
        r->timeout = direct || chance(50) ? -1 : int64_t(choose(40));
        if (r->timeout >= 0 && r->op != Wait && chance(3)) { r->timeout = pick<int64_t>({25, 30, 50}) * 24 * 3600'000; probe("timeout-of-weeks"); }
        r->began = deadline(r->timeout);
        r->beganSeq = ++seq;
        const bool readable = s->d->isReadable();
        const auto available = s->available();
        const auto step = steps();
        const int form = int(choose(3));
        r->waiting = true;
        trace("stream %d: %s max %d timeout %lld (available %d)", s->id, opNames[r->op], int(r->max), (long long)(r->timeout), int(available));
        bool result = false;
        QByteArray b;
        if (r->op == Wait) result = co_await waitOp(r, s->d, form);
        else b = co_await readOp(r, s->d, form);
        r->waiting = false;
        const bool immediate = steps() == step;
        trace("stream %d: got %d bytes, %s", s->id, int(b.size()), result ? "true" : "false");
        auto *e = r->first();
        if (available > 0 || !readable) {
            SIM_CHECK(immediate, "suspended", "%s suspended although %s", opNames[r->op], readable ? "data were available" : "the device is not readable");
            probe(readable ? "data-at-once" : "not-readable");
            if (r->op == Wait) SIM_CHECK(result == (available > 0), "wrong-readiness", "waitForReadyRead() is %s with %d bytes available", result ? "true" : "false", int(available));
        } else {
            if (!e) SIM_CHECK(r->due(), "early", "%s finished after %.3f ms although nothing arrived and its timeout is %lld ms", opNames[r->op], (now() - r->began) / 1e6, (long long)(r->timeout));
            if (!e) probe("timed-out");
            if (e && e->kind == Event::Close) probe("closed-while-waiting");
            if (r->op == Wait) {
                const bool came = e && e->kind == Event::Arrival;
                const bool inTime = came && !r->due(); // otherwise arrival and timeout are handled in the same moment
                if (inTime) SIM_CHECK(result, "wrong-readiness", "waitForReadyRead() is false although data arrived %.3f ms after its start", (e->when - r->began) / 1e6);
                else if (came) probe("arrival-and-timeout-both-due");
                else SIM_CHECK(!result, "wrong-readiness", "waitForReadyRead() is true although no data arrived");
            }
        }
        if (r->op != Wait) checkRead(r, b, immediate);
        else if (result && chance(70) && s->alive) {
            auto chunk = s->d->readAll();
            SIM_CHECK(s->readers > 1 || s->closed || !chunk.isEmpty(), "wrong-readiness", "nothing to read after waitForReadyRead() was true");
            Reading all{s, ReadAll};
            checkRead(&all, chunk, true);
        }
        if (!s->alive) break;
        if (chance(40)) co_await Gate(delay(20 * ms));
        if (s->closed && chance(70)) break;
    }
}

void idle() {
    for (auto *r : readings) {
        if (!r->waiting) continue;
        SIM_CHECK(!overdue(r->began, r->timeout), "missed-timeout", "%s still waits %.3f ms after its start, its timeout is %lld ms", opNames[r->op], (now() - r->began) / 1e6, (long long)(r->timeout));
        if (r->s->silentDeath) continue;
        SIM_CHECK(r->s->alive && !r->s->closed, "hangs-after-close", "%s still waits after the device was closed", opNames[r->op]);
        SIM_CHECK(!r->first(), "missed-arrival", "%s still waits although data arrived", opNames[r->op]);
    }
}

void script(Stream *s) {
    int64_t t = 0;
    const int n = 1 + int(choose(12));
    const bool lively = chance(50);
    for (int i = 0; i < n; ++i) {
        t += delay(lively ? 6 * ms : 40 * ms);
        const int len = pick<int>({1, 2, 3, 10, 40, 300, 20000});
        const int burst = chance(20) ? 2 : 1;
        at(t, [s, len, burst] {
            for (int k = 0; k < burst && s->alive && !s->closed && s->d->isReadable(); ++k) {
                auto chunk = streamBytes(s->arrived.size(), len);
                s->arrived += chunk;
                s->log.push_back({Event::Arrival, now(), ++seq});
                s->d->arrive(chunk);
            }
        }, "arrival");
    }
    if (chance(60)) {
        t = chance(50) ? delay(t ? t : ms) : t + delay(30 * ms);
        at(t, [s] {
            if (!s->alive || s->closed) return;
            fault("close");
            s->closed = true;
            s->log.push_back({Event::Close, now(), ++seq});
            s->d->close();
        }, "close");
    }
    if (chance(25)) {
        at(delay(300 * ms), [s] {
            if (!s->alive) return;
            fault("device-destroyed");
            s->log.push_back({Event::Destroy, now(), ++seq});
            if (chance(50)) { s->closed = true; s->d->close(); }
            s->alive = false;
            s->silentDeath = !s->closed;
            if (chance(50)) delete s->d; else { s->silentDeath = s->silentDeath; s->d->deleteLater(); }
        }, "destroy");
    }
}

} // namespace

SIM_SCENARIO("C11", reads, 1) {
    swarm();
    onIdle(idle);
    longLines = chance(20);
    const int n = 1 + int(choose(2));
    for (int i = 0; i < n; ++i) {
        auto *s = new Stream{i};
        streams.push_back(s);
        s->d = new SimDevice;
        const bool unbuffered = chance(30), writeOnly = chance(8);
        QIODevice::OpenMode mode = writeOnly ? QIODevice::WriteOnly : QIODevice::ReadWrite;
        if (unbuffered) mode |= QIODevice::Unbuffered;
        s->d->open(mode);
        script(s);
        const int readers = chance(80) ? 1 : 2;
        for (int k = 0; k < readers; ++k)
            at(delay(30 * ms), [s] { if (s->alive) reader(s, 1 + int(choose(10))); }, "reader");
    }
    SIM_CHECK(run(700 * 24 * 3600 * sec), "not-idle", "the program never becomes idle");
    idle();
}
