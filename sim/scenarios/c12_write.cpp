// C12: awaited device writes finish with the number of bytes actually flushed.
#include "simdevice.h"
#include "qcoroiodevice.h"

#include <QBuffer>

using namespace sim;
using std::chrono::milliseconds;

namespace {

struct Event { enum K { Flush, Close } kind; int64_t when; uint64_t seq; int64_t n; };
struct Out {
    int id;
    SimDevice *d = nullptr;
    bool closed = false, alive = true;
    int64_t closedAt = 0; // flushed bytes when it closed
    std::vector<Event> log;
};
uint64_t seq = 0;
std::vector<Out *> outs;

struct Writing {
    Out *o;
    bool wait;            // waitForBytesWritten instead of write
    int64_t start = 0, end = 0; // its place in the flushed stream
    int64_t lostAt = -1;  // the device dropped the rest of it after that place
    bool mixed = false;   // more was written to the device since then
    int64_t timeout = -1;
    int64_t began = 0;
    uint64_t beganSeq = 0;
    bool waiting = false;
    bool due() const { return timeout >= 0 && now() >= began + timeout * ms; }
    const Event *first() const {
        for (auto &e : o->log) if (e.seq > beganSeq) return &e;
        return nullptr;
    }
    bool flushed() const { return o->alive ? o->d->flushed >= end : o->closedAt >= end; }
};
std::vector<Writing *> writings;

QCoro::Task<qint64> writeOp(QIODevice *d, const QByteArray &data, int form) {
    switch (form) {
    case 0: co_return co_await qCoro(d).write(data);
    case 1: co_return co_await qCoro(*d).write(QByteArray(data));
    case 2: { auto w = qCoro(d); co_return co_await w.write(data); }
    default: { auto task = qCoro(d).write(data); co_return co_await task; }
    }
}
QCoro::Task<std::optional<qint64>> waitOp(QIODevice *d, int64_t timeout, int form) {
    switch (form) {
    case 0: co_return co_await qCoro(d).waitForBytesWritten(int(timeout));
    case 1: co_return co_await qCoro(*d).waitForBytesWritten(milliseconds(timeout));
    case 2: { auto w = qCoro(d); co_return co_await w.waitForBytesWritten(int(timeout)); }
    default: { auto task = qCoro(d).waitForBytesWritten(milliseconds(timeout)); co_return co_await task; }
    }
}

// About to write to the device.
QByteArray payload(Out *o) {
    for (auto *w : writings) if (w->o == o && w->lostAt >= 0) w->mixed = true;
    return streamBytes(o->d->accepted.size(), pick<int>({1, 2, 10, 100, 5000}));
}

Detached writer(Out *o, int rounds) {
    for (int i = 0; i < rounds && o->alive; ++i) {
        auto *w = new Writing{o, chance(35)};
        writings.push_back(w);
        w->began = now();
        w->beganSeq = ++seq;
        const auto step = steps();
        const int form = int(choose(4));
        if (!w->wait) {
            const auto data = payload(o);
            const auto before = o->d->accepted.size();
            w->start = o->d->flushed + o->d->bytesToWrite();
            w->end = INT64_MAX;
            w->waiting = true;
            const bool writable = o->d->isWritable();
            if (chance(10)) o->d->shortWrite = 1 + int(choose(3));
            trace("write %d bytes, %d pending", int(data.size()), int(o->d->bytesToWrite()));
            auto task = writeOp(o->d, data, form); // starts at once
            if (o->alive) {
                o->d->shortWrite = 0;
                w->end = w->start + o->d->accepted.size() - before;
                SIM_CHECK(o->d->accepted.mid(before) == data.left(w->end - w->start), "wrong-data", "the device was given other data");
            }
            const auto accepted = w->end - w->start;
            if (accepted == 0) {
                w->waiting = false;
                SIM_CHECK(task.isReady(), "hangs", "a write of which nothing was accepted is pending");
            } else SIM_CHECK(!task.isReady(), "early", "the write finished before anything was flushed");
            const auto n = co_await task;
            w->waiting = false;
            const auto confirmed = std::clamp<int64_t>((o->alive ? o->d->flushed : o->closedAt) - w->start, 0, accepted);
            trace("write returned %d of %d accepted, %d confirmed", int(n), int(accepted), int(confirmed));
            if (accepted == 0) { SIM_CHECK(n <= 0, "wrong-count", "write returned %d although nothing was accepted", int(n)); probe(writable ? "nothing-accepted" : "not-writable"); }
            else if (w->lostAt >= 0) {
                const auto through = std::clamp<int64_t>(w->lostAt - w->start, 0, accepted);
                SIM_CHECK(n == through || (w->mixed && n > through && n <= accepted), "wrong-count", "write returned %d, but only %d of its %d bytes got through before the device failed", int(n), int(through), int(accepted));
                probe("device-dropped-data");
            } else if (w->flushed()) SIM_CHECK(n == accepted, "wrong-count", "write returned %d, but all %d accepted bytes are flushed", int(n), int(accepted));
            else {
                SIM_CHECK(o->closed, "early", "write returned %d with %d of %d bytes flushed", int(n), int(confirmed), int(accepted));
                SIM_CHECK(n == confirmed, "wrong-count", "write returned %d on close, %d bytes were flushed", int(n), int(confirmed));
                probe("closed-while-writing");
                if (confirmed > 0) probe("partly-confirmed");
            }
        } else {
            w->timeout = chance(50) ? -1 : int64_t(choose(40));
            deadline(w->timeout);
            const auto pending = o->d->bytesToWrite();
            const bool writable = o->d->isWritable();
            w->waiting = true;
            trace("waitForBytesWritten(%d), %d pending", int(w->timeout), int(pending));
            const auto n = co_await waitOp(o->d, w->timeout, form);
            w->waiting = false;
            trace("waitForBytesWritten: %d", n ? int(*n) : -1);
            if (!writable) {
                SIM_CHECK(steps() == step && !n, "wrong-wait", "waiting on a device that is not writable did not give an empty result at once");
                probe("not-writable");
            } else if (pending == 0) {
                SIM_CHECK(steps() == step && n && *n == 0, "wrong-wait", "waiting with nothing pending did not give 0 at once");
                probe("nothing-pending");
            } else {
                auto *e = w->first();
                if (!e) { SIM_CHECK(!n && w->due(), "wrong-wait", "waitForBytesWritten() finished although nothing was flushed"); probe("timed-out"); }
                else if (e->kind == Event::Flush) {
                    const bool inTime = !w->due(); // otherwise flush and timeout are handled in the same moment
                    if (inTime) SIM_CHECK(n && *n == e->n, "wrong-wait", "waitForBytesWritten() gave %d, the next flush was %d", n ? int(*n) : -1, int(e->n));
                    else { SIM_CHECK(!n || *n == e->n, "wrong-wait", "waitForBytesWritten() gave %d, the next flush was %d", int(*n), int(e->n)); probe("flush-and-timeout-both-due"); }
                } else { SIM_CHECK(!n || *n == 0, "wrong-wait", "waitForBytesWritten() gave %d on close", int(*n)); probe("closed-while-waiting"); }
            }
        }
        if (o->alive && chance(30)) { // somebody else's pending data
            probe("foreign-write");
            o->d->write(payload(o));
        }
        if (o->alive && chance(15)) { probe("unawaited-write"); qCoro(o->d).write(payload(o)); }
        if (chance(30)) co_await Gate(delay(20 * ms));
        if (o->closed && chance(60)) break;
    }
}

void idle() {
    for (auto *w : writings) {
        if (!w->waiting) continue;
        SIM_CHECK(!w->due(), "missed-timeout", "waitForBytesWritten() still waits after its timeout");
        SIM_CHECK(!w->o->closed, "hangs", "%s still waits after the device was closed", w->wait ? "waitForBytesWritten()" : "write()");
        if (w->wait) SIM_CHECK(!w->first(), "hangs", "waitForBytesWritten() still waits although bytes were written");
        else if (w->lostAt < 0) SIM_CHECK(!w->flushed(), "hangs", "write() still waits although everything is flushed");
        else SIM_CHECK(w->o->d->bytesToWrite() > 0, "hangs", "write() still waits although the device dropped its bytes and has nothing left to write");
    }
}

void flushSome(Out *o) { // the device drains until it is closed
    if (o->closed || !o->alive) return;
    const auto pending = o->d->bytesToWrite();
    if (pending > 0) {
        int pieces = 1 + int(choose(3));
        while (pieces-- > 0 && o->alive && !o->closed && o->d->bytesToWrite() > 0) {
            const auto p = o->d->bytesToWrite();
            const auto n = chance(50) ? p : range(1, p);
            if (n < p && chance(10)) {
                fault("buffer-dropped");
                for (auto *w : writings) if (w->o == o && !w->wait && w->waiting && w->lostAt < 0 && w->end > o->d->flushed + n) w->lostAt = o->d->flushed + n;
                o->log.push_back({Event::Flush, now(), ++seq, n});
                o->d->flushAndDrop(n);
                continue;
            }
            if (n < p) fault("partial-flush");
            o->log.push_back({Event::Flush, now(), ++seq, n});
            o->d->flush(n);
        }
    }
}
int ticks = 0;
void drain(Out *o) {
    flushSome(o);
    if (!o->closed && o->alive && ++ticks < 200) at(1 * ms + delay(20 * ms), [o] { drain(o); }, "flush");
    else if (!o->closed && o->alive) { const auto n = o->d->bytesToWrite(); if (n) { o->log.push_back({Event::Flush, now(), ++seq, n}); o->d->flush(n); at(5 * ms, [o] { drain(o); }, "flush"); } }
}

Detached plainBuffer() { // an unbuffered device: everything is written at once
    auto *b = new QBuffer;
    b->open(QIODevice::WriteOnly);
    const auto data = streamBytes(0, 1 + int(choose(2000)));
    const auto n = co_await writeOp(b, data, int(choose(4)));
    SIM_CHECK(n == data.size() && b->data() == data, "wrong-count", "writing %d bytes to a buffer returned %d", int(data.size()), int(n));
    const auto w = co_await waitOp(b, chance(50) ? -1 : 5, int(choose(4)));
    SIM_CHECK(w && *w == 0, "wrong-wait", "waiting with nothing pending did not give 0");
    probe("plain-buffer");
    delete b;
}

} // namespace

SIM_SCENARIO("C12", writes, 1) {
    swarm();
    onIdle(idle);
    const int n = 1 + int(choose(2));
    for (int i = 0; i < n; ++i) {
        auto *o = new Out{i};
        outs.push_back(o);
        o->d = new SimDevice;
        o->d->open(chance(10) ? QIODevice::ReadOnly : QIODevice::ReadWrite);
        const int writers = 1 + int(choose(2));
        for (int k = 0; k < writers; ++k)
            at(delay(20 * ms), [o] { if (o->alive) writer(o, 1 + int(choose(8))); }, "writer");
        at(delay(20 * ms), [o] { drain(o); }, "flush");
        if (chance(50)) {
            const bool destroy = chance(30);
            at(delay(200 * ms), [o, destroy] {
                if (o->closed) return;
                fault(destroy ? "close-and-destroy" : "close");
                o->closed = true;
                o->closedAt = o->d->flushed;
                o->log.push_back({Event::Close, now(), ++seq, 0});
                o->d->close();
                if (destroy) { o->alive = false; if (chance(50)) delete o->d; else o->d->deleteLater(); }
            }, "close");
        }
    }
    if (chance(20)) at(delay(10 * ms), [] { plainBuffer(); }, "buffer");
    SIM_CHECK(run(), "not-idle", "the program never becomes idle");
    idle();
    for (auto *w : writings) SIM_CHECK(!w->waiting, "hangs", "an awaited %s never finished", w->wait ? "wait" : "write");
}
