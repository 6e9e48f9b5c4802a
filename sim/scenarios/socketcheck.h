// Clients of stream sockets (TCP and local) and what their waits and transfers must report.
// Included after the QCoro header of the socket class.
#pragma once
#include "simdevice.h"
#include "fakenet.h"

namespace sim {

// What the application can observe of the socket through Qt's own signals.
struct SockEvent {
    enum K { Connected, Down, Disconnected, Ready, Written, Closing } kind; // Down: unconnected; Closing: closing or closed
    int64_t when;
    uint64_t seq;
    int64_t n = 0;
};

template<typename Traits> struct SocketCheck {
    using Socket = typename Traits::Socket;
    static inline uint64_t seq = 0;

    struct Client {
        int id;
        QPointer<Socket> s;
        std::vector<SockEvent> log;
        net::Remote *remote = nullptr;
        bool attempt = false;      // a connection attempt was started
        bool abrupt = false;       // data may get lost: reset, abort, destroyed
        QByteArray got;            // read by the program
        QByteArray accepted;       // accepted for writing
        int64_t written = 0;       // reported by bytesWritten()
        int readers = 0, readersStarted = 0;
        bool gone() const { return s.isNull(); }
    };
    enum What { WConnected, WDisconnected, WReady, WRead, WWrite, WWritten };
    static const char *name(What w) { static const char *n[] = {"waiting for the connection", "waiting for disconnection", "waiting for data", "reading", "writing", "waiting for written bytes"}; return n[w]; }
    struct Op {
        Client *c;
        What what;
        int64_t timeout;
        int64_t began = deadline(timeout);
        uint64_t beganSeq = ++seq;
        bool waiting = true;
        bool direct = false;       // `co_await socket`: not woken by a disconnection
        int64_t start = 0, end = INT64_MAX; // WWrite: its place in the accepted stream
        bool connecting = false;   // WDisconnected: began while connecting
        bool due() const { return timeout >= 0 && now() >= began + timeout * ms; }
        const SockEvent *first(std::initializer_list<typename SockEvent::K> kinds) const {
            for (auto &e : c->log) if (e.seq > beganSeq) for (auto k : kinds) if (e.kind == k) return &e;
            return nullptr;
        }
    };
    static inline std::vector<Client *> clients;
    static inline std::vector<Op *> ops;

    static int st(Client *c) { return c->gone() ? 0 : int(c->s->state()); }
    static bool connected(Client *c) { return st(c) == int(Traits::Connected); }
    static void note(Client *c, typename SockEvent::K k, int64_t n = 0) {
        static const char *names[] = {"connected", "unconnected", "disconnected", "readyRead", "bytesWritten", "closing"};
        trace("socket %d: %s %d", c->id, names[k], int(n));
        c->log.push_back({k, now(), ++seq, n});
    }

    static Client *newClient(int id) {
        auto *c = new Client{id};
        clients.push_back(c);
        auto *s = new Socket;
        c->s = s;
        QObject::connect(s, &Socket::connected, s, [c] {
            note(c, SockEvent::Connected);
            const auto mode = c->s->property("mode"); // as asked for when connecting
            if (mode.isValid() && c->s->isOpen()) // not closed meanwhile
                SIM_CHECK((c->s->openMode() & QIODevice::ReadWrite) == QIODevice::OpenMode(mode.toInt()), "wrong-request", "the socket was opened with another mode than asked for");
        });
        QObject::connect(s, &Socket::disconnected, s, [c] { note(c, SockEvent::Disconnected); });
        QObject::connect(s, &Socket::stateChanged, s, [c](auto state) {
            if (int(state) == int(Traits::Unconnected)) note(c, SockEvent::Down);
            else if (int(state) == int(Traits::Closing)) note(c, SockEvent::Closing);
        });
        QObject::connect(s, &QIODevice::readyRead, s, [c] { note(c, SockEvent::Ready); });
        QObject::connect(s, &QIODevice::aboutToClose, s, [c] { note(c, SockEvent::Closing); });
        QObject::connect(s, &QIODevice::bytesWritten, s, [c](qint64 n) { c->written += n; note(c, SockEvent::Written, n); });
        return c;
    }

    // ---- connecting ------------------------------------------------------------
    static void checkConnected(Op *o, bool result, bool already, bool immediate) {
        if (already) {
            SIM_CHECK(result && immediate, "wrong-result", "waiting for a connected socket %s", result ? "suspended" : "is false");
            return;
        }
        auto *e = o->first({SockEvent::Connected, SockEvent::Down});
        if (!e) {
            SIM_CHECK(o->due() || o->c->gone(), "early", "%s ended after %.3f ms although nothing happened", name(o->what), (now() - o->began) / 1e6);
            SIM_CHECK(!result, "wrong-result", "the wait for the connection is true although it was not established");
            probe("connect-timed-out");
        } else if (e->kind == SockEvent::Connected) {
            if (!o->due()) SIM_CHECK(result, "wrong-result", "the wait for the connection is false although it was established %.3f ms after its start", (e->when - o->began) / 1e6);
            else if (!result) probe("connected-and-timeout-both-due");
            probe("connected");
        } else {
            SIM_CHECK(!result, "wrong-result", "the wait for the connection is true although it failed");
            probe("connect-failed");
        }
    }
    static Detached waitConnected(Client *c) {
        if (c->gone()) co_return;
        const int form = int(choose(4));
        auto *o = new Op{c, WConnected, form == 3 ? 30000 : chance(50) ? -1 : int64_t(choose(60))};
        ops.push_back(o);
        const bool already = connected(c);
        const auto step = steps();
        trace("socket %d: waitForConnected(%d)", c->id, int(o->timeout));
        bool r;
        using std::chrono::milliseconds;
        switch (form) {
        case 0: r = co_await qCoro(c->s.data()).waitForConnected(int(o->timeout)); break;
        case 1: r = co_await qCoro(*c->s).waitForConnected(milliseconds(o->timeout)); break;
        case 2: { auto task = qCoro(c->s.data()).waitForConnected(milliseconds(o->timeout)); r = co_await task; break; }
        default: r = co_await qCoro(*c->s).waitForConnected(); break;
        }
        o->waiting = false;
        trace("socket %d: waitForConnected: %s", c->id, r ? "true" : "false");
        checkConnected(o, r, already, steps() == step);
    }
    static Detached connectWrapped(Client *c) {
        if (c->gone() || c->attempt) co_return;
        c->attempt = true;
        const int form = int(choose(Traits::ConnectForms));
        auto *o = new Op{c, WConnected, Traits::defaultTimeout(form) ? 30000 : chance(50) ? -1 : int64_t(choose(60))};
        ops.push_back(o);
        trace("socket %d: connect through the wrapper, form %d, timeout %d", c->id, form, int(o->timeout));
        const bool r = co_await Traits::connectWrapped(c->s.data(), form, o->timeout);
        o->waiting = false;
        trace("socket %d: connect: %s", c->id, r ? "true" : "false");
        checkConnected(o, r, false, false);
    }
    static void connectPlain(Client *c) {
        if (c->gone() || c->attempt) return;
        c->attempt = true;
        trace("socket %d: connect", c->id);
        Traits::connectPlain(c->s.data());
    }

    // ---- disconnecting ---------------------------------------------------------
    static Detached waitDisconnected(Client *c) {
        if (c->gone()) co_return;
        const int form = int(choose(4));
        auto *o = new Op{c, WDisconnected, form == 3 ? 30000 : chance(50) ? -1 : int64_t(choose(100))};
        ops.push_back(o);
        const bool down = st(c) == int(Traits::Unconnected);
        o->connecting = !down && !connected(c) && st(c) != int(Traits::Closing);
        const auto step = steps();
        trace("socket %d: waitForDisconnected(%d)", c->id, int(o->timeout));
        bool r;
        using std::chrono::milliseconds;
        switch (form) {
        case 0: r = co_await qCoro(c->s.data()).waitForDisconnected(int(o->timeout)); break;
        case 1: r = co_await qCoro(*c->s).waitForDisconnected(milliseconds(o->timeout)); break;
        case 2: { auto task = qCoro(c->s.data()).waitForDisconnected(milliseconds(o->timeout)); r = co_await task; break; }
        default: r = co_await qCoro(*c->s).waitForDisconnected(); break;
        }
        o->waiting = false;
        trace("socket %d: waitForDisconnected: %s", c->id, r ? "true" : "false");
        if (down) {
            SIM_CHECK(!r && steps() == step, "wrong-result", "waiting for the disconnection of a socket that is not connected %s", r ? "is true" : "suspended");
            probe("not-connected");
            co_return;
        }
        auto *e = o->first({SockEvent::Disconnected, SockEvent::Down});
        if (!e) {
            SIM_CHECK(o->due() || c->gone(), "early", "%s ended after %.3f ms although nothing happened", name(o->what), (now() - o->began) / 1e6);
            SIM_CHECK(!r, "wrong-result", "the wait for disconnection is true although the socket is still connected");
            probe("disconnect-timed-out");
        } else if (!o->connecting && !o->due()) {
            SIM_CHECK(r, "wrong-result", "the wait for disconnection is false although the socket disconnected %.3f ms after its start", (e->when - o->began) / 1e6);
            probe("disconnected");
        }
    }

    // ---- reading ---------------------------------------------------------------
    static QCoro::Task<QByteArray> readOp(Socket *s, int kind, int64_t max, int64_t timeout) {
        using std::chrono::milliseconds;
        const milliseconds t(timeout);
        switch (kind) {
        case 0: co_return co_await (timeout < 0 ? qCoro(s).readAll() : qCoro(*s).readAll(t));
        case 1: co_return co_await (timeout < 0 ? qCoro(s).read(max) : qCoro(*s).read(max, t));
        case 2: co_return co_await (timeout < 0 ? qCoro(s).readLine(max) : qCoro(*s).readLine(max, t));
        case 3: co_return co_await s;
        case 4: co_return co_await *s;
        default: { auto task = qCoro(s).readAll(t); co_return co_await task; }
        }
    }
    static void checkBytes(Client *c, const QByteArray &b) {
        if (!c->remote) { SIM_CHECK(b.isEmpty(), "stream-corrupted", "%d bytes were read although there is no peer", int(b.size())); return; }
        const auto want = c->remote->sent.substr(std::min<size_t>(c->got.size(), c->remote->sent.size()), b.size());
        SIM_CHECK(b == QByteArray(want.data(), int(want.size())), "stream-corrupted", "%d bytes read at position %d are not what the peer sent", int(b.size()), int(c->got.size()));
        c->got += b;
    }
    static Detached reader(Client *c, int rounds, bool toEnd) {
        ++c->readers;
        ++c->readersStarted;
        int tries = 0;
        for (int i = 0; (i < rounds || toEnd) && !c->gone(); ++i) {
            using std::chrono::milliseconds;
            auto available = c->s->bytesAvailable();
            bool can = available > 0 || (c->s->isReadable() && connected(c));
            if (toEnd && !can) {
                if (++tries > 20) break; // not connected (yet)
                co_await Gate(ms + delay(10 * ms));
                if (chance(80)) continue;
                if (c->gone()) break;
                available = c->s->bytesAvailable();
                can = available > 0 || (c->s->isReadable() && connected(c));
            }
            const auto step = steps();
            if (chance(25)) {
                const int form = int(choose(3));
                auto *o = new Op{c, WReady, chance(50) ? -1 : int64_t(choose(50))};
                ops.push_back(o);
                trace("socket %d: waitForReadyRead(%d), %d available", c->id, int(o->timeout), int(available));
                bool r;
                if (form == 0) r = co_await qCoro(c->s.data()).waitForReadyRead(int(o->timeout));
                else if (form == 1) r = co_await qCoro(*c->s).waitForReadyRead(milliseconds(o->timeout));
                else { auto task = qCoro(c->s.data()).waitForReadyRead(milliseconds(o->timeout)); r = co_await task; }
                o->waiting = false;
                trace("socket %d: waitForReadyRead: %s", c->id, r ? "true" : "false");
                if (available > 0 && can) SIM_CHECK(r && steps() == step, "wrong-readiness", "waitForReadyRead() with %d bytes available %s", int(available), r ? "suspended" : "is false");
                else if (!can) SIM_CHECK(!r && steps() == step, "wrong-readiness", "waitForReadyRead() on a socket that is not connected %s", r ? "is true" : "suspended");
                else {
                    auto *e = o->first({SockEvent::Ready, SockEvent::Closing, SockEvent::Down});
                    if (!e) { SIM_CHECK(o->due() || c->gone(), "early", "waitForReadyRead() ended although nothing happened"); SIM_CHECK(!r, "wrong-readiness", "waitForReadyRead() is true although no data arrived"); }
                    else if (e->kind == SockEvent::Ready) { if (!o->due()) SIM_CHECK(r, "wrong-readiness", "waitForReadyRead() is false although data arrived"); }
                    else { SIM_CHECK(!r || c->gone() || c->s->bytesAvailable() > 0, "wrong-readiness", "waitForReadyRead() is true although the connection ended without data"); probe("ended-while-waiting-for-data"); }
                }
            } else {
                const int kind = int(choose(6));
                const int64_t max = kind == 2 ? pick<int64_t>({0, 5, 1000}) : pick<int64_t>({1, 7, 64, 100000});
                auto *o = new Op{c, WRead, kind == 3 || kind == 4 || chance(50) ? -1 : int64_t(choose(50))};
                o->direct = kind == 3 || kind == 4;
                if (o->direct && !can) { o->waiting = false; co_await Gate(ms); continue; } // documented not to notice that
                ops.push_back(o);
                trace("socket %d: read kind %d max %d timeout %d, %d available", c->id, kind, int(max), int(o->timeout), int(available));
                const int started = c->readers == 1 ? c->readersStarted : -1; // the only reader?
                const auto b = co_await readOp(c->s.data(), kind, max, o->timeout);
                o->waiting = false;
                trace("socket %d: read %d bytes", c->id, int(b.size()));
                checkBytes(c, b);
                if (kind == 1) SIM_CHECK(b.size() <= max, "too-much", "read(%d) returned %d bytes", int(max), int(b.size()));
                if (!b.isEmpty() && kind != 2 && !(kind == 1 && b.size() == max) && !c->gone())
                    SIM_CHECK(c->s->bytesAvailable() == 0, "lost-data", "a read returned %d bytes and left %d although it was to take them", int(b.size()), int(c->s->bytesAvailable()));
                if (available > 0 && can) SIM_CHECK(!b.isEmpty() && steps() == step, "lost-data", "a read with %d bytes available %s", int(available), b.isEmpty() ? "returned nothing" : "suspended");
                else if (!can) SIM_CHECK(steps() == step, "suspended", "a read from a socket that is not connected suspended");
                else if (b.isEmpty() && !c->gone() && started == c->readersStarted) {
                    auto *e = o->first({SockEvent::Ready, SockEvent::Closing, SockEvent::Down});
                    SIM_CHECK(o->due() || o->first({SockEvent::Closing, SockEvent::Down}) || !c->s->isReadable(), "early", "a read ended with nothing after %.3f ms although it is still connected and has timeout %d", (now() - o->began) / 1e6, int(o->timeout));
                    if (e && e->kind != SockEvent::Ready) probe("ended-while-reading");
                }
            }
            if (chance(25)) co_await Gate(delay(20 * ms));
        }
        --c->readers;
    }

    // ---- writing ---------------------------------------------------------------
    static Detached writer(Client *c, int rounds) {
        for (int i = 0; i < rounds && !c->gone(); ++i) {
            using std::chrono::milliseconds;
            const bool connecting = st(c) != int(Traits::Unconnected) && st(c) != int(Traits::Closing) && !connected(c);
            const bool writable = c->s->isWritable() && (connected(c) || connecting);
            if (writable && connecting) probe("write-while-connecting");
            const auto pending = c->s->bytesToWrite();
            const auto step = steps();
            if (chance(25)) {
                const int form = int(choose(3));
                auto *o = new Op{c, WWritten, chance(50) ? -1 : int64_t(choose(50))};
                ops.push_back(o);
                trace("socket %d: waitForBytesWritten(%d), %d pending", c->id, int(o->timeout), int(pending));
                std::optional<qint64> r;
                if (form == 0) r = co_await qCoro(c->s.data()).waitForBytesWritten(int(o->timeout));
                else if (form == 1) r = co_await qCoro(*c->s).waitForBytesWritten(milliseconds(o->timeout));
                else { auto task = qCoro(c->s.data()).waitForBytesWritten(milliseconds(o->timeout)); r = co_await task; }
                o->waiting = false;
                trace("socket %d: waitForBytesWritten: %d", c->id, r ? int(*r) : -1);
                if (!writable) SIM_CHECK(steps() == step && (!r || *r == 0), "wrong-wait", "waiting for written bytes of a socket that is not connected %s", r && *r ? "gave a count" : "suspended");
                else if (pending == 0) SIM_CHECK(steps() == step && r && *r == 0, "wrong-wait", "waiting with nothing pending did not give 0 at once");
                else {
                    auto *e = o->first({SockEvent::Written, SockEvent::Closing, SockEvent::Down});
                    if (!e) SIM_CHECK(!r && (o->due() || c->gone()), "wrong-wait", "waitForBytesWritten() ended although nothing happened");
                    else if (e->kind == SockEvent::Written) { if (!o->due() || r) SIM_CHECK(r && *r == e->n, "wrong-wait", "waitForBytesWritten() gave %d instead of %d", r ? int(*r) : -1, int(e->n)); }
                    else { SIM_CHECK(!r || *r == 0, "wrong-wait", "waitForBytesWritten() gave %d when the connection ended", int(*r)); probe("ended-while-waiting-for-written"); }
                }
            } else {
                const auto data = streamBytes(c->accepted.size(), pick<int>({1, 5, 50, 3000}));
                auto *o = new Op{c, WWrite, -1};
                o->start = c->accepted.size();
                if (writable || (c->s->isWritable() && st(c) == int(Traits::Closing))) { c->accepted += data; o->end = c->accepted.size(); }
                ops.push_back(o);
                trace("socket %d: write %d bytes, %d pending", c->id, int(data.size()), int(pending));
                qint64 n;
                switch (choose(3)) {
                case 0: n = co_await qCoro(c->s.data()).write(data); break;
                case 1: n = co_await qCoro(*c->s).write(QByteArray(data)); break;
                default: { auto task = qCoro(c->s.data()).write(data); n = co_await task; }
                }
                o->waiting = false;
                trace("socket %d: wrote %d", c->id, int(n));
                if (!writable) SIM_CHECK(n <= 0 && steps() == step, "wrong-count", "writing to a socket that is not connected %s", n > 0 ? "gave a count" : "suspended");
                else {
                    const auto confirmed = std::clamp<int64_t>(c->written - o->start, 0, data.size());
                    if (n == data.size()) SIM_CHECK(confirmed == n, "early", "write returned %d with %d bytes written", int(n), int(confirmed));
                    else {
                        SIM_CHECK(o->first({SockEvent::Closing, SockEvent::Down}) || c->gone(), "early", "write returned %d of %d bytes on a healthy connection", int(n), int(data.size()));
                        SIM_CHECK(n <= confirmed, "wrong-count", "write returned %d, only %d bytes were written", int(n), int(confirmed));
                        probe("ended-while-writing");
                    }
                }
            }
            if (chance(25)) co_await Gate(delay(20 * ms));
        }
    }

    static void idle() {
        for (auto *o : ops) {
            if (!o->waiting || o->c->gone()) continue;
            SIM_CHECK(!o->due(), "missed-timeout", "%s goes on %.3f ms after its start, the timeout is %d ms", name(o->what), (now() - o->began) / 1e6, int(o->timeout));
            switch (o->what) {
            case WConnected: SIM_CHECK(!o->first({SockEvent::Connected, SockEvent::Down}), "hangs", "still waiting for the connection although it %s", connected(o->c) ? "is established" : "failed"); break;
            case WDisconnected: SIM_CHECK(!o->first({SockEvent::Disconnected, SockEvent::Down}), "hangs", "still waiting for disconnection although the socket is not connected any more"); break;
            case WReady: case WRead:
                SIM_CHECK(!o->first({SockEvent::Ready}), "hangs", "%s goes on although data arrived", name(o->what));
                if (!o->direct) SIM_CHECK(connected(o->c), "hangs", "%s goes on although the socket is not connected any more", name(o->what));
                break;
            case WWritten: SIM_CHECK(!o->first({SockEvent::Written}), "hangs", "%s goes on although bytes were written", name(o->what)); [[fallthrough]];
            case WWrite:
                SIM_CHECK(st(o->c) != int(Traits::Unconnected) && st(o->c) != int(Traits::Closing), "hangs", "%s goes on although the socket is not connected any more", name(o->what));
                SIM_CHECK(o->what == WWritten || o->c->written < o->end, "hangs", "writing goes on although everything is written");
                break;
            }
        }
        for (auto *c : clients) {
            if (!c->remote) continue;
            SIM_CHECK(c->remote->received.size() <= size_t(c->accepted.size()) && c->accepted.startsWith(QByteArray(c->remote->received.data(), int(c->remote->received.size()))),
                      "stream-corrupted", "the peer received something else than what was written");
        }
    }

    // ---- the peer --------------------------------------------------------------
    static void peer(Client *c) { // the connection was established: the far end comes to life
        auto *r = c->remote;
        int64_t t = 0, pos = 0;
        for (int i = int(choose(8)); i > 0; --i) {
            t += delay(30 * ms);
            const int len = pick<int>({1, 3, 30, 500, 6000});
            kernelAt(t, [c, r, pos, len] { r->send(streamBytes(pos, len)); }, "peer-sends");
            pos += len;
        }
        if (chance(20)) {
            kernelAt(delay(30 * ms), [r] { fault("peer-stops-reading"); r->setReading(false); }, "peer-stalls");
            if (chance(80)) kernelAt(40 * ms + delay(100 * ms), [r] { r->setReading(true); }, "peer-reads-again");
        }
        if (chance(70)) {
            const bool reset = chance(35);
            kernelAt(chance(50) ? delay(200 * ms) : t, [c, r, reset] {
                if (reset) { c->abrupt = true; r->abort(); }
                else { fault("peer-closes"); r->close(); }
            }, "peer-ends");
        }
    }

    static void scenario() {
        swarm();
        net::swarmNet();
        onIdle(idle);
        const int n = 1 + int(choose(2));
        static std::vector<net::Plan> plans;
        for (int i = 0; i < n; ++i) {
            auto *c = newClient(i);
            net::Plan p = Traits::plan();
            p.onAccept = [c](net::Remote *r) { c->remote = r; peer(c); };
            plans.push_back(p);
        }
        net::onConnect = [](const std::string &a, int port) { return plans[size_t(Traits::which(a, port)) % plans.size()]; };
        for (auto *c : clients) {
            Traits::prepare(c->s.data(), c->id);
            const bool wrapped = chance(50);
            at(delay(20 * ms), [c, wrapped] { if (wrapped) connectWrapped(c); else connectPlain(c); }, "connect");
            for (int k = int(choose(3)); k > 0; --k) at(delay(40 * ms), [c] { waitConnected(c); }, "wait-connected");
            for (int k = int(choose(3)); k > 0; --k) at(delay(80 * ms), [c] { waitDisconnected(c); }, "wait-disconnected");
            const bool toEnd = chance(50);
            const int readers = int(choose(3)), writers = int(choose(3));
            for (int k = 0; k < readers; ++k) at(delay(60 * ms), [c, toEnd, k] { reader(c, 1 + int(choose(8)), toEnd && !k); }, "reader");
            for (int k = 0; k < writers; ++k) at(delay(60 * ms), [c] { writer(c, 1 + int(choose(6))); }, "writer");
            if (chance(35)) {
                const int how = int(choose(5));
                at(delay(200 * ms), [c, how] {
                    if (c->gone()) return;
                    static const char *names[] = {"disconnect", "abort", "close", "destroy", "destroy-later"};
                    fault(names[how]);
                    if (how) c->abrupt = true;
                    switch (how) {
                    case 0: Traits::disconnect(c->s.data()); break;
                    case 1: c->s->abort(); break;
                    case 2: c->s->close(); break;
                    case 3: delete c->s.data(); break;
                    default: c->s->deleteLater();
                    }
                }, "program-ends");
            }
        }
        SIM_CHECK(run(), "not-idle", "the program never becomes idle");
        idle();
        for (auto *c : clients) {
            if (!c->remote || c->abrupt || c->gone()) continue;
            if (c->remote->reading && !c->remote->closed && !c->remote->resetReceived) SIM_CHECK(int64_t(c->remote->received.size()) >= c->written, "lost-data", "the peer received %d of %d written bytes", int(c->remote->received.size()), int(c->written));
        }
    }
};

} // namespace sim
