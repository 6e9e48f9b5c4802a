// C19: Awaiting WebSocket connections hands out each connection exactly once.
#include "qcorowebsocketserver.h"
#include "wspeer.h"

#include <QHostAddress>
#include <QWebSocket>
#include <QWebSocketServer>

using namespace sim;
using std::chrono::milliseconds;

namespace {

constexpr int Port = 4000;
uint64_t seq = 0, endedSeq = 0;
QPointer<QWebSocketServer> server;

// Connections in the order in which the server announced them.
std::vector<QPointer<QWebSocket>> order;
int announced = 0, handed = 0;
uint64_t lastAnnounced = 0;

struct Op {
    int64_t timeout;
    int64_t began = deadline(timeout);
    uint64_t beganSeq = ++seq;
    bool waiting = true;
    bool due() const { return timeout >= 0 && now() >= began + timeout * ms; }
};
std::vector<Op *> ops;
std::vector<uint64_t> handedSeqs; // of hand-outs

void take(QWebSocket *s) {
    int which = -1;
    for (int i = 0; i < announced; ++i) if (order[size_t(i)] == s) which = i;
    SIM_CHECK(which >= 0, "phantom", "a connection was handed out that never arrived");
    SIM_CHECK(which >= handed, "duplicate", "connection %d was handed out twice", which);
    SIM_CHECK(which == handed, "order", "connection %d was handed out instead of %d", which, handed);
    ++handed;
    handedSeqs.push_back(++seq);
    trace("connection %d", which);
}

Detached acceptor(int rounds) {
    for (int i = 0; i < rounds && server; ++i) {
        const int form = int(choose(5));
        auto *o = new Op{form == 4 || chance(40) ? -1 : int64_t(choose(60))};
        ops.push_back(o);
        const bool listening = server->isListening(), pending = listening && handed < announced;
        const auto step = steps();
        trace("nextPendingConnection(%d)", int(o->timeout));
        QWebSocket *s;
        const milliseconds t(o->timeout);
        switch (form) {
        case 0: s = co_await qCoro(server.data()).nextPendingConnection(t); break;
        case 1: s = co_await qCoro(*server).nextPendingConnection(t); break;
        case 2: { auto task = qCoro(server.data()).nextPendingConnection(t); s = co_await task; break; }
        case 3: { auto w = qCoro(*server); s = co_await w.nextPendingConnection(t); break; }
        default: s = co_await qCoro(*server).nextPendingConnection(); break;
        }
        o->waiting = false;
        const bool immediate = steps() == step;
        if (s) {
            take(s);
            if (pending) { SIM_CHECK(immediate, "suspended", "the wait suspended although a connection was pending"); probe("pending"); }
            else probe("arrived");
            if (chance(30)) { probe("deleted-by-acceptor"); delete s; }
        } else {
            trace("no connection");
            if (!listening) { SIM_CHECK(immediate, "suspended", "waiting on a server that is not listening suspended"); probe("not-listening"); }
            else if (endedSeq > o->beganSeq && steps() != step) probe("server-ended");
            else if (pending) sim::fail("missed", "no connection was returned although one was pending");
            else if (o->due()) probe(handed < announced ? "arrival-and-timeout-both-due" : "timed-out");
            else {
                bool taken = false; // by a concurrent await
                for (auto h : handedSeqs) if (h > o->beganSeq) taken = true;
                SIM_CHECK(taken && lastAnnounced > o->beganSeq, "early", "no connection was returned %.3f ms after the start, the timeout is %d ms", (now() - o->began) / 1e6, int(o->timeout));
                probe("taken-by-another-await");
            }
        }
        if (chance(35)) co_await Gate(delay(40 * ms));
        else if (!s) co_await Gate(ms);
    }
}

void idle() {
    for (auto *o : ops) {
        if (!o->waiting || !server) continue;
        SIM_CHECK(!o->due(), "missed-timeout", "the wait goes on %.3f ms after its start, the timeout is %d ms", (now() - o->began) / 1e6, int(o->timeout));
        SIM_CHECK(handed == announced, "hangs", "the wait goes on although a connection is pending");
        SIM_CHECK(endedSeq < o->beganSeq, "hangs", "the wait goes on although the server was closed");
    }
}

void client(int fate, int64_t when) {
    auto *r = net::connectTo(Port);
    if (!r) return;
    auto *p = new net::WsPeer(r, false);
    static std::vector<net::WsPeer *> keep;
    keep.push_back(p);
    kernelAt(when, [p, r, fate] {
        switch (fate) {
        case 0: fault("handshake-never-sent"); break;
        case 1: fault("handshake-garbage"); r->send("GET / HTTP/1.1\r\nHost: x\r\n\r\n"); break;
        case 2: fault("handshake-cut"); r->send("GET / HTTP/1.1\r\nUpgrade: web"); r->close(); break;
        case 3: p->requestUpgrade(); fault("client-gone"); r->close(); break;
        case 4: p->requestUpgrade(); kernelAt(delay(10 * ms), [r] { r->abort(); }, "client-ends"); break;
        default: p->requestUpgrade();
        }
    }, "handshake");
}

} // namespace

SIM_SCENARIO("C19", ws_server, 1) {
    swarm();
    net::swarmNet();
    if (net::profile().window < 100) net::profile().window = 4096;
    onIdle(idle);
    server = new QWebSocketServer(QStringLiteral("sim"), QWebSocketServer::NonSecureMode);
    if (chance(20)) server->setMaxPendingConnections(1 + int(choose(4)));
    auto listen = [] { if (server && !server->isListening()) { trace("listen"); server->listen(QHostAddress::LocalHost, Port); } };
    QObject::connect(server.data(), &QWebSocketServer::newConnection, server.data(), [] {
        trace("connection announced");
        for (auto *object : allObjects()) {
            auto *s = qobject_cast<QWebSocket *>(object);
            if (!s) continue;
            bool known = false;
            for (auto &o : order) if (o == s) known = true;
            if (!known) order.push_back(s);
        }
        ++announced;
        SIM_CHECK(int(order.size()) == announced, "harness", "%d connections announced, %d known", announced, int(order.size()));
        lastAnnounced = ++seq;
    });
    QObject::connect(server.data(), &QObject::destroyed, [] { endedSeq = ++seq; });
    QObject::connect(server.data(), &QWebSocketServer::closed, server.data(), [] { trace("server closed"); endedSeq = ++seq; });
    if (chance(85)) listen();
    else at(delay(40 * ms), listen, "listen");
    int64_t t = 0;
    for (int i = int(choose(10)); i > 0; --i) {
        if (chance(60)) t += delay(40 * ms);
        const int fate = chance(30) ? int(choose(5)) : 9;
        const auto when = delay(20 * ms);
        kernelAt(t, [=] { client(fate, when); }, "client");
    }
    const int n = chance(60) ? 1 : 2 + int(choose(2));
    for (int k = 0; k < n; ++k) at(delay(60 * ms), [] { acceptor(1 + int(choose(6))); }, "acceptor");
    if (chance(30)) {
        const int how = int(choose(3));
        at(delay(200 * ms), [how, listen] {
            if (!server) return;
            static const char *names[] = {"server-closed", "server-destroyed", "server-destroyed-later"};
            fault(names[how]);
            if (how == 0) { server->close(); handed = announced; /* Qt drops what is pending */ endedSeq = ++seq; if (chance(50)) at(delay(20 * ms), listen, "listen"); }
            else if (how == 1) { endedSeq = ++seq; delete server.data(); }
            else server->deleteLater();
        }, "server-ends");
    }
    SIM_CHECK(run(), "not-idle", "the program never becomes idle");
    idle();
    if (!server) return;
    while (auto *s = server->nextPendingConnection()) { take(s); probe("left-over"); }
    SIM_CHECK(handed == announced, "lost", "%d of %d connections were handed out", handed, announced);
}
