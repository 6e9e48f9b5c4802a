// C15: Awaiting TCP connections hands out each accepted connection exactly once.
#include "qcorotcpserver.h"
#include "fakenet.h"

#include <QHostAddress>
#include <QTcpServer>
#include <QTcpSocket>

using namespace sim;

namespace {

constexpr int Port = 4000;

struct Arrival {
    QPointer<QTcpSocket> socket;
    uint64_t seq;
    int64_t when;
    bool handed = false, lost = false; // lost: the server was closed or destroyed
};
std::vector<Arrival> arrivals;
uint64_t seq = 0;
uint64_t endedSeq = 0; // last time the server was closed or destroyed

struct Server : QTcpServer {
    void incomingConnection(qintptr fd) override {
        auto *s = new QTcpSocket(this);
        s->setSocketDescriptor(fd);
        trace("connection %d arrives", int(arrivals.size()));
        arrivals.push_back({s, ++seq, now()});
        addPendingConnection(s);
    }
};
QPointer<Server> server;

struct Op {
    int64_t timeout;
    int64_t began = deadline(timeout);
    uint64_t beganSeq = ++seq;
    bool waiting = true;
    bool due() const { return timeout >= 0 && now() >= began + timeout * ms; }
};
std::vector<Op *> ops;

Arrival *firstPending() {
    for (auto &a : arrivals) if (!a.handed && !a.lost) return &a;
    return nullptr;
}

void check(Op *o, QTcpSocket *s, bool listening, Arrival *pending, bool immediate) {
    if (s) {
        Arrival *mine = nullptr;
        for (auto &a : arrivals) if (a.socket == s) mine = &a;
        SIM_CHECK(mine, "unknown-connection", "a connection was returned that never arrived");
        SIM_CHECK(!mine->handed, "duplicate", "connection %d was handed out twice", int(mine - arrivals.data()));
        SIM_CHECK(mine == firstPending(), "order", "connection %d was handed out, %d is older", int(mine - arrivals.data()), int(firstPending() - arrivals.data()));
        mine->handed = true;
        trace("got connection %d", int(mine - arrivals.data()));
        if (pending) { SIM_CHECK(immediate, "suspended", "the wait suspended although a connection was pending"); probe("pending"); }
        else probe("arrived");
        return;
    }
    trace("got no connection");
    if (!listening) {
        SIM_CHECK(immediate, "suspended", "waiting on a server that is not listening suspended");
        probe("not-listening");
        return;
    }
    SIM_CHECK(!pending, "missed", "no connection was returned although one was pending");
    if (o->due()) { probe(firstPending() ? "arrival-and-timeout-both-due" : "timed-out"); return; }
    if (endedSeq > o->beganSeq) { probe("server-ended"); return; }
    bool stolen = false;
    for (auto &a : arrivals) if (a.seq > o->beganSeq && a.handed) stolen = true;
    SIM_CHECK(stolen, "early", "no connection was returned %.3f ms after the start, the timeout is %d ms", (now() - o->began) / 1e6, int(o->timeout));
    probe("taken-by-another-await");
}

Detached acceptor(int rounds) {
    using std::chrono::milliseconds;
    for (int i = 0; i < rounds && server; ++i) {
        const int form = int(choose(5));
        auto *o = new Op{form == 4 ? 30000 : chance(40) ? -1 : int64_t(choose(60))};
        ops.push_back(o);
        const bool listening = server->isListening();
        auto *pending = listening ? firstPending() : nullptr;
        // the vector may be reallocated while suspended: only its being there counts
        const auto step = steps();
        trace("waitForNewConnection(%d)", int(o->timeout));
        QTcpSocket *s;
        switch (form) {
        case 0: s = co_await qCoro(server.data()).waitForNewConnection(int(o->timeout)); break;
        case 1: s = co_await qCoro(*server).waitForNewConnection(milliseconds(o->timeout)); break;
        case 2: { auto task = qCoro(server.data()).waitForNewConnection(milliseconds(o->timeout)); s = co_await task; break; }
        case 3: { auto wrapper = qCoro(*server); s = co_await wrapper.waitForNewConnection(int(o->timeout)); break; }
        default: s = co_await qCoro(*server).waitForNewConnection(); break;
        }
        o->waiting = false;
        check(o, s, listening, pending, steps() == step);
        if (chance(35)) co_await Gate(delay(40 * ms));
        else if (!s && !o->due()) co_await Gate(ms);
    }
}

void idle() {
    for (auto *o : ops) {
        if (!o->waiting || !server) continue;
        SIM_CHECK(!o->due(), "missed-timeout", "the wait goes on %.3f ms after its start, the timeout is %d ms", (now() - o->began) / 1e6, int(o->timeout));
        SIM_CHECK(!firstPending(), "hangs", "the wait goes on although connection %d is pending", int(firstPending() - arrivals.data()));
    }
}
void lose() {
    endedSeq = ++seq;
    for (auto &a : arrivals) if (!a.handed) a.lost = true;
}

} // namespace

SIM_SCENARIO("C15", tcp_server, 1) {
    swarm();
    net::swarmNet();
    if (chance(30)) net::profile().acceptFailPercent = 15;
    onIdle(idle);
    server = new Server;
    if (chance(30)) server->setMaxPendingConnections(1 + int(choose(4)));
    auto listen = [] { if (server) { trace("listen"); server->listen(QHostAddress::LocalHost, Port); } };
    if (chance(85)) listen();
    else at(delay(40 * ms), listen, "listen");
    net::onConnect = [](const std::string &, int) { return net::Plan{net::Plan::Refuse}; };

    int64_t t = 0;
    for (int i = int(choose(10)); i > 0; --i) {
        if (chance(60)) t += delay(40 * ms);
        if (chance(20)) { // a client within the program
            at(t, [] {
                auto *c = new QTcpSocket;
                c->connectToHost(QHostAddress(QHostAddress::LocalHost), Port);
                if (chance(40)) at(delay(10 * ms), [c] { fault("client-gone"); c->abort(); }, "client-ends");
            }, "own-client");
        } else {
            const auto fate = choose(4);
            const auto when = delay(10 * ms);
            kernelAt(t, [fate, when] {
                auto *r = net::connectTo(Port);
                if (!r) return;
                if (fate == 0) { r->send("hello"); }
                else if (fate == 1) kernelAt(when, [r] { fault("client-gone"); r->close(); }, "client-ends");
                else if (fate == 2) kernelAt(when, [r] { r->abort(); }, "client-ends");
            }, "client");
        }
    }
    const int n = 1 + int(choose(3));
    for (int k = 0; k < n; ++k) at(delay(60 * ms), [] { acceptor(1 + int(choose(6))); }, "acceptor");
    if (chance(30)) {
        const int how = int(choose(3));
        at(delay(200 * ms), [how, listen] {
            if (!server) return;
            static const char *names[] = {"server-closed", "server-destroyed", "server-destroyed-later"};
            fault(names[how]);
            if (how == 0) { server->close(); lose(); if (chance(50)) at(delay(20 * ms), listen, "listen"); }
            else if (how == 1) { delete server.data(); lose(); }
            else { QObject::connect(server.data(), &QObject::destroyed, [] { lose(); }); server->deleteLater(); }
        }, "server-ends");
    }
    SIM_CHECK(run(), "not-idle", "the program never becomes idle");
    idle();
    if (!server) return;
    while (auto *s = server->nextPendingConnection()) { // the rest is still there
        auto *p = firstPending();
        SIM_CHECK(p && p->socket == s, "order", "a left connection is not the oldest one");
        p->handed = true;
        probe("left-over");
    }
    SIM_CHECK(!firstPending(), "lost", "connection %d was lost", int(firstPending() - arrivals.data()));
}
