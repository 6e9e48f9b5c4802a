// C17: WebSocket open and ping report success, failure and timeout truthfully.
#include "qcorowebsocket.h"
#include "wspeer.h"

#include <QNetworkRequest>
#include <QWebSocket>

#include <set>

using namespace sim;
using std::chrono::milliseconds;

namespace {

struct Event { enum K { Connected, Error, Down, Closing, Pong } kind; int64_t when; uint64_t seq; qint64 elapsed = 0; QByteArray payload; };
uint64_t seq = 0;

struct Client {
    int id;
    QPointer<QWebSocket> s;
    std::vector<Event> log;
    std::vector<QByteArray> pinged; // what arrived at the other end
    net::WsPeer *peer = nullptr;
    int pings = 0;
    bool attempted = false;
    bool connected() const { return s && s->state() == QAbstractSocket::ConnectedState; }
    void note(Event::K k, qint64 elapsed = 0, const QByteArray &payload = {}) {
        static const char *names[] = {"connected", "error", "unconnected", "closing", "pong"};
        trace("socket %d: %s", id, names[k]);
        log.push_back({k, now(), ++seq, elapsed, payload});
    }
};
std::vector<Client *> clients;

struct Op {
    Client *c;
    bool ping;
    int64_t timeout;
    QByteArray payload;
    int64_t began = deadline(timeout);
    uint64_t beganSeq = ++seq;
    bool waiting = true, sent = false;
    bool due() const { return timeout >= 0 && now() >= began + timeout * ms; }
    const Event *first(std::initializer_list<Event::K> kinds) const {
        for (auto &e : c->log) if (e.seq > beganSeq) for (auto k : kinds) if (e.kind == k) return &e;
        return nullptr;
    }
    const Event *answer() const {
        for (auto &e : c->log) if (e.seq > beganSeq && e.kind == Event::Pong && e.payload == payload) return &e;
        return nullptr;
    }
    const Event *foreign() const {
        for (auto &e : c->log) if (e.seq > beganSeq && e.kind == Event::Pong && e.payload != payload) return &e;
        return nullptr;
    }
};
std::vector<Op *> ops;

// What was asked for: the path tells which attempt it is, a request has a header besides.
int attempts = 0;
std::set<std::pair<int, bool>> wanted;
void describe(QUrl &u, bool request) {
    wanted.insert({++attempts, request});
    u.setPath(QStringLiteral("/attempt/%1").arg(attempts));
    u.setQuery(QStringLiteral("n=%1").arg(attempts));
}
QNetworkRequest request(QUrl u, int bad) {
    if (!bad) describe(u, true);
    QNetworkRequest r(u);
    r.setRawHeader("X-Attempt", QByteArray::number(attempts));
    return r;
}
QUrl plain(QUrl u, int bad) {
    if (!bad) describe(u, false);
    return u;
}
void checkHead(Client *c, const net::WsPeer *p) {
    int n = -1, q = -1;
    SIM_CHECK(sscanf(p->head.c_str(), "GET /attempt/%d?n=%d HTTP", &n, &q) == 2 && n == q, "wrong-request", "the server was asked for something else: %s", p->head.substr(0, p->head.find('\r')).c_str());
    const auto header = p->header("X-Attempt");
    const bool request = wanted.count({n, true});
    SIM_CHECK(request || wanted.count({n, false}), "wrong-request", "the server was asked for another attempt");
    SIM_CHECK(header == (request ? std::to_string(n) : std::string()), "wrong-request", "the headers of a request were changed");
    if (request) probe("request-headers");
}

QUrl url(Client *c, int bad) {
    if (bad == 1) return QUrl(QStringLiteral("http://10.0.0.1:%1/").arg(1000 + c->id)); // not a web socket
    if (bad == 2) return QUrl();
    if (chance(30)) { probe("host-name"); return QUrl(QStringLiteral("ws://server.test:%1/").arg(1000 + c->id)); }
    return QUrl(QStringLiteral("ws://10.0.0.1:%1/").arg(1000 + c->id));
}

Detached open(Client *c) {
    if (!c->s) co_return;
    const int form = int(choose(6)), bad = chance(6) ? 1 + int(choose(2)) : 0;
    if (c->s->state() != QAbstractSocket::UnconnectedState && !c->connected() && bad) co_return;
    auto *o = new Op{c, false, form >= 4 || chance(50) ? -1 : int64_t(choose(60))};
    ops.push_back(o);
    const bool already = c->connected();
    const auto step = steps();
    trace("socket %d: open, timeout %d", c->id, int(o->timeout));
    if (bad) fault("bad-url");
    c->attempted = true;
    bool r;
    const milliseconds t(o->timeout);
    switch (form) {
    case 0: r = co_await qCoro(c->s.data()).open(plain(url(c, bad), bad), t); break;
    case 1: r = co_await qCoro(*c->s).open(request(url(c, bad), bad), t); break;
    case 2: { auto task = qCoro(c->s.data()).open(plain(url(c, bad), bad), t); r = co_await task; break; }
    case 3: { auto w = qCoro(*c->s); r = co_await w.open(plain(url(c, bad), bad), t); break; }
    case 4: r = co_await qCoro(*c->s).open(plain(url(c, bad), bad)); break;
    default: r = co_await qCoro(c->s.data()).open(request(url(c, bad), bad)); break;
    }
    o->waiting = false;
    trace("socket %d: open: %s", c->id, r ? "true" : "false");
    if (already) {
        SIM_CHECK(r && steps() == step, "wrong-result", "opening a connected socket %s", r ? "suspended" : "is false");
        probe("open-already");
        co_return;
    }
    auto *e = o->first({Event::Connected, Event::Error, Event::Down});
    if (!e) {
        SIM_CHECK(o->due() || !c->s, "early", "opening ended after %.3f ms although nothing happened", (now() - o->began) / 1e6);
        SIM_CHECK(!r, "wrong-result", "opening is true although there is no connection");
        probe("open-timed-out");
    } else if (e->kind == Event::Connected) {
        if (!o->due()) SIM_CHECK(r, "wrong-result", "opening is false although the connection was established in time");
        probe("opened");
    } else {
        SIM_CHECK(!r, "wrong-result", "opening is true although it failed");
        probe("open-failed");
    }
}

Detached ping(Client *c) {
    if (!c->s) co_return;
    const int form = int(choose(4));
    auto *o = new Op{c, true, form == 3 || chance(40) ? -1 : int64_t(choose(60))};
    ops.push_back(o);
    o->payload = chance(20) && !c->pings ? QByteArray() : QByteArray("p") + QByteArray::number(c->pings) + (chance(20) ? QByteArray(100, 'x') : QByteArray());
    ++c->pings;
    const bool connected = o->sent = c->connected();
    const auto step = steps();
    trace("socket %d: ping, timeout %d", c->id, int(o->timeout));
    std::optional<milliseconds> r;
    const milliseconds t(o->timeout);
    switch (form) {
    case 0: r = co_await qCoro(c->s.data()).ping(o->payload, t); break;
    case 1: { auto w = qCoro(*c->s); r = co_await w.ping(o->payload, t); break; }
    case 2: { auto task = qCoro(c->s.data()).ping(o->payload, t); r = co_await task; break; }
    default: r = co_await qCoro(*c->s).ping(o->payload); break;
    }
    o->waiting = false;
    trace("socket %d: ping: %d", c->id, r ? int(r->count()) : -1);
    if (!connected) {
        SIM_CHECK(!r && steps() == step, "wrong-result", "pinging a socket that is not connected %s", r ? "gave a time" : "suspended");
        probe("ping-not-connected");
        co_return;
    }
    auto *a = o->answer();
    auto *f = o->foreign();
    auto *down = o->first({Event::Closing, Event::Down});
    if (r) {
        SIM_CHECK(a || f, "wrong-result", "a ping yields a time although no answer arrived");
        auto *p = a && f ? (a->seq < f->seq ? a : f) : a ? a : f;
        SIM_CHECK(!down || p->seq < down->seq, "wrong-result", "a ping yields a time although the connection ended before");
        SIM_CHECK(r->count() == p->elapsed, "wrong-time", "a ping yields %d ms, measured were %d ms", int(r->count()), int(p->elapsed));
        probe("pong");
    } else {
        SIM_CHECK(o->due() || down || !c->s, "early", "a ping ended without a time after %.3f ms", (now() - o->began) / 1e6);
        if (!o->due() && a && (!down || a->seq < down->seq)) fail("wrong-result", "a ping yields no time although it was answered in time");
        probe(down ? "ping-connection-ended" : "ping-timed-out");
    }
}

void idle() {
    for (auto *o : ops) {
        if (!o->waiting || !o->c->s) continue;
        const char *name = o->ping ? "a ping" : "opening";
        SIM_CHECK(!o->due(), "missed-timeout", "%s goes on %.3f ms after its start, the timeout is %d ms", name, (now() - o->began) / 1e6, int(o->timeout));
        if (o->ping) SIM_CHECK(!o->answer() && !o->first({Event::Closing, Event::Down}), "hangs", "a ping goes on although %s", o->answer() ? "it was answered" : "the connection ended");
        else if (!o->first({Event::Connected, Event::Error, Event::Down, Event::Closing}))
            SIM_CHECK(o->c->s->state() != QAbstractSocket::UnconnectedState, "not-attempted", "opening goes on although no connection is attempted");
        else SIM_CHECK(!o->first({Event::Connected, Event::Error, Event::Down}), "hangs", "opening goes on although it %s", o->c->connected() ? "succeeded" : "failed");
    }
}

void serve(Client *c, net::Remote *r) {
    auto *p = new net::WsPeer(r, true);
    c->peer = p;
    const auto how = choose(12);
    const auto when = delay(30 * ms);
    p->onHead = [=] {
        checkHead(c, p);
        kernelAt(when, [=] {
            switch (how) {
            case 0: fault("handshake-rejected"); r->send("HTTP/1.1 403 Forbidden\r\nContent-Length: 0\r\n\r\n"); break;
            case 1: fault("handshake-garbage"); r->send("hello\r\n\r\n"); break;
            case 2: fault("handshake-closed"); r->close(); break;
            case 3: fault("handshake-reset"); r->abort(); break;
            case 4: fault("handshake-silent"); break;
            case 5: fault("handshake-cut"); r->send("HTTP/1.1 101 Switching Prot"); r->close(); break;
            default: p->acceptUpgrade();
            }
        }, "handshake");
    };
    const bool answers = chance(80);
    const bool slow = chance(50);
    p->onFrame = [=](int op, bool, const std::string &payload) {
        if (op == 9) {
            trace("peer %d: ping", c->id);
            c->pinged.push_back(QByteArray::fromStdString(payload));
            const bool lost = !answers || chance(15);
            if (lost) { fault("pong-lost"); return; }
            const bool dup = chance(8);
            kernelAt(delay(slow ? 60 * ms : 10 * ms), [=] { p->send(10, QByteArray::fromStdString(payload)); if (dup) { fault("pong-duplicated"); p->send(10, QByteArray::fromStdString(payload)); } }, "pong");
        } else if (op == 8) {
            kernelAt(delay(10 * ms), [=] { p->send(8, QByteArray::fromStdString(payload)); r->close(); }, "close-answer");
        }
    };
    if (chance(45)) {
        const auto end = choose(3);
        kernelAt(delay(200 * ms), [=] {
            switch (end) {
            case 0: fault("peer-closes"); p->send(8, QByteArray("\x03\xe8", 2)); break;
            case 1: fault("peer-vanishes"); r->close(); break;
            default: r->abort();
            }
        }, "peer-ends");
    }
}

} // namespace

SIM_SCENARIO("C17", websocket, 1) {
    swarm();
    net::swarmNet();
    onIdle(idle);
    const int n = 1 + int(choose(2));
    static std::vector<net::Plan> plans;
    for (int i = 0; i < n; ++i) {
        auto *c = new Client{i};
        clients.push_back(c);
        auto *s = new QWebSocket;
        c->s = s;
        QObject::connect(s, &QWebSocket::stateChanged, s, [c](auto state) {
            if (state == QAbstractSocket::ConnectedState) c->note(Event::Connected);
            else if (state == QAbstractSocket::ClosingState) c->note(Event::Closing);
            else if (state == QAbstractSocket::UnconnectedState) c->note(Event::Down);
        });
        QObject::connect(s, qOverload<QAbstractSocket::SocketError>(&QWebSocket::error), s, [c](auto) { c->note(Event::Error); });
        QObject::connect(s, &QWebSocket::pong, s, [c](quint64 elapsed, const QByteArray &payload) { c->note(Event::Pong, qint64(elapsed), payload); });
        net::Plan p;
        const auto k = choose(10);
        p.kind = k < 7 ? net::Plan::Accept : k == 7 ? net::Plan::Refuse : k == 8 ? net::Plan::Unreachable : net::Plan::Blackhole;
        p.after = delay(30 * ms);
        p.immediate = chance(25) && p.kind != net::Plan::Blackhole;
        p.onAccept = [c](net::Remote *r) { serve(c, r); };
        plans.push_back(p);
        for (int k = 1 + int(choose(3)); k > 0; --k) at(delay(60 * ms), [c] { open(c); }, "open");
        for (int k = int(choose(6)); k > 0; --k) at(delay(200 * ms), [c] { ping(c); }, "ping");
        if (chance(35)) {
            const int how = int(choose(4));
            at(delay(200 * ms), [c, how] {
                if (!c->s) return;
                static const char *names[] = {"close", "abort", "destroy", "destroy-later"};
                fault(names[how]);
                switch (how) {
                case 0: c->s->close(); break;
                case 1: c->s->abort(); break;
                case 2: delete c->s.data(); break;
                default: c->s->deleteLater();
                }
            }, "program-ends");
        }
    }
    net::onConnect = [](const std::string &, int port) { return plans[size_t(port - 1000) % plans.size()]; };
    net::onLookup = [](const std::string &) {
        net::Lookup l;
        l.after = delay(60 * ms);
        if (chance(70)) l.addresses.push_back("10.0.1.1");
        return l;
    };
    SIM_CHECK(run(), "not-idle", "the program never becomes idle");
    idle();
    for (auto *o : ops) {
        if (!o->sent || !o->c->connected() || o->first({Event::Closing, Event::Down, Event::Error})) continue;
        SIM_CHECK(std::count(o->c->pinged.begin(), o->c->pinged.end(), o->payload) > 0, "not-sent", "a ping was never sent on an open connection");
        probe("ping-arrived");
    }
}
