// C18: WebSocket message streams yield every message once, in order, until disconnect.
#include "qcorowebsocket.h"
#include "wspeer.h"

#include <QWebSocket>

using namespace sim;
using std::chrono::milliseconds;

namespace {

enum Kind { BinaryFrames, BinaryMessages, TextFrames, TextMessages, KindCount };
const char *kindNames[] = {"binary frames", "binary messages", "text frames", "text messages"};

struct Item { QByteArray data; bool last; };
bool operator==(const Item &a, const Item &b) { return a.data == b.data && a.last == b.last; }

QPointer<QWebSocket> ws;
bool down = false; // no longer connected

struct Stream {
    int id;
    Kind kind;
    int64_t timeout;
    std::vector<Item> came;    // since the stream was obtained, while connected
    size_t got = 0;
    bool disconnected = false; // everything that counts has come
    bool waiting = false, ended = false, dropped = false;
    int64_t waitBegan = 0;
    std::function<void()> drop;
    bool due() const { return timeout >= 0 && now() >= waitBegan + timeout * ms; }
};
std::vector<Stream *> streams;

void arrived(Kind k, const QByteArray &data, bool last) {
    trace("%s: %d bytes%s", kindNames[k], int(data.size()), last ? ", last" : "");
    for (auto *s : streams) if (s->kind == k && !s->disconnected && !s->ended && !s->dropped) s->came.push_back({data, last});
}

Item item(const QByteArray &b) { return {b, true}; }
Item item(const QString &s) { return {s.toUtf8(), true}; }
Item item(const std::tuple<QByteArray, bool> &t) { return {std::get<0>(t), std::get<1>(t)}; }
Item item(const std::tuple<QString, bool> &t) { return {std::get<0>(t).toUtf8(), std::get<1>(t)}; }

void startWait(Stream *s) { s->waiting = true; s->waitBegan = deadline(s->timeout); trace("stream %d waits", s->id); }
void yielded(Stream *s, const Item &i) {
    trace("stream %d yields %d bytes", s->id, int(i.data.size()));
    SIM_CHECK(s->waiting && !s->dropped, "not-waiting", "the stream delivered although nobody was waiting");
    s->waiting = false;
    SIM_CHECK(s->got < s->came.size(), "phantom", "a stream of %s yielded %d items, %d came", kindNames[s->kind], int(s->got + 1), int(s->came.size()));
    SIM_CHECK(i == s->came[s->got], "wrong-item", "item %d of a stream of %s is not what was received (lost, repeated, reordered or damaged)", int(s->got), kindNames[s->kind]);
    ++s->got;
}
void atEnd(Stream *s) {
    trace("stream %d ends", s->id);
    s->waiting = false;
    s->ended = true;
    if (s->due()) { probe("ended-by-timeout"); return; }
    SIM_CHECK(s->disconnected || !ws, "ended-early", "the stream ended after the consumer waited %.3f ms although the socket is connected, its timeout is %d ms", (now() - s->waitBegan) / 1e6, int(s->timeout));
    SIM_CHECK(s->got == s->came.size(), "lost-at-end", "the stream ended with the connection, but %d of %d items were yielded", int(s->got), int(s->came.size()));
    probe("ended-by-disconnect");
}

template<typename Gen>
Detached consume(Stream *s, std::shared_ptr<Gen> gen, int pace, int maxItems) {
    {
        startWait(s);
        auto it = co_await gen->begin();
        const auto end = gen->end();
        while (it != end) {
            yielded(s, item(*it));
            if (maxItems-- == 0) { probe("abandoned"); s->dropped = true; s->drop = nullptr; *gen = Gen(); co_return; }
            if (pace && chance(60)) co_await Gate(delay(pace * ms));
            if (s->dropped) co_return;
            startWait(s);
            co_await ++it;
        }
        atEnd(s);
    }
    s->drop = nullptr;
    if (chance(30)) co_await Gate(delay(50 * ms)); // kept around after the end
    *gen = Gen();
}

template<typename F> void launch(Stream *s, F make) {
    using Gen = decltype(make(s->timeout));
    auto gen = std::make_shared<Gen>(make(s->timeout));
    s->drop = [gen] { *gen = Gen(); };
    streams.push_back(s);
    trace("stream %d: %s, timeout %d", s->id, kindNames[s->kind], int(s->timeout));
    const int pace = pick<int>({0, 5, 30}), maxItems = chance(20) ? int(choose(5)) : -1;
    if (chance(60)) consume(s, gen, pace, maxItems);
    else at(delay(40 * ms), [=] { if (!s->dropped) consume(s, gen, pace, maxItems); }, "begin");
}

void obtain(int id) {
    if (!ws || ws->state() != QAbstractSocket::ConnectedState) return;
    auto *s = new Stream{id, Kind(choose(KindCount)), chance(50) ? -1 : int64_t(choose(50))};
    const bool plain = s->timeout < 0 && chance(50);
    const milliseconds t(s->timeout);
    auto w = [] { return qCoro(ws.data()); };
    switch (s->kind) {
    case BinaryFrames: launch(s, [=](int64_t) { return plain ? w().binaryFrames() : qCoro(*ws).binaryFrames(t); }); break;
    case BinaryMessages: launch(s, [=](int64_t) { return plain ? w().binaryMessages() : qCoro(*ws).binaryMessages(t); }); break;
    case TextFrames: launch(s, [=](int64_t) { return plain ? w().textFrames() : qCoro(*ws).textFrames(t); }); break;
    default: launch(s, [=](int64_t) { return plain ? w().textMessages() : qCoro(*ws).textMessages(t); }); break;
    }
}

void idle() {
    for (auto *s : streams) {
        if (!s->waiting || s->dropped || !ws) continue;
        SIM_CHECK(!s->due(), "missed-timeout", "the consumer has been waiting for %.3f ms, the timeout is %d ms", (now() - s->waitBegan) / 1e6, int(s->timeout));
        SIM_CHECK(s->got == s->came.size(), "missed-item", "%d items came, %d were yielded, and the consumer waits", int(s->came.size()), int(s->got));
        SIM_CHECK(!s->disconnected, "hangs", "the stream goes on although the socket is not connected any more");
    }
}

QByteArray content(bool text, int n, int salt) {
    QByteArray b;
    for (int i = 0; i < n; ++i) b += text ? char('a' + (i * 7 + salt) % 26) : char(i * 31 + salt);
    return b;
}

} // namespace

SIM_SCENARIO("C18", messages, 1) {
    swarm();
    net::swarmNet();
    if (net::profile().window < 100) net::profile().window = 4096;
    onIdle(idle);
    ws = new QWebSocket;
    QObject::connect(ws.data(), &QWebSocket::stateChanged, ws.data(), [](auto state) {
        trace("socket state %d", int(state));
        if (state != QAbstractSocket::ConnectedState) { down = true; for (auto *s : streams) s->disconnected = true; }
    });
    QObject::connect(ws.data(), &QWebSocket::binaryFrameReceived, ws.data(), [](const QByteArray &b, bool l) { arrived(BinaryFrames, b, l); });
    QObject::connect(ws.data(), &QWebSocket::binaryMessageReceived, ws.data(), [](const QByteArray &b) { arrived(BinaryMessages, b, true); });
    QObject::connect(ws.data(), &QWebSocket::textFrameReceived, ws.data(), [](const QString &b, bool l) { arrived(TextFrames, b.toUtf8(), l); });
    QObject::connect(ws.data(), &QWebSocket::textMessageReceived, ws.data(), [](const QString &b) { arrived(TextMessages, b.toUtf8(), true); });
    static net::WsPeer *peer = nullptr;
    net::onConnect = [](const std::string &, int) {
        net::Plan p;
        p.onAccept = [](net::Remote *r) {
            peer = new net::WsPeer(r, true);
            peer->onHead = [] { peer->acceptUpgrade(); };
            peer->onFrame = [](int op, bool, const std::string &payload) {
                if (op == 8) kernelAt(delay(10 * ms), [payload] { peer->send(8, QByteArray::fromStdString(payload)); peer->r->close(); }, "close-answer");
            };
        };
        return p;
    };
    QObject::connect(ws.data(), &QWebSocket::connected, ws.data(), [] {
        static int salt = 0;
        // what the peer sends
        int64_t t = 0;
        const bool flood = chance(6);
        if (flood) probe("flood");
        for (int n = flood ? 20 + int(choose(150)) : int(choose(14)); n > 0; --n) {
            if (chance(flood ? 3 : 60)) t += delay(30 * ms);
            const bool text = chance(50);
            const int len = flood ? pick<int>({0, 1, 20}) : chance(3) ? pick<int>({125, 126, 65535, 65536, 100000}) : pick<int>({0, 1, 20, 200, 3000}), parts = chance(35) ? 2 + int(choose(3)) : 1, gap = int(choose(2));
            if (parts == 1) kernelAt(t, [=] { peer->send(text ? 1 : 2, content(text, len, ++salt) + (text && salt % 4 == 0 ? "\xc3\xa9\xf0\x9f\x98\x80" : "")); }, "message");
            else for (int i = 0; i < parts; ++i) {
                if (gap) t += delay(10 * ms);
                kernelAt(t, [=] { peer->send(i ? 0 : text ? 1 : 2, content(text, len, ++salt), i == parts - 1); if (chance(10)) peer->send(9, "hello"); }, "fragment");
            }
        }
        if (chance(60)) {
            const auto how = choose(4);
            kernelAt(chance(50) ? t : delay(250 * ms), [=] {
                switch (how) {
                case 0: case 1: fault("peer-closes"); peer->send(8, QByteArray("\x03\xe8", 2)); break;
                case 2: fault("peer-vanishes"); peer->r->close(); break;
                default: peer->r->abort();
                }
            }, "peer-ends");
        }
        const int streams = 1 + int(choose(4));
        for (int k = 0; k < streams; ++k) { if (!k && chance(60)) obtain(k); else at(delay(120 * ms), [k] { obtain(k); }, "obtain"); }
        if (chance(25)) at(delay(200 * ms), [] {
            for (auto *s : ::streams) if (!s->dropped && !s->ended && s->drop && chance(60)) {
                probe(s->waiting ? "dropped-while-waiting" : "dropped-while-busy");
                trace("stream %d dropped", s->id);
                s->dropped = true;
                auto d = std::move(s->drop);
                d();
            }
        }, "drop");
        if (chance(35)) {
            const int how = int(choose(4));
            at(delay(250 * ms), [how] {
                if (!ws) return;
                static const char *names[] = {"close", "abort", "destroy", "destroy-later"};
                fault(names[how]);
                switch (how) {
                case 0: ws->close(); break;
                case 1: ws->abort(); break;
                case 2: delete ws.data(); break;
                default: ws->deleteLater();
                }
            }, "program-ends");
        }
    });
    ws->open(QUrl(QStringLiteral("ws://10.0.0.1:1000/")));
    SIM_CHECK(run(), "not-idle", "the program never becomes idle");
    idle();
    for (auto *s : streams) if (s->disconnected && !s->ended && !s->dropped) SIM_CHECK(!s->waiting, "hangs", "the stream never ended");
}
