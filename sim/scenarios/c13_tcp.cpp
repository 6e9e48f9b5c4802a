// C13: TCP socket waits report connect, disconnect and data truthfully.
#include "qcoroabstractsocket.h"
#include "socketcheck.h"

#include <QHostAddress>
#include <QTcpSocket>

#include <map>

using namespace sim;

namespace {

struct Tcp {
    using Socket = QTcpSocket;
    static constexpr auto Unconnected = QAbstractSocket::UnconnectedState;
    static constexpr auto Connected = QAbstractSocket::ConnectedState;
    static constexpr auto Closing = QAbstractSocket::ClosingState;
    static constexpr int ConnectForms = 6;
    static bool defaultTimeout(int form) { return form >= 4; }
    static int port(QTcpSocket *s) { return 1000 + s->property("id").toInt(); }
    static void prepare(QTcpSocket *s, int id) { net::onLookup = lookup; s->setProperty("id", id); }
    // By address, or by a name that has to be looked up first (one or two addresses, or none).
    static QString host(const char *address) {
        if (!chance(40)) return QString::fromLatin1(address);
        probe("host-name");
        return pick<int>({0, 1, 1}) ? QStringLiteral("server.test") : QStringLiteral("other.test");
    }
    static net::Lookup lookup(const std::string &) {
        net::Lookup l;
        l.after = delay(60 * ms);
        const auto k = choose(10);
        if (k < 7) l.addresses.push_back(k < 5 ? "10.0.1.1" : "fd00::1");
        if (k >= 4 && k < 7) l.addresses.push_back("10.0.1.2");
        return l;
    }
    static inline std::map<int, std::pair<QAbstractSocket::NetworkLayerProtocol, std::string>> wanted; // protocol, address
    static int which(const std::string &address, int port) {
        if (auto w = wanted.find(port - 1000); w != wanted.end()) {
            const bool v6 = address.find(':') != std::string::npos;
            const auto p = w->second.first;
            SIM_CHECK(p == QAbstractSocket::AnyIPProtocol || v6 == (p == QAbstractSocket::IPv6Protocol), "wrong-request", "the socket connects to %s, which is not of the protocol asked for", address.c_str());
            SIM_CHECK(w->second.second.empty() || w->second.second == address, "wrong-request", "the socket connects to %s instead of %s", address.c_str(), w->second.second.c_str());
        }
        return port - 1000;
    }
    static QString want(QTcpSocket *s, const QString &host, QAbstractSocket::NetworkLayerProtocol p) {
        wanted[s->property("id").toInt()] = {p, QHostAddress(host).isNull() ? std::string() : host.toStdString()};
        return host;
    }
    static QCoro::Task<bool> connectWrapped(QTcpSocket *s, int form, int64_t timeout) {
        const std::chrono::milliseconds t(timeout);
        const QHostAddress a(want(s, chance(20) ? QStringLiteral("fd00::7") : QStringLiteral("10.0.0.1"), QAbstractSocket::AnyIPProtocol));
        const auto mode = chance(80) ? QIODevice::ReadWrite : pick<QIODevice::OpenModeFlag>({QIODevice::ReadOnly, QIODevice::WriteOnly});
        const auto proto = pick<QAbstractSocket::NetworkLayerProtocol>({QAbstractSocket::AnyIPProtocol, QAbstractSocket::IPv4Protocol, QAbstractSocket::IPv6Protocol});
        s->setProperty("mode", int(form < 4 ? mode : QIODevice::ReadWrite));
        const auto p = quint16(port(s));
        switch (form) {
        case 0: return qCoro(s).connectToHost(a, p, mode, t);
        case 1: return qCoro(*s).connectToHost(want(s, host("10.0.0.2"), QAbstractSocket::AnyIPProtocol), p, mode, QAbstractSocket::AnyIPProtocol, t);
        case 2: return qCoro(s).connectToHost(want(s, host(proto == QAbstractSocket::IPv4Protocol ? "10.0.0.4" : "fe80::1"), proto), p, mode, proto, t);
        case 3: return qCoro(static_cast<QAbstractSocket *>(s)).connectToHost(a, p, mode, t);
        case 4: return qCoro(s).connectToHost(a, p);
        default: return qCoro(*s).connectToHost(want(s, host("10.0.0.3"), QAbstractSocket::AnyIPProtocol), p);
        }
    }
    static void connectPlain(QTcpSocket *s) { s->connectToHost(host("10.0.0.1"), quint16(port(s))); }
    static void disconnect(QTcpSocket *s) { s->disconnectFromHost(); }
    static net::Plan plan() {
        net::Plan p;
        const auto k = choose(10);
        p.kind = k < 7 ? net::Plan::Accept : k == 7 ? net::Plan::Refuse : k == 8 ? net::Plan::Unreachable : net::Plan::Blackhole;
        p.after = delay(40 * ms);
        p.immediate = chance(25) && p.kind != net::Plan::Blackhole;
        return p;
    }
};

} // namespace

SIM_SCENARIO("C13", tcp, 1) { SocketCheck<Tcp>::scenario(); }
