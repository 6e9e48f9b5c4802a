// C14: local socket waits report connect, disconnect and data truthfully.
#include "qcorolocalsocket.h"
#include "socketcheck.h"

#include <QLocalSocket>

using namespace sim;

namespace {

struct Local {
    using Socket = QLocalSocket;
    static constexpr auto Unconnected = QLocalSocket::UnconnectedState;
    static constexpr auto Connected = QLocalSocket::ConnectedState;
    static constexpr auto Closing = QLocalSocket::ClosingState;
    static constexpr int ConnectForms = 5;
    static bool defaultTimeout(int form) { return form >= 3; }
    static QString serverName(QLocalSocket *s) { return QStringLiteral("/run/sim/%1").arg(s->property("id").toInt()); }
    static void prepare(QLocalSocket *s, int id) { s->setProperty("id", id); }
    static int which(const std::string &path, int) { return path.back() - '0'; }
    static QCoro::Task<bool> connectWrapped(QLocalSocket *s, int form, int64_t timeout) {
        const std::chrono::milliseconds t(timeout);
        if (form == 1 || form == 3) s->setServerName(serverName(s));
        const auto mode = chance(80) ? QIODevice::ReadWrite : pick<QIODevice::OpenModeFlag>({QIODevice::ReadOnly, QIODevice::WriteOnly});
        s->setProperty("mode", int(form < 3 ? mode : QIODevice::ReadWrite));
        switch (form) {
        case 0: return qCoro(s).connectToServer(serverName(s), mode, t);
        case 1: return qCoro(*s).connectToServer(mode, t);
        case 2: return qCoro(*s).connectToServer(serverName(s), QIODevice::OpenMode(mode), t);
        case 3: return qCoro(s).connectToServer();
        default: return qCoro(*s).connectToServer(serverName(s));
        }
    }
    static void connectPlain(QLocalSocket *s) { s->connectToServer(serverName(s)); }
    static void disconnect(QLocalSocket *s) { s->disconnectFromServer(); }
    static net::Plan plan() {
        net::Plan p;
        const auto k = choose(10);
        p.kind = k < 5 ? net::Plan::Accept : k < 8 ? net::Plan::Busy : k == 8 ? net::Plan::Refuse : net::Plan::NotFound;
        p.after = delay(60 * ms);
        p.immediate = chance(30); // a busy server that then refuses
        if (p.kind == net::Plan::Busy && chance(10)) p.after = 100 * sec;
        return p;
    }
};

} // namespace

SIM_SCENARIO("C14", local, 1) { SocketCheck<Local>::scenario(); }
