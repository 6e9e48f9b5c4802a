#include "fakenet.h"
#include "../core/dispatcher.h"

#include <QCoreApplication>
#include <QNetworkProxy>
#include <QSocketNotifier>

#include <arpa/inet.h>
#include <cerrno>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

namespace sim { extern bool (*fdReady)(int fd, int type); }

namespace sim::net {

constexpr int FakeBase = 10000;

struct Sock;
struct End {
    End *peer = nullptr;
    Sock *sock = nullptr;      // or
    Remote *remote = nullptr;
    std::string rx;            // delivered, unread
    bool fin = false;          // end of stream delivered (after rx)
    int err = 0;               // reset delivered
    bool finSent = false, dead = false;
    int64_t inFlight = 0;      // bytes on the way to the peer
    int64_t lastDelivery = 0;  // keeps the order of deliveries to the peer
    int64_t room() const { return profile().window - inFlight - (peer ? int64_t(peer->rx.size()) : 0); }
};

struct Sock {
    int fd;
    int domain, type;
    enum State { Fresh, Connecting, Failed, Connected, Listening } state = Fresh;
    Plan plan;
    int err = 0;
    bool resultTaken = false;
    int64_t busyUntil = -1;
    End *end = nullptr;
    int port = 0;              // local
    int peerPort = 0;
    std::string path;
    std::deque<End *> backlog;
    int flags = O_RDWR;
    bool shutWrite = false;
};

std::function<Plan(const std::string &, int)> onConnect;
std::function<void(bool)> onConnectDone;
std::function<Lookup(const std::string &)> onLookup;
static Profile theProfile;
Profile &profile() { return theProfile; }
static std::map<int, Sock *> socks;
static int nextFd = FakeBase, nextPort = 40000, nextRemote = 1;

static Sock *find(int fd) { auto it = socks.find(fd); return it == socks.end() ? nullptr : it->second; }
static Sock *listener(int port) { for (auto &p : socks) if (p.second->state == Sock::Listening && p.second->domain != AF_UNIX && p.second->port == port) return p.second; return nullptr; }
int openSockets() { return int(socks.size()); }
bool listening(int port) { return listener(port) != nullptr; }

void swarmNet() {
    QNetworkProxy::setApplicationProxy(QNetworkProxy(QNetworkProxy::NoProxy)); // no system configuration
    QCoreApplication::setLibraryPaths({}); // no plugins (TLS is not simulated, loading it takes long)
    auto &p = theProfile;
    p.latencyMax = pick<int64_t>({0, 1 * ms, 5 * ms, 30 * ms});
    p.splitPercent = int(choose(3)) * 40;
    p.interruptPercent = int(choose(2)) * 10;
    p.window = pick<int64_t>({65536, 65536, 4096, 100, 7});
}

static int64_t latency() { return delay(theProfile.latencyMax); }
static int64_t deliveryTime(End *from, int64_t lat) {
    from->lastDelivery = std::max(from->lastDelivery, now() + lat);
    return from->lastDelivery - now();
}

static void consume(End *e) { // a scripted end reads what was delivered
    auto *r = e->remote;
    if (!r || !r->reading) return;
    if (!e->rx.empty()) {
        r->received += e->rx;
        e->rx.clear();
        if (r->onData) r->onData();
    }
    if (e->fin && !r->finReceived) { r->finReceived = true; trace("remote %d: end of stream", r->id); if (r->onFin) r->onFin(); }
    if (e->err && !r->resetReceived) { r->resetReceived = true; trace("remote %d: reset", r->id); }
}

static void transfer(End *from, const char *data, size_t n) {
    size_t pos = 0;
    while (pos < n) {
        size_t len = n - pos;
        if (len > 1 && chance(uint32_t(theProfile.splitPercent))) { len = size_t(range(1, int64_t(len))); fault("split-delivery"); }
        std::string chunk(data + pos, len);
        pos += len;
        from->inFlight += int64_t(len);
        kernelAt(deliveryTime(from, latency()), [from, chunk = std::move(chunk)] {
            from->inFlight -= int64_t(chunk.size());
            auto *p = from->peer;
            if (p->err) return;
            if (p->dead) { // nobody is there any more
                if (!from->err) { from->err = ECONNRESET; consume(from); }
                return;
            }
            p->rx += chunk;
            consume(p);
        }, "deliver");
    }
}
static void sendFin(End *from) {
    if (from->finSent) return;
    from->finSent = true;
    kernelAt(deliveryTime(from, latency()), [from] { from->peer->fin = true; consume(from->peer); }, "deliver-fin");
}
static void sendReset(End *from) {
    from->finSent = true;
    kernelAt(latency(), [from] {
        auto *p = from->peer;
        if (p->err) return;
        p->err = ECONNRESET;
        consume(p);
    }, "deliver-reset");
}

bool Remote::send(const QByteArray &data) {
    if (closed || !end || end->err) return false;
    sent.append(data.constData(), size_t(data.size()));
    transfer(end, data.constData(), size_t(data.size()));
    return true;
}
void Remote::close() {
    if (closed || !end) return;
    closed = true;
    trace("remote %d closes", id);
    sendFin(end);
}
void Remote::abort() {
    if (closed || !end) return;
    closed = true;
    end->dead = true;
    trace("remote %d resets the connection", id);
    fault("reset");
    sendReset(end);
}
void Remote::setReading(bool on) {
    reading = on;
    if (on && end) consume(end);
}

static std::pair<End *, End *> makeConnection() {
    auto *a = new End, *b = new End;
    a->peer = b;
    b->peer = a;
    return {a, b};
}
static Remote *makeRemote(End *e) {
    auto *r = new Remote;
    r->id = nextRemote++;
    r->end = e;
    e->remote = r;
    return r;
}

Remote *connectTo(int port) {
    auto *l = listener(port);
    if (!l) return nullptr;
    auto [mine, theirs] = makeConnection();
    auto *r = makeRemote(mine);
    l->backlog.push_back(theirs);
    trace("remote %d connects to port %d", r->id, port);
    return r;
}

static Sock *newSock(int domain, int type) {
    auto *s = new Sock{nextFd++, domain, type};
    socks[s->fd] = s;
    return s;
}

static void decide(Sock *s) { // the outcome of a connection attempt
    switch (s->plan.kind) {
    case Plan::Accept: case Plan::Busy: {
        if (auto *l = s->domain == AF_UNIX ? nullptr : listener(s->peerPort)) {
            auto [mine, theirs] = makeConnection();
            s->end = mine;
            mine->sock = s;
            l->backlog.push_back(theirs);
        } else {
            auto [mine, theirs] = makeConnection();
            s->end = mine;
            mine->sock = s;
            auto *r = makeRemote(theirs);
            if (s->plan.onAccept) s->plan.onAccept(r);
        }
        s->state = Sock::Connected;
        trace("connection established");
        if (onConnectDone) onConnectDone(true);
        break;
    }
    case Plan::Refuse: s->err = ECONNREFUSED; break;
    case Plan::Unreachable: s->err = EHOSTUNREACH; break;
    case Plan::NotFound: s->err = ENOENT; break;
    case Plan::Blackhole: s->err = ETIMEDOUT; break;
    }
    if (s->err) {
        s->state = Sock::Failed;
        fault(s->plan.kind == Plan::Refuse ? "connect-refused" : s->plan.kind == Plan::Unreachable ? "unreachable" : s->plan.kind == Plan::NotFound ? "not-found" : "connect-timeout");
        trace("connection attempt failed");
        if (onConnectDone) onConnectDone(false);
    }
}

static bool ready(int fd, int type) {
    auto *s = find(fd);
    if (!s) return false;
    if (type == QSocketNotifier::Read) {
        if (s->state == Sock::Listening) return !s->backlog.empty();
        if (s->state == Sock::Failed) return true;
        return s->state == Sock::Connected && (!s->end->rx.empty() || s->end->fin || s->end->err);
    }
    if (type == QSocketNotifier::Write) {
        if (s->state == Sock::Failed) return true;
        if (s->busyUntil >= 0) return now() >= s->busyUntil;
        return s->state == Sock::Connected && (s->end->err || s->end->room() > 0);
    }
    return false;
}

static bool fake(int fd) { return fd >= FakeBase; }
static int fails(int e) { errno = e; return -1; }
static bool interrupted() {
    if (!chance(uint32_t(theProfile.interruptPercent))) return false;
    fault("EINTR");
    errno = EINTR;
    return true;
}

static ssize_t doRead(int fd, char *buf, size_t n, bool peek) {
    auto *s = find(fd);
    if (!s) return fails(EBADF);
    if (s->state == Sock::Failed) { int e = s->err ? s->err : ENOTCONN; s->err = 0; return fails(e); }
    if (s->state != Sock::Connected) return fails(ENOTCONN);
    if (interrupted()) return -1;
    auto *e = s->end;
    if (!e->rx.empty()) {
        size_t k = std::min(n, e->rx.size());
        memcpy(buf, e->rx.data(), k);
        if (!peek) e->rx.erase(0, k);
        return ssize_t(k);
    }
    if (e->err) return fails(e->err);
    if (e->fin) return 0;
    return fails(EAGAIN);
}
static ssize_t doWrite(int fd, const char *buf, size_t n) {
    auto *s = find(fd);
    if (!s) return fails(EBADF);
    if (s->state == Sock::Failed) return fails(EPIPE);
    if (s->state != Sock::Connected) return fails(ENOTCONN);
    if (interrupted()) return -1;
    auto *e = s->end;
    if (e->err || s->shutWrite) return fails(e->err ? e->err : EPIPE);
    if (n == 0) return 0;
    auto room = e->room();
    if (room <= 0) return fails(EAGAIN);
    size_t k = std::min<size_t>(n, size_t(room));
    if (k > 1 && chance(uint32_t(theProfile.splitPercent))) k = size_t(range(1, int64_t(k)));
    if (k < n) fault("short-write");
    transfer(e, buf, k);
    return ssize_t(k);
}

static void fillAddress(Sock *s, int port, struct sockaddr *a, socklen_t *len) {
    if (!a || !len) return;
    if (s->domain == AF_UNIX) {
        sockaddr_un u{};
        u.sun_family = AF_UNIX;
        memcpy(a, &u, std::min<size_t>(*len, 2));
        *len = 2;
    } else if (s->domain == AF_INET) {
        sockaddr_in in{};
        in.sin_family = AF_INET;
        in.sin_port = htons(uint16_t(port));
        in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        memcpy(a, &in, std::min<size_t>(*len, sizeof in));
        *len = sizeof in;
    } else {
        sockaddr_in6 in{};
        in.sin6_family = AF_INET6;
        in.sin6_port = htons(uint16_t(port));
        in.sin6_addr = IN6ADDR_LOOPBACK_INIT;
        memcpy(a, &in, std::min<size_t>(*len, sizeof in));
        *len = sizeof in;
    }
}
static int portOf(const struct sockaddr *a) {
    if (a->sa_family == AF_INET) return ntohs(reinterpret_cast<const sockaddr_in *>(a)->sin_port);
    if (a->sa_family == AF_INET6) return ntohs(reinterpret_cast<const sockaddr_in6 *>(a)->sin6_port);
    return 0;
}
static std::string addressOf(const struct sockaddr *a) {
    char buf[128] = "";
    if (a->sa_family == AF_INET) inet_ntop(AF_INET, &reinterpret_cast<const sockaddr_in *>(a)->sin_addr, buf, sizeof buf);
    else if (a->sa_family == AF_INET6) inet_ntop(AF_INET6, &reinterpret_cast<const sockaddr_in6 *>(a)->sin6_addr, buf, sizeof buf);
    else if (a->sa_family == AF_UNIX) return reinterpret_cast<const sockaddr_un *>(a)->sun_path;
    return buf;
}

static int doConnect(Sock *s, const struct sockaddr *a) {
    switch (s->state) {
    case Sock::Connecting: return fails(EALREADY);
    case Sock::Failed: { int e = s->err ? s->err : ECONNABORTED; s->err = 0; return fails(e); }
    case Sock::Connected: if (!s->resultTaken) { s->resultTaken = true; return 0; } return fails(EISCONN);
    case Sock::Listening: return fails(EINVAL);
    case Sock::Fresh: break;
    }
    s->peerPort = portOf(a);
    const auto addr = addressOf(a);
    if (s->domain == AF_UNIX) {
        if (s->busyUntil >= 0) { // retrying
            if (now() < s->busyUntil) return fails(EAGAIN);
            s->busyUntil = -1;
        } else {
            s->plan = onConnect ? onConnect(addr, 0) : Plan{Plan::NotFound};
            if (s->plan.kind == Plan::Busy) { fault("backlog-full"); s->busyUntil = now() + s->plan.after; s->plan.kind = s->plan.immediate ? Plan::Refuse : Plan::Accept; return fails(EAGAIN); }
        }
        decide(s);
        if (s->state == Sock::Connected) { s->resultTaken = true; return 0; }
        s->state = Sock::Fresh;
        int e = s->err;
        s->err = 0;
        return fails(e);
    }
    if (listener(s->peerPort)) { s->plan = {Plan::Accept, latency(), false, {}}; }
    else if (onConnect) s->plan = onConnect(addr, s->peerPort);
    else s->plan = {Plan::Refuse};
    if (s->port == 0) s->port = nextPort++;
    if (s->plan.immediate) {
        decide(s);
        s->resultTaken = true;
        if (s->state == Sock::Connected) return 0;
        int e = s->err;
        s->err = 0;
        return fails(e);
    }
    s->state = Sock::Connecting;
    const int fd = s->fd;
    const int64_t after = s->plan.kind == Plan::Blackhole ? 130 * sec : s->plan.after;
    kernelAt(after, [s, fd] { if (find(fd) == s) decide(s); }, "connect-decided");
    return fails(EINPROGRESS);
}

static int doClose(int fd) {
    auto *s = find(fd);
    if (!s) return fails(EBADF);
    if (s->end) {
        s->end->dead = true;
        if (!s->end->err) { if (!s->end->rx.empty()) sendReset(s->end); else sendFin(s->end); }
        s->end->sock = nullptr;
    }
    for (auto *e : s->backlog) { e->dead = true; sendReset(e); }
    socks.erase(fd); // the object stays: events may still refer to it
    return 0;
}

static int doAccept(int fd, struct sockaddr *a, socklen_t *len) {
    auto *s = find(fd);
    if (!s) return fails(EBADF);
    if (interrupted()) return -1;
    if (s->backlog.empty()) return fails(EAGAIN);
    if (chance(uint32_t(theProfile.acceptFailPercent))) { fault("accept-aborted"); s->backlog.pop_front(); return fails(ECONNABORTED); }
    auto *e = s->backlog.front();
    s->backlog.pop_front();
    auto *n = newSock(s->domain, s->type);
    n->state = Sock::Connected;
    n->resultTaken = true;
    n->end = e;
    e->sock = n;
    n->port = s->port;
    n->peerPort = e->peer->remote ? 50000 + e->peer->remote->id : e->peer->sock ? e->peer->sock->port : 60000;
    if (e->peer->remote) e->peer->remote->accepted = true;
    fillAddress(n, n->peerPort, a, len);
    return n->fd;
}

struct Install { Install() { fdReady = ready; } };
static Install install;

} // namespace sim::net

using namespace sim;
using namespace sim::net;

#define REAL(name) static auto real = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))

extern "C" {

int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
    REAL(getaddrinfo);
    if (!W->active || !inSimThread() || !node) return real(node, service, hints, res);
    const Lookup l = onLookup ? onLookup(node) : Lookup{};
    trace("lookup of %s takes %.3f ms", node, l.after / 1e6);
    struct timespec ts = {time_t(l.after / sec), long(l.after % sec)};
    if (l.after > 0) nanosleep(&ts, nullptr);
    *res = nullptr;
    struct addrinfo **tail = res;
    for (auto &a : l.addresses) {
        struct Node { struct addrinfo info; sockaddr_in6 in6; sockaddr_in in; };
        auto *n = static_cast<Node *>(calloc(1, sizeof(Node)));
        n->info.ai_socktype = SOCK_STREAM;
        if (inet_pton(AF_INET, a.c_str(), &n->in.sin_addr) == 1) {
            n->in.sin_family = AF_INET;
            n->info.ai_family = AF_INET;
            n->info.ai_addr = reinterpret_cast<sockaddr *>(&n->in);
            n->info.ai_addrlen = sizeof n->in;
        } else {
            inet_pton(AF_INET6, a.c_str(), &n->in6.sin6_addr);
            n->in6.sin6_family = AF_INET6;
            n->info.ai_family = AF_INET6;
            n->info.ai_addr = reinterpret_cast<sockaddr *>(&n->in6);
            n->info.ai_addrlen = sizeof n->in6;
        }
        *tail = &n->info;
        tail = &n->info.ai_next;
    }
    if (l.addresses.empty()) { fault("lookup-failed"); return EAI_NONAME; }
    return 0;
}
void freeaddrinfo(struct addrinfo *a) noexcept {
    REAL(freeaddrinfo);
    if (!W->active || !inSimThread()) { real(a); return; }
    while (a) { auto *n = a->ai_next; free(a); a = n; }
}

int socket(int domain, int type, int protocol) {
    REAL(socket);
    if (!W->active || (domain != AF_INET && domain != AF_INET6 && domain != AF_UNIX) || (type & 0xf) != SOCK_STREAM) return real(domain, type, protocol);
    return newSock(domain, type & 0xf)->fd;
}
int connect(int fd, const struct sockaddr *a, socklen_t len) {
    REAL(connect);
    if (!fake(fd)) return real(fd, a, len);
    auto *s = find(fd);
    return s ? doConnect(s, a) : fails(EBADF);
}
int bind(int fd, const struct sockaddr *a, socklen_t len) noexcept {
    REAL(bind);
    if (!fake(fd)) return real(fd, a, len);
    auto *s = find(fd);
    s->port = portOf(a);
    if (s->port == 0) s->port = nextPort++;
    return 0;
}
int listen(int fd, int n) noexcept {
    REAL(listen);
    if (!fake(fd)) return real(fd, n);
    find(fd)->state = Sock::Listening;
    return 0;
}
int accept4(int fd, struct sockaddr *a, socklen_t *len, int flags) {
    REAL(accept4);
    return fake(fd) ? doAccept(fd, a, len) : real(fd, a, len, flags);
}
int accept(int fd, struct sockaddr *a, socklen_t *len) {
    REAL(accept);
    return fake(fd) ? doAccept(fd, a, len) : real(fd, a, len);
}
int getsockname(int fd, struct sockaddr *a, socklen_t *len) noexcept {
    REAL(getsockname);
    if (!fake(fd)) return real(fd, a, len);
    auto *s = find(fd);
    if (!s) return fails(EBADF);
    fillAddress(s, s->port, a, len);
    return 0;
}
int getpeername(int fd, struct sockaddr *a, socklen_t *len) noexcept {
    REAL(getpeername);
    if (!fake(fd)) return real(fd, a, len);
    auto *s = find(fd);
    if (!s || s->state != Sock::Connected) return fails(ENOTCONN);
    fillAddress(s, s->peerPort, a, len);
    return 0;
}
int getsockopt(int fd, int level, int name, void *v, socklen_t *len) noexcept {
    REAL(getsockopt);
    if (!fake(fd)) return real(fd, level, name, v, len);
    auto *s = find(fd);
    if (!s) return fails(EBADF);
    int r = 0;
    if (level == SOL_SOCKET && name == SO_TYPE) r = s->type;
    else if (level == SOL_SOCKET && name == SO_ERROR) {
        if (s->end && s->end->err) r = s->end->err;
        else { r = s->err; s->err = 0; }
    } else if (level == SOL_SOCKET && name == SO_DOMAIN) r = s->domain;
    else if (level == SOL_SOCKET && (name == SO_RCVBUF || name == SO_SNDBUF)) r = 65536;
    if (v && len && *len >= sizeof r) { memcpy(v, &r, sizeof r); *len = sizeof r; }
    return 0;
}
int setsockopt(int fd, int level, int name, const void *v, socklen_t len) noexcept {
    REAL(setsockopt);
    return fake(fd) ? 0 : real(fd, level, name, v, len);
}
int shutdown(int fd, int how) noexcept {
    REAL(shutdown);
    if (!fake(fd)) return real(fd, how);
    auto *s = find(fd);
    if (!s || !s->end) return fails(ENOTCONN);
    if (how != SHUT_RD) { s->shutWrite = true; sendFin(s->end); }
    return 0;
}
int close(int fd) {
    REAL(close);
    return fake(fd) ? doClose(fd) : real(fd);
}
ssize_t read(int fd, void *buf, size_t n) {
    REAL(read);
    return fake(fd) ? doRead(fd, static_cast<char *>(buf), n, false) : real(fd, buf, n);
}
ssize_t recv(int fd, void *buf, size_t n, int flags) {
    REAL(recv);
    return fake(fd) ? doRead(fd, static_cast<char *>(buf), n, flags & MSG_PEEK) : real(fd, buf, n, flags);
}
ssize_t recvmsg(int fd, struct msghdr *m, int flags) {
    REAL(recvmsg);
    if (!fake(fd)) return real(fd, m, flags);
    m->msg_flags = 0;
    m->msg_controllen = 0;
    return doRead(fd, static_cast<char *>(m->msg_iov[0].iov_base), m->msg_iov[0].iov_len, flags & MSG_PEEK);
}
ssize_t write(int fd, const void *buf, size_t n) {
    REAL(write);
    return fake(fd) ? doWrite(fd, static_cast<const char *>(buf), n) : real(fd, buf, n);
}
ssize_t send(int fd, const void *buf, size_t n, int flags) {
    REAL(send);
    return fake(fd) ? doWrite(fd, static_cast<const char *>(buf), n) : real(fd, buf, n, flags);
}
ssize_t sendmsg(int fd, const struct msghdr *m, int flags) {
    REAL(sendmsg);
    return fake(fd) ? doWrite(fd, static_cast<const char *>(m->msg_iov[0].iov_base), m->msg_iov[0].iov_len) : real(fd, m, flags);
}
int ioctl(int fd, unsigned long req, ...) noexcept {
    va_list ap;
    va_start(ap, req);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    static auto real = reinterpret_cast<int (*)(int, unsigned long, ...)>(dlsym(RTLD_NEXT, "ioctl"));
    if (!fake(fd)) return real(fd, req, arg);
    auto *s = find(fd);
    if (!s) return fails(EBADF);
    if (req == FIONREAD) *static_cast<int *>(arg) = s->end ? int(s->end->rx.size()) : 0;
    return 0;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    static auto real = reinterpret_cast<int (*)(int, int, ...)>(dlsym(RTLD_NEXT, "fcntl"));
    if (!fake(fd)) return real(fd, cmd, arg);
    auto *s = find(fd);
    if (!s) return fails(EBADF);
    if (cmd == F_GETFL) return s->flags;
    if (cmd == F_SETFL) s->flags = int(arg);
    return 0;
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    return fcntl(fd, cmd, arg);
}

} // extern "C"
