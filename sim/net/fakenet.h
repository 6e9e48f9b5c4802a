// A simulated network: sockets of the program under test are kept inside the simulator
// (libc's socket calls are replaced), their peers are scripted or further sockets of the program.
#pragma once
#include "common.h"

#include <deque>

namespace sim::net {

struct End; // one end of a connection

// The scripted far end of a connection of the program.
struct Remote {
    int id = 0;
    std::string received;      // what the program sent and this end has read
    bool finReceived = false;  // the program closed its side
    bool resetReceived = false;
    bool closed = false;       // this end closed or reset the connection
    bool accepted = false;     // (incoming connections) the program accepted it
    std::function<void()> onData, onFin;

    bool send(const QByteArray &data); // false if no longer possible
    void close();              // orderly, after everything sent
    void abort();              // reset
    void setReading(bool on);  // flow control
    std::string sent;
    End *end = nullptr;
    bool reading = true;
};

struct Plan { // what happens to a connection attempt
    enum Kind { Accept, Refuse, Unreachable, NotFound, Blackhole, Busy } kind = Accept;
    int64_t after = 0;         // until the outcome (Busy: until it becomes Accept)
    bool immediate = false;    // the outcome is known when connect() returns
    std::function<void(Remote *)> onAccept;
};
// Decides about connection attempts that do not go to a listening socket of the program.
extern std::function<Plan(const std::string &address, int port)> onConnect;
// Called (in kernel context) when an outgoing attempt is decided.
extern std::function<void(bool ok)> onConnectDone;

// Decides about lookups of host names; runs on the resolver's thread.
struct Lookup {
    int64_t after = 0;
    std::vector<std::string> addresses; // none: the lookup fails
};
extern std::function<Lookup(const std::string &name)> onLookup;

// A scripted client connects to a listening TCP port (or path) of the program; nullptr if nobody listens.
Remote *connectTo(int port);

struct Profile {
    int64_t latencyMax = 5 * ms; // one way
    int splitPercent = 40;       // a transfer is delivered in pieces
    int interruptPercent = 5;    // EINTR
    int64_t window = 65536;      // bytes in flight or unread per direction
    int acceptFailPercent = 0;
};
Profile &profile();
void swarmNet();                 // random profile

int openSockets();               // sockets the program has open
bool listening(int port);

} // namespace sim::net
