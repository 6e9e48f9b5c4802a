// The far end of a WebSocket connection, as a script on a raw simulated connection.
#pragma once
#include "fakenet.h"

#include <QCryptographicHash>

namespace sim::net {

inline std::string wsFrame(int opcode, bool fin, const std::string &payload, bool masked) {
    std::string f;
    f += char((fin ? 0x80 : 0) | opcode);
    const auto n = payload.size();
    const int m = masked ? 0x80 : 0;
    if (n < 126) f += char(m | int(n));
    else if (n < 65536) { f += char(m | 126); f += char(n >> 8); f += char(n & 255); }
    else { f += char(m | 127); for (int i = 7; i >= 0; --i) f += char((uint64_t(n) >> (8 * i)) & 255); }
    if (masked) {
        static const char key[4] = {0x11, 0x22, 0x33, 0x44};
        f.append(key, 4);
        for (size_t i = 0; i < n; ++i) f += char(payload[i] ^ key[i & 3]);
    } else f += payload;
    return f;
}

// Splits what arrived into the HTTP head and frames.
struct WsPeer {
    Remote *r;
    bool server;                // this end plays the server
    bool upgraded = false;      // the head was received
    std::string head, buffer;
    size_t taken = 0;
    bool closeSeen = false;
    std::function<void()> onHead;
    std::function<void(int opcode, bool fin, const std::string &payload)> onFrame;

    WsPeer(Remote *remote, bool isServer) : r(remote), server(isServer) {
        r->onData = [this] { arrived(); };
    }
    void arrived() {
        buffer += r->received.substr(taken);
        taken = r->received.size();
        if (!upgraded) {
            const auto end = buffer.find("\r\n\r\n");
            if (end == std::string::npos) return;
            head = buffer.substr(0, end + 4);
            buffer.erase(0, end + 4);
            upgraded = true;
            if (onHead) onHead();
        }
        for (;;) {
            if (buffer.size() < 2) return;
            const auto *b = reinterpret_cast<const unsigned char *>(buffer.data());
            size_t n = b[1] & 0x7f, pos = 2;
            if (n == 126) { if (buffer.size() < 4) return; n = size_t(b[2]) << 8 | b[3]; pos = 4; }
            else if (n == 127) { if (buffer.size() < 10) return; n = 0; for (int i = 0; i < 8; ++i) n = n << 8 | b[2 + i]; pos = 10; }
            const bool masked = b[1] & 0x80;
            if (buffer.size() < pos + (masked ? 4 : 0) + n) return;
            std::string payload = buffer.substr(pos + (masked ? 4 : 0), n);
            if (masked) for (size_t i = 0; i < n; ++i) payload[i] = char(payload[i] ^ buffer[pos + (i & 3)]);
            const int opcode = b[0] & 15;
            const bool fin = b[0] & 0x80;
            buffer.erase(0, pos + (masked ? 4 : 0) + n);
            if (opcode == 8) closeSeen = true;
            if (onFrame) onFrame(opcode, fin, payload);
        }
    }
    std::string header(const char *name) const {
        std::string lower = head, key = std::string("\r\n") + name + ": ";
        for (auto &c : lower) c = char(tolower(c));
        for (auto &c : key) c = char(tolower(c));
        const auto p = lower.find(key);
        if (p == std::string::npos) return {};
        return head.substr(p + key.size(), head.find("\r\n", p + 2) - p - key.size());
    }
    void acceptUpgrade() {
        const QByteArray key = QByteArray::fromStdString(header("Sec-WebSocket-Key")) + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
        r->send("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: "
                + QCryptographicHash::hash(key, QCryptographicHash::Sha1).toBase64() + "\r\n\r\n");
    }
    void requestUpgrade() {
        r->send("GET / HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"
                "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n");
    }
    void send(int opcode, const QByteArray &payload, bool fin = true) {
        r->send(QByteArray::fromStdString(wsFrame(opcode, fin, payload.toStdString(), !server)));
    }
};

} // namespace sim::net
