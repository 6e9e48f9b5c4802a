// A scripted sequential device: bytes arrive, get flushed and the device closes when the
// simulated world says so.
#pragma once
#include "common.h"

#include <QIODevice>

namespace sim {

class SimDevice : public QIODevice {
public:
    // -- the world's side
    void arrive(const QByteArray &chunk) {
        mIn += chunk;
        arrived += chunk;
        trace("arrived %d bytes", int(chunk.size()));
        Q_EMIT readyRead();
    }
    qint64 flush(qint64 n) {
        n = std::min<qint64>(n, mOut.size());
        if (n <= 0) return 0;
        mOut.remove(0, n);
        flushed += n;
        trace("flushed %d bytes", int(n));
        Q_EMIT bytesWritten(n);
        return n;
    }
    // Only n bytes get through, the rest of the buffer is dropped (like QSerialPort::clear()).
    void flushAndDrop(qint64 n) {
        mOut.truncate(n);
        trace("the device drops its buffer, %d bytes are left", int(n));
        flush(n);
    }
    QByteArray arrived;  // everything that ever arrived
    QByteArray accepted; // everything that was accepted by write()
    qint64 flushed = 0;
    int shortWrite = 0;  // 1: accept half, 2: accept nothing, 3: fail
    bool destroyed = false;
    bool closed = false;

    // -- QIODevice
    bool isSequential() const override { return true; }
    qint64 bytesAvailable() const override { return mIn.size() + QIODevice::bytesAvailable(); }
    qint64 bytesToWrite() const override { return mOut.size() + QIODevice::bytesToWrite(); }
    bool canReadLine() const override { return mIn.contains('\n') || QIODevice::canReadLine(); }
    void close() override {
        if (!isOpen()) return;
        trace("device closes");
        closed = true;
        QIODevice::close(); // emits aboutToClose() first
        mIn.clear();
        mOut.clear();
    }

protected:
    qint64 readData(char *data, qint64 max) override {
        const auto n = std::min<qint64>(max, mIn.size());
        memcpy(data, mIn.constData(), n);
        mIn.remove(0, n);
        return n;
    }
    qint64 writeData(const char *data, qint64 len) override {
        switch (shortWrite) {
        case 1: len = (len + 1) / 2; fault("short-write"); break;
        case 2: fault("short-write"); return 0;
        case 3: fault("write-error"); return -1;
        }
        mOut.append(data, len);
        accepted.append(data, len);
        return len;
    }

private:
    QByteArray mIn, mOut;
};

// Bytes whose value depends on their position, with line ends in between.
inline bool longLines = false;
inline QByteArray streamBytes(qint64 pos, int n) {
    QByteArray b;
    for (int i = 0; i < n; ++i, ++pos) {
        const uint32_t h = uint32_t(pos * 2654435761u);
        b.append((h >> 20) % (longLines ? 3000 : 9) == 0 ? '\n' : char(h >> 13) == '\n' ? 'n' : char(h >> 13));
    }
    return b;
}

} // namespace sim
