// Helpers for the scenarios that run several threads.
#pragma once
#include "common.h"

#include <QThread>
#include <QTimer>

namespace sim {

// Suspends and resumes later on the thread it was awaited on.
struct ThreadGate {
    int ms;
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> h) { QTimer::singleShot(ms, [h] { h.resume(); }); }
    void await_resume() const noexcept {}
};

// A thread that runs an event loop until the end of the run.
inline QThread *eventThread(const char *name, bool started = true) {
    auto *t = new QThread;
    prepareThread(t, name);
    if (started) t->start();
    return t;
}
inline void onThread(QThread *t, std::function<void()> fn) {
    if (t == QThread::currentThread()) return fn();
    auto *o = new QObject;
    o->moveToThread(t);
    QMetaObject::invokeMethod(o, [o, fn] { fn(); o->deleteLater(); }, Qt::QueuedConnection);
}

// How often threads switch: from at almost every instruction block to rarely.
inline void swarmThreads() {
    static const uint32_t gaps[] = {400, 3, 12, 40, 120};
    setYieldGap(gaps[choose(5)]);
}
} // namespace sim
