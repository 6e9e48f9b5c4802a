// Helpers shared by the scenarios.
#pragma once
#include "sim.h"

#include <QByteArray>
#include <QString>
#include <QTimer>
#include <QVariant>

#include <coroutine>
#include <exception>
#include <memory>
#include <optional>
#include <stdexcept>
#include <vector>

#include "qcorotask.h"

namespace sim {

// Exceptions with identity.
struct Err : std::runtime_error {
    int id;
    explicit Err(int i) : std::runtime_error("err" + std::to_string(i)), id(i) {}
};
struct OtherErr { int id; }; // not derived from std::exception

// Suspends and is resumed by an environment event some time later.
struct Gate {
    int64_t d;
    explicit Gate(int64_t delayNs) : d(delayNs) {}
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> h) { at(d, [h] { h.resume(); }, "gate"); }
    void await_resume() const noexcept {}
};
// The same through a member operator co_await.
struct GateMember {
    int64_t d;
    Gate operator co_await() const { return Gate(d); }
};
// Opened explicitly.
struct Latch {
    bool open = false;
    std::vector<std::coroutine_handle<>> waiting;
    void release() {
        open = true;
        auto w = std::move(waiting);
        waiting.clear();
        for (auto h : w) h.resume();
    }
    struct Awaiter {
        Latch &l;
        bool await_ready() const noexcept { return l.open; }
        void await_suspend(std::coroutine_handle<> h) { l.waiting.push_back(h); }
        void await_resume() const noexcept {}
    };
    Awaiter operator co_await() { return {*this}; }
};

// A fire-and-forget coroutine that does not use QCoro (so that the drivers do not depend on
// what they test). An escaping exception is a violation.
struct Detached {
    struct promise_type {
        Detached get_return_object() noexcept { return {}; }
        std::suspend_never initial_suspend() const noexcept { return {}; }
        std::suspend_never final_suspend() const noexcept { return {}; }
        void return_void() const noexcept {}
        void unhandled_exception() const {
            try { throw; }
            catch (const std::exception &e) { fail("unexpected-exception", "unexpected exception %s", e.what()); }
            catch (...) { fail("unexpected-exception", "unexpected exception"); }
        }
    };
};
} // namespace sim
