// A job: a coroutine with a random life (suspensions, nested calls) and a prescribed outcome,
// plus the bookkeeping the oracles need.
#pragma once
#include "common.h"
#include "qcorotimer.h"

namespace sim {

enum class End { Value, StdErr, Other };

struct Outcome { // what an awaiter saw / should see
    End end = End::Value;
    int id = 0;
    bool operator==(const Outcome &) const = default;
    const char *name() const { return end == End::Value ? "value" : end == End::StdErr ? "error" : "other-error"; }
};

struct Job {
    int id = 0;
    int pauses = 0;
    int64_t pauseMax = 20 * ms;
    Outcome outcome;
    int runs = 0;             // how often the body started
    int finishedCount = 0;    // how often the body ended
    // live tokens belonging to this job's coroutine, by role
    int args = 0, locals = 0, results = 0, errors = 0;
    bool finished() const { return finishedCount > 0; }
    static Job *random(int id, int maxPauses = 3) {
        auto *j = new Job; // lives until the end of the run
        j->id = id;
        j->pauses = int(choose(uint32_t(maxPauses + 1)));
        j->outcome = {End(choose(8) < 5 ? 0 : 1 + choose(2)), id};
        return j;
    }
};

// Counts itself in one of a job's counters; detects use after destruction.
class Tracked {
public:
    Tracked() = default;
    explicit Tracked(int *counter) : mCounter(counter) { if (mCounter) ++*mCounter; }
    Tracked(const Tracked &o) : Tracked(o.mCounter) {}
    Tracked(Tracked &&o) noexcept : Tracked(o.mCounter) {}
    Tracked &operator=(const Tracked &o) { Tracked t(o); std::swap(mCounter, t.mCounter); return *this; }
    ~Tracked() {
        SIM_CHECK(mMagic == 0x600df00d, "double-destruction", "an object held by a coroutine was destroyed twice");
        mMagic = 0;
        if (mCounter) { --*mCounter; SIM_CHECK(*mCounter >= 0, "double-destruction", "more objects destroyed than created"); }
    }
    bool alive() const { return mMagic == 0x600df00d; }
private:
    int *mCounter = nullptr;
    unsigned mMagic = 0x600df00d;
};

struct JobErr : Err {
    JobErr(int i, int *c) : Err(i), t(c) {}
    Tracked t;
};

struct Tagged { // result type with a payload and tracking
    Tagged() = default;
    Tagged(int i, int *c) : id(i), t(c) {}
    int id = 0;
    Tracked t;
};

struct JobEnd {
    Job *j;
    ~JobEnd() { ++j->finishedCount; trace("job %d ends", j->id); }
};

inline QCoro::Task<> jobNested(int depth, int64_t d) {
    if (depth > 0) co_await jobNested(depth - 1, d);
    else co_await Gate(d);
}

template<template<typename> class TaskT, typename T>
TaskT<T> job(Job *j, Tracked arg) {
    JobEnd end{j};
    ++j->runs;
    trace("job %d starts", j->id);
    Tracked local(&j->locals);
    for (int i = 0; i < j->pauses; ++i) {
        switch (choose(4)) {
        case 0: co_await Gate(delay(j->pauseMax)); break;
        case 1: co_await QCoro::sleepFor(std::chrono::milliseconds(choose(20))); break;
        case 2: co_await jobNested(int(choose(4)), delay(j->pauseMax)); break;
        case 3: { QTimer t; t.start(int(choose(8))); co_await t; break; }
        }
        SIM_CHECK(arg.alive() && local.alive(), "destroyed-early", "the arguments or locals of a suspended coroutine are gone");
    }
    if (j->outcome.end == End::StdErr) throw JobErr(j->id, &j->errors);
    if (j->outcome.end == End::Other) throw OtherErr{j->id};
    if constexpr (std::is_void_v<T>) co_return;
    else if constexpr (std::is_same_v<T, int>) co_return j->id;
    else if constexpr (std::is_same_v<T, Tagged>) co_return Tagged(j->id, &j->results);
    else if constexpr (std::is_same_v<T, QString>) co_return QStringLiteral("job %1").arg(j->id);
    else co_return std::make_unique<Tagged>(j->id, &j->results);
}

inline int valueId(int v) { return v; }
inline int valueId(const Tagged &v) { SIM_CHECK(v.t.alive(), "destroyed-early", "the result is gone"); return v.id; }
inline int valueId(const QString &s) { return s.startsWith(QLatin1String("job ")) ? s.mid(4).toInt() : -1; }
inline int valueId(const std::unique_ptr<Tagged> &v) { return v ? v->id : -1; }

// Runs `fn` and reports how it ended.
#define SIM_OUTCOME(expr_returning_id) \
    [&]() -> ::sim::Outcome { \
        try { return {::sim::End::Value, (expr_returning_id)}; } \
        catch (const ::sim::Err &e) { return {::sim::End::StdErr, e.id}; } \
        catch (const ::sim::OtherErr &e) { return {::sim::End::Other, e.id}; } \
    }()

inline void checkOutcome(const Outcome &got, const Outcome &want, const char *what) {
    SIM_CHECK(got == want, "wrong-outcome", "%s: expected %s %d, got %s %d", what, want.name(), want.id, got.name(), got.id);
}
} // namespace sim
