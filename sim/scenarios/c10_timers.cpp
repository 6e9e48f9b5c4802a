// C10: sleeping and awaiting timers resume once, not early, and never get lost.
#include <limits>
#include "common.h"
#include "qcorotimer.h"

#include <chrono>

using namespace sim;
using std::chrono::nanoseconds, std::chrono::microseconds, std::chrono::milliseconds, std::chrono::seconds, std::chrono::hours, std::chrono::duration, std::chrono::duration_cast, std::chrono::steady_clock, std::chrono::system_clock, std::chrono::time_point_cast;

namespace {

// A clock of the application: neither steady_clock nor system_clock, with its own epoch and unit.
struct AppClock {
    using duration = std::chrono::duration<int64_t, std::ratio<1, 50>>; // 20 ms ticks
    using rep = duration::rep;
    using period = duration::period;
    using time_point = std::chrono::time_point<AppClock>;
    static constexpr bool is_steady = true;
    static time_point now() { return time_point(duration(4711 + sim::now() / (20 * ms))); }
};

struct Sleep {
    int id;
    int64_t from = 0, target = 0; // ns
    bool started = false;
    int resumed = 0;
    const char *kind = "";
};
std::vector<Sleep *> sleeps;

template<typename D> Detached sleepFor(Sleep *s, D d) {
    s->started = true;
    s->from = now();
    const auto exact = duration_cast<duration<double, std::nano>>(d).count();
    s->target = exact <= 0 ? s->from : s->from + int64_t(std::ceil(exact - 1e-3));
    trace("sleep %d for %.6f ms", s->id, exact / 1e6);
    co_await QCoro::sleepFor(d);
    ++s->resumed;
    trace("sleep %d over", s->id);
    SIM_CHECK(now() >= s->target, "woke-early", "sleeping %.6f ms ended after %.6f ms", (s->target - s->from) / 1e6, (now() - s->from) / 1e6);
    SIM_CHECK(s->resumed == 1, "resumed-twice", "one sleep ended %d times", s->resumed);
}

template<typename Clock, typename D> Detached sleepUntil(Sleep *s, std::chrono::time_point<Clock, D> when) {
    s->started = true;
    s->from = now();
    const auto left = duration_cast<nanoseconds>(when - Clock::now()).count();
    s->target = left <= 0 ? s->from : s->from + left;
    if (left <= 0) probe("until-past");
    trace("sleep %d until %.6f ms from now", s->id, left / 1e6);
    if (chance(50)) co_await QCoro::sleepUntil(when);
    else { auto task = QCoro::sleepUntil(when); co_await task; }
    ++s->resumed;
    trace("sleep %d over", s->id);
    SIM_CHECK(now() >= s->target, "woke-early", "%s: sleeping until a time %.6f ms away ended after %.6f ms", s->kind, (s->target - s->from) / 1e6, (now() - s->from) / 1e6);
    SIM_CHECK(s->resumed == 1, "resumed-twice", "one sleep ended %d times", s->resumed);
}

void startSleep(Sleep *s) {
    const int64_t v = range(0, 100'000'000) * (chance(20) ? 1 : 0);
    switch (choose(16)) {
    case 0: s->kind = "ns"; sleepFor(s, nanoseconds(v)); break;
    case 1: s->kind = "us"; sleepFor(s, microseconds(choose(50000))); break;
    case 2: case 3: s->kind = "ms"; sleepFor(s, milliseconds(choose(100))); break;
    case 4: s->kind = "s"; sleepFor(s, seconds(choose(4))); break;
    case 5: s->kind = "double"; sleepFor(s, duration<double>(choose(3000) / 1000.0)); break;
    case 6: s->kind = "float-ms"; sleepFor(s, duration<float, std::milli>(float(choose(300)) / 3)); break;
    case 7: s->kind = "negative"; probe("negative"); sleepFor(s, milliseconds(-1 - int(choose(5000)))); break;
    case 8: s->kind = "days"; probe("sleep-for-weeks"); sleepFor(s, hours(24 * (1 + choose(60)))); break;
    case 9: s->kind = "steady_clock"; sleepUntil(s, steady_clock::now() + milliseconds(int(choose(200)) - 50)); break;
    case 10: s->kind = "steady_clock"; sleepUntil(s, time_point_cast<milliseconds>(steady_clock::now()) + milliseconds(int(choose(200)) - 50)); break;
    case 11: s->kind = "system_clock"; sleepUntil(s, system_clock::now() + milliseconds(int(choose(200)) - 50)); break;
    case 12: s->kind = "system_clock"; sleepUntil(s, system_clock::from_time_t(system_clock::to_time_t(system_clock::now()) + 2)); break;
    case 13: s->kind = "app clock"; sleepUntil(s, AppClock::now() + AppClock::duration(int(choose(10)) - 2)); break;
    case 14: s->kind = "epoch"; sleepUntil(s, system_clock::time_point()); break;
    default: s->kind = "us-lattice"; sleepFor(s, microseconds(500 * (1 + choose(9)))); break;
    }
}

// Durations and time points at the far ends of their types: sleeps that never end, and such that end at once.
struct Extreme { const char *kind; bool endless; int64_t from = 0; int resumed = 0; int64_t at = 0; };
std::vector<Extreme *> extremes;
Detached extremeSleep(Extreme *e, QCoro::Task<> (*start)()) {
    e->from = now();
    trace("%s sleep: %s", e->endless ? "endless" : "past", e->kind);
    co_await start();
    ++e->resumed;
    e->at = now();
    SIM_CHECK(!e->endless, "woke-early", "an endless sleep (%s) ended after %.6f ms", e->kind, (e->at - e->from) / 1e6);
    SIM_CHECK(e->resumed == 1, "resumed-twice", "one sleep ended %d times", e->resumed);
}
template<typename D> QCoro::Task<> longest() { return QCoro::sleepFor(D::max()); }
template<typename D> QCoro::Task<> shortest() { return QCoro::sleepFor(D::min()); }
template<typename C, typename D> QCoro::Task<> latest() { return QCoro::sleepUntil(std::chrono::time_point<C, D>::max()); }
template<typename C, typename D> QCoro::Task<> earliest() { return QCoro::sleepUntil(std::chrono::time_point<C, D>::min()); }
void planExtreme() {
    struct Kind { const char *name; bool endless; QCoro::Task<> (*start)(); };
    using D = duration<double>;
    static const Kind kinds[] = {
        {"nanoseconds::max()", true, longest<nanoseconds>}, {"milliseconds::max()", true, longest<milliseconds>},
        {"seconds::max()", true, longest<seconds>}, {"hours::max()", true, longest<hours>}, {"int seconds", true, longest<duration<int>>},
        {"infinity", true, [] { return QCoro::sleepFor(D(std::numeric_limits<double>::infinity())); }}, {"double max", true, longest<D>},
        {"nanoseconds::min()", false, shortest<nanoseconds>}, {"seconds::min()", false, shortest<seconds>}, {"hours::min()", false, shortest<hours>},
        {"-infinity", false, [] { return QCoro::sleepFor(D(-std::numeric_limits<double>::infinity())); }},
        {"steady_clock max", true, latest<steady_clock, steady_clock::duration>}, {"system_clock max", true, latest<system_clock, system_clock::duration>},
        {"system seconds max", true, latest<system_clock, seconds>}, {"app clock max", true, latest<AppClock, AppClock::duration>},
        {"steady_clock min", false, earliest<steady_clock, steady_clock::duration>}, {"system_clock min", false, earliest<system_clock, system_clock::duration>},
        {"system seconds min", false, earliest<system_clock, seconds>}, {"app clock min", false, earliest<AppClock, AppClock::duration>},
    };
    const auto &k = kinds[choose(std::size(kinds))];
    auto *e = new Extreme{k.name, k.endless};
    extremes.push_back(e);
    at(delay(50 * ms), [e, start = k.start] { extremeSleep(e, start); }, "sleep");
    at(20 * sec, [e] { if (!e->endless) SIM_CHECK(e->resumed == 1, "late", "a sleep that was over from the start (%s) still goes on after %.0f ms", e->kind, (now() - e->from) / 1e6); }, "deadline");
}

struct Timer {
    int id;
    QTimer *t = nullptr;
    int fired = 0;
    bool inTimeout = false;
};
std::vector<Timer *> timers;
struct Await {
    Timer *t;
    int form;
    bool waiting = false;
    int firedBefore = 0;
    int resumed = 0;
};
std::vector<Await *> awaits;

QCoro::Task<> awaitTimer(Timer *t, int form, int rounds) {
    for (int i = 0; i < rounds; ++i) {
        if (!t->t) co_return;
        auto *a = new Await{t, form};
        awaits.push_back(a);
        const bool active = t->t->isActive();
        a->firedBefore = t->fired;
        a->waiting = true;
        const uint32_t step = steps();
        trace("await timer %d (%s)", t->id, active ? "active" : "inactive");
        switch (form) {
        case 0: co_await *t->t; break;
        case 1: co_await t->t; break;
        case 2: co_await qCoro(t->t).waitForTimeout(); break;
        default: co_await qCoro(*t->t).waitForTimeout(); break;
        }
        a->waiting = false;
        ++a->resumed;
        trace("resumed on timer %d", t->id);
        SIM_CHECK(a->resumed == 1, "resumed-twice", "one await of a timer resumed %d times", a->resumed);
        if (active) {
            SIM_CHECK(t->fired > a->firedBefore, "woke-early", "the awaiter of a timer was resumed although it did not fire");
            if (form < 2) SIM_CHECK(t->fired == a->firedBefore + 1, "late", "the awaiter was resumed at timeout %d instead of the next one", t->fired - a->firedBefore);
        } else {
            probe("inactive");
            SIM_CHECK(steps() == step && t->fired == a->firedBefore, "suspended", "awaiting an inactive timer suspended the coroutine");
        }
        if (chance(30)) co_await Gate(delay(20 * ms));
    }
}

// There is no timer: nothing to wait for.
QCoro::Task<> awaitGone(Timer *t) {
    QPointer<QTimer> p = t->t;
    if (!p) co_return;
    trace("timer %d is destroyed before it is awaited", t->id);
    probe("destroyed-before");
    delete t->t;
    t->t = nullptr;
    const uint32_t step = steps();
    co_await p.data();
    SIM_CHECK(steps() == step, "suspended", "awaiting a timer that is gone suspended the coroutine");
}

void idle() {
    for (auto *s : sleeps) {
        if (!s->started || s->resumed) continue;
        // timers count in milliseconds
        const int64_t d = (s->target - s->from + ms - 1) / ms * ms;
        SIM_CHECK(now() < s->from + d, "overslept", "%s: a sleep of %.6f ms has not ended after %.6f ms", s->kind, (s->target - s->from) / 1e6, (now() - s->from) / 1e6);
    }
    for (auto *a : awaits)
        if (a->waiting) SIM_CHECK(a->t->fired == a->firedBefore, "missed-timeout", "the timer fired but its awaiter was not resumed");
}

} // namespace

SIM_SCENARIO("C10", sleeping, 1) {
    swarm();
    onIdle(idle);
    if (chance(40)) setWallOffset(int64_t(choose(20000)) * 1000 * sec);
    for (int i = 1 + int(choose(6)); i > 0; --i) {
        auto *s = new Sleep{i};
        sleeps.push_back(s);
        at(delay(100 * ms), [s] { startSleep(s); }, "sleep");
    }
    SIM_CHECK(run(100 * 24 * 3600 * sec), "not-idle", "the program is still busy after 100 days");
    idle();
    for (auto *s : sleeps) SIM_CHECK(s->resumed == 1, "never-woke", "%s: a sleep of %.6f ms never ended", s->kind, (s->target - s->from) / 1e6);
}

SIM_SCENARIO("C10", timers, 1) {
    swarm();
    onIdle(idle);
    for (int i = 1 + int(choose(3)); i > 0; --i) {
        auto *t = new Timer{i, new QTimer};
        timers.push_back(t);
        t->t->setSingleShot(chance(50));
        t->t->setInterval(pick<int>({1, 2, 5, 10, 25}) * (t->t->isSingleShot() && chance(30) ? 0 : 1));
        QObject::connect(t->t, &QTimer::timeout, [t] { ++t->fired; trace("timer %d fires", t->id); });
        if (chance(75)) at(delay(50 * ms), [t] { if (t->t) t->t->start(); }, "start");
        for (int k = int(choose(4)); k > 0; --k) at(delay(120 * ms), [t] { // meddle with the timer
            if (!t->t) return;
            switch (choose(5)) {
            case 0: t->t->stop(); probe("stopped"); break;
            case 1: t->t->start(int(choose(20)) + 1); probe("restarted"); break;
            case 2: t->t->setInterval(int(choose(30)) + 1); probe("interval-changed"); break;
            case 3: t->t->start(); break;
            case 4: if (chance(40)) { probe("timer-destroyed"); delete t->t; t->t = nullptr; } break;
            }
        }, "meddle");
        at(300 * ms, [t] { if (t->t) t->t->stop(); }, "stop");
        for (int k = int(choose(4)); k > 0; --k) {
            const int form = int(choose(4)), rounds = 1 + int(choose(4));
            at(delay(120 * ms), [=] { awaitTimer(t, form, rounds); }, "await");
        }
        if (chance(5)) at(delay(200 * ms), [=] { awaitGone(t); }, "await");
    }
    SIM_CHECK(run(), "not-idle", "the program is still busy after an hour");
    idle();
}

SIM_SCENARIO("C10", extremes, 1) {
    swarm();
    for (int n = 1 + int(choose(4)); n > 0; --n) planExtreme();
    run(chance(80) ? 60 * sec : 100 * 24 * 3600 * sec); // endless sleeps never leave the program idle
    for (auto *e : extremes) SIM_CHECK(e->resumed == (e->endless ? 0 : 1), "never-resumed", "a sleep (%s) ended %d times", e->kind, e->resumed);
}
