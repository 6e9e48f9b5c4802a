// C08: awaiting a signal yields the first emission, or empty after the timeout.
#include "common.h"
#include "qcorosignal.h"
#include "qcorotimer.h"
#include "threadgate.h"

#include <QVariantAnimation>

using namespace sim;

namespace {

struct Payload { // counts its copies
    Payload() = default;
    explicit Payload(int i) : id(i), t(7) {}
    int id = 0;
    Token t{7};
};

class Sender : public QObject {
    Q_OBJECT
public:
    void firePrivate() { Q_EMIT privNone(QPrivateSignal()); }
    void firePrivateInt(int i) { Q_EMIT privInt(i, QPrivateSignal()); }
    void firePrivateTwo(int i) { Q_EMIT privTwo(i, QString::number(i), QPrivateSignal()); }
Q_SIGNALS:
    void none();
    void one(int);
    void text(const QString &);
    void payload(const Payload &);
    void two(int, const QString &);
    void three(int, const QString &, Payload);
    void privNone(QPrivateSignal);
    void privInt(int, QPrivateSignal);
    void privTwo(int, const QString &, QPrivateSignal);
};

enum Sig { None, One, Text, PayloadSig, Two, Three, PrivNone, PrivInt, PrivTwo, SigCount };

struct Source { // a sender and what was emitted on it
    Sender *s = new Sender;
    bool alive = true;
    struct Emission { int sig, id; int64_t when; uint64_t seq; };
    std::vector<Emission> log;
};
std::vector<Source *> sources;
uint64_t seq = 0;

void emitSig(Source *src, int sig, int id) {
    if (!src->alive) return;
    src->log.push_back({sig, id, now(), ++seq});
    trace("emit %d #%d", sig, id);
    auto *s = src->s;
    const QString t = QString::number(id);
    switch (sig) {
    case None: Q_EMIT s->none(); break;
    case One: Q_EMIT s->one(id); break;
    case Text: Q_EMIT s->text(t); break;
    case PayloadSig: Q_EMIT s->payload(Payload(id)); break;
    case Two: Q_EMIT s->two(id, t); break;
    case Three: Q_EMIT s->three(id, t, Payload(id)); break;
    case PrivNone: s->firePrivate(); break;
    case PrivInt: s->firePrivateInt(id); break;
    case PrivTwo: s->firePrivateTwo(id); break;
    }
}

struct Await {
    int id;
    Source *src;
    int sig;
    int64_t timeout = -1; // ms
    int64_t began = -1;
    bool busy = false;    // has a task that waits, but does not await it (yet)
    uint64_t beganSeq = 0;
    bool waiting = false;
    int resumed = 0;
    bool inEmission = false;
};
std::vector<Await *> awaits;
bool emitting = false;

int64_t days(int n) { return n * 24 * 3600'000ll; }

const Source::Emission *firstAfter(Await *a) {
    for (auto &e : a->src->log) if (e.sig == a->sig && e.seq > a->beganSeq) return &e;
    return nullptr;
}
bool due(Await *a) { return a->timeout >= 0 && now() >= a->began + a->timeout * ms; }

void got(Await *a, bool value, int id) {
    ++a->resumed;
    a->waiting = false;
    trace("await %d resumed with %s %d", a->id, value ? "value" : "nothing", id);
    SIM_CHECK(a->resumed == 1, "resumed-twice", "one await resumed %d times", a->resumed);
    SIM_CHECK(!emitting, "not-through-event-loop", "the awaiter was resumed from within the emission instead of the event loop");
    auto *e = firstAfter(a);
    if (value) {
        SIM_CHECK(e, "phantom-emission", "the await yielded a value although the signal was not emitted since it began");
        SIM_CHECK(id == e->id, "wrong-arguments", "the await yielded emission %d instead of the first one (%d)", id, e->id);
    } else {
        SIM_CHECK(a->timeout >= 0, "empty-without-timeout", "an await without timeout yielded nothing");
        SIM_CHECK(due(a), "early-timeout", "the await timed out after %.3f ms instead of %lld ms", (now() - a->began) / 1e6, (long long)(a->timeout));
        probe("timed-out");
        if (e) probe("emission-and-timeout-both-due");
    }
}

int payloadId(const Payload &p) { return p.id; }

template<typename R> int valueOf(const R &r) { // id carried by the arguments; -1 if they disagree
    using T = std::remove_cvref_t<R>;
    if constexpr (std::is_same_v<T, int>) return r;
    else if constexpr (std::is_same_v<T, QString>) return r.toInt();
    else if constexpr (std::is_same_v<T, Payload>) return r.id;
    else if constexpr (std::is_same_v<T, std::tuple<>>) return -2;
    else if constexpr (std::tuple_size_v<T> == 2) return std::get<0>(r) == std::get<1>(r).toInt() ? std::get<0>(r) : -1;
    else return std::get<0>(r) == std::get<1>(r).toInt() && std::get<0>(r) == std::get<2>(r).id ? std::get<0>(r) : -1;
}

template<typename F>
Detached drive(Await *a, F signal, int form) {
    a->began = deadline(a->timeout);
    a->beganSeq = ++seq;
    a->waiting = true;
    auto *s = a->src->s;
    const std::chrono::milliseconds timeout(a->timeout);
    auto id = [&](int v) { if (v != -2) return v; auto *e = firstAfter(a); return e ? e->id : -1; };
    trace("await %d begins on signal %d, timeout %lld", a->id, a->sig, (long long)(a->timeout));
    switch (form) {
    case 0: // the usual way
        if (a->timeout < 0 && chance(70)) { auto r = co_await qCoro(s, signal); got(a, true, id(valueOf(r))); }
        else { auto r = co_await qCoro(s, signal, timeout); if (r) got(a, true, id(valueOf(*r))); else got(a, false, 0); }
        break;
    case 1: { // a task kept and awaited later
        auto task = qCoro(s, signal, timeout);
        a->busy = true;
        co_await Gate(delay(20 * ms));
        a->busy = false;
        auto r = co_await task;
        // the task may have finished while the coroutine was busy: only the order is known
        ++a->resumed; a->waiting = false;
        auto *e = firstAfter(a);
        if (r) { SIM_CHECK(e && id(valueOf(*r)) == e->id, "wrong-arguments", "the awaited task yielded something else than the first emission"); }
        else SIM_CHECK(due(a), "early-timeout", "the await timed out too early");
        break;
    }
    }
    if (chance(30)) { // a busy coroutine must not be disturbed by late emissions either
        const int before = a->resumed;
        co_await Gate(delay(30 * ms));
        SIM_CHECK(a->resumed == before, "resumed-twice", "a late emission or timeout resumed the coroutine");
    }
}

void begin(Await *a, int form) {
    if (!a->src->alive) return;
    switch (a->sig) {
    case None: drive(a, &Sender::none, form); break;
    case One: drive(a, &Sender::one, form); break;
    case Text: drive(a, &Sender::text, form); break;
    case PayloadSig: drive(a, &Sender::payload, form); break;
    case Two: drive(a, &Sender::two, form); break;
    case Three: drive(a, &Sender::three, form); break;
    case PrivNone: drive(a, &Sender::privNone, form); break;
    case PrivInt: drive(a, &Sender::privInt, form); break;
    case PrivTwo: drive(a, &Sender::privTwo, form); break;
    }
}

void idle() {
    for (auto *a : awaits) {
        if (!a->waiting || a->busy) continue;
        SIM_CHECK(!overdue(a->began, a->timeout), "no-timeout", "the await is still waiting %.3f ms after it began although its timeout is %lld ms%s", (now() - a->began) / 1e6, (long long)(a->timeout), a->src->alive ? "" : " (its sender was destroyed)");
        SIM_CHECK(!firstAfter(a), "missed-emission", "the signal was emitted and the event loop is idle, but the awaiter was not resumed");
    }
}

} // namespace

SIM_SCENARIO("C08", signal_await, 3) {
    swarm();
    onIdle(idle);
    int ids = 0;
    const int nsrc = 1 + int(choose(2));
    const int nsig = 1 + int(choose(3));
    std::vector<int> sigs;
    for (int i = 0; i < nsig; ++i) sigs.push_back(int(choose(SigCount)));
    for (int i = 0; i < nsrc; ++i) {
        auto *src = new Source;
        sources.push_back(src);
        if (chance(30)) at(delay(120 * ms), [src] {
            if (!src->alive) return;
            probe("sender-destroyed");
            trace("sender destroyed");
            src->alive = false;
            if (chance(50)) delete src->s; else src->s->deleteLater();
        }, "destroy-sender");
        if (chance(5)) src->s->blockSignals(false);
        const int n = int(choose(8));
        for (int k = 0; k < n; ++k) {
            const int sig = pick(sigs), burst = chance(30) ? 2 + int(choose(3)) : 1;
            at(delay(120 * ms), [=, &ids] { if (burst > 1) probe("burst"); for (int b = 0; b < burst; ++b) { emitting = true; emitSig(src, sig, ++ids); emitting = false; } }, "emit");
        }
    }
    const int na = 1 + int(choose(5));
    for (int i = 0; i < na; ++i) {
        auto *a = new Await{i + 1, pick(sources), pick(sigs)};
        awaits.push_back(a);
        if (chance(65)) a->timeout = pick<int64_t>({0, 1, 5, 10, 30, 60, 100});
        if (chance(4)) { a->timeout = days(pick<int>({20, 25, 30, 50, 120})); probe("timeout-of-weeks"); }
        const int form = int(choose(4)) < 3 ? 0 : 1;
        at(delay(80 * ms), [=] { begin(a, form); }, "await");
    }
    SIM_CHECK(run(days(700) * ms), "not-idle", "the program is still busy after 700 days");
    idle();
    for (auto *a : awaits)
        if (a->began >= 0 && a->waiting) SIM_CHECK(a->timeout < 0 && !firstAfter(a), "never-resumed", "await %d was never resumed", a->id);
}

// Consecutive awaits: what is emitted while nobody waits is not seen, what is emitted while waiting is.
SIM_SCENARIO("C08", signal_sequence, 1) {
    swarm();
    onIdle(idle);
    auto *src = new Source;
    int ids = 0;
    const int n = int(choose(12));
    for (int k = 0; k < n; ++k) at(delay(150 * ms), [&, src] { emitting = true; emitSig(src, Two, ++ids); emitting = false; }, "emit");
    const int rounds = 1 + int(choose(5));
    auto loop = [](Source *src, int rounds) -> QCoro::Task<> {
        for (int i = 0; i < rounds; ++i) {
            auto *a = new Await{100 + i, src, Two};
            awaits.push_back(a);
            a->timeout = chance(3) ? days(pick<int>({25, 50})) : pick<int64_t>({-1, 5, 20, 50});
            a->began = deadline(a->timeout); a->beganSeq = ++seq; a->waiting = true;
            auto r = co_await qCoro(src->s, &Sender::two, std::chrono::milliseconds(a->timeout));
            got(a, r.has_value(), r ? valueOf(*r) : 0);
            if (chance(40)) co_await QCoro::sleepFor(std::chrono::milliseconds(choose(30)));
        }
        co_return;
    };
    at(delay(20 * ms), [&] { loop(src, rounds); }, "start");
    SIM_CHECK(run(days(700) * ms), "not-idle", "the program is still busy after 700 days");
    idle();
}

// The sender lives and emits on a thread of its own, awaiters on the main and on another thread.
namespace threaded {

struct Emission { int id; uint64_t begin, end = 0; };
struct Stream {
    Sender *s = nullptr;
    bool alive = true;
    int beginning = 0; // awaits that are being set up
    std::vector<Emission *> log;
};
struct Op {
    int id = 0;
    int64_t timeout = -1, began = 0;
    uint64_t b = 0, suspended = UINT64_MAX;
    int resumed = 0;
    bool due() const { return timeout >= 0 && now() >= began + timeout * ms; }
};
std::vector<Op *> ops;

Emission *firstSure(Stream *src, Op *o) {
    for (auto *e : src->log) if (e->begin > o->suspended && e->end) return e;
    return nullptr;
}

Detached awaiter(Stream *src, int rounds) {
    auto *here = QThread::currentThread();
    for (; rounds > 0; --rounds) {
        Op *o;
        {
            Atomic a;
            if (!src->alive) co_return;
            ++src->beginning;
            o = new Op;
            o->id = int(ops.size());
            if (chance(60)) o->timeout = pick<int64_t>({0, 1, 5, 10, 30, 60});
            o->began = now();
            o->b = ++seq;
            ops.push_back(o);
            trace("await %d, timeout %lld", o->id, (long long)(o->timeout));
        }
        auto task = qCoro(src->s, &Sender::two, std::chrono::milliseconds(o->timeout));
        { Atomic a; o->suspended = ++seq; --src->beginning; }
        const auto r = co_await std::move(task);
        {
            Atomic a;
            SIM_CHECK(QThread::currentThread() == here, "wrong-thread", "the awaiter was resumed on another thread");
            SIM_CHECK(++o->resumed == 1, "resumed-twice", "one await resumed %d times", o->resumed);
            if (r) {
                const int id = valueOf(*r);
                trace("await %d resumed with %d", o->id, id);
                const Emission *e = nullptr;
                for (auto *x : src->log) if (x->id == id) e = x;
                SIM_CHECK(e, "wrong-arguments", "the arguments are those of no emission");
                SIM_CHECK(!e->end || e->end > o->b, "phantom-emission", "the await yielded emission %d from before it began", id);
                auto *sure = firstSure(src, o);
                SIM_CHECK(!sure || sure == e || sure->begin > e->begin, "wrong-arguments", "the await yielded emission %d instead of the first one (%d)", id, sure->id);
                probe("emitted-on-another-thread");
            } else {
                trace("await %d resumed with nothing", o->id);
                SIM_CHECK(o->due(), "early-timeout", "the await timed out after %.3f ms instead of %lld ms", (now() - o->began) / 1e6, (long long)(o->timeout));
                probe("timed-out-beside-thread");
            }
        }
        if (chance(50)) co_await ThreadGate{int(choose(20))};
    }
}

} // namespace threaded

SIM_SCENARIO("C08", signal_threads, 2) {
    using namespace threaded;
    swarm();
    swarmThreads();
    auto *emitter = eventThread("emitter");
    auto *other = chance(60) ? eventThread("awaiter") : nullptr;
    auto *src = new Stream;
    src->s = new Sender;
    src->s->moveToThread(emitter);
    int ids = 0;
    for (int i = 1 + int(choose(3)); i > 0; --i) {
        const int rounds = 1 + int(choose(3));
        const bool away = other && chance(60);
        at(delay(60 * ms), [=] { if (away) onThread(other, [=] { awaiter(src, rounds); }); else awaiter(src, rounds); }, "awaiter");
    }
    for (int n = int(choose(8)); n > 0; --n) {
        const int burst = chance(40) ? 2 + int(choose(4)) : 1;
        at(delay(80 * ms), [=, &ids] {
            onThread(emitter, [=, &ids] {
                for (int k = 0; k < burst; ++k) {
                    Emission *e;
                    { Atomic a; if (!src->alive) return; e = new Emission{++ids, ++seq}; src->log.push_back(e); trace("emit %d", e->id); }
                    Q_EMIT src->s->two(e->id, QString::number(e->id));
                    { Atomic a; e->end = ++seq; }
                }
            });
        }, "emit");
    }
    if (chance(25)) at(delay(120 * ms), [=] {
        onThread(emitter, [=] {
            { Atomic a; if (src->beginning) return; src->alive = false; }
            probe("sender-destroyed-on-its-thread");
            delete src->s;
        });
    }, "destroy-sender");
    SIM_CHECK(run(), "not-idle", "the program never becomes idle");
    for (auto *o : ops) {
        if (o->resumed) continue;
        SIM_CHECK(o->timeout < 0, "no-timeout", "await %d has never timed out", o->id);
        SIM_CHECK(!firstSure(src, o), "missed-emission", "the signal was emitted on another thread, but await %d was never resumed", o->id);
        probe("still-waiting");
    }
}

#include "c08_signal.moc"
