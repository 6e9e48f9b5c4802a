// C09: a signal listener yields every emission once, in order.
#include "common.h"
#include "qcorosignal.h"
#include "qcorotimer.h"
#include "threadgate.h"

#include <QCoreApplication>

using namespace sim;

namespace {

struct Payload {
    Payload() = default;
    explicit Payload(int i) : id(i), t(7) {}
    int id = 0;
    Token t{7};
};

class Sender : public QObject {
    Q_OBJECT
public:
    void firePrivate(int i) { Q_EMIT priv(i, QPrivateSignal()); }
Q_SIGNALS:
    void none();
    void one(int);
    void payload(const Payload &);
    void two(int, const QString &);
    void priv(int, QPrivateSignal);
};
enum Sig { None, One, PayloadSig, Two, Priv, SigCount };

struct Listener {
    int id;
    Sender *s;
    bool senderAlive = true;
    int sig;
    int64_t timeout = -1;
    uint64_t createdSeq = 0;
    bool created = false;
    std::vector<int> emitted;  // since creation
    size_t received = 0;
    size_t arrived = 0;        // at least so many emissions went through the event loop
    bool waiting = false;
    int64_t waitBegan = 0;
    bool ended = false;        // consumer saw the end
    bool stopped = false;      // destroyed
    std::function<void()> destroy;
};
std::vector<Listener *> listeners;
bool emitting = false;

template<typename R> int valueOf(const R &r) {
    using T = std::remove_cvref_t<R>;
    if constexpr (std::is_same_v<T, int>) return r;
    else if constexpr (std::is_same_v<T, Payload>) return r.id;
    else if constexpr (std::is_same_v<T, std::tuple<>>) return -2;
    else return std::get<0>(r) == std::get<1>(r).toInt() ? std::get<0>(r) : -1;
}

bool due(Listener *l) { return l->timeout >= 0 && now() >= l->waitBegan + l->timeout * ms; }

void startWait(Listener *l) { l->waiting = true; l->waitBegan = deadline(l->timeout); trace("listener %d: waiting", l->id); }

template<typename R> void item(Listener *l, const R &r) {
    SIM_CHECK(!emitting, "not-through-event-loop", "the listener delivered from within the emission");
    SIM_CHECK(l->waiting && !l->stopped, "not-waiting", "the listener delivered although the consumer was not waiting");
    l->waiting = false;
    SIM_CHECK(l->received < l->emitted.size(), "phantom-emission", "listener %d yielded %zu items but only %zu were emitted", l->id, l->received + 1, l->emitted.size());
    const int want = l->emitted[l->received], id = valueOf(r);
    trace("listener %d yields %d", l->id, id);
    SIM_CHECK(id == -2 || id == want, "wrong-item", "item %zu of listener %d is emission %d instead of %d (lost, repeated or reordered)", l->received, l->id, id, want);
    ++l->received;
}
void atEnd(Listener *l) {
    SIM_CHECK(l->waiting, "not-waiting", "the listener ended although the consumer was not waiting");
    l->waiting = false;
    l->ended = true;
    trace("listener %d ends", l->id);
    SIM_CHECK(l->received >= l->arrived, "lost-at-end", "the listener ended after %zu emissions although %zu had arrived", l->received, l->arrived);
    if (!l->senderAlive) { probe("ended-after-sender-died"); return; }
    SIM_CHECK(l->timeout >= 0, "ended-without-timeout", "a listener without timeout ended");
    SIM_CHECK(due(l), "ended-early", "the listener ended after the consumer waited %.3f ms, its timeout is %lld ms", (now() - l->waitBegan) / 1e6, (long long)(l->timeout));
    probe("ended-by-timeout");
}

// busy consumer: how it spends time between steps
QCoro::Task<> busy(int style) {
    if (!chance(55)) co_return;
    switch (style) {
    case 0: co_await Gate(delay(40 * ms)); break;
    case 1: co_await QCoro::sleepFor(std::chrono::milliseconds(choose(40))); break;
    default: { QTimer t; t.start(int(1 + choose(10))); co_await t; co_await Gate(delay(10 * ms)); break; }
    }
}

template<typename Gen>
Detached consume(Listener *l, std::shared_ptr<Gen> gen, int style, int maxItems, int keepAfter) {
    {
        startWait(l);
        auto it = co_await gen->begin();
        const auto end = gen->end();
        while (it != end) {
            item(l, *it);
            if (maxItems-- == 0) { // abandon between steps
                trace("listener %d abandoned", l->id);
                if (keepAfter) { probe("abandoned-but-alive"); co_await Gate(delay(40 * ms)); }
                l->stopped = true;
                l->destroy = nullptr;
                gen->~Gen(); new (gen.get()) Gen();
                probe("destroyed-between-steps");
                co_return;
            }
            co_await busy(style);
            if (l->stopped) co_return;
            startWait(l);
            co_await ++it;
        }
        atEnd(l);
    }
    if (keepAfter) { probe("kept-after-end"); co_await Gate(delay(60 * ms)); }
    if (!l->stopped) { l->stopped = true; l->destroy = nullptr; *gen = Gen(); }
}

template<typename F>
void create(Listener *l, F signal) {
    using Gen = decltype(qCoroSignalListener(l->s, signal));
    // created here, consumed from some later time on
    std::shared_ptr<Gen> gen;
    if (l->timeout < 0 && chance(60)) gen = std::make_shared<Gen>(qCoroSignalListener(l->s, signal));
    else gen = std::make_shared<Gen>(qCoroSignalListener(l->s, signal, std::chrono::milliseconds(l->timeout)));
    if (chance(30)) { probe("moved"); gen = std::make_shared<Gen>(std::move(*gen)); }
    l->created = true;
    trace("listener %d created", l->id);
    const int style = int(choose(3)), maxItems = chance(35) ? int(choose(6)) : -1, keep = chance(50);
    l->destroy = [gen]() mutable { *gen = Gen(); };
    auto start = [=] { if (!l->stopped) consume(l, gen, style, maxItems, keep); };
    if (chance(50)) start(); else at(delay(60 * ms), start, "start-consuming");
}

void idle() {
    for (auto *l : listeners) {
        if (!l->waiting || l->stopped) continue;
        SIM_CHECK(!overdue(l->waitBegan, l->timeout), "no-timeout", "the consumer has been waiting for %.3f ms and the listener did not end (timeout %lld ms)", (now() - l->waitBegan) / 1e6, (long long)(l->timeout));
        SIM_CHECK(l->received == l->emitted.size(), "missed-emission", "%zu emissions, %zu delivered, and the consumer is waiting in an idle event loop", l->emitted.size(), l->received);
    }
}

void emitOn(Sender *s, int sig, int id) {
    for (auto *l : listeners) if (l->created && !l->stopped && l->s == s && l->sig == sig) l->emitted.push_back(id);
    trace("emit %d #%d", sig, id);
    emitting = true;
    switch (sig) {
    case None: Q_EMIT s->none(); break;
    case One: Q_EMIT s->one(id); break;
    case PayloadSig: Q_EMIT s->payload(Payload(id)); break;
    case Two: Q_EMIT s->two(id, QString::number(id)); break;
    case Priv: s->firePrivate(id); break;
    }
    emitting = false;
    for (auto *l : listeners)
        if (l->created && !l->stopped && l->s == s && l->sig == sig)
            QMetaObject::invokeMethod(qApp, [l, n = l->emitted.size()] { l->arrived = n; }, Qt::QueuedConnection); // behind the emission
}

} // namespace

SIM_SCENARIO("C09", listener, 1) {
    swarm();
    onIdle(idle);
    static int ids = 0;
    auto *s = new Sender;
    static bool alive = true;
    std::vector<int> sigs;
    for (int i = 1 + int(choose(2)); i > 0; --i) sigs.push_back(int(choose(SigCount)));
    for (int i = 1 + int(choose(3)); i > 0; --i) {
        auto *l = new Listener{i, s};
        l->sig = pick(sigs);
        if (chance(60)) l->timeout = pick<int64_t>({0, 1, 5, 10, 20, 40, 80});
        if (chance(4)) { l->timeout = pick<int64_t>({20, 25, 30, 50}) * 24 * 3600'000; probe("timeout-of-weeks"); }
        listeners.push_back(l);
        at(delay(40 * ms), [=] {
            if (!alive) return;
            switch (l->sig) {
            case None: create(l, &Sender::none); break;
            case One: create(l, &Sender::one); break;
            case PayloadSig: create(l, &Sender::payload); break;
            case Two: create(l, &Sender::two); break;
            case Priv: create(l, &Sender::priv); break;
            }
        }, "create");
        if (chance(25)) at(delay(150 * ms), [l] {
            if (l->stopped || !l->destroy) return;
            probe(l->waiting ? "destroyed-while-waiting" : "destroyed-while-busy");
            trace("listener %d destroyed", l->id);
            l->stopped = true;
            auto d = std::move(l->destroy);
            d();
        }, "destroy-listener");
    }
    for (int n = int(choose(14)); n > 0; --n) {
        const int sig = pick(sigs), burst = chance(3) ? 2 + int(choose(300)) : chance(30) ? 2 + int(choose(4)) : 1;
        if (burst > 100) probe("flood");
        at(delay(150 * ms), [=] { if (!alive) return; if (burst > 1) probe("burst"); for (int b = 0; b < burst; ++b) emitOn(s, sig, ++ids); }, "emit");
    }
    if (chance(20)) at(delay(200 * ms), [s] { probe("sender-destroyed"); alive = false; for (auto *l : listeners) l->senderAlive = false; delete s; }, "destroy-sender");
    SIM_CHECK(run(700 * 24 * 3600 * sec), "not-idle", "the program is still busy after 700 days");
    idle();
    for (auto *l : listeners) {
        if (!l->created || l->stopped) continue;
        if (l->timeout >= 0) SIM_CHECK(l->ended, "never-ended", "the listener did not end although nothing is emitted any more");
        else if (l->senderAlive) SIM_CHECK(l->waiting, "never-resumed", "a listener without timeout must still be waiting");
    }
}

// The sender lives and emits on a thread of its own; consumers run on the main and on another thread.
namespace threaded {

uint64_t seq = 0;
struct Emission { int id; uint64_t begin, end = 0; };
std::vector<Emission *> emissions;
Sender *sender = nullptr;

struct Listener {
    int id = 0;
    QThread *home = nullptr;
    QObject *context = nullptr;
    int64_t timeout = -1;
    uint64_t creating = 0, created = UINT64_MAX, gone = UINT64_MAX;
    std::vector<int> received;
    int arrived = 0; // the newest emission that has gone through the event loop of the consumer
    bool ended = false, waiting = false;
    int64_t waitBegan = 0;
};
std::vector<Listener *> listeners;

// Emissions that it must have seen so far, oldest first.
std::vector<int> due(Listener *l, bool arrivedOnly) {
    std::vector<int> r;
    for (auto *e : emissions) if (e->begin > l->created && e->end && e->end < l->gone && (!arrivedOnly || e->id <= l->arrived)) r.push_back(e->id);
    return r;
}
void verify(Listener *l, bool complete) {
    // received = (some of those emitted while it was created) + a prefix of those emitted since
    size_t i = 0;
    int last = -1;
    for (int id : l->received) { SIM_CHECK(id > last, "wrong-item", "listener %d yielded emission %d after %d", l->id, id, last); last = id; }
    for (; i < l->received.size(); ++i) {
        const Emission *e = nullptr;
        for (auto *x : emissions) if (x->id == l->received[i]) e = x;
        SIM_CHECK(e && (!e->end || e->end > l->creating), "phantom-emission", "listener %d yielded emission %d from before its creation", l->id, l->received[i]);
    }
    size_t next = 0;
    const auto want = due(l, complete);
    for (int id : due(l, false)) {
        if (std::find(l->received.begin(), l->received.end(), id) != l->received.end()) { ++next; continue; }
        SIM_CHECK(l->received.empty() || id > l->received.back(), "missed-emission", "listener %d skipped emission %d", l->id, id);
    }
    for (int id : want) if (complete) SIM_CHECK(std::find(l->received.begin(), l->received.end(), id) != l->received.end(), "missed-emission", "listener %d never yielded emission %d", l->id, id);
}

Detached consume(Listener *l, int maxItems) {
    {
        { Atomic a; l->creating = ++seq; }
        auto gen = l->timeout < 0 && chance(50) ? qCoroSignalListener(sender, &Sender::two) : qCoroSignalListener(sender, &Sender::two, std::chrono::milliseconds(l->timeout));
        { Atomic a; l->created = ++seq; trace("listener %d created", l->id); }
        if (chance(40)) co_await ThreadGate{int(choose(30))};
        l->waitBegan = now();
        l->waiting = true;
        auto it = co_await gen.begin();
        const auto end = gen.end();
        while (it != end) {
            {
                Atomic a;
                l->waiting = false;
                SIM_CHECK(QThread::currentThread() == l->home, "wrong-thread", "the consumer was resumed on another thread");
                l->received.push_back(valueOf(*it));
                trace("listener %d yields %d", l->id, l->received.back());
                verify(l, false);
            }
            if (--maxItems == 0) { probe("abandoned"); break; }
            if (chance(50)) co_await ThreadGate{int(choose(20))};
            l->waitBegan = now();
            l->waiting = true;
            co_await ++it;
        }
        Atomic a;
        SIM_CHECK(QThread::currentThread() == l->home, "wrong-thread", "the consumer was resumed on another thread");
        l->waiting = false;
        l->ended = true;
        if (maxItems) {
            SIM_CHECK(l->timeout >= 0, "ended-without-timeout", "a listener without timeout ended");
            SIM_CHECK(now() >= l->waitBegan + l->timeout * ms, "ended-early", "the listener ended after the consumer waited %.3f ms, its timeout is %lld ms", (now() - l->waitBegan) / 1e6, (long long)(l->timeout));
            verify(l, true);
            probe("ended-by-timeout-beside-thread");
        }
        l->gone = ++seq;
    }
    trace("listener %d is gone", l->id);
}

} // namespace threaded

SIM_SCENARIO("C09", listener_threads, 1) {
    using namespace threaded;
    swarm();
    swarmThreads();
    auto *emitter = eventThread("emitter");
    auto *other = chance(60) ? eventThread("consumer") : nullptr;
    sender = new Sender;
    sender->moveToThread(emitter);
    int ids = 0;
    for (int i = 1 + int(choose(3)); i > 0; --i) {
        auto *l = new threaded::Listener;
        l->id = i;
        l->home = other && chance(60) ? other : qApp->thread();
        l->context = new QObject;
        l->context->moveToThread(l->home);
        if (chance(50)) l->timeout = pick<int64_t>({0, 1, 5, 10, 20, 40});
        const int maxItems = chance(30) ? 1 + int(choose(4)) : -1;
        threaded::listeners.push_back(l);
        at(delay(50 * ms), [=] { onThread(l->home, [=] { threaded::consume(l, maxItems); }); }, "consumer");
    }
    for (int n = int(choose(9)); n > 0; --n) {
        const int burst = chance(40) ? 2 + int(choose(4)) : 1;
        at(delay(100 * ms), [=, &ids] {
            onThread(emitter, [=, &ids] {
                for (int k = 0; k < burst; ++k) {
                    Emission *e;
                    { Atomic a; e = new Emission{++ids, ++threaded::seq}; emissions.push_back(e); trace("emit %d", e->id); }
                    Q_EMIT sender->two(e->id, QString::number(e->id));
                    { Atomic a; e->end = ++threaded::seq; }
                    for (auto *l : threaded::listeners) QMetaObject::invokeMethod(l->context, [l, id = e->id] { l->arrived = std::max(l->arrived, id); }, Qt::QueuedConnection); // behind the emission
                }
            });
        }, "emit");
    }
    SIM_CHECK(run(), "not-idle", "the program never becomes idle");
    for (auto *l : threaded::listeners) {
        if (l->created == UINT64_MAX || l->ended) continue;
        SIM_CHECK(l->waiting, "stuck", "the consumer of listener %d neither waits nor ended", l->id);
        SIM_CHECK(l->timeout < 0, "no-timeout", "listener %d has never timed out", l->id);
        verify(l, true);
        probe("still-waiting");
    }
}

#include "c09_listener.moc"
