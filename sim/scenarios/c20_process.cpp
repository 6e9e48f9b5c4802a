// C20: Process waits report start and exit truthfully.
#include "common.h"
#include "qcoroprocess.h"

#include <QMetaMethod>
#include <QProcess>
#include <private/qprocess_p.h>

using namespace sim;
using std::chrono::milliseconds;

namespace {

struct Launch {
    enum { Starting, Running, Failed, Ended } state = Starting;
};

// A QProcess whose operating-system half is scripted: it goes through the states and emits the
// signals in the order in which QProcessPrivate does.
class SimProcess : public QProcess {
public:
    std::vector<Launch *> launches;
    struct Request { QString program; QStringList arguments; OpenMode mode; bool operator==(const Request &) const = default; };
    std::vector<Request> requests; // what start() was called with
    Launch *current() { return state() == NotRunning ? nullptr : launches.back(); }
    QProcessPrivate *priv() { return static_cast<QProcessPrivate *>(QObjectPrivate::get(this)); }

    void launch(OpenMode mode) {
        if (state() != NotRunning) { probe("start-while-running"); return; }
        auto *l = new Launch;
        launches.push_back(l);
        priv()->exitCode = 0;
        priv()->exitStatus = NormalExit;
        priv()->processError = UnknownError;
        const int fate = chance(45) ? int(choose(6)) : 9;
        trace("launch %d, fate %d", int(launches.size()), fate);
        if (fate == 0) { // no program given
            fault("failed-to-start-at-once");
            l->state = Launch::Failed;
            error(FailedToStart);
            return;
        }
        setOpenMode(mode);
        setProcessState(Starting);
        if (fate == 1) { fault("failed-to-start-at-once"); failToStart(l); return; }
        const auto self = QPointer<SimProcess>(this);
        at(chance(20) ? delay(31 * sec) : delay(60 * ms), [=] {
            if (!self || self->current() != l) return;
            if (fate <= 3) { fault("failed-to-start"); self->failToStart(l); return; }
            l->state = Launch::Running;
            self->setProcessState(Running);
            self->emitSignal("started()");
            if (chance(15)) return self->end(l, chance(50));
            if (fate == 4) { probe("runs-forever"); return; }
            at(chance(20) ? delay(31 * sec) : delay(60 * ms), [=] { if (self && self->current() == l) self->end(l, fate == 5); }, "exit");
            if (chance(20)) at(delay(30 * ms), [=] {
                if (!self || self->current() != l) return;
                fault("read-or-write-error");
                self->error(chance(50) ? ReadError : WriteError);
            }, "error");
        }, "start");
    }
    void failToStart(Launch *l) {
        trace("failed to start");
        l->state = Launch::Failed;
        setProcessState(NotRunning);
        error(FailedToStart);
        setOpenMode(NotOpen);
    }
    void end(Launch *l, bool crash) {
        trace("%s", crash ? "crashes" : "exits");
        l->state = Launch::Ended;
        setProcessState(NotRunning);
        if (crash) { fault("crashed"); priv()->exitStatus = CrashExit; error(Crashed); }
        else priv()->exitCode = int(choose(3));
        Q_EMIT finished(exitCode(), exitStatus());
        setOpenMode(NotOpen);
    }
    void error(ProcessError e) { priv()->processError = e; Q_EMIT errorOccurred(e); }
    void emitSignal(const char *name) {
        const auto &mo = QProcess::staticMetaObject;
        mo.method(mo.indexOfSignal(name)).invoke(this, Qt::DirectConnection);
    }
    ~SimProcess() override {
        if (state() == Starting) failToStart(launches.back());
        else if (state() == Running) end(launches.back(), true); // QProcess kills it
    }
};
QPointer<SimProcess> process;

struct Op {
    bool finish;
    int64_t timeout;
    int64_t began = deadline(timeout);
    Launch *l = nullptr;
    bool waiting = true;
    bool due() const { return timeout >= 0 && now() >= began + timeout * ms; }
};
std::vector<Op *> ops;

void check(Op *o, bool result, bool immediate) {
    o->waiting = false;
    trace("%s -> %d", o->finish ? "finished" : "started", int(result));
    if (o->finish) {
        if (!o->l) {
            SIM_CHECK(!result, "wrong-result", "waiting for the end of a process that does not run returned true");
            SIM_CHECK(immediate, "suspended", "waiting for the end of a process that does not run suspended");
            probe("finish-not-running");
        } else if (result) {
            SIM_CHECK(o->l->state == Launch::Ended, "wrong-result", "the wait reported the end of a process that %s", o->l->state == Launch::Failed ? "never started" : "still runs");
            probe("finished");
        } else if (o->due()) probe("finish-timed-out");
        else {
            SIM_CHECK(o->l->state == Launch::Failed, "wrong-result", "waiting for the end returned false after %.3f ms of %d although the process %s", (now() - o->began) / 1e6, int(o->timeout), o->l->state == Launch::Ended ? "ended" : "still runs");
            probe("finish-failed-to-start");
        }
        return;
    }
    if (!o->l) {
        SIM_CHECK(!result, "wrong-result", "the wait reported the start of a process that is not starting");
        SIM_CHECK(immediate, "suspended", "waiting for the start of a process that is not starting suspended");
        probe("start-not-starting");
    } else if (result) {
        SIM_CHECK(o->l->state == Launch::Running || o->l->state == Launch::Ended, "wrong-result", "the wait reported the start of a process that %s", o->l->state == Launch::Failed ? "failed to start" : "has not started");
        if (o->l->state == Launch::Ended) probe("started-and-ended");
        else probe(immediate ? "running-already" : "started");
    } else if (o->due()) probe("start-timed-out");
    else {
        SIM_CHECK(o->l->state == Launch::Failed, "wrong-result", "waiting for the start returned false after %.3f ms of %d although the process %s", (now() - o->began) / 1e6, int(o->timeout), o->l->state == Launch::Starting ? "is still starting" : "started");
        probe("failed-to-start");
    }
}

// How a process is started: what the operating system is asked for must be what the caller asked for.
SimProcess::Request someRequest() {
    SimProcess::Request r;
    r.program = pick<QString>({QStringLiteral("prog"), QStringLiteral("/opt/my prog"), QStringLiteral(" "), QString()});
    for (int n = int(choose(7)); n > 0; --n) r.arguments += pick<QString>({QStringLiteral("arg"), QString(), QStringLiteral("two words"), QStringLiteral("\"quoted\""), QStringLiteral("--x=\u00e9")});
    r.mode = pick<QIODevice::OpenMode>({QIODevice::ReadWrite, QIODevice::ReadOnly, QIODevice::WriteOnly, QIODevice::ReadWrite | QIODevice::Text, QIODevice::ReadOnly | QIODevice::Unbuffered});
    return r;
}
void asked(size_t before, const SimProcess::Request &want) {
    SIM_CHECK(process->requests.size() == before + 1, "wrong-start", "start() was called %d times", int(process->requests.size() - before));
    SIM_CHECK(process->requests.back() == want, "wrong-start", "the process was started with another program, arguments or open mode than asked for");
}

int64_t someTimeout() {
    if (chance(30)) return -1;
    if (chance(10)) return 30'000 + int64_t(choose(3)) - 1;
    return int64_t(choose(60));
}

Detached awaiter(int rounds) {
    for (int i = 0; i < rounds && process; ++i) {
        const int form = int(choose(14));
        auto *o = new Op{form >= 7, form % 7 == 4 || form == 0 ? 30'000 : someTimeout()};
        const milliseconds t(o->timeout);
        const int n = int(o->timeout);
        const auto step = steps();
        const int before = int(process->launches.size());
        auto *running = process->current();
        const bool wasRunning = running && running->state == Launch::Running;
        if (form > 3) o->l = running;
        ops.push_back(o);
        trace("form %d timeout %d", form, n);
        bool r = false;
        auto want = someRequest();
        const auto nth = process->requests.size();
        switch (form) {
        // start; what is started is known once the call has returned
        case 0: { auto task = qCoro(*process).start(); asked(nth, {{}, {}, QIODevice::ReadWrite}); o->l = process->current(); r = co_await task; break; }
        case 1: { auto task = qCoro(process.data()).start(want.mode, t); asked(nth, {{}, {}, want.mode}); o->l = process->current(); r = co_await task; break; }
        case 2: { auto w = qCoro(*process); auto task = w.start(want.program, want.arguments, want.mode, t); asked(nth, want); o->l = process->current(); r = co_await std::move(task); break; }
        case 3: { auto task = qCoro(process.data()).start(QString(want.program), QStringList(want.arguments), want.mode, t); asked(nth, want); o->l = process->current(); r = co_await task; break; }
        case 4: r = co_await qCoro(*process).waitForStarted(); break;
        case 5: r = co_await qCoro(process.data()).waitForStarted(n); break;
        case 6: { auto w = qCoro(*process); r = co_await w.waitForStarted(t); break; }
        case 7: case 8: { auto task = qCoro(*process).waitForFinished(t); r = co_await task; break; }
        case 9: r = co_await qCoro(*process).waitForFinished(n); break;
        case 10: { auto w = qCoro(process.data()); r = co_await w.waitForFinished(n); break; }
        case 11: r = co_await qCoro(process.data()).waitForFinished(); break;
        default: r = co_await qCoro(process.data()).waitForFinished(t); break;
        }
        if (form == 11) o->timeout = 30'000;
        const bool immediate = steps() == step;
        (void)before;
        check(o, r, immediate);
        if (wasRunning && !o->finish) SIM_CHECK(immediate, "suspended", "waiting for the start of a running process suspended");
        if (chance(10) && process) { probe("destroyed-by-awaiter"); delete process.data(); co_return; }
        if (chance(50)) co_await Gate(delay(40 * ms));
        else if (immediate) co_await Gate(0);
    }
}

void idle() {
    for (auto *o : ops) {
        if (!o->waiting || !process) continue;
        SIM_CHECK(!o->due(), "missed-timeout", "the wait goes on %.3f ms after its start, the timeout is %d ms", (now() - o->began) / 1e6, int(o->timeout));
        SIM_CHECK(!o->l || o->l->state == Launch::Starting || (o->finish && o->l->state == Launch::Running), "hangs", "waiting for the %s goes on although the process %s", o->finish ? "end" : "start",
            o->l->state == Launch::Failed ? "failed to start" : o->l->state == Launch::Running ? "runs" : "ended");
    }
}

} // namespace

// The operating-system half.
void QProcess::start(const QString &program, const QStringList &arguments, OpenMode mode) {
    static_cast<SimProcess *>(this)->requests.push_back({program, arguments, mode});
    static_cast<SimProcess *>(this)->launch(mode);
}
void QProcess::start(OpenMode mode) {
    static_cast<SimProcess *>(this)->requests.push_back({{}, {}, mode});
    static_cast<SimProcess *>(this)->launch(mode);
}

SIM_SCENARIO("C20", process, 1) {
    swarm();
    onIdle(idle);
    process = new SimProcess;
    for (int i = 1 + int(choose(3)); i > 0; --i) at(delay(60 * ms), [] { awaiter(1 + int(choose(6))); }, "awaiter");
    for (int i = int(choose(3)); i > 0; --i) at(delay(150 * ms), [] { if (process) process->start(); }, "plain-start");
    for (int i = int(choose(3)); i > 0; --i) at(delay(200 * ms), [] { if (process && process->state() == QProcess::Running) { fault("killed"); process->end(process->launches.back(), true); } }, "kill");
    if (chance(15)) at(delay(200 * ms), [] { if (process) { fault("destroyed"); if (chance(50)) delete process.data(); else process->deleteLater(); } }, "destroy");
    SIM_CHECK(run(), "not-idle", "the program never becomes idle");
    idle();
    delete process.data();
}
