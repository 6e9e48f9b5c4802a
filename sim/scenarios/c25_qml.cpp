// C25: QML tasks run their script callbacks and bindings once, with the result.
#include "qcoroqmltask.h"
#include "jobs.h"
#include "qcorofuture.h"
#include "qcorotimer.h"

#include <QCoreApplication>
#include <QJSEngine>
#include <QQmlComponent>
#include <QQmlContext>
#include <QQmlEngine>
#include <QPromise>
#include <QThread>
#include <QTimer>

#include <dlfcn.h>

using namespace sim;

// The QML engine starts a thread of its own: it needs a simulated event dispatcher.
void QThread::start(Priority p) {
    static auto real = reinterpret_cast<void (*)(QThread *, Priority)>(dlsym(RTLD_NEXT, "_ZN7QThread5startENS_8PriorityE"));
    if (!eventDispatcher()) setEventDispatcher(newDispatcher());
    real(this, p);
}

namespace {

struct Source { // the work behind a task
    int id = 0;
    int kind = 0;
    End end = End::Value;
    bool finished = false;
    bool ok() const { return end == End::Value; }
    QVariant result() const {
        switch (kind) {
        case 0: return QVariant(QStringLiteral("result %1").arg(id));
        case 1: return QVariant(100 + id);
        case 2: return QVariant(QStringLiteral("text %1").arg(id));
        case 4: return QVariant(QStringLiteral("future %1").arg(id));
        default: return QVariant();
        }
    }
};

// A continuation or a listener attached to a task.
struct User {
    Source *s;
    bool listener = false;
    int calls = 0, changes = 0;
    bool maybe = false;  // cannot tell whether it had its result from the start
    bool gone = false;   // the listener was destroyed, or the engine
    QVariant intermediate;
    QPointer<QCoro::QmlTaskListener> l;
};
std::vector<User *> users;
std::vector<Source *> sources;
QJSEngine *engine = nullptr;
QJSValue *makeCallback = nullptr;

// What the scripts talk to.
class Recorder : public QObject {
    Q_OBJECT
public:
    Q_INVOKABLE void hit(int user, const QJSValue &value) {
        auto *u = users[size_t(user)];
        trace("callback %d called with %s", user, qPrintable(value.toString()));
        SIM_CHECK(u->s->finished, "early", "a continuation was called before the task finished");
        SIM_CHECK(u->s->ok(), "called-on-failure", "the continuation of a failed task was called");
        SIM_CHECK(++u->calls == 1, "called-twice", "a continuation was called %d times", u->calls);
        const auto want = u->s->result();
        const bool same = want.isValid() ? value.toVariant() == want : value.isUndefined() || value.isNull();
        SIM_CHECK(same, "wrong-value", "the continuation was called with %s instead of %s", qPrintable(value.toString()), qPrintable(want.toString()));
        probe("continuation");
    }
};

template<typename T> QCoro::Task<T> work(Source *s) {
    struct Done { Source *s; ~Done() { s->finished = true; trace("work %d ends", s->id); } };
    Tracked local;
    for (int n = int(choose(3)); n > 0; --n) {
        if (chance(50)) co_await Gate(delay(30 * ms));
        else co_await QCoro::sleepFor(std::chrono::milliseconds(choose(20)));
    }
    Done done{s};
    if (s->end == End::StdErr) throw Err(s->id);
    if (s->end == End::Other) throw OtherErr{s->id};
    if constexpr (std::is_same_v<T, QVariant>) co_return s->result();
    else if constexpr (std::is_same_v<T, int>) co_return s->result().toInt();
    else if constexpr (std::is_same_v<T, QString>) co_return s->result().toString();
}

QCoro::QmlTask start(Source *s) {
    switch (s->kind) {
    case 0: return work<QVariant>(s);
    case 1: return work<int>(s);
    case 2: { QCoro::QmlTask t(work<QString>(s)); return t; }
    case 3: return work<void>(s);
    case 4: {
        auto p = std::make_shared<QPromise<QString>>();
        p->start();
        auto finish = [=] { s->finished = true; p->addResult(s->result().toString()); p->finish(); };
        if (chance(25)) finish(); else at(delay(40 * ms), finish, "future");
        return p->future();
    }
    default: {
        auto *timer = new QTimer;
        timer->setSingleShot(true);
        QObject::connect(timer, &QTimer::timeout, timer, [s] { s->finished = true; });
        timer->start(int(choose(40)));
        return timer;
    }
    }
}

void attach(Source *s, QCoro::QmlTask &task) {
    auto *u = new User{s};
    const int id = int(users.size());
    users.push_back(u);
    u->listener = !engine || chance(50);
    if (!u->listener) {
        trace("callback %d for %d", id, s->id);
        task.then(makeCallback->call({id}));
        if (s->finished && s->ok() && s->kind < 4) {
            SIM_CHECK(u->calls, "not-called", "the continuation of a finished task was not called promptly");
            probe("continuation-of-finished");
        }
        return;
    }
    trace("listener %d for %d", id, s->id);
    if (chance(60)) u->intermediate = QStringLiteral("wait %1").arg(id);
    const bool was = s->finished && s->kind < 4; // the others have yet to notice that the future or timer is done
    u->l = u->intermediate.isValid() ? task.await(u->intermediate) : task.await();
    SIM_CHECK(u->l, "no-listener", "await() returned no listener");
    if (was && s->ok()) {
        SIM_CHECK(u->l->value() == s->result() || (u->l->value().isNull() && s->result().isNull()), "wrong-value", "the listener of a finished task has the value %s", qPrintable(u->l->value().toString()));
        u->changes = 1;
        probe("listener-of-finished");
    } else if (s->finished && s->ok()) {
        if (u->l->value().isNull() && !u->intermediate.isValid()) u->maybe = true;
        else if (u->l->value() == s->result() || u->l->value().isNull()) u->changes = 1;
    }
    QObject::connect(u->l, &QCoro::QmlTaskListener::valueChanged, [u, s] {
        trace("listener notifies: %s", qPrintable(u->l->value().toString()));
        SIM_CHECK(s->finished && s->ok(), "early", "the listener changed although its task has not succeeded");
        SIM_CHECK(++u->changes == 1, "notified-twice", "a listener notified %d times", u->changes);
        SIM_CHECK(u->l->value() == s->result() || (u->l->value().isNull() && s->result().isNull()), "wrong-value", "the listener notified with %s instead of %s", qPrintable(u->l->value().toString()), qPrintable(s->result().toString()));
        probe("listener");
    });
    if (chance(20)) at(delay(60 * ms), [u] { if (u->l) { probe("listener-destroyed"); u->gone = true; delete u->l; } }, "destroy listener");
}

void settled(User *u) {
    auto *s = u->s;
    if (u->gone) return;
    const bool done = s->finished && s->ok();
    if (!u->listener) {
        SIM_CHECK(!done || u->calls, "not-called", "the continuation of a finished task was not called");
        return;
    }
    SIM_CHECK(u->l, "listener-gone", "the listener disappeared");
    const auto v = u->l->value(), want = done ? s->result() : u->intermediate;
    SIM_CHECK(v == want || (v.isNull() && want.isNull()), "wrong-value", "the listener of a task that %s has the value %s", done ? "succeeded" : s->finished ? "failed" : "is pending", qPrintable(v.toString()));
    SIM_CHECK(!done || u->maybe || u->changes == 1, "not-notified", "the listener of a finished task did not notify");
}

// The C++ object of a QML program.
class Backend : public Recorder {
    Q_OBJECT
public:
    Q_INVOKABLE QCoro::QmlTask fetch(int source) {
        SIM_CHECK(!mFetched[source]++, "harness", "fetched twice");
        return start(sources[size_t(source)]);
    }
    Q_INVOKABLE void value(int user, const QVariant &v) {
        auto *u = users[size_t(user)];
        const auto want = u->s->finished && u->s->ok() ? u->s->result() : u->intermediate;
        trace("binding %d is %s", user, qPrintable(v.toString()));
        if (u->s->kind >= 4 && v == u->intermediate) return;
        SIM_CHECK(v == want || (v.isNull() && want.isNull()), "wrong-value", "a binding became %s instead of %s", qPrintable(v.toString()), qPrintable(want.toString()));
        if (u->s->finished && u->s->ok()) {
            SIM_CHECK(++u->changes == 1, "notified-twice", "a binding was updated %d times with the result", u->changes);
            probe("binding");
        }
    }
private:
    std::map<int, int> mFetched;
};

} // namespace

SIM_SCENARIO("C25", qml_tasks, 3) {
    swarm();
    onIdle([] { for (auto *u : users) settled(u); });
    engine = new QJSEngine;
    auto *recorder = new Recorder;
    auto global = engine->newQObject(recorder);
    QJSEngine::setObjectOwnership(recorder, QJSEngine::CppOwnership);
    makeCallback = new QJSValue(engine->evaluate(QStringLiteral("(function(r) { return function(id) { return function(v) { r.hit(id, v); if (id % 5 == 4) throw new Error('thrown'); } } })")).call({global}));
    SIM_CHECK(makeCallback->isCallable(), "harness", "no callback factory");
    for (int n = 1 + int(choose(3)); n > 0; --n) {
        auto *s = new Source;
        sources.push_back(s);
        s->id = n;
        s->kind = int(choose(6));
        if (s->kind < 4 && chance(25)) s->end = chance(50) ? End::StdErr : End::Other;
        at(delay(30 * ms), [s] {
            // Copies are handed around; all refer to the same work.
            auto *copies = new std::vector<QCoro::QmlTask>;
            copies->push_back(start(s));
            for (int i = int(choose(3)); i > 0; --i) {
                switch (choose(3)) {
                case 0: copies->push_back(QCoro::QmlTask(copies->front())); break;
                case 1: { QCoro::QmlTask t; t = copies->front(); copies->push_back(t); break; }
                default: copies->push_back(qvariant_cast<QCoro::QmlTask>(QVariant::fromValue(copies->front())));
                }
                probe("copied");
            }
            for (int i = 1 + int(choose(4)); i > 0; --i) {
                const bool now_ = chance(40);
                auto go = [s, copies] {
                    if (copies->empty()) return;
                    auto &t = (*copies)[choose(uint32_t(copies->size()))];
                    if (chance(30)) { auto c = t; attach(s, c); } // a copy that is gone at once
                    else attach(s, t);
                };
                if (now_) go(); else at(delay(60 * ms), go, "attach");
            }
            if (chance(40)) at(delay(50 * ms), [copies] { probe("dropped"); copies->clear(); }, "drop");
            else if (chance(30)) at(delay(50 * ms), [copies] { if (!copies->empty()) copies->pop_back(); }, "drop one");
        }, "start");
    }
    if (chance(30)) at(delay(60 * ms), [] { if (engine) engine->collectGarbage(); }, "gc");
    if (chance(15)) at(delay(60 * ms), [] {
        probe("engine-destroyed");
        for (auto *u : users) if (!u->listener && !u->calls) u->gone = true;
        delete makeCallback;
        delete engine;
        engine = nullptr;
    }, "engine");
    if (chance(15)) { // a task that is not connected to anything
        probe("empty-task");
        QCoro::QmlTask empty;
        empty.then(makeCallback->call({0}));
        auto *l = empty.await(QStringLiteral("nothing"));
        SIM_CHECK(l && l->value() == QStringLiteral("nothing"), "no-listener", "an empty task has no listener with the intermediate value");
    }
    SIM_CHECK(run(), "not-idle", "the program never becomes idle");
    for (auto *u : users) settled(u);
}

SIM_SCENARIO("C25", qml_program, 1) {
    swarm();
    auto *qml = new QQmlEngine;
    auto *backend = new Backend;
    qml->rootContext()->setContextProperty(QStringLiteral("backend"), backend);
    qRegisterMetaType<QCoro::QmlTask>();
    qmlRegisterAnonymousType<QCoro::QmlTaskListener>("QCoro", 0);
    QString properties, completed;
    std::vector<std::pair<QByteArray, User *>> bound;
    for (int n = 1 + int(choose(3)); n > 0; --n) {
        auto *s = new Source;
        const int k = int(sources.size());
        sources.push_back(s);
        s->id = k;
        s->kind = int(choose(6));
        if (s->kind < 4 && chance(25)) s->end = chance(50) ? End::StdErr : End::Other;
        const QString task = chance(50) ? QStringLiteral("t%1").arg(k) : QStringLiteral("backend.fetch(%1)").arg(k);
        const bool shared = task[0] == QLatin1Char('t');
        if (shared) properties += QStringLiteral("    property var t%1: backend.fetch(%1)\n").arg(k);
        for (int i = shared ? 1 + int(choose(3)) : 1; i > 0; --i) {
            auto *u = new User{s};
            const int id = int(users.size());
            users.push_back(u);
            if (chance(50)) {
                completed += QStringLiteral("        %1.then(function(v) { backend.hit(%2, v) })\n").arg(task).arg(id);
                continue;
            }
            u->listener = true;
            QString argument;
            if (chance(60)) {
                u->intermediate = QStringLiteral("wait %1").arg(id);
                argument = QStringLiteral("'wait %1'").arg(id);
            }
            properties += QStringLiteral("    property var l%1: %2.await(%3)\n    property var v%1: l%1.value\n    onV%1Changed: backend.value(%1, v%1)\n").arg(id).arg(task, argument);
            bound.push_back({QByteArray("v") + QByteArray::number(id), u});
        }
    }
    const QString text = QStringLiteral("import QtQml\nQtObject {\n") + properties + QStringLiteral("    Component.onCompleted: {\n") + completed + QStringLiteral("    }\n}\n");
    trace("%s", qPrintable(text));
    auto *component = new QQmlComponent(qml);
    component->setData(text.toUtf8(), QUrl(QStringLiteral("qrc:/sim.qml")));
    auto *object = component->create();
    SIM_CHECK(object, "harness", "%s", qPrintable(component->errorString()));
    auto check = [=] {
        for (auto *u : users) {
            const bool done = u->s->finished && u->s->ok();
            if (!u->listener && !u->gone) SIM_CHECK(!done || u->calls, "not-called", "the continuation of a finished task was not called");
        }
        for (auto &[name, u] : bound) {
            if (u->gone) continue;
            const bool done = u->s->finished && u->s->ok();
            const auto v = object->property(name.constData()), want = done ? u->s->result() : u->intermediate;
            SIM_CHECK(v == want || (v.isNull() && want.isNull()), "wrong-value", "the binding to a task that %s is %s", done ? "succeeded" : u->s->finished ? "failed" : "is pending", qPrintable(v.toString()));
        }
    };
    onIdle(check);
    for (int i = int(choose(3)); i > 0; --i) at(delay(60 * ms), [qml] { qml->collectGarbage(); }, "gc");
    if (chance(20)) at(delay(60 * ms), [object] {
        probe("component-destroyed");
        for (auto *u : users) u->gone = true;
        delete object;
    }, "destroy component");
    SIM_CHECK(run(), "not-idle", "the program never becomes idle");
    check();
}

#include "c25_qml.moc"
