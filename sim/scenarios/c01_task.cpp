// C01: awaiting a task delivers its outcome exactly once, after it finished.
#include "common.h"
#include "qcorotimer.h"
#include "qcorosignal.h"

#include <map>
#include <set>

using namespace sim;

namespace {

struct Pod { int id; int pad[5]; };
struct MoveOnly {
    explicit MoveOnly(int i) : p(new int(i)), t(1) {}
    std::unique_ptr<int> p;
    Token t;
};
struct FromInt { // converted to from int at co_return
    FromInt() = default;
    FromInt(int i) : s(QString::number(i)) { if (toxic.count(i)) throw Err(i); }
    QString s;
    static inline std::set<int> toxic; // conversions of these fail
};
struct Picky { // copying it may fail
    Picky() = default;
    explicit Picky(int i) : p(std::make_shared<int>(i)) {}
    Picky(const Picky &o) : p(o.p) { fussy(); }
    Picky(Picky &&o) noexcept = default;
    Picky &operator=(const Picky &o) { p = o.p; fussy(); return *this; }
    Picky &operator=(Picky &&o) noexcept = default;
    void fussy() const { if (p && toxic.count(*p)) throw Err(*p); }
    std::shared_ptr<int> p;
    static inline std::set<int> toxic;
};

template<typename T> struct Val;
template<> struct Val<int> { static int make(int i) { return i; } static int id(const int &v) { return v; } };
template<> struct Val<Pod> { static Pod make(int i) { return {i, {i, i, i, i, i}}; } static int id(const Pod &v) { return v.id == v.pad[4] ? v.id : -1; } };
template<> struct Val<QString> { static QString make(int i) { return QStringLiteral("value-%1").arg(i); } static int id(const QString &v) { return v.startsWith(QLatin1String("value-")) ? v.mid(6).toInt() : -1; } };
template<> struct Val<std::vector<int>> { static std::vector<int> make(int i) { return std::vector<int>(40, i); } static int id(const std::vector<int> &v) { return v.size() == 40 ? v[39] : -1; } };
template<> struct Val<MoveOnly> { static MoveOnly make(int i) { return MoveOnly(i); } static int id(const MoveOnly &v) { return v.p ? *v.p : -1; } };
template<> struct Val<FromInt> { static FromInt make(int i) { return FromInt(i); } static int id(const FromInt &v) { return v.s.isEmpty() ? -1 : v.s.toInt(); } };
template<> struct Val<Picky> { static Picky make(int i) { return Picky(i); } static int id(const Picky &v) { return v.p ? *v.p : -1; } };
template<typename T> constexpr bool copyableResult = std::is_void_v<T> || std::is_trivially_copyable_v<T>;

enum class End { Value, StdErr, Other };
struct Spec {
    int id = 0;
    int pauses = 0;
    End end = End::Value;
    int how = 0;            // how the value is returned
    bool constant = false;
    bool unreturnable = false; // copying or converting the result fails
    bool started = false;
    bool finished = false;  // the body has ended
    int finishedSeq = 0;
    int awaits = 0;         // so far
};
int gSeq = 0;

QCoro::Task<> nested(int depth) {
    if (depth > 0) co_await nested(depth - 1);
    else co_await Gate(delay(5 * ms));
}

template<typename T> struct Shared { T member; };

struct Finish { // runs last in the body, whatever the way out
    Spec *s;
    ~Finish() { s->finished = true; s->finishedSeq = ++gSeq; trace("worker %d finished", s->id); }
};

template<typename T>
QCoro::Task<T> worker(Spec *s, Token arg) {
    Finish fin{s};
    s->started = true;
    Token local(2);
    for (int i = 0; i < s->pauses; ++i) {
        switch (choose(6)) {
        case 0: co_await Gate(delay(20 * ms)); break;
        case 1: co_await QCoro::sleepFor(std::chrono::milliseconds(choose(20))); break;
        case 2: co_await nested(int(choose(4))); break;
        case 3: co_await GateMember{delay(20 * ms)}; break;
        case 4: { QTimer t; t.start(int(choose(8))); co_await t; break; }
        case 5: { QTimer t; t.setSingleShot(true); t.start(int(choose(8))); co_await qCoro(&t, &QTimer::timeout); break; }
        }
    }
    if (s->end == End::StdErr && !s->unreturnable) throw Err(s->id);
    if (s->end == End::Other) throw OtherErr{s->id};
    if constexpr (std::is_void_v<T>) {
        co_return;
    } else if constexpr (std::is_same_v<T, FromInt>) {
        const int c = s->id;
        int l = s->id;
        switch (s->how) {
        case 0: co_return s->id;
        case 1: co_return c;
        case 2: co_return std::as_const(s->id);
        case 3: co_return std::move(l);
        default: co_return l;
        }
    } else if constexpr (std::is_copy_constructible_v<T>) {
        switch (s->how) {
        case 0: co_return Val<T>::make(s->id);
        case 1: { T v = Val<T>::make(s->id); co_return v; }
        case 2: { const T v = Val<T>::make(s->id); co_return v; }
        case 3: { T v = Val<T>::make(s->id); co_return std::move(v); }
        default: { // an object that outlives the coroutine must not be emptied by returning it
            auto sh = std::make_shared<Shared<T>>(Shared<T>{Val<T>::make(s->id)});
            struct Check { std::shared_ptr<Shared<T>> sh; int id; ~Check() { SIM_CHECK(Val<T>::id(sh->member) == id, "returned-object-emptied", "returning an lvalue from a coroutine emptied the caller's object"); } } check{sh, s->id};
            if (s->constant) co_return std::as_const(sh->member);
            co_return sh->member;
        }
        }
    } else {
        co_return Val<T>::make(s->id);
    }
}

struct Consumer { int resumed = 0; bool expectNever = false; bool running = false; bool emptied = false; };
std::vector<std::unique_ptr<Consumer>> consumers;

void check(Consumer *c, Spec *s, const char *what, int id) {
    if (c->emptied && !strcmp(what, "value")) { probe("emptied-result"); id = s->id; }
    ++c->resumed;
    trace("consumer resumed with %s", what);
    SIM_CHECK(!c->expectNever, "resumed-without-task", "awaiting an empty task resumed");
    SIM_CHECK(c->resumed == 1, "resumed-twice", "one await resumed %d times", c->resumed);
    SIM_CHECK(s->finished, "resumed-early", "an awaiter was resumed although the task had not finished");
    switch (s->end) {
    case End::Value: SIM_CHECK(!strcmp(what, "value") && id == s->id, "wrong-outcome", "task returned value %d but the awaiter got %s %d", s->id, what, id); break;
    case End::StdErr: SIM_CHECK(!strcmp(what, "error") && id == s->id, "wrong-outcome", "task threw error %d but the awaiter got %s %d", s->id, what, id); break;
    case End::Other: SIM_CHECK(!strcmp(what, "other") && id == s->id, "wrong-outcome", "task threw other %d but the awaiter got %s %d", s->id, what, id); break;
    }
}

// The different ways to await.
template<typename T>
QCoro::Task<> consume(Consumer *c, Spec *s, std::shared_ptr<QCoro::Task<T>> task, int form) {
    c->running = true;
    // taking the result may empty it for everybody but the first who awaits
    if (s->awaits++ > 0 && !copyableResult<T>) c->emptied = true;
    try {
        if constexpr (std::is_void_v<T>) {
            switch (form) {
            case 0: co_await *task; break;
            case 1: { QCoro::Task<T> mine = std::move(*task); co_await mine; break; }
            case 2: co_await std::move(*task); break;
            default: { QCoro::Task<T> mine; mine = std::move(*task); task.reset(); co_await mine; break; }
            }
            check(c, s, "value", s->id);
        } else {
            int id = -2;
            switch (form) {
            case 0: { const auto &v = co_await *task; id = Val<T>::id(v); break; }
            case 1: { QCoro::Task<T> mine = std::move(*task); T v = co_await mine; id = Val<T>::id(v); break; }
            case 2: { T v = co_await std::move(*task); id = Val<T>::id(v); break; }
            default: { QCoro::Task<T> mine; mine = std::move(*task); task.reset(); T v = co_await mine; id = Val<T>::id(v); break; }
            }
            check(c, s, "value", id);
        }
    } catch (const Err &e) { check(c, s, "error", e.id);
    } catch (const OtherErr &e) { check(c, s, "other", e.id); }
}
// co_await fn(...) on the spot, through another coroutine layer
template<typename T>
QCoro::Task<T> layer(Spec *s, int depth) {
    if constexpr (std::is_void_v<T>) {
        if (depth == 0) co_await worker<T>(s, Token(3)); else co_await layer<T>(s, depth - 1);
    } else {
        if (depth == 0) co_return co_await worker<T>(s, Token(3));
        co_return co_await layer<T>(s, depth - 1);
    }
}
template<typename T>
QCoro::Task<> consumeInline(Consumer *c, Spec *s, int depth) {
    c->running = true;
    try {
        if constexpr (std::is_void_v<T>) {
            co_await layer<T>(s, depth);
            check(c, s, "value", s->id);
        } else {
            T v = co_await layer<T>(s, depth);
            check(c, s, "value", Val<T>::id(v));
        }
    } catch (const Err &e) { check(c, s, "error", e.id);
    } catch (const OtherErr &e) { check(c, s, "other", e.id); }
}

template<typename T>
void program(int &nextId) {
    static std::vector<std::unique_ptr<Spec>> specs;
    const int n = 1 + choose(3);
    for (int i = 0; i < n; ++i) {
        specs.push_back(std::make_unique<Spec>());
        Spec *s = specs.back().get();
        s->id = ++nextId;
        s->pauses = int(choose(4));
        s->end = End(choose(8) < 5 ? 0 : 1 + choose(2));
        s->how = int(choose(5));
        s->constant = chance(50);
        if constexpr (std::is_same_v<T, FromInt> || std::is_same_v<T, Picky>) {
            // the result cannot be made from what is returned: that error is the task's outcome
            if (s->end == End::Value && chance(40)) {
                T::toxic.insert(s->id);
                s->unreturnable = true;
                if (std::is_same_v<T, FromInt> || s->how == 2 || s->how == 4) { s->end = End::StdErr; fault("result-copy-fails"); }
            }
        }
        auto newConsumer = [] { consumers.push_back(std::make_unique<Consumer>()); return consumers.back().get(); };
        if (chance(20)) { // awaited as a temporary through layers
            auto *c = newConsumer();
            int depth = int(choose(5));
            at(delay(20 * ms), [c, s, depth] { consumeInline<T>(c, s, depth); }, "consume-inline");
            continue;
        }
        int64_t start = delay(10 * ms);
        int awaiters = copyableResult<T> || chance(25) ? 1 + int(choose(chance(10) ? 24 : 4)) : 1;
        if (awaiters > 8) probe("many-awaiters");
        if (awaiters > 1) probe("several-awaiters");
        struct Plan { int64_t when; int form; Consumer *c; };
        auto plans = std::make_shared<std::vector<Plan>>();
        for (int a = 0; a < awaiters; ++a)
            plans->push_back({delay(60 * ms), awaiters > 1 ? 0 : int(choose(4)), newConsumer()});
        const bool relocate = chance(30);
        at(start, [=] {
            auto task = std::make_shared<QCoro::Task<T>>(worker<T>(s, Token(3)));
            SIM_CHECK(s->started, "not-started", "an eager task did not start");
            SIM_CHECK(task->isReady() == s->finished, "wrong-ready", "isReady() is %d for a task that %s", task->isReady(), s->finished ? "has finished" : "is running");
            if (relocate) { // moved into another handle before anybody awaits
                QCoro::Task<T> other(std::move(*task));
                SIM_CHECK(task->isReady(), "wrong-ready", "a moved-from task is not ready");
                SIM_CHECK(other.isReady() == s->finished, "wrong-ready", "isReady() wrong after a move");
                *task = std::move(other);
                SIM_CHECK(other.isReady(), "wrong-ready", "a moved-from task is not ready");
            }
            for (auto &p : *plans) {
                at(p.when, [=] {
                    if (s->finished) probe("await-after-finish"); else probe("await-before-finish");
                    consume<T>(p.c, s, task, p.form);
                }, "consume");
            }
            for (int k = int(choose(3)); k > 0; --k)
                at(delay(60 * ms), [=] {
                    // the handle may have been moved from by then
                    if (awaiters > 1 || plans->front().form == 0)
                        SIM_CHECK(task->isReady() == s->finished, "wrong-ready", "isReady() is %d for a task that %s", task->isReady(), s->finished ? "has finished" : "is running");
                }, "ready?");
        }, "start");
    }
}

} // namespace

SIM_SCENARIO("C01", task_outcome, 4) {
    swarm();
    int id = 0;
    for (int k = 1 + int(choose(2)); k > 0; --k) {
        switch (choose(8)) {
        case 7: program<Picky>(id); break;
        case 0: program<int>(id); break;
        case 1: program<void>(id); break;
        case 2: program<QString>(id); break;
        case 3: program<Pod>(id); break;
        case 4: program<MoveOnly>(id); break;
        case 5: program<FromInt>(id); break;
        case 6: program<std::vector<int>>(id); break;
        }
    }
    if (chance(20)) { // awaiting nothing never resumes
        auto c = std::make_unique<Consumer>();
        c->expectNever = true;
        auto *pc = c.get();
        consumers.push_back(std::move(c));
        static Spec dummy;
        int form = int(choose(3));
        at(delay(20 * ms), [pc, form] { consume<int>(pc, &dummy, std::make_shared<QCoro::Task<int>>(), form); }, "consume-empty");
        probe("await-empty");
    }
    SIM_CHECK(run(), "not-idle", "the program is still busy after an hour");
    for (auto &c : consumers)
        SIM_CHECK(c->resumed == (c->expectNever ? 0 : 1), "never-resumed", "an awaiter was resumed %d times although every task has finished", c->resumed);
}
