// C03: then() continuations run exactly once with the right callback and result.
#include "jobs.h"

#include <functional>
#include <variant>

using namespace sim;

namespace {

// What a link's callback does when called.
enum class Act { Return, Throw, ThrowOther };
struct Link {
    int id = 0;
    bool hasErr = false, lvalue = false, noArg = false;
    int param = 0; // how the callback takes the value
    int ret = 0; // 0 int, 1 void, 2 Task<int>, 3 Task<void>, 4 Tagged
    Act act = Act::Return;
    Act errAct = Act::Return;
    Job *inner = nullptr;   // for callbacks returning tasks
    Job *source = nullptr;  // the first link's source
    Link *prev = nullptr;
    int calls = 0, errCalls = 0;
    int closures = 0;       // live callback closures
    bool done = false;      // outcome below is known
    Outcome out;            // expected outcome of the chained task
    int valueId = 0;        // id of the value it delivers (0: default value)
};
std::vector<Link *> links;

// Expected input of a link, known once its predecessor finished.
bool input(Link *l, Outcome &in) {
    if (l->prev) { if (!l->prev->done) return false; in = l->prev->out; return true; }
    if (!l->source->finished()) return false;
    in = l->source->outcome;
    return true;
}
void settle(Link *l, Outcome o) { l->done = true; l->out = o; trace("link %d settles: %s %d", l->id, o.name(), o.id); }
// Links not given control (failure passing through) settle lazily.
void settleThrough(Link *l) {
    Outcome in;
    if (l->done || !input(l, in)) return;
    if (in.end == End::Value || (in.end == End::StdErr && l->hasErr)) return;
    settle(l, in);
}
void settleInner(Link *l);
void settleChain(Link *l) { if (l->prev) { settleChain(l->prev); settleInner(l->prev); } settleThrough(l); }

struct Cb { // common part of the closures
    Link *l;
    Tracked t;
    std::shared_ptr<int> own = std::make_shared<int>(1); // gone once moved from
    explicit Cb(Link *k) : l(k), t(&k->closures) {}
    void called(const int *arg) const {
        SIM_CHECK(t.alive() && own, "destroyed-early", "the callback object is gone while it is called");
        settleChain(l);
        Outcome in;
        SIM_CHECK(input(l, in), "called-early", "continuation %d called before its task finished", l->id);
        SIM_CHECK(in.end == End::Value, "wrong-callback", "continuation %d called although its task failed", l->id);
        ++l->calls;
        SIM_CHECK(l->calls == 1 && l->errCalls == 0, "called-twice", "continuation %d called %d times", l->id, l->calls + l->errCalls);
        if (arg) SIM_CHECK(*arg == in.id, "wrong-argument", "continuation %d got %d instead of %d", l->id, *arg, in.id);
        trace("link %d called", l->id);
    }
    template<typename R> R result() const {
        if (l->act == Act::Throw) { settle(l, {End::StdErr, 1000 + l->id}); throw Err(1000 + l->id); }
        if (l->act == Act::ThrowOther) { settle(l, {End::Other, 1000 + l->id}); throw OtherErr{1000 + l->id}; }
        if constexpr (std::is_same_v<R, QCoro::Task<int>>) return job<QCoro::Task, int>(l->inner, Tracked(&l->inner->args));
        else if constexpr (std::is_same_v<R, QCoro::Task<void>>) return job<QCoro::Task, void>(l->inner, Tracked(&l->inner->args));
        else if constexpr (std::is_same_v<R, int>) { settle(l, {End::Value, 1000 + l->id}); return 1000 + l->id; }
        else if constexpr (std::is_same_v<R, Tagged>) { settle(l, {End::Value, 1000 + l->id}); return Tagged(1000 + l->id, nullptr); }
        else { settle(l, {End::Value, 0}); }
    }
    void failed(const std::exception &e) const {
        SIM_CHECK(t.alive() && own, "destroyed-early", "the error callback object is gone while it is called");
        settleChain(l);
        Outcome in;
        SIM_CHECK(input(l, in), "called-early", "error continuation %d called before its task finished", l->id);
        SIM_CHECK(in.end == End::StdErr, "wrong-callback", "error continuation %d called although its task did not fail with a standard exception", l->id);
        ++l->errCalls;
        SIM_CHECK(l->errCalls == 1 && l->calls == 0, "called-twice", "error continuation %d called %d times", l->id, l->calls + l->errCalls);
        auto *err = dynamic_cast<const Err *>(&e);
        SIM_CHECK(err && err->id == in.id, "wrong-argument", "error continuation %d got a different exception", l->id);
        if (l->errAct == Act::Throw) { settle(l, {End::StdErr, 2000 + l->id}); throw Err(2000 + l->id); }
        if (l->errAct == Act::ThrowOther) { settle(l, {End::Other, 2000 + l->id}); throw OtherErr{2000 + l->id}; }
        settle(l, {End::Value, 0}); // default value
    }
};

// The expected outcome of a link whose callback returned a task follows that task.
void settleInner(Link *l) {
    if (l->done || !l->inner || l->calls != 1 || !l->inner->finished()) return;
    auto o = l->inner->outcome;
    if (o.end == End::Value && l->ret == 3) o.id = 0;
    settle(l, o);
}
void settleAll() { for (auto *l : links) { settleChain(l); settleInner(l); } }

using Any = std::variant<QCoro::Task<int>, QCoro::Task<void>, QCoro::Task<Tagged>>;

template<typename R> struct Plain { Cb cb; R operator()() const { cb.called(nullptr); return cb.template result<R>(); } };
template<typename R, typename P> struct Taking { Cb cb; R operator()(P v) const { int id = valueId(v); cb.called(&id); return cb.template result<R>(); } };
struct Failing { Cb cb; void operator()(const std::exception &e) const { cb.failed(e); } };

template<typename R, typename T>
Any attach(QCoro::Task<T> &task, Link *l) {
    Cb cb(l);
    auto go = [&](auto fn) -> Any {
        Failing err{cb};
        if (l->lvalue) {
            std::optional<Any> next;
            if (l->hasErr) next = task.then(fn, err);
            else next = task.then(fn);
            SIM_CHECK(fn.cb.own && err.cb.own, "callback-emptied", "then() emptied the caller's callback object");
            return std::move(*next);
        }
        if (l->hasErr) return std::move(task).then(std::move(fn), std::move(err));
        return std::move(task).then(std::move(fn));
    };
    if constexpr (!std::is_void_v<T>) {
        if (!l->noArg) {
            switch (l->param) {
            case 0: return go(Taking<R, T>{cb});
            case 1: return go(Taking<R, const T &>{cb});
            default: return go(Taking<R, T &&>{cb});
            }
        }
    }
    return go(Plain<R>{cb});
}
template<typename T>
Any attachAny(QCoro::Task<T> &task, Link *l) {
    switch (l->ret) {
    case 0: return attach<int>(task, l);
    case 1: return attach<void>(task, l);
    case 2: return attach<QCoro::Task<int>>(task, l);
    case 3: return attach<QCoro::Task<void>>(task, l);
    default: return attach<Tagged>(task, l);
    }
}

std::vector<Any> kept; // named tasks held until the end

struct Final { Link *l; int resumed = 0; };

template<typename T>
QCoro::Task<> awaitEnd(Final *f, QCoro::Task<T> task) {
    Outcome got;
    try {
        if constexpr (std::is_void_v<T>) { co_await task; got = {End::Value, 0}; }
        else got = {End::Value, valueId(co_await task)};
    } catch (const Err &e) { got = {End::StdErr, e.id};
    } catch (const OtherErr &e) { got = {End::Other, e.id}; }
    ++f->resumed;
    settleAll();
    SIM_CHECK(f->l->done, "finished-early", "the chained task finished before its continuation was done");
    Outcome want = f->l->out;
    if (want.end == End::Value && std::is_void_v<T>) want.id = 0;
    checkOutcome(got, want, "chained task");
}

} // namespace

SIM_SCENARIO("C03", then_chain, 1) {
    swarm();
    std::vector<Final *> finals;
    std::vector<Link *> last;
    int id = 0;
    for (int c = 1 + int(choose(2)); c > 0; --c) {
        auto *src = Job::random(++id);
        const int srcType = int(choose(3));
        const int n = 1 + int(choose(4));
        std::vector<Link *> chain;
        for (int i = 0; i < n; ++i) {
            auto *l = new Link;
            l->id = ++id;
            l->hasErr = chance(45);
            l->lvalue = chance(40);
            l->noArg = chance(30);
            l->param = int(choose(3));
            l->ret = int(choose(5));
            l->act = Act(choose(6) < 4 ? 0 : 1 + choose(2));
            l->errAct = Act(choose(6) < 4 ? 0 : 1 + choose(2));
            if (l->ret == 2 || l->ret == 3) { l->inner = Job::random(3000 + id, 2); }
            l->prev = chain.empty() ? nullptr : chain.back();
            l->source = src;
            chain.push_back(l);
            links.push_back(l);
        }
        const bool awaitIt = chance(70);
        auto *fin = new Final{chain.back()};
        if (awaitIt) finals.push_back(fin);
        const int64_t attachDelay = chance(50) ? 0 : delay(60 * ms);
        const bool allAtOnce = chance(60);
        at(delay(20 * ms), [=] {
            auto cur = std::make_shared<Any>();
            if (srcType == 0) *cur = job<QCoro::Task, int>(src, Tracked(&src->args));
            else if (srcType == 1) { *cur = job<QCoro::Task, void>(src, Tracked(&src->args)); }
            else *cur = job<QCoro::Task, Tagged>(src, Tracked(&src->args));
            auto attachNext = std::make_shared<std::function<void(size_t)>>();
            *attachNext = [=](size_t i) {
                if (i == chain.size()) {
                    if (awaitIt) std::visit([&](auto &t) { awaitEnd(fin, std::move(t)); }, *cur);
                    *cur = QCoro::Task<int>(); // drops the chain when it is not awaited
                    return;
                }
                settleAll();
                Outcome in;
                if (input(chain[i], in)) probe("then-on-finished"); else probe("then-on-pending");
                if (chain[i]->lvalue && !std::holds_alternative<QCoro::Task<Tagged>>(*cur) && chance(30)) { // one more continuation of the same task
                    probe("several-continuations");
                    auto *fork = new Link(*chain[i]);
                    fork->id = 500 + chain[i]->id;
                    fork->ret = int(choose(2));
                    fork->inner = nullptr;
                    links.push_back(fork);
                    kept.push_back(std::visit([&](auto &t) { return attachAny(t, fork); }, *cur));
                }
                Any next = std::visit([&](auto &t) { return attachAny(t, chain[i]); }, *cur);
                if (chain[i]->lvalue && chance(50)) { probe("named-task-outlives"); kept.push_back(std::move(*cur)); }
                *cur = std::move(next);
                if (allAtOnce) (*attachNext)(i + 1);
                else at(delay(30 * ms), [=] { (*attachNext)(i + 1); }, "attach");
            };
            at(attachDelay, [=] { (*attachNext)(0); }, "attach");
        }, "start");
    }
    SIM_CHECK(run(), "not-idle", "the program is still busy after an hour");
    kept.clear();
    settleAll();
    for (auto *l : links) {
        Outcome in;
        SIM_CHECK(input(l, in), "never-finished", "link %d: its task never finished", l->id);
        const int wantCalls = in.end == End::Value, wantErr = in.end == End::StdErr && l->hasErr;
        SIM_CHECK(l->calls == wantCalls && l->errCalls == wantErr, "callback-count", "link %d after %s: callback called %d times, error callback %d times", l->id, in.name(), l->calls, l->errCalls);
        SIM_CHECK(l->closures == 0, "leak", "link %d: %d callback objects are still alive", l->id, l->closures);
        if (l->inner && l->calls && l->act == Act::Return) SIM_CHECK(l->inner->runs == 1, "not-run-once", "the callback's coroutine ran %d times", l->inner->runs);
    }
    for (auto *f : finals) SIM_CHECK(f->resumed == 1, "never-resumed", "the chained task of link %d finished but its awaiter was resumed %d times", f->l->id, f->resumed);
}
