// C02: coroutine frames run to completion and are destroyed exactly once.
#include "jobs.h"

using namespace sim;

namespace {

struct HandleBase {
    virtual ~HandleBase() = default;
    virtual bool ready() const = 0;
    virtual void replaceBy(HandleBase &other) = 0; // move-assign
    virtual std::unique_ptr<HandleBase> moved() = 0; // move-construct
    virtual void selfMove() = 0;
    virtual void await() = 0;       // keep the handle, await it
    virtual bool empty() const = 0;
};
struct Tracker { Job *job; int handles = 0; int awaiting = 0; bool everAwaited = false; };
std::vector<Tracker *> trackers;

template<typename T>
Detached awaitHandle(Tracker *tr, QCoro::Task<T> &task);

template<typename T>
struct Handle : HandleBase {
    QCoro::Task<T> task;
    Tracker *tr = nullptr; // what `task` refers to (nullptr: empty)
    Handle() = default;
    Handle(QCoro::Task<T> &&t, Tracker *r) : task(std::move(t)), tr(r) { ++tr->handles; }
    ~Handle() override { if (tr) --tr->handles; tr = nullptr; task = {}; }
    bool ready() const override { return task.isReady(); }
    bool empty() const override { return !tr; }
    void replaceBy(HandleBase &o) override {
        auto *h = dynamic_cast<Handle *>(&o);
        if (!h || h == this) return;
        if (tr) --tr->handles;
        tr = h->tr; h->tr = nullptr;
        task = std::move(h->task);
    }
    std::unique_ptr<HandleBase> moved() override {
        auto n = std::make_unique<Handle>();
        QCoro::Task<T> t(std::move(task));
        n->task = std::move(t);
        n->tr = tr; tr = nullptr;
        return n;
    }
    void selfMove() override { auto &self = task; task = std::move(self); }
    void await() override { if (tr) awaitHandle<T>(tr, task); }
};

template<typename T>
QCoro::Task<> awaitIt(Tracker *tr, QCoro::Task<T> &task, bool first) {
    Outcome got;
    try {
        if constexpr (std::is_void_v<T>) { co_await task; got = {End::Value, tr->job->id}; }
        else { T v = co_await task; got = {End::Value, valueId(v)}; }
    } catch (const Err &e) { got = {End::StdErr, e.id};
    } catch (const OtherErr &e) { got = {End::Other, e.id}; }
    if (!first && !std::is_void_v<T> && !std::is_same_v<T, int>) got.id = tr->job->id; // the first awaiter took the value
    checkOutcome(got, tr->job->outcome, "awaiter");
    SIM_CHECK(tr->job->finished(), "resumed-early", "an awaiter was resumed before the job finished");
}
template<typename T>
Detached awaitHandle(Tracker *tr, QCoro::Task<T> &task) {
    ++tr->awaiting;
    const bool first = !tr->everAwaited;
    tr->everAwaited = true;
    co_await awaitIt<T>(tr, task, first);
    --tr->awaiting;
}

void invariant(const char *when) {
    for (auto *tr : trackers) {
        auto *j = tr->job;
        SIM_CHECK(j->runs == 1, "not-run-once", "%s: a coroutine body ran %d times", when, j->runs);
        if (!j->finished()) {
            SIM_CHECK(j->args > 0 && j->locals > 0, "destroyed-early", "%s: the frame of an unfinished coroutine is gone (%d handles)", when, tr->handles);
        } else {
            SIM_CHECK(j->finishedCount == 1, "not-run-once", "%s: a coroutine body ended %d times", when, j->finishedCount);
            SIM_CHECK(j->locals == 0, "leak", "%s: locals of a finished coroutine are alive", when);
            if (tr->handles == 0 && !tr->awaiting)
                SIM_CHECK(j->args == 0 && j->results == 0 && j->errors == 0, "leak",
                          "%s: frame of a finished coroutine without handle not released (args %d results %d errors %d)", when, j->args, j->results, j->errors);
            if (tr->handles > 0 && !tr->everAwaited) {
                if (j->outcome.end == End::StdErr) SIM_CHECK(j->errors == 1, "destroyed-early", "%s: the stored exception is gone", when);
            }
        }
    }
}

template<typename T>
std::unique_ptr<HandleBase> start(Tracker *tr) {
    return std::make_unique<Handle<T>>(job<QCoro::Task, T>(tr->job, Tracked(&tr->job->args)), tr);
}
std::unique_ptr<HandleBase> startAny(Tracker *tr, int type) {
    switch (type) {
    case 0: return start<int>(tr);
    case 1: return start<void>(tr);
    case 2: return start<Tagged>(tr);
    default: return start<std::unique_ptr<Tagged>>(tr);
    }
}

// An object that keeps the handle of a coroutine which keeps the object alive: overwriting the handle ends both.
struct Counts { int owners = 0, args = 0, errors = 0; };
Counts counts;

template<typename TaskT>
struct Owner {
    TaskT task;
    Tracked life{&counts.owners};
};
template<typename TaskT>
struct Keep { // an argument that keeps the owner, and may use its handle when it is released
    std::shared_ptr<Owner<TaskT>> owner;
    int atEnd = 0;
    Tracked life{&counts.args};
    Keep(std::shared_ptr<Owner<TaskT>> o, int a) : owner(std::move(o)), atEnd(a) {}
    Keep(Keep &&o) noexcept : owner(std::move(o.owner)), atEnd(o.atEnd) {}
    ~Keep() {
        if (!owner) return;
        SIM_CHECK(owner->life.alive(), "destroyed-early", "the owner is gone although an argument keeps it");
        if (atEnd == 1) owner->task.isReady();
        if (atEnd == 2) owner->task = TaskT();
    }
};
template<typename TaskT>
TaskT keepOwner(Keep<TaskT> keep, int64_t pause, int end) {
    if (pause >= 0) co_await Gate(pause);
    if (end == 1) throw JobErr(1, &counts.errors);
    if constexpr (!std::is_void_v<typename TaskT::value_type>) co_return std::static_pointer_cast<void>(keep.owner);
}
template<typename TaskT>
void planSelfOwned() {
    const auto maybePause = [] { return chance(50) ? int64_t(choose(20)) * ms : -1; };
    auto o = std::make_shared<std::shared_ptr<Owner<TaskT>>>();
    auto raw = std::make_shared<Owner<TaskT> *>(nullptr);
    const int atEnd = int(choose(3)), end = int(choose(4));
    const int64_t pause = maybePause();
    at(delay(10 * ms), [=] {
        *o = std::make_shared<Owner<TaskT>>();
        *raw = o->get();
        (*raw)->task = keepOwner<TaskT>(Keep<TaskT>(*o, atEnd), pause, end);
        if (chance(60)) o->reset(); // now only the coroutine keeps it
    }, "start");
    at(100 * ms + delay(80 * ms), [=] {
        probe("overwrite-self-owned");
        switch (choose(3)) {
        case 0: (*raw)->task = TaskT(); break;
        case 1: (*raw)->task = keepOwner<TaskT>(Keep<TaskT>(nullptr, 0), maybePause(), int(choose(2))); break;
        case 2: { TaskT t(std::move((*raw)->task)); (*raw)->task = std::move(t); (*raw)->task = TaskT(); break; }
        }
    }, "overwrite");
    at(sec, [=] { o->reset(); }, "drop");
}

} // namespace

SIM_SCENARIO("C02", self_owned, 1) {
    swarm();
    counts = {};
    for (int n = 1 + int(choose(3)); n > 0; --n) {
        switch (choose(2)) {
        case 0: planSelfOwned<QCoro::Task<>>(); break;
        case 1: planSelfOwned<QCoro::Task<std::shared_ptr<void>>>(); break;
        }
    }
    SIM_CHECK(run(), "not-idle", "the program is still busy after an hour");
    SIM_CHECK(counts.owners == 0 && counts.args == 0 && counts.errors == 0, "leak", "overwritten handles left %d owners, %d arguments and %d exceptions behind",
              counts.owners, counts.args, counts.errors);
}

SIM_SCENARIO("C02", frame_lifetime, 1) {
    swarm();
    auto handles = std::make_shared<std::vector<std::unique_ptr<HandleBase>>>();
    const int type = int(choose(4)); // one type per run mostly, so that handles can replace each other
    const int ops = 2 + int(choose(14));
    auto nextId = std::make_shared<int>(0);
    for (int i = 0; i < ops; ++i) {
        at(delay(80 * ms), [=] {
            invariant("before op");
            auto &hs = *handles;
            switch (choose(8)) {
            case 0: case 1: { // start and keep
                auto *tr = new Tracker{Job::random(++*nextId)};
                trackers.push_back(tr);
                hs.push_back(startAny(tr, chance(85) ? type : int(choose(4))));
                break;
            }
            case 2: { // start and drop the handle at once
                auto *tr = new Tracker{Job::random(++*nextId)};
                trackers.push_back(tr);
                startAny(tr, int(choose(4)));
                break;
            }
            case 3: if (!hs.empty()) { // drop
                size_t k = choose(uint32_t(hs.size()));
                if (auto *h = hs[k].get()) {
                    (void)h;
                    // a handle somebody awaits through a reference must stay (the awaiter's contract)
                    probe("drop-handle");
                    hs.erase(hs.begin() + long(k));
                }
                break;
            }
            case 4: if (hs.size() >= 2) { // overwrite
                probe("overwrite-handle");
                hs[choose(uint32_t(hs.size()))]->replaceBy(*hs[choose(uint32_t(hs.size()))]);
                break;
            }
            break;
            case 5: if (!hs.empty()) { probe("move-handle"); auto &h = hs[choose(uint32_t(hs.size()))]; auto n = h->moved(); h = std::move(n); } break;
            case 6: if (!hs.empty()) { probe("self-move"); hs[choose(uint32_t(hs.size()))]->selfMove(); } break;
            case 7: if (!hs.empty()) hs[choose(uint32_t(hs.size()))]->await(); break;
            }
            invariant("after op");
        }, "op");
    }
    for (int i = int(choose(6)); i > 0; --i) at(delay(120 * ms), [] { invariant("checkpoint"); }, "checkpoint");
    SIM_CHECK(run(), "not-idle", "the program is still busy after an hour");
    invariant("at the end");
    for (auto *tr : trackers) {
        SIM_CHECK(tr->job->finished(), "never-finished", "a coroutine never ran to completion");
        SIM_CHECK(tr->awaiting == 0, "never-resumed", "an awaiter of a finished coroutine was never resumed");
    }
    handles->clear();
    invariant("after dropping all handles");
}
