// C07: async generators yield every value in order, lazily, then end or throw.
#include "jobs.h"
#include "qcoroasyncgenerator.h"

using namespace sim;

namespace {

struct Prod {
    int id = 0;
    int count = 0;          // values it yields
    Outcome outcome;        // how it ends afterwards
    bool slow = false;
    int runs = 0, produced = 0, ended = 0;
    int demanded = 0;       // steps the consumer asked for
    int args = 0, locals = 0, values = 0;
    bool inAwait = false;   // suspended in an await of its own (must not be abandoned then)
    bool owned = true;
    bool abandoned = false;
};
std::vector<Prod *> prods;

struct Out { Prod *p; ~Out() { if (!p->abandoned) ++p->ended; } };

template<typename T> T makeValue(Prod *p, int i) {
    if constexpr (std::is_same_v<T, int>) return p->id * 1000 + i;
    else if constexpr (std::is_same_v<T, std::unique_ptr<Tagged>>) return std::make_unique<Tagged>(p->id * 1000 + i, &p->values);
    else return Tagged(p->id * 1000 + i, &p->values);
}
int idOf(int v) { return v; }
int idOf(const Tagged &t) { return valueId(t); }
int idOf(const std::unique_ptr<Tagged> &t) { return valueId(t); }

QCoro::Task<> pauseTask(int64_t d) { co_await Gate(d); }

template<typename G, typename T>
G produce(Prod *p, Tracked arg) {
    Out out{p};
    ++p->runs;
    Tracked local(&p->locals);
    T reused = makeValue<T>(p, 0);
    for (int i = 0; i < p->count; ++i) {
        SIM_CHECK(p->demanded > p->produced, "ran-ahead", "the producer runs ahead of its consumer: produced %d, demanded %d", p->produced, p->demanded);
        if (p->slow) {
            p->inAwait = true;
            switch (choose(4)) {
            case 0: co_await Gate(delay(10 * ms)); break;
            case 1: co_await pauseTask(delay(10 * ms)); break;
            case 2: co_await QCoro::sleepFor(std::chrono::milliseconds(choose(10))); break;
            case 3: break;
            }
            p->inAwait = false;
        }
        SIM_CHECK(arg.alive() && local.alive(), "destroyed-early", "the frame of a generator in use is gone");
        ++p->produced;
        if (i % 3 == 1) { reused = makeValue<T>(p, i); co_yield reused; }
        else { co_yield makeValue<T>(p, i); }
    }
    if (p->outcome.end == End::StdErr) throw Err(p->id);
    if (p->outcome.end == End::Other) throw OtherErr{p->id};
}

Prod *newProd() {
    auto *p = new Prod;
    p->id = int(prods.size()) + 1;
    p->count = int(choose(7));
    p->outcome = {End(choose(6) < 4 ? 0 : 1 + choose(2)), p->id};
    p->slow = chance(60);
    prods.push_back(p);
    return p;
}
void released(Prod *p, const char *how) {
    SIM_CHECK(p->args == 0 && p->locals == 0 && p->values == 0, "leak", "%s generator released: args %d locals %d values %d still alive", how, p->args, p->locals, p->values);
}

struct Result { int got = 0; bool done = false; };

// With the macro (gcc can not expand it in a template).
QCoro::Task<> consumeMacro(Prod *p, QCoro::AsyncGenerator<int> &gen, Result *r, int pause) {
    ++p->demanded;
    QCORO_FOREACH(int &v, gen) {
        SIM_CHECK(v == p->id * 1000 + r->got, "wrong-value", "value %d of generator %d is %d", r->got, p->id, v);
        ++r->got;
        if (pause && chance(50)) {
            const int before = p->produced;
            co_await Gate(delay(10 * ms));
            SIM_CHECK(p->produced == before, "ran-ahead", "the producer ran while its consumer was busy");
            SIM_CHECK(v == p->id * 1000 + r->got - 1, "wrong-value", "the current value changed while the consumer was busy");
        }
        ++p->demanded;
    }
}

// Consumes up to `limit` values with the iterator interface.
template<typename T, typename V>
QCoro::Task<> consume(Prod *p, QCoro::AsyncGenerator<T> gen, Result *r, int limit, bool viaMacro, int pause) {
    Outcome how{End::Value, p->id};
    bool stopped = false, macroDone = false;
    try {
        if constexpr (std::is_same_v<T, int>) {
            if (viaMacro && limit < 0) { co_await consumeMacro(p, gen, r, pause); macroDone = true; }
        }
        if (!macroDone) {
            if (limit == 0) { stopped = true; }
            else {
                ++p->demanded;
                auto it = co_await gen.begin();
                const auto end = gen.end();
                while (it != end) {
                    auto &v = *it;
                    SIM_CHECK(idOf(v) == p->id * 1000 + r->got, "wrong-value", "value %d of generator %d is %d", r->got, p->id, idOf(v));
                    ++r->got;
                    if (pause && chance(50)) { const int before = p->produced; co_await Gate(delay(10 * ms)); SIM_CHECK(p->produced == before, "ran-ahead", "the producer ran while its consumer was busy"); SIM_CHECK(idOf(v) == p->id * 1000 + r->got - 1, "wrong-value", "the current value changed while the consumer was busy"); }
                    if constexpr (std::is_same_v<V, std::unique_ptr<Tagged>>) { auto taken = std::move(*it); SIM_CHECK(taken, "wrong-value", "moved-from value"); }
                    if (r->got == limit) { stopped = true; break; }
                    ++p->demanded;
                    co_await ++it;
                }
            }
        }
    } catch (const Err &e) { how = {End::StdErr, e.id};
    } catch (const OtherErr &e) { how = {End::Other, e.id}; }
    if (stopped) {
        SIM_CHECK(p->ended == 0, "ended-early", "the generator ended although the consumer stopped before its end");
        p->abandoned = true;
        probe("abandoned-mid-way");
    } else {
        SIM_CHECK(r->got == p->count, "wrong-count", "generator %d produced %d values, the consumer saw %d", p->id, p->count, r->got);
        checkOutcome(how, p->outcome, "end of the iteration");
        SIM_CHECK(p->ended == 1, "not-run-once", "the producer's body ended %d times", p->ended);
    }
    { QCoro::AsyncGenerator<T> drop(std::move(gen)); }
    released(p, stopped ? "abandoned" : "finished");
    r->done = true;
}

template<typename T, typename V = std::remove_const_t<std::remove_reference_t<T>>>
void planConsumer() {
    auto *p = newProd();
    auto *r = new Result;
    int limit = chance(35) ? int(choose(6)) : -1;
    bool macro = chance(50);
    int pause = int(choose(2));
    if (limit > p->count) limit = -1;
    // a bounded consumer never abandons a producer that is suspended in its own await:
    // it stops between steps only
    at(delay(30 * ms), [=] {
        auto gen = produce<QCoro::AsyncGenerator<T>, V>(p, Tracked(&p->args));
        SIM_CHECK(p->runs == 0, "ran-ahead", "creating a generator ran its body");
        consume<T, V>(p, std::move(gen), r, limit, macro, pause);
    }, "consume");
    at(5 * sec, [=] { SIM_CHECK(r->done, "never-resumed", "the consumer of generator %d is still waiting after %d values (producer ended %d)", p->id, r->got, p->ended); }, "deadline");
}

// Handles: moving, swapping, assigning, dropping at any point between steps.
using Gen = QCoro::AsyncGenerator<int>;
struct Holder {
    Gen gen;
    Prod *p = nullptr;
    std::optional<QCoro::AsyncGeneratorIterator<int>> it;
    int got = 0;
    bool busy = false;
    bool over = false;
};

QCoro::Task<> stepHolder(Holder *h) {
    h->busy = true;
    auto *p = h->p;
    ++p->demanded;
    Outcome how{End::Value, p->id};
    bool ended = false;
    try {
        if (!h->it) h->it = co_await h->gen.begin();
        else co_await ++*h->it;
        ended = *h->it == h->gen.end();
    } catch (const Err &e) { how = {End::StdErr, e.id}; ended = true;
    } catch (const OtherErr &e) { how = {End::Other, e.id}; ended = true; }
    if (!ended) {
        SIM_CHECK(**h->it == p->id * 1000 + h->got, "wrong-value", "value %d of generator %d is %d", h->got, p->id, **h->it);
        ++h->got;
    } else {
        SIM_CHECK(h->got == p->count, "wrong-count", "generator %d produced %d values, the consumer saw %d", p->id, p->count, h->got);
        checkOutcome(how, p->outcome, "end of the iteration");
        if (h->it) SIM_CHECK(*h->it == h->gen.end(), "wrong-end", "the iterator is not past the end after the step that %s", how.end == End::Value ? "ended" : "threw");
        h->over = true;
    }
    h->busy = false;
}

// A handle whose generator was moved away has nothing to yield.
QCoro::Task<> stepEmpty(Holder *h) {
    probe("moved-from");
    const auto step = steps();
    const bool ended = co_await h->gen.begin() == h->gen.end();
    SIM_CHECK(ended && steps() == step, "wrong-end", "a generator that was moved away %s", ended ? "suspends its consumer" : "yields a value");
}

// An object that keeps a generator whose producer keeps the object alive: overwriting the generator ends both.
int owners = 0, kept = 0;
struct GenOwner {
    Gen gen;
    Tracked life{&owners};
};
struct Keep { // an argument of the producer that keeps the owner, and may use its generator when it is released
    std::shared_ptr<GenOwner> owner;
    int atEnd = 0;
    Tracked life{&kept};
    Keep(std::shared_ptr<GenOwner> o, int a) : owner(std::move(o)), atEnd(a) {}
    Keep(Keep &&o) noexcept : owner(std::move(o.owner)), atEnd(o.atEnd) {}
    ~Keep() {
        if (!owner) return;
        SIM_CHECK(owner->life.alive(), "destroyed-early", "the owner is gone although an argument keeps it");
        if (atEnd == 1) owner->gen = Gen();
        if (atEnd == 2) { Gen other; owner->gen.swap(other); }
    }
};
Gen produceKept(Keep keep, int count, int64_t pause) {
    for (int i = 0; i < count; ++i) {
        if (pause) co_await Gate(pause);
        co_yield i;
    }
}
QCoro::Task<> stepsOf(GenOwner *o, int steps, std::shared_ptr<int> over) {
    auto it = co_await o->gen.begin();
    for (int i = 0; i < steps && it != o->gen.end(); ++i) {
        SIM_CHECK(*it == i, "wrong-value", "value %d of a generator is %d", i, *it);
        co_await ++it;
    }
    *over = 1;
}
void planSelfOwned() {
    const int atEnd = int(choose(3)), count = int(choose(5)), steps = int(choose(6));
    const int64_t pause = chance(50) ? int64_t(1 + choose(5)) * ms : 0;
    auto o = std::make_shared<std::shared_ptr<GenOwner>>();
    auto raw = std::make_shared<GenOwner *>(nullptr);
    auto over = std::make_shared<int>(1);
    at(delay(10 * ms), [=] {
        *o = std::make_shared<GenOwner>();
        *raw = o->get();
        (*raw)->gen = produceKept(Keep(*o, atEnd), count, pause);
        if (chance(70)) { *over = 0; stepsOf(*raw, steps, over); }
        if (chance(60)) o->reset(); // now only the producer keeps it
    }, "start");
    at(sec + delay(80 * ms), [=] {
        SIM_CHECK(*over, "never-resumed", "the consumer of a generator is still waiting");
        probe("overwrite-self-owned");
        switch (choose(3)) {
        case 0: (*raw)->gen = Gen(); break;
        case 1: (*raw)->gen = produceKept(Keep(nullptr, 0), 2, 0); break;
        case 2: { Gen g(std::move((*raw)->gen)); (*raw)->gen = std::move(g); (*raw)->gen = Gen(); break; }
        }
    }, "overwrite");
    at(2 * sec, [=] { o->reset(); }, "drop");
}

} // namespace

SIM_SCENARIO("C07", generator_self_owned, 1) {
    swarm();
    owners = kept = 0;
    for (int n = 1 + int(choose(3)); n > 0; --n) planSelfOwned();
    SIM_CHECK(run(), "not-idle", "the program is still busy after an hour");
    SIM_CHECK(owners == 0 && kept == 0, "leak", "overwritten generators left %d owners and %d arguments behind", owners, kept);
}

SIM_SCENARIO("C07", generator_consume, 2) {
    swarm();
    for (int n = 1 + int(choose(3)); n > 0; --n) {
        switch (choose(4)) {
        case 0: planConsumer<int>(); break;
        case 1: planConsumer<Tagged>(); break;
        case 2: planConsumer<std::unique_ptr<Tagged>>(); break;
        case 3: planConsumer<const Tagged, Tagged>(); break;
        }
    }
    SIM_CHECK(run(), "not-idle", "the program is still busy after an hour");
}

SIM_SCENARIO("C07", generator_handles, 1) {
    swarm();
    auto hs = std::make_shared<std::vector<std::unique_ptr<Holder>>>();
    auto idleOne = [hs]() -> Holder * {
        std::vector<Holder *> c;
        for (auto &h : *hs) if (!h->busy) c.push_back(h.get());
        return c.empty() ? nullptr : c[choose(uint32_t(c.size()))];
    };
    for (int n = 3 + int(choose(18)); n > 0; --n) {
        at(delay(100 * ms), [=] {
            switch (choose(9)) {
            case 0: case 1: {
                auto h = std::make_unique<Holder>();
                h->p = newProd();
                h->gen = produce<Gen, int>(h->p, Tracked(&h->p->args));
                hs->push_back(std::move(h));
                break;
            }
            case 2: case 3: if (auto *h = idleOne()) { if (h->p && !h->over) stepHolder(h); else if (!h->p) stepEmpty(h); } break;
            case 4: { // move-assign over another (which is idle and releases what it held)
                auto *a = idleOne(), *b = idleOne();
                if (!a || !b || a == b) break;
                auto *old = a->p;
                if (old) old->abandoned = true;
                probe("move-assign");
                a->gen = std::move(b->gen);
                if (old) released(old, "replaced");
                a->p = std::exchange(b->p, nullptr);
                a->it = std::exchange(b->it, std::nullopt);
                a->got = b->got; a->over = b->over;
                break;
            }
            case 5: { // swap
                auto *a = idleOne(), *b = idleOne();
                if (!a || !b || a == b) break;
                probe("swap");
                if (chance(50)) a->gen.swap(b->gen); else swap(a->gen, b->gen);
                std::swap(a->p, b->p); std::swap(a->it, b->it); std::swap(a->got, b->got); std::swap(a->over, b->over);
                break;
            }
            case 6: { // drop
                auto *a = idleOne();
                if (!a) break;
                auto *old = a->p;
                if (old) old->abandoned = true;
                probe("drop");
                std::erase_if(*hs, [a](auto &h) { return h.get() == a; });
                if (old) released(old, "dropped");
                break;
            }
            case 7: { // move-construct
                auto *a = idleOne();
                if (!a) break;
                Gen g(std::move(a->gen));
                if (a->p) SIM_CHECK(a->p->args > 0, "destroyed-early", "moving a generator destroyed its producer");
                a->gen = std::move(g);
                break;
            }
            case 8: { // self-assignment
                auto *a = idleOne();
                if (!a) break;
                auto &self = a->gen;
                a->gen = std::move(self);
                if (a->p) SIM_CHECK(a->p->args > 0, "destroyed-early", "self-move destroyed the producer");
                break;
            }
            }
        }, "op");
    }
    SIM_CHECK(run(), "not-idle", "the program is still busy after an hour");
    for (auto &h : *hs) {
        SIM_CHECK(!h->busy, "never-resumed", "a consumer waits for generator %d forever (got %d, ended %d)", h->p->id, h->got, h->p->ended);
        if (h->p) SIM_CHECK(h->p->args > 0, "destroyed-early", "a producer is gone although its generator lives");
    }
    for (auto *p : prods) p->abandoned = true;
    hs->clear();
    for (auto *p : prods) released(p, "destroyed");
}
