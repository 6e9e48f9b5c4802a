// C29: the test macros for coroutines judge like their QtTest counterparts.
#include "jobs.h"

#include <QTest>
#include <QTimer>

#include <cstring>
#include <private/qabstracttestlogger_p.h>
#include <private/qtestlog_p.h>
#include <private/qtestresult_p.h>

#include "qcorotest.h"

// The polling macros of the repository use a macro that does not exist (see known_findings.json). That is
// reported once, and what the missing macro stands for put in its place, so that the rest can be judged.
#define SIM_TEXT2(...) #__VA_ARGS__
#define SIM_TEXT(...) SIM_TEXT2(__VA_ARGS__)
static const char *const pollingMacro = SIM_TEXT(QCORO_TRY_IMPL(condition, 5));
#ifndef QCORO_TRY_LOOP_IMPL
#define QCORO_TRY_LOOP_IMPL(expr, timeoutValue, step) QTRY_LOOP_IMPL(expr, timeoutValue, step)
#endif

using namespace sim;

namespace {
int expectedNumber = 7; // what QTEST() looks up
}

// The data of the current row of a data-driven test.
void *QTest::qElementData(const char *, int) { return &expectedNumber; }

namespace {

struct Incident {
    int kind;
    std::string text;
    bool operator==(const Incident &) const = default;
};

struct Recorder final : QAbstractTestLogger {
    Recorder() : QAbstractTestLogger(nullptr) {}
    std::vector<Incident> incidents;
    int failures = 0, others = 0;
    void enterTestFunction(const char *) override {}
    void leaveTestFunction() override {}
    void addIncident(IncidentTypes type, const char *text, const char *, int) override {
        trace("incident %d: %s", int(type), text ? text : "");
        incidents.push_back({int(type), text ? text : ""});
        ++(type == Fail ? failures : others);
    }
    void addBenchmarkResult(const QBenchmarkResult &) override {}
    void addMessage(QtMsgType, const QMessageLogContext &, const QString &) override {}
    void addMessage(MessageTypes, const QString &, const char *, int) override {}
};
Recorder *recorder;

void install() {
    recorder = new Recorder;
    QTestLog::addLogger(recorder);
}

void beginTest() {
    QTestResult::reset();
    QTestResult::setCurrentTestFunction("test");
    recorder->incidents.clear();
}
std::vector<Incident> endTest() {
    QTestResult::finishedCurrentTestData();
    QTestResult::finishedCurrentTestDataCleanup();
    return recorder->incidents;
}

// ---- scripts of checks: the same script in a plain function and in a coroutine ----------
struct Op {
    int kind;
    bool good;
    int how;        // which wrong value, which exception
    int64_t pause;  // before it, -1: none
    int64_t wait;   // for the value, -1: none
    QByteArray text;
};

struct Script {
    std::vector<Op> ops;
    int position = 0;
    std::vector<int> evaluated;
    int locals = 0;
    void note(const Op &op) { if (op.kind < 13 || evaluated.empty() || evaluated.back() != op.kind) evaluated.push_back(op.kind); } // the others poll
    bool truth(const Op &op) { note(op); return op.good; }
    int number(const Op &op) {
        note(op);
        if (op.kind == 9 || op.kind == 10) return op.good ? 1 : op.how == 0 ? 0 : op.how == 1 ? 2 : 3;
        return op.good ? 7 : 8 + op.how;
    }
    QString string(const Op &op) { note(op); return op.good ? QStringLiteral("seven") : QStringLiteral("not\nseven"); }
    QByteArray bytes(const Op &op) { note(op); return op.good ? QByteArray("seven") : QByteArray(); }
    static void raise(int what) {
        switch (what) {
        case 0: return;
        case 1: throw Err(1);
        case 2: throw std::logic_error("another one");
        default: throw OtherErr{3};
        }
    }
};

void plain(Script &s) {
#define T(x) Q##x
#define V(x) (x)
#define PAUSE(op)
#ifndef QVERIFY_EXCEPTION_THROWN
#define QVERIFY_EXCEPTION_THROWN(expression, type) QVERIFY_THROWS_EXCEPTION(type, expression)
#endif
#include "c29_body.h"
#undef T
#undef V
#undef PAUSE
}

template<typename T> QCoro::Task<T> later(T value, int64_t wait) {
    if (wait >= 0) co_await Gate(wait);
    co_return value;
}

QCoro::Task<> coroutine(Script &s) {
    Tracked local(&s.locals);
#define T(x) QCORO_##x
#define V(x) (co_await later((x), op.wait))
#define PAUSE(op) if (op.pause >= 0) co_await Gate(op.pause)
#include "c29_body.h"
#undef T
#undef V
#undef PAUSE
}

const char *describe(const std::vector<Incident> &l) {
    static std::string text;
    text.clear();
    for (const auto &i : l) text += "[" + std::to_string(i.kind) + " " + i.text + "]";
    return text.c_str();
}

// How the expressions are spelled out does not matter.
void plainText(std::string &t) {
    for (const char *w : {"co_await later", ", op.wait"})
        for (size_t i; (i = t.find(w)) != std::string::npos;) t.erase(i, strlen(w));
    std::erase_if(t, [](char c) { return c == '(' || c == ')' || c == ' '; });
}

Detached compare(Script *reference, bool *done) {
    // What QtTest says about the script in a plain function.
    Script mine = *reference;
    beginTest();
    bool referenceThrew = false;
    try { plain(*reference); } catch (const OtherErr &) { referenceThrew = true; }
    auto want = endTest();
    // And in a coroutine.
    beginTest();
    bool threw = false;
    try {
        if (chance(50)) co_await coroutine(mine);
        else { auto task = coroutine(mine); co_await Gate(delay(20 * ms)); co_await task; }
    } catch (const OtherErr &) { threw = true; }
    auto got = endTest();
    SIM_CHECK(mine.position == reference->position, "wrong-end", "the coroutine ended at check %d, the plain function at %d", mine.position, reference->position);
    SIM_CHECK(mine.evaluated == reference->evaluated, "wrong-evaluation", "%d expressions were evaluated, %d in the plain function", int(mine.evaluated.size()), int(reference->evaluated.size()));
    // The wording on unexpected exceptions, and whether unknown ones go on, differs between versions of QtTest.
    SIM_CHECK(!threw || referenceThrew, "wrong-end", "the check let an exception escape");
    for (auto *l : {&want, &got})
        for (auto &i : *l)
            if (i.text.find("xception") != std::string::npos) i.text = "exception"; else plainText(i.text);
    const std::string w = describe(want);
    SIM_CHECK(got == want, "wrong-verdict", "the coroutine test reports %s, the plain one %s", describe(got), w.c_str());
    SIM_CHECK(mine.locals == 0, "leak", "the coroutine ended but its locals are alive");
    if (reference->position == int(reference->ops.size())) probe("passed-to-the-end"); else probe("ended-by-a-check");
    *done = true;
}

// ---- checks that wait ------------------------------------------------------------------
struct Poll {
    int id = 0, form = 0, timeout = 0;
    int64_t start = 0;
    bool value = false;   // the condition
    int64_t lastChange = 0;
    std::vector<std::pair<int64_t, bool>> log; // evaluations
    std::vector<std::pair<int64_t, bool>> changes;
    bool awaits = false;  // the condition is a coroutine, too
    bool passed = false, done = false, nested = false;
    int locals = 0;
    uint32_t step = 0;
    bool check() { log.push_back({now(), value}); return value; }
    int count() { return check() ? 42 : 41; }
    QCoro::Task<bool> checkLater() {
        if (chance(70)) co_await Gate(delay(10 * ms));
        co_return check();
    }
    QByteArray text() const { return QByteArray("poll ") + QByteArray::number(id); }
};
int active;
std::vector<Poll *> polls;

QCoro::Task<> pollTest(Poll *p) {
    Tracked local(&p->locals);
    switch (p->form) {
    case 0: QCORO_TRY_VERIFY(p->check()); break;
    case 1: QCORO_TRY_VERIFY_WITH_TIMEOUT(p->check(), p->timeout); break;
    case 2: QCORO_TRY_VERIFY2(p->check(), p->text().constData()); break;
    case 3: QCORO_TRY_VERIFY2_WITH_TIMEOUT(p->check(), p->text().constData(), p->timeout); break;
    case 4: QCORO_TRY_COMPARE(p->count(), 42); break;
    case 5: QCORO_TRY_COMPARE_WITH_TIMEOUT(p->count(), 42, p->timeout); break;
    case 6: QCORO_TRY_VERIFY_WITH_TIMEOUT(co_await p->checkLater(), p->timeout); break;
    default: QCORO_TRY_VERIFY2_WITH_TIMEOUT(co_await p->checkLater(), p->text().constData(), p->timeout); break;
    }
    SIM_CHECK(local.alive(), "destroyed-early", "the locals of a test coroutine are gone");
    p->passed = true;
}

int64_t ticks;

Detached poll(Poll *p) {
    p->start = now();
    p->step = steps();
    if (active++) { for (auto *o : polls) o->nested = true; probe("nested"); }
    const auto ticksBefore = ticks;
    trace("poll %d: form %d timeout %d", p->id, p->form, p->timeout);
    co_await pollTest(p);
    p->done = true;
    --active;
    trace("poll %d: %s after %.3f ms, %d evaluations", p->id, p->passed ? "passed" : "failed", (now() - p->start) / 1e6, int(p->log.size()));
    // Every test that failed has said so once, no other has.
    int failed = 0;
    for (auto *o : polls) failed += o->done && !o->passed;
    SIM_CHECK(recorder->failures == failed && recorder->others == 0, "wrong-verdict", "%d of the tests ended by a failing check, %d failures are recorded", failed, recorder->failures);
    SIM_CHECK(p->locals == 0, "leak", "the coroutine ended but its locals are alive");
    SIM_CHECK(!p->log.empty() && (p->log.back().second || !p->passed), "wrong-verdict", "the check passed although its condition was false");
    const int64_t took = now() - p->start, timeout = p->timeout * ms;
    size_t firstTrue = 0;
    while (firstTrue < p->log.size() && !p->log[firstTrue].second) ++firstTrue;
    // Time that was lost to the events handled between two evaluations.
    int64_t lost = 0;
    const int64_t step = (p->timeout < 350 ? p->timeout / 7 + 1 : 50) * ms;
    for (size_t i = 1; i < p->log.size(); ++i) lost += std::max<int64_t>(0, p->log[i].first - p->log[i - 1].first - step);
    if (!p->passed) {
        probe("failed");
        if (firstTrue == p->log.size()) SIM_CHECK(took >= timeout, "early", "a check with timeout %d failed after %.3f ms", p->timeout, took / 1e6);
        // Like QtTest it then finds out whether thrice the timeout would have been enough.
        if (firstTrue == p->log.size()) SIM_CHECK(took >= 3 * timeout, "early", "a check with timeout %d gave up after %.3f ms", p->timeout, took / 1e6);
        bool inTime = false; // it came true in time, and stayed so
        if (!p->changes.empty() && p->changes.back().second && (!p->awaits || p->changes.size() == 1)) inTime = p->changes.back().first < p->start + timeout;
        if (!p->awaits && firstTrue < p->log.size() && p->log[firstTrue].first < p->start + timeout) inTime = true;
        SIM_CHECK(!inTime, "wrong-verdict", "a check with timeout %d failed after %.3f ms although its condition was true in time", p->timeout, took / 1e6);
        const bool tooLate = p->log.back().second; // true when last evaluated
        const auto &text = recorder->incidents.back().text;
        if (tooLate) {
            probe("true-too-late");
            SIM_CHECK(text.find("too short") != std::string::npos, "wrong-verdict", "a condition that came true too late is reported as: %s", text.c_str());
        } else {
            SIM_CHECK(text.find("too short") == std::string::npos, "wrong-verdict", "a condition that never was true is reported as: %s", text.c_str());
            if (p->form == 2 || p->form == 3 || p->form == 7) SIM_CHECK(text.find(p->text().constData()) != std::string::npos, "wrong-verdict", "the message of the check is missing in: %s", text.c_str());
        }
    } else {
        probe("passed");
        if (!p->nested && !p->awaits) {
            const int64_t since = p->log[firstTrue].first;
            if (p->changes.empty() || p->changes.size() == 1) SIM_CHECK(now() == since, "late", "a check went on for %.3f ms although its condition was true", (now() - since) / 1e6);
            if (firstTrue == 0) {
                probe("true-at-once");
                SIM_CHECK(took == 0 && steps() == p->step, "suspended", "a check waited for a condition that was true already");
            }
            SIM_CHECK(since <= p->start + timeout + 2 * step + lost, "wrong-verdict", "a check with timeout %d passed although its condition came true after %.3f ms only", p->timeout, (since - p->start) / 1e6);
        }
    }
    if (config().stallPercent == 0 && !p->nested && !p->awaits) {
        for (size_t i = 1; i < p->log.size(); ++i)
            SIM_CHECK(p->log[i].first - p->log[i - 1].first <= step + 2 * ms, "late", "the condition of a check was not evaluated for %.3f ms", (p->log[i].first - p->log[i - 1].first) / 1e6);
    }
    if (config().stallPercent == 0) SIM_CHECK(ticks - ticksBefore >= took / (21 * ms) - 2, "events-starved", "%d ticks of 10 ms during a check of %.3f ms", int(ticks - ticksBefore), took / 1e6);
}

} // namespace

SIM_SCENARIO("C29", defined, 1) {
    SIM_CHECK(strstr(pollingMacro, "QCORO_TRY_LOOP_IMPL") == nullptr, "missing-macro", "the polling test macros use a macro that is not defined: nothing that uses them compiles");
}

SIM_SCENARIO("C29", verdicts, 10) {
    swarm();
    install();
    const int n = 1 + int(choose(4));
    for (int k = 0; k < n; ++k) {
        Script s;
        const int m = 1 + int(choose(8));
        const uint32_t bad = pick<uint32_t>({10, 30, 60});
        for (int i = 0; i < m; ++i) {
            Op op;
            op.kind = int(choose(16));
            op.good = !chance(bad);
            op.how = int(choose(3));
            op.pause = chance(30) ? delay(10 * ms) : -1;
            op.wait = chance(30) ? delay(10 * ms) : -1;
            op.text = QByteArray("check ") + QByteArray::number(i);
            s.ops.push_back(op);
        }
        bool done = false;
        compare(&s, &done);
        run();
        SIM_CHECK(done, "hang", "a test coroutine did not end");
    }
}

SIM_SCENARIO("C29", polling, 20) {
    swarm();
    install();
    QTestResult::reset();
    QTestResult::setCurrentTestFunction("test");
    QTimer ticker;
    ticker.setTimerType(Qt::PreciseTimer);
    QObject::connect(&ticker, &QTimer::timeout, [] { ++ticks; });
    ticker.start(10);
    const int n = 1 + int(choose(3));
    int64_t at0 = 0;
    for (int k = 0; k < n; ++k) {
        auto *p = new Poll;
        polls.push_back(p);
        p->id = k;
        p->form = int(choose(8));
        p->timeout = p->form == 0 || p->form == 2 || p->form == 4 ? 5000 : pick<int>({100, 0, 1, 5, 20, 349, 350, 1000});
        p->awaits = p->form >= 6;
        at0 += chance(50) ? delay(3 * p->timeout * ms + 1) : 0; // together with or within another one
        at(at0, [p] { poll(p); }, "poll");
        const int flips = int(choose(4)); // false at first, then changing, mostly around the timeout
        int64_t t = at0;
        if (chance(15)) { p->value = true; p->changes.push_back({-1, true}); }
        for (int i = 0; i < flips; ++i) {
            t += i == 0 ? (chance(70) ? range(0, p->timeout * ms) : range(p->timeout * ms, 4 * p->timeout * ms)) : chance(50) ? range(0, 60 * ms) : range(0, p->timeout * ms);
            at(t, [p] {
                if (p->done) return;
                p->value = !p->value;
                p->changes.push_back({now(), p->value});
                trace("condition %d is %s", p->id, p->value ? "true" : "false");
            }, "flip");
        }
    }
    std::function<void()> watch = [&] { // the ticker ends with the last check
        for (auto *p : polls) if (!p->done) return at(500 * ms, watch, "watch");
        ticker.stop();
    };
    at(500 * ms, watch, "watch");
    run();
    for (auto *p : polls) SIM_CHECK(p->done, "hang", "a test coroutine did not end");
}
