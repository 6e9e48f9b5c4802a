// Deterministic simulator for QCoro: public interface used by the scenarios.
//
// One run = one forked child process. Every decision of the run (who runs next, how far
// the clock moves, what faults hit, what the workload does) is taken by sim::choose(),
// which draws from one PRNG and records the drawn value. Replaying the recorded sequence
// reproduces the run exactly; see engine.cpp.
#pragma once

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include <QObject>
#include <QPointer>

class QThread;
class QAbstractEventDispatcher;

namespace sim {

constexpr int64_t us = 1000;
constexpr int64_t ms = 1000 * us;
constexpr int64_t sec = 1000 * ms;

// ---- decisions -------------------------------------------------------------------
// Uniform in [0, n). Value 0 is the "simplest" choice: minimisation moves towards 0 and
// a replay that runs past its recorded end continues with zeros.
uint32_t choose(uint32_t n);
// true with probability percent/100; shrinks towards false.
bool chance(uint32_t percent);
int64_t range(int64_t lo, int64_t hi); // inclusive, shrinks towards lo
template<typename T> const T &pick(const std::vector<T> &v) { return v[choose(uint32_t(v.size()))]; }
// A duration taken from a small lattice so that independent delays often coincide.
int64_t delay(int64_t maxNs);

// ---- time ------------------------------------------------------------------------
int64_t now();          // simulated monotonic ns since the start of the run
int64_t wallNow();      // simulated CLOCK_REALTIME ns
void setWallOffset(int64_t ns); // moves CLOCK_REALTIME

// ---- observation -----------------------------------------------------------------
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Counts an injected fault that really fired / a rare condition that was really hit.
void fault(const char *kind);
void probe(const char *name);
// Ends the run: the property is violated. cls identifies the kind of violation (it is what
// minimisation preserves and known-findings entries name).
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// In runs away from the main thread nothing else may run the program's code.
void checkHome();
#define SIM_CHECK(cond, cls, ...) do { ::sim::checkHome(); if (!(cond)) ::sim::fail(cls, __VA_ARGS__); } while (0)

// ---- the world -------------------------------------------------------------------
// Environment event: runs on the main thread's event dispatcher `after` ns from now.
void at(int64_t after, std::function<void()> fn, const char *name = "env");
// Kernel event (fake network etc.): runs inside the scheduler, must only touch the fake kernel.
void kernelAt(int64_t after, std::function<void()> fn, const char *name = "kernel");
// Something outside the event loop became ready (e.g. socket state changed).
void poke();
// The start of a wait with this timeout (ms; negative: none). The event loop becomes idle
// right after the timeout even if nothing else happens, so that the idle checks see it.
int64_t deadline(int64_t timeout);
// Timers count in milliseconds: a timeout that takes several of them may end that much late.
inline bool overdue(int64_t began, int64_t timeout) { return timeout >= 0 && now() >= began + timeout * ms + (timeout > INT32_MAX ? ms : 0); }

// Runs the main event loop until nothing can happen any more (quiescence) or simulated time
// exceeds `limit` ns from now. Returns true on quiescence.
bool run(int64_t limit = 3600 * sec);
// Called when the world is quiescent but the main thread is stuck in a nested event loop.
void onStuck(std::function<void()> fn);
// Called whenever the main event loop has handled everything that is due and is about to let
// time pass (must not take decisions): "resumed as soon as the event loop runs" is checked here.
// Called whenever the main event loop waits and no thread can do anything before time advances.
void onIdle(std::function<void()> fn);

struct Config {
    int stallPercent = 0;       // probability of an event-loop stall at each dispatcher step
    int64_t stallMax = 0;       // its maximal length
    uint32_t maxSteps = 60000;  // steps before the run counts as livelocked
    bool coarseTimers = false;  // timers of type CoarseTimer and VeryCoarseTimer are inaccurate
    bool shuffle = true;        // choose among runnable event sources (else posted, timers, fds)
};
Config &config();
// Draws a random (swarm) event-loop configuration: stalls on or off, shuffle on or off.
void swarm(bool allowStalls = true);
uint32_t steps();
bool verbose();

// ---- tracked objects -------------------------------------------------------------
// Lives in coroutine frames, arguments, results, closures; counts constructions/destructions.
class Token {
public:
    explicit Token(int kind = 0);
    Token(const Token &o);
    Token(Token &&o) noexcept;
    Token &operator=(const Token &) = default;
    Token &operator=(Token &&) noexcept = default;
    ~Token();
    int kind() const { return mKind; }
private:
    int mKind;
};
int live(int kind);     // tokens of that kind alive now
int liveTotal();
int created(int kind);

// Number of QObjects alive (counted through Qt's object hooks since the start of the run).
int liveObjects();
std::string liveObjectClasses();
std::vector<QObject *> allObjects(); // in order of their creation

// ---- threads ---------------------------------------------------------------------
// Creates the simulated event dispatcher for a QThread (must be called before start()).
void prepareThread(QThread *thread, const char *name);
QAbstractEventDispatcher *newDispatcher();
// No other thread runs while one of these exists (bookkeeping shared by the threads).
struct Atomic { Atomic(); ~Atomic(); };
// Scheduling point: another simulated thread may run here.
void yieldPoint(const char *tag);
int currentThread();
// Blocks the calling simulated thread until pred() holds (checked by the scheduler).
void blockUntil(const std::function<bool()> &pred, const char *tag);
// Threads switch at most every n-th scheduling point.
void setYieldGap(uint32_t n);

// ---- scenarios -------------------------------------------------------------------
struct Scenario {
    const char *property;
    const char *name;
    int weight;
    void (*fn)();
};
void registerScenario(const Scenario &);
struct Registrar { Registrar(const char *p, const char *n, int w, void (*f)()) { registerScenario({p, n, w, f}); } };
#define SIM_SCENARIO(prop, name, weight) \
    static void sim_scenario_##name(); \
    static ::sim::Registrar sim_registrar_##name(prop, #name, weight, sim_scenario_##name); \
    static void sim_scenario_##name()

// Application object wanted: set by a binary that needs QGuiApplication.
extern QObject *(*createApplication)(int &argc, char **argv);

} // namespace sim
