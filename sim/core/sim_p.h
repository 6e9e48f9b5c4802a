#pragma once
#include "sim.h"
#include <condition_variable>
#include <map>

namespace sim {

struct Counter { char name[40]; uint32_t count; };
constexpr int MaxChoices = 1 << 17;
constexpr int MaxCounters = 48;

// Lives in shared memory so that it survives a crash of the run.
struct RunRecord {
    uint32_t status;            // 0: did not report (crash), 1: violation, 2: held
    uint32_t nchoices;
    uint32_t overflow;
    uint32_t steps;
    uint32_t threadSwitches;
    uint64_t hash;
    uint64_t orderHash;         // over the order of events only (no times, no decisions)
    int64_t simTime;
    char cls[96];
    char msg[1500];
    Counter faults[MaxCounters];
    Counter probes[MaxCounters];
    uint16_t choices[MaxChoices];
    uint32_t nforced;           // decisions to replay
    uint16_t forced[MaxChoices];
};

struct Event { int64_t at; uint64_t seq; std::function<void()> fn; const char *name; };
struct EventOrder { bool operator()(const Event &a, const Event &b) const { return a.at != b.at ? a.at < b.at : a.seq < b.seq; } };

struct World {
    bool active = false;
    bool replaying = false;
    bool verbose = false;
    RunRecord *rec = nullptr;
    uint64_t rng[2] = {1, 2};
    int64_t now = 0;
    int64_t wallOffset = 0;
    uint64_t seq = 0;
    std::vector<Event> env;      // kept sorted
    std::vector<Event> kernel;   // kept sorted
    Config cfg;
    std::function<void()> stuck;
    std::vector<std::function<void()>> idleHooks;
    bool mainLoopIdle = false; // the home thread waits for events of any kind
    int home = 0;              // the thread that the scenario and its environment events run on
    bool quiescent = false;
    int64_t runLimit = INT64_MAX;
    uint32_t yieldGap = 1, yieldIn = 1;
    bool alone = false;     // no other thread was runnable at the last look
    bool mayRun = true; // another thread may have become runnable since the last look
};
extern World *W;
// The simulator's own code has no scheduling points (it may share template instances with
// instrumented code).
extern thread_local int noYield;
struct NoYield { NoYield() { ++noYield; } ~NoYield() { --noYield; } };
struct UserCode { int saved = noYield; UserCode() { noYield = 0; } ~UserCode() { noYield = saved; } };

constexpr int64_t MonoBase = 1'000'000ll * sec;
constexpr int64_t WallBase = 1'700'000'000ll * sec;

// dispatcher.cpp
void step(const char *what);
bool runKernelDue();
void installMainDispatcher();
// Runs `fn`, which never returns, on a thread of its own; the main thread just runs its event loop.
[[noreturn]] void runAwayFromMain(void (*fn)());

// threads.cpp
void threadsInit();
bool inSimThread();
// Blocks the current thread in its dispatcher until `ready` or quiescence; false on quiescence.
bool idle(const std::function<bool()> &ready, const std::function<int64_t()> &deadline);

// engine.cpp
[[noreturn]] void endRun();
void hashBytes(const void *p, size_t n);
} // namespace sim
