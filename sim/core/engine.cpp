// Decisions, recording, tokens, run control, batch driver, replay and minimisation.
#include "sim_p.h"

#include <QCoreApplication>
#include <QMetaObject>
#include <private/qhooks_p.h>

#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <sched.h>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

extern "C" int sim_real_clock_gettime(int, struct timespec *);

namespace sim {

QObject *(*createApplication)(int &argc, char **argv) = nullptr;

static World theWorld;
World *W = &theWorld;

static std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
void registerScenario(const Scenario &s) { scenarios().push_back(s); }

// ---- hashing and tracing ---------------------------------------------------------
void hashBytes(const void *p, size_t n) {
    auto h = W->rec->hash;
    auto *b = static_cast<const unsigned char *>(p);
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    W->rec->hash = h;
}

void trace(const char *fmt, ...) {
    NoYield guard;
    if (!W->active) return;
    char buf[512];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if (n >= int(sizeof buf)) n = sizeof buf - 1;
    hashBytes(buf, n);
    hashBytes(&W->now, sizeof W->now);
    auto oh = W->rec->orderHash;
    for (int i = 0; i < n; ++i) { oh ^= (unsigned char)buf[i]; oh *= 1099511628211ull; }
    W->rec->orderHash = oh;
    if (W->verbose) { printf("[%12.6fms #%u T%d] %s\n", W->now / 1e6, W->rec->steps, currentThread(), buf); fflush(stdout); }
}

static void bump(Counter *c, const char *name) {
    NoYield guard;
    if (!W->active) return;
    for (int i = 0; i < MaxCounters; ++i) {
        if (!c[i].name[0]) { snprintf(c[i].name, sizeof c[i].name, "%s", name); c[i].count = 1; return; }
        if (!strncmp(c[i].name, name, sizeof c[i].name - 1)) { ++c[i].count; return; }
    }
}
void fault(const char *kind) { bump(W->rec->faults, kind); if (!W->active) return; if (W->verbose) printf("    fault %s\n", kind); hashBytes(kind, strlen(kind)); }
void probe(const char *name) { bump(W->rec->probes, name); }

bool verbose() { return W->verbose; }
uint32_t steps() { return W->rec->steps; }
Config &config() { return W->cfg; }
int64_t now() { return W->now; }
int64_t wallNow() { return WallBase + W->wallOffset + W->now; }
void setWallOffset(int64_t ns) { W->wallOffset = ns; }

void swarm(bool allowStalls) {
    auto &c = W->cfg;
    c.shuffle = choose(4) != 0;
    if (allowStalls && chance(40)) {
        c.stallPercent = 1 + choose(15);
        c.stallMax = pick<int64_t>({1 * ms, 5 * ms, 20 * ms, 150 * ms});
    }
    c.coarseTimers = chance(50);
}

[[noreturn]] void endRun() {
    if (!W->rec->status) W->rec->status = 2;
    W->rec->simTime = W->now;
    fflush(stdout);
    _exit(0);
}

void fail(const char *cls, const char *fmt, ...) {
    ++noYield;
    va_list ap; va_start(ap, fmt);
    vsnprintf(W->rec->msg, sizeof W->rec->msg, fmt, ap);
    va_end(ap);
    snprintf(W->rec->cls, sizeof W->rec->cls, "%s", cls);
    trace("VIOLATION %s: %s", W->rec->cls, W->rec->msg);
    W->rec->status = 1;
    endRun();
}

// ---- decisions -------------------------------------------------------------------
static uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t nextRandom() { // xoroshiro128+
    uint64_t s0 = W->rng[0], s1 = W->rng[1], r = s0 + s1;
    s1 ^= s0;
    W->rng[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16);
    W->rng[1] = (s1 << 37) | (s1 >> 27);
    return r;
}

uint32_t choose(uint32_t n) {
    NoYield guard;
    if (n <= 1 || !W->active) return 0;
    if (n > 65535) n = 65535;
    auto *r = W->rec;
    uint32_t v;
    if (W->replaying) {
        v = r->nchoices < r->nforced ? r->forced[r->nchoices] : 0;
        v %= n;
    } else {
        v = uint32_t((nextRandom() >> 33) % n);
    }
    if (r->nchoices < MaxChoices) r->choices[r->nchoices++] = uint16_t(v);
    else { r->overflow = 1; v = 0; }
    uint32_t pair[2] = {n, v};
    hashBytes(pair, sizeof pair);
    return v;
}
bool chance(uint32_t percent) {
    if (percent == 0) return false;
    return choose(100) >= 100 - percent;
}
int64_t range(int64_t lo, int64_t hi) {
    if (hi <= lo) return lo;
    int64_t n = hi - lo + 1;
    if (n <= 60000) return lo + choose(uint32_t(n));
    int64_t v = (int64_t(choose(60000)) * 60000 + choose(60000));
    return lo + v % n;
}
int64_t delay(int64_t maxNs) {
    if (maxNs <= 0) return 0;
    const int64_t grain = maxNs >= 8 * ms ? ms : us;
    // zero, a coarse lattice (so that independent delays often coincide), or anything
    switch (choose(4)) {
    case 0: return 0;
    case 1: case 2: return maxNs / 4 * choose(5) / grain * grain;
    default: return range(0, maxNs / us) * us;
    }
}

// ---- tokens ----------------------------------------------------------------------
static int liveTok[64], createdTok[64];
static std::unordered_set<const void *> tokAlive;
Token::Token(int k) : mKind(k) { ++liveTok[k & 63]; ++createdTok[k & 63]; tokAlive.insert(this); }
Token::Token(const Token &o) : Token(o.mKind) {}
Token::Token(Token &&o) noexcept : Token(o.mKind) {}
Token::~Token() {
    if (!tokAlive.erase(this)) fail("double-destruction", "object of kind %d destroyed twice", mKind);
    --liveTok[mKind & 63];
}
int live(int k) { return liveTok[k & 63]; }
int liveTotal() { int n = 0; for (int v : liveTok) n += v; return n; }
int created(int k) { return createdTok[k & 63]; }

// ---- QObject accounting ----------------------------------------------------------
static std::unordered_map<QObject *, uint64_t> objects;
static bool trackObjects = false;
static uint64_t objSeq = 0;
static void addObject(QObject *o) { NoYield guard; if (trackObjects) objects[o] = objSeq++; }
static void removeObject(QObject *o) { NoYield guard; if (trackObjects) objects.erase(o); }
int liveObjects() { return int(objects.size()); }
std::vector<QObject *> allObjects() {
    NoYield guard;
    std::vector<std::pair<uint64_t, QObject *>> v;
    for (auto &[o, s] : objects) v.push_back({s, o});
    std::sort(v.begin(), v.end());
    std::vector<QObject *> r;
    for (auto &[s, o] : v) r.push_back(o);
    return r;
}
std::string liveObjectClasses() {
    NoYield guard;
    std::string r;
    for (auto *o : allObjects()) { r += o->metaObject()->className(); r += ' '; }
    return r;
}

// ---- one run ---------------------------------------------------------------------
static void (*scenarioFn)() = nullptr;
struct Outcome { uint32_t status; std::string cls, msg; };

static int errFd = -1;
static RunRecord *shared = nullptr;

static void onHang(int) {
    auto *r = shared;
    snprintf(r->cls, sizeof r->cls, "hang");
    snprintf(r->msg, sizeof r->msg, "the program spins without returning to the event loop (CPU limit hit at simulated %.3f ms)", W->now / 1e6);
    r->status = 1;
    _exit(0);
}

static void messageHandler(QtMsgType t, const QMessageLogContext &, const QString &s) {
    auto b = s.toLocal8Bit();
    const char *lvl[] = {"debug", "warning", "critical", "fatal", "info"};
    char buf[900];
    int n = snprintf(buf, sizeof buf, "%s: %.800s\n", lvl[t], b.constData());
    (void)!::write(2, buf, n);
    if (t == QtFatalMsg) {
        snprintf(W->rec->cls, sizeof W->rec->cls, "crash");
        snprintf(W->rec->msg, sizeof W->rec->msg, "fatal: %.1400s", b.constData());
        W->rec->status = 1;
        _exit(0);
    }
}

static std::string readErr() {
    std::string s;
    char buf[4096];
    off_t off = 0;
    ssize_t n;
    while ((n = pread(errFd, buf, sizeof buf, off)) > 0 && s.size() < 200000) { s.append(buf, n); off += n; }
    return s;
}

// Runs are children of a process that does nothing but fork them, so that each starts from the
// same memory: where an object lives must not depend on the runs before (Qt picks its locks by address).
struct Request { uint32_t scenario; bool replay, verbose; uint64_t seed; };
static int toZygote = -1, fromZygote = -1;

// These have no threads of their own: in some runs they live on another thread than the main thread.
static const std::set<std::string> anyThread{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"};

[[noreturn]] static void simulate(const Request &q) {
    const Scenario &sc = scenarios()[q.scenario];
    if (!q.verbose && errFd >= 0) { lseek(errFd, 0, SEEK_SET); dup2(errFd, 2); }
    signal(SIGPROF, onHang);
    itimerval tv{};
    tv.it_value.tv_sec = 12;
    setitimer(ITIMER_PROF, &tv, nullptr);
    // Only one thread runs at a time anyway; switching is much faster within one processor.
    cpu_set_t cpus;
    CPU_ZERO(&cpus);
    CPU_SET(size_t(std::max(0, sched_getcpu())), &cpus);
    sched_setaffinity(0, sizeof cpus, &cpus);
    W->rec = shared;
    W->verbose = q.verbose;
    uint64_t x = q.seed;
    W->rng[0] = splitmix(x); W->rng[1] = splitmix(x);
    W->replaying = q.replay;
    W->active = true;
    threadsInit();
    scenarioFn = sc.fn;
    if (anyThread.count(sc.property) && chance(20)) runAwayFromMain([] { trackObjects = true; scenarioFn(); });
    trackObjects = true;
    sc.fn();
    endRun();
}

// The stack begins where the environment ends: move to an address that does not depend on it.
[[noreturn]] __attribute__((noinline, no_sanitize("address"))) static void simulateOnFixedStack(const Request &q) {
    const Request copy = q;
    const auto here = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
    auto *pad = static_cast<volatile char *>(__builtin_alloca((here & 0xfffff) + 4096));
    pad[0] = 0;
    simulate(copy);
}

static bool readAll(int fd, void *p, size_t n) {
    ssize_t r;
    while ((r = read(fd, p, n)) < 0 && errno == EINTR) {}
    return r == ssize_t(n);
}

static void startZygote() {
    int to[2], from[2];
    if (pipe2(to, O_CLOEXEC) || pipe2(from, O_CLOEXEC)) _exit(2);
    const pid_t parent = getpid();
    const pid_t pid = fork();
    if (pid < 0) _exit(2);
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (getppid() != parent) _exit(2);
        close(to[1]); close(from[0]);
        Request q;
        while (readAll(to[0], &q, sizeof q)) {
            const pid_t child = fork();
            if (child == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                simulateOnFixedStack(q);
            }
            int st = 0;
            while (waitpid(child, &st, 0) < 0 && errno == EINTR) {}
            if (write(from[1], &st, sizeof st) != sizeof st) break;
        }
        _exit(0);
    }
    close(to[0]); close(from[1]);
    toZygote = to[1]; fromZygote = from[0];
}

static Outcome runOne(const Scenario &sc, uint64_t seed, const std::vector<uint16_t> *replay, bool verboseRun) {
    shared->status = 0; shared->nchoices = 0; shared->overflow = 0; shared->steps = 0; shared->simTime = 0; shared->threadSwitches = 0;
    shared->hash = shared->orderHash = 1469598103934665603ull;
    shared->cls[0] = shared->msg[0] = 0;
    memset(shared->faults, 0, sizeof shared->faults);
    memset(shared->probes, 0, sizeof shared->probes);
    shared->nforced = replay ? uint32_t(std::min<size_t>(replay->size(), MaxChoices)) : 0;
    if (replay) std::copy_n(replay->begin(), shared->nforced, shared->forced);
    if (errFd >= 0) (void)!ftruncate(errFd, 0);
    fflush(stdout);
    Request q{};
    for (auto &x : scenarios()) { if (!strcmp(x.name, sc.name) && !strcmp(x.property, sc.property)) break; ++q.scenario; }
    q.replay = replay != nullptr; q.verbose = verboseRun; q.seed = seed;
    int st = 0;
    if (write(toZygote, &q, sizeof q) != sizeof q || !readAll(fromZygote, &st, sizeof st)) { fprintf(stderr, "the simulator lost its zygote\n"); _exit(2); }
    Outcome o{shared->status, shared->cls, shared->msg};
    if (o.status == 0 || !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        o.status = 1;
        std::string err = readErr();
        std::string what = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
        auto p = err.find("SUMMARY: ");
        if (p != std::string::npos) {
            auto line = err.substr(p + 9, err.find('\n', p) - p - 9);
            // "AddressSanitizer: heap-use-after-free file:line in fn" -> keep kind only (addresses vary)
            auto c = line.find(": ");
            auto kind = c == std::string::npos ? line : line.substr(c + 2);
            kind = kind.substr(0, kind.find(' '));
            o.cls = "crash";
            o.msg = "memory error: " + kind;
        } else if (o.cls.empty()) {
            o.cls = "crash";
            o.msg = "the program died: " + what;
            auto e = err.find("terminate called");
            if (e != std::string::npos) o.msg += " (" + err.substr(e, 150) + ")";
        }
    }
    for (auto &ch : o.msg) if (ch == '\n' || ch == '"' || ch == '\\') ch = ' ';
    return o;
}

static std::vector<uint16_t> recorded() {
    std::vector<uint16_t> v(shared->choices, shared->choices + shared->nchoices);
    while (!v.empty() && v.back() == 0) v.pop_back();
    return v;
}

static double realNow() {
    timespec ts; sim_real_clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec / 1e9;
}

// ---- minimisation ----------------------------------------------------------------
static std::vector<uint16_t> shrink(const Scenario &sc, std::vector<uint16_t> best, const std::string &cls, double budget, int &tries) {
    const double end = realNow() + budget;
    auto smaller = [](const std::vector<uint16_t> &a, const std::vector<uint16_t> &b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    auto attempt = [&](const std::vector<uint16_t> &cand) {
        if (realNow() > end) return false;
        ++tries;
        auto o = runOne(sc, 0, &cand, false);
        if (o.status != 1 || o.cls != cls) return false;
        auto r = recorded();
        if (r.size() > cand.size()) r = cand;
        while (!r.empty() && r.back() == 0) r.pop_back();
        if (!smaller(r, best)) return false;
        best = r;
        return true;
    };
    bool improved = true;
    while (improved && realNow() < end) {
        improved = false;
        for (size_t chunk = best.size() / 2; chunk >= 1; chunk /= 2) {
            for (size_t i = best.size(); i >= chunk && realNow() < end;) {
                i -= chunk;
                if (i + chunk <= best.size()) {
                    auto c = best;
                    c.erase(c.begin() + i, c.begin() + i + chunk);
                    if (attempt(c)) { improved = true; if (i > best.size()) i = best.size(); continue; }
                    c = best;
                    bool nz = false;
                    for (size_t k = i; k < i + chunk && k < c.size(); ++k) { nz |= c[k] != 0; c[k] = 0; }
                    if (nz && attempt(c)) improved = true;
                }
                if (i < chunk) break;
            }
        }
        for (size_t i = 0; i < best.size() && realNow() < end; ++i) {
            while (i < best.size() && best[i] > 0) {
                auto c = best; c[i] = best[i] / 2;
                if (attempt(c)) { improved = true; continue; }
                c = best; c[i] = best[i] - 1;
                if (attempt(c)) { improved = true; continue; }
                break;
            }
        }
    }
    return best;
}

static bool writeReplay(const std::string &path, const Scenario &sc, const std::vector<uint16_t> &ch, const Outcome &o, uint64_t hash, uint64_t seed, size_t originalLen) {
    FILE *f = fopen(path.c_str(), "w");
    if (!f) return false;
    fprintf(f, "qcoro-sim-replay 1\nproperty %s\nscenario %s\nseed %llu\nclass %s\nmessage %s\nhash %016llx\noriginal_choices %zu\nchoices %zu\n",
            sc.property, sc.name, (unsigned long long)seed, o.cls.c_str(), o.msg.c_str(), (unsigned long long)hash, originalLen, ch.size());
    for (size_t i = 0; i < ch.size(); ++i) fprintf(f, "%u%c", ch[i], i % 30 == 29 ? '\n' : ' ');
    fprintf(f, "\n");
    fclose(f);
    return true;
}

static uint64_t runSeed(uint64_t base, const char *name, uint64_t index) {
    uint64_t x = base * 0x9e3779b97f4a7c15ull + index;
    for (const char *p = name; *p; ++p) x = x * 31 + (unsigned char)*p;
    uint64_t y = x; return splitmix(y);
}

static void collect(std::map<std::string, uint64_t> &m, std::map<std::string, uint64_t> &runs, const Counter *c) {
    for (int i = 0; i < MaxCounters && c[i].name[0]; ++i) { m[c[i].name] += c[i].count; runs[c[i].name]++; }
}
static void printMap(const char *key, const std::map<std::string, uint64_t> &m) {
    printf("\"%s\": {", key);
    bool first = true;
    for (auto &[k, v] : m) { printf("%s\"%s\": %llu", first ? "" : ", ", k.c_str(), (unsigned long long)v); first = false; }
    printf("}");
}

static int batch(const std::string &prop, const std::string &only, uint64_t seed, uint64_t start, uint64_t stride, uint64_t count, double timeLimit,
                 double shrinkTime, const std::string &replayPath, const std::set<std::string> &known, const std::string &hashFile) {
    std::vector<Scenario> list;
    for (auto &s : scenarios()) if (prop == s.property && (only.empty() || only == s.name)) for (int i = 0; i < s.weight; ++i) list.push_back(s);
    if (list.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
    std::map<std::string, uint64_t> faults, faultRuns, probes, probeRuns, perScenario, knownHits;
    struct Rec { uint64_t index, hash, order; uint32_t steps, status; };
    std::vector<Rec> hashes;
    uint64_t runs = 0, totalSteps = 0, rechecked = 0, nondet = 0, choicesTotal = 0, overflow = 0, switches = 0;
    double simSeconds = 0;
    const double t0 = realNow();
    int rc = 0;
    for (uint64_t i = 0; i < count && realNow() - t0 < timeLimit; ++i) {
        uint64_t index = start + i * stride;
        const Scenario &sc = list[index % list.size()];
        uint64_t s = runSeed(seed, sc.name, index);
        auto o = runOne(sc, s, nullptr, false);
        ++runs; ++perScenario[sc.name];
        totalSteps += shared->steps; simSeconds += shared->simTime / 1e9; choicesTotal += shared->nchoices; overflow += shared->overflow;
        switches += shared->threadSwitches;
        collect(faults, faultRuns, shared->faults);
        collect(probes, probeRuns, shared->probes);
        uint64_t h = shared->hash;
        hashes.push_back({index, h, shared->orderHash, shared->steps, o.status});
        if (o.status == 2 && runs % 16 == 1) { // determinism: same PRNG again must give the same event log
            ++rechecked;
            runOne(sc, s, nullptr, false);
            if (shared->hash != h) { ++nondet; printf("{\"nondeterministic\": \"%s\", \"index\": %llu}\n", sc.name, (unsigned long long)index); }
        }
        if (o.status == 1) {
            std::string key = std::string(sc.name) + "/" + o.cls;
            if (known.count(key)) { ++knownHits[key]; continue; }
            auto ch = recorded();
            size_t origLen = ch.size();
            // gate: same PRNG again, and the recorded choices, must both reproduce it
            auto o2 = runOne(sc, s, nullptr, false);
            bool sameSeed = o2.status == 1 && o2.cls == o.cls;
            auto o3 = runOne(sc, 0, &ch, false);
            bool sameChoices = o3.status == 1 && o3.cls == o.cls;
            if (!sameSeed || !sameChoices) {
                printf("{\"irreproducible\": \"%s\", \"index\": %llu, \"class\": \"%s\", \"message\": \"%s\", \"again\": \"%s %s\", \"replay\": \"%s %s\"}\n",
                       sc.name, (unsigned long long)index, o.cls.c_str(), o.msg.c_str(), o2.cls.c_str(), o2.msg.c_str(), o3.cls.c_str(), o3.msg.c_str());
                ++nondet;
                continue;
            }
            int tries = 0;
            auto best = shrink(sc, ch, o.cls, shrinkTime, tries);
            auto fin = runOne(sc, 0, &best, false);
            if (fin.status != 1 || fin.cls != o.cls) { best = ch; fin = runOne(sc, 0, &best, false); }
            writeReplay(replayPath, sc, best, fin, shared->hash, s, origLen);
            printf("{\"violation\": \"%s\", \"scenario\": \"%s\", \"class\": \"%s\", \"message\": \"%s\", \"index\": %llu, \"seed\": %llu, \"choices\": %zu, \"original_choices\": %zu, \"shrink_runs\": %d, \"replay\": \"%s\"}\n",
                   prop.c_str(), sc.name, fin.cls.c_str(), fin.msg.c_str(), (unsigned long long)index, (unsigned long long)s, best.size(), origLen, tries, replayPath.c_str());
            rc = 1;
            break;
        }
    }
    if (!hashFile.empty()) {
        if (FILE *f = fopen(hashFile.c_str(), "wb")) { fwrite(hashes.data(), sizeof(Rec), hashes.size(), f); fclose(f); }
    }
    printf("{\"stats\": {\"runs\": %llu, \"steps\": %llu, \"sim_seconds\": %.6f, \"wall\": %.3f, \"choices\": %llu, \"overflow\": %llu, \"rechecked\": %llu, \"nondeterministic\": %llu, \"thread_switches\": %llu, ",
           (unsigned long long)runs, (unsigned long long)totalSteps, simSeconds, realNow() - t0, (unsigned long long)choicesTotal,
           (unsigned long long)overflow, (unsigned long long)rechecked, (unsigned long long)nondet, (unsigned long long)switches);
    printMap("scenarios", perScenario); printf(", ");
    printMap("faults", faults); printf(", ");
    printMap("fault_runs", faultRuns); printf(", ");
    printMap("probes", probes); printf(", ");
    printMap("probe_runs", probeRuns); printf(", ");
    printMap("known", knownHits);
    printf("}}\n");
    return rc;
}

static int replayFile(const std::string &path, bool verboseRun) {
    FILE *f = fopen(path.c_str(), "r");
    if (!f) { fprintf(stderr, "cannot open %s\n", path.c_str()); return 2; }
    char line[4096];
    std::string scen, cls;
    unsigned long long hash = 0;
    size_t n = 0;
    while (fgets(line, sizeof line, f)) {
        char a[4096];
        if (sscanf(line, "scenario %s", a) == 1) scen = a;
        else if (!strncmp(line, "class ", 6)) { cls = line + 6; while (!cls.empty() && cls.back() == '\n') cls.pop_back(); }
        else if (sscanf(line, "hash %llx", &hash) == 1) {}
        else if (sscanf(line, "choices %zu", &n) == 1) break;
    }
    std::vector<uint16_t> ch;
    unsigned v;
    while (ch.size() < n && fscanf(f, "%u", &v) == 1) ch.push_back(uint16_t(v));
    fclose(f);
    for (auto &s : scenarios()) {
        if (scen != s.name) continue;
        auto o = runOne(s, 0, &ch, verboseRun);
        bool same = o.status == 1 && o.cls == cls;
        printf("{\"reproduced\": %s, \"hash_equal\": %s, \"status\": %u, \"class\": \"%s\", \"message\": \"%s\"}\n", same ? "true" : "false",
               shared->hash == hash ? "true" : "false", o.status, o.cls.c_str(), o.msg.c_str());
        return same ? 1 : (o.status == 1 ? 3 : 0);
    }
    fprintf(stderr, "unknown scenario %s\n", scen.c_str());
    return 2;
}

static int seedRun(const std::string &scen, uint64_t seed, uint64_t index, bool verboseRun) {
    for (auto &s : scenarios()) {
        if (scen != s.name) continue;
        auto o = runOne(s, runSeed(seed, s.name, index), nullptr, verboseRun);
        printf("{\"status\": %u, \"class\": \"%s\", \"message\": \"%s\", \"hash\": \"%016llx\", \"steps\": %u, \"choices\": %u}\n", o.status, o.cls.c_str(), o.msg.c_str(),
               (unsigned long long)shared->hash, shared->steps, shared->nchoices);
        return o.status == 1;
    }
    return 2;
}

int simMain(int argc, char **argv) {
    // No address-space randomisation and no hash randomisation: one seed, one execution.
    if (!getenv("SIM_REEXEC")) {
        // Nothing of the caller's environment may matter either.
        std::vector<std::string> env{"SIM_REEXEC=1", "QT_HASH_SEED=0", "QT_NO_CPU_FEATURE=rdrnd rdseed", "QT_QPA_PLATFORM=offscreen", "QT_LOGGING_TO_CONSOLE=1",
            "QML_DISABLE_DISK_CACHE=1", "QV4_FORCE_INTERPRETER=1", "QT_LOGGING_RULES=*.debug=false;*.info=false", "QT_NO_GLIB=1", "LC_ALL=C.UTF-8", "HOME=/nonexistent", "PATH=/usr/bin:/bin"};
        std::string opt = "ASAN_OPTIONS=detect_leaks=0:symbolize=0:handle_abort=0:handle_segv=1:exitcode=99:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:quarantine_size_mb=16:thread_local_quarantine_size_kb=64:malloc_context_size=3:max_free_fill_size=65536:free_fill_byte=90";
        if (const char *old = getenv("ASAN_OPTIONS")) opt += std::string(":") + old;
        env.push_back(opt);
        for (const char *keep : {"LD_LIBRARY_PATH", "TZ"}) if (const char *v = getenv(keep)) env.push_back(std::string(keep) + "=" + v);
        std::vector<char *> envp;
        for (auto &e : env) envp.push_back(e.data());
        envp.push_back(nullptr);
        personality(ADDR_NO_RANDOMIZE);
        execve("/proc/self/exe", argv, envp.data());
        return 2;
    }
    static char outBuffer[1 << 16];
    setvbuf(stdout, outBuffer, _IOFBF, sizeof outBuffer);
    shared = static_cast<RunRecord *>(mmap(nullptr, sizeof(RunRecord), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    W->rec = shared;
    errFd = memfd_create("stderr", 0);
    qInstallMessageHandler(messageHandler);
    qtHookData[QHooks::AddQObject] = reinterpret_cast<quintptr>(&addObject);
    qtHookData[QHooks::RemoveQObject] = reinterpret_cast<quintptr>(&removeObject);
    installMainDispatcher();
    static int ac = 1;
    static char name[] = "sim";
    static char *av[] = {name, nullptr};
    QObject *app = createApplication ? createApplication(ac, av) : new QCoreApplication(ac, av);
    (void)app;
    startZygote(); // before the arguments leave traces in the heap
    auto arg = [&](const char *name, const char *def) -> std::string {
        for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], name)) return argv[i + 1];
        return def;
    };
    auto flag = [&](const char *name) { for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], name)) return true; return false; };
    std::string mode = argc > 1 ? argv[1] : "list";
    if (mode == "list") {
        for (auto &s : scenarios()) printf("%s %s %d\n", s.property, s.name, s.weight);
        return 0;
    }
    uint64_t seed = std::stoull(arg("--seed", "1"));
    if (mode == "batch") {
        std::set<std::string> known;
        std::string k = arg("--known", "");
        for (size_t p = 0; p < k.size();) { auto e = k.find(',', p); if (e == std::string::npos) e = k.size(); known.insert(k.substr(p, e - p)); p = e + 1; }
        return batch(arg("--prop", ""), arg("--scenario", ""), seed, std::stoull(arg("--start", "0")), std::stoull(arg("--stride", "1")), std::stoull(arg("--count", "1000000000")),
                     std::stod(arg("--time", "10")), std::stod(arg("--shrink-time", "15")), arg("--replay", "/tmp/replay"), known, arg("--hashes", ""));
    }
    if (mode == "replay") return replayFile(argv[2], flag("-v"));
    if (mode == "run") return seedRun(arg("--scenario", ""), seed, std::stoull(arg("--index", "0")), flag("-v"));
    return 2;
}

} // namespace sim

int main(int argc, char **argv) { return sim::simMain(argc, argv); }
