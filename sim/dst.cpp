// Simulator core: decisions, scheduler, interposed threading/time primitives, run driver.
#include "dst.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <future>
#include <random>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace dst {

// ================================================================ shared result area
static constexpr size_t kMaxDecisions = 1u << 20;
static constexpr size_t kLogCap = 1u << 20;
static constexpr int kMaxCounters = 96;
struct Dec {
    uint32_t tag;  // index in tag table
    int32_t tid;
    uint64_t idx;
    uint64_t val;
};
struct Counter {
    char name[48];
    uint64_t n;
};
enum Outcome : int { kNone = 0, kOk = 1, kViolation = 2, kHarnessError = 3 };
struct Shared {
    int outcome;
    char vprop[16];
    char vkey[160];
    char vmsg[6000];
    uint64_t loghash, statehash, decisions, switches, steps, simtime_us;
    int nontrivial;
    int ntags;
    char tags[256][48];
    uint64_t ndec;
    Dec dec[kMaxDecisions];
    uint64_t loglen;
    uint64_t log_total;
    int ncounters;
    Counter counters[kMaxCounters];
    int nfaults;
    Counter faults[kMaxCounters];
    char log[kLogCap];
};
static Shared* g_sh;

static Options g_opt;
const Options& Opt() { return g_opt; }

// ================================================================ PRNG
static inline uint64_t SplitMix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t g_rng, g_aux;
static bool g_replay;
static inline double U01() { return (SplitMix(g_rng) >> 11) * (1.0 / 9007199254740992.0); }

uint64_t Aux() { return SplitMix(g_aux); }

uint64_t HashStr(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}
static inline void MixHash(uint64_t& h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
}

// ================================================================ threads
enum TState { kRunnable, kBlocked, kSleeping, kDone };
struct SimThread {
    int id = 0;
    TState st = kRunnable;
    const void* wait_obj = nullptr;
    const char* why = "";
    const std::function<bool()>* pred = nullptr;
    int64_t wake_us = -1;  // monotonic sim time
    bool timed_out = false;
    bool notified = false;
    uint32_t go = 0;
    pthread_t real{};
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    bool joined = false;
    bool detached = false;
    uint32_t release = 0;  // may really exit: a handle is not reused before its thread is joined
    uint64_t mem_idx = 0;       // memory accesses so far
    uint64_t mem_next = ~0ull;  // next access that is a decision
    int atomic_depth = 0;
};
static std::vector<SimThread*>* g_threads;
static SimThread* g_cur;
static SimThread* g_reap;  // finished thread to be really joined by the next runner
static thread_local SimThread* t_self;
static bool g_active;
static double g_psync = 0.05, g_pmem = 0.0;
static uint64_t g_steps, g_switches, g_budget = 2000000;
static uint64_t g_consec, g_mem_since;
static constexpr uint64_t kMaxConsec = 400;        // fairness: forced rotation
static constexpr uint64_t kMaxMemSince = 200000;
static int64_t g_mono_us, g_wall_off;
static std::function<void(const std::string&)>* g_on_deadlock;
static std::function<void(const std::string&)>* g_on_livelock;

int Tid() { return t_self ? t_self->id : 0; }
uint64_t Steps() { return g_steps; }
uint64_t Switches() { return g_switches; }
void SetStepBudget(uint64_t n) { g_budget = n; }
void OnDeadlock(std::function<void(const std::string&)> f) { *g_on_deadlock = std::move(f); }
void OnLivelock(std::function<void(const std::string&)> f) { *g_on_livelock = std::move(f); }
double PreemptP() { return g_psync; }

static inline bool InSim() { return g_active && t_self != nullptr && t_self == g_cur; }

Atomic::Atomic() {
    if (t_self) t_self->atomic_depth++;
}
Atomic::~Atomic() {
    if (t_self) t_self->atomic_depth--;
}

// ================================================================ decisions
struct TagInfo {
    int id;
};
static std::unordered_map<std::string, int>* g_tagids;
struct StreamKey {
    int tag, tid;
    bool operator==(const StreamKey& o) const { return tag == o.tag && tid == o.tid; }
};
struct StreamHash {
    size_t operator()(const StreamKey& k) const { return k.tag * 1000003u + k.tid; }
};
struct Stream {
    uint64_t next = 0;
    std::map<uint64_t, uint64_t> replay;  // idx -> val
};
static std::unordered_map<StreamKey, Stream, StreamHash>* g_streams;
// replay decisions given by tag name
struct RDec {
    std::string tag;
    int tid;
    uint64_t idx, val;
};
static std::vector<RDec>* g_rdecs;

static int TagId(const char* tag) {
    // tags are string literals: cache by pointer first
    static std::unordered_map<const void*, int>* by_ptr = new std::unordered_map<const void*, int>();
    auto it = by_ptr->find(tag);
    if (it != by_ptr->end()) return it->second;
    auto jt = g_tagids->find(tag);
    int id;
    if (jt == g_tagids->end()) {
        id = static_cast<int>(g_tagids->size());
        if (id >= 256) HarnessError("too many decision tags");
        g_tagids->emplace(tag, id);
        snprintf(g_sh->tags[id], sizeof(g_sh->tags[id]), "%s", tag);
        g_sh->ntags = id + 1;
    } else {
        id = jt->second;
    }
    by_ptr->emplace(tag, id);
    return id;
}
static void Record(int tag, int tid, uint64_t idx, uint64_t val) {
    if (val == 0) return;
    uint64_t k = g_sh->ndec;
    if (k >= kMaxDecisions) {
        g_active = false;
        Violate(g_opt.prop.c_str(), "livelock", "no completion within %llu decisions", (unsigned long long)k);
    }
    g_sh->dec[k] = Dec{static_cast<uint32_t>(tag), tid, idx, val};
    g_sh->ndec = k + 1;
}
static Stream& GetStream(int tag, int tid) {
    Stream& s = (*g_streams)[StreamKey{tag, tid}];
    return s;
}
static uint64_t Decide(const char* tag, uint64_t n, double p, bool uniform) {
    if (n <= 1) return 0;
    Atomic core;
    int id = TagId(tag);
    int tid = Tid();
    Stream& s = GetStream(id, tid);
    uint64_t idx = s.next++;
    g_sh->decisions++;
    uint64_t v = 0;
    if (g_replay) {
        auto it = s.replay.find(idx);
        if (it != s.replay.end()) v = it->second % n;
    } else if (uniform) {
        v = SplitMix(g_rng) % n;
    } else if (p > 0 && U01() < p) {
        v = 1 + SplitMix(g_rng) % (n - 1);
    }
    Record(id, tid, idx, v);
    return v;
}
uint64_t Choose(const char* tag, uint64_t n, double p) { return Decide(tag, n, p, false); }
uint64_t Pick(const char* tag, uint64_t n) { return Decide(tag, n, 0, true); }

// memory-access decisions: geometric gaps in search mode
static int g_memtag = -1;
static void ArmMem(SimThread* t) {
    if (g_memtag < 0) g_memtag = TagId("mem");
    if (g_replay) {
        Stream& s = GetStream(g_memtag, t->id);
        auto it = s.replay.lower_bound(t->mem_idx + 1);
        t->mem_next = it == s.replay.end() ? ~0ull : it->first;
        return;
    }
    if (g_pmem <= 0) {
        t->mem_next = ~0ull;
        return;
    }
    double u = U01();
    if (u < 1e-12) u = 1e-12;
    double gap = __builtin_log(u) / __builtin_log1p(-g_pmem);
    if (gap > 1e12) gap = 1e12;
    t->mem_next = t->mem_idx + 1 + static_cast<uint64_t>(gap);
}
void SetPreempt(double ps, double pm) {
    g_psync = ps;
    g_pmem = pm;
    if (g_threads)
        for (auto* t : *g_threads) ArmMem(t);
}
void SwarmPreempt(bool with_mem) {
    static const double ps[] = {0.02, 0.1, 0.3, 0.6, 0.9, 0.005};
    static const double pm[] = {0.0, 0.001, 0.01, 0.03, 0.1, 0.3};
    double a = ps[Pick("swarm.psync", 6)];
    double b = with_mem ? pm[Pick("swarm.pmem", 6)] : 0.0;
    SetPreempt(a, b);
}

// ================================================================ log
static uint64_t g_loghash, g_statehash;
static void Append(const char* s, size_t n) {
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) h = (h ^ static_cast<unsigned char>(s[i])) * 1099511628211ull;
    MixHash(g_loghash, h);
    g_sh->log_total += n;
    if (g_sh->loglen + n + 1 < kLogCap) {
        memcpy(g_sh->log + g_sh->loglen, s, n);
        g_sh->loglen += n;
    }
    g_sh->loghash = g_loghash;
}
void Log(const char* fmt, ...) {
    Atomic core;
    char buf[2048];
    int k = snprintf(buf, sizeof(buf), "[%lld.%06lld t%d] ", (long long)(g_mono_us / 1000000),
                     (long long)(g_mono_us % 1000000), Tid());
    va_list ap;
    va_start(ap, fmt);
    int m = vsnprintf(buf + k, sizeof(buf) - k - 2, fmt, ap);
    va_end(ap);
    size_t len = std::min<size_t>(k + (m < 0 ? 0 : m), sizeof(buf) - 2);
    {
        // the event without its time: executions that only differ in timing count as one history
        uint64_t h = 1469598103934665603ull + static_cast<uint64_t>(Tid());
        for (size_t i = k; i < len; i++) h = (h ^ static_cast<unsigned char>(buf[i])) * 1099511628211ull;
        State(h);
    }
    buf[len++] = '\n';
    Append(buf, len);
}
void State(uint64_t h) {
    MixHash(g_statehash, h);
    g_sh->statehash = g_statehash;
}
void StateStr(const std::string& s) { State(HashStr(s)); }
static void Bump(Counter* c, int* n, const char* name, uint64_t k) {
    for (int i = 0; i < *n; i++)
        if (!strcmp(c[i].name, name)) {
            c[i].n += k;
            return;
        }
    if (*n >= kMaxCounters) return;
    snprintf(c[*n].name, sizeof(c[*n].name), "%s", name);
    c[*n].n = k;
    ++*n;
}
void Fault(const char* kind) { Bump(g_sh->faults, &g_sh->nfaults, kind, 1); }
void Count(const char* name, uint64_t n) { Bump(g_sh->counters, &g_sh->ncounters, name, n); }
void NonTrivial() { g_sh->nontrivial = 1; }

static void FinishStats() {
    g_sh->switches = g_switches;
    g_sh->steps = g_steps;
    g_sh->simtime_us = static_cast<uint64_t>(g_mono_us);
}
void Violate(const char* prop, const char* key, const char* fmt, ...) {
    if (g_sh->outcome == kNone) {
        char buf[5500];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof(buf), fmt, ap);
        va_end(ap);
        Log("VIOLATION %s %s: %s", prop, key, buf);
        snprintf(g_sh->vprop, sizeof(g_sh->vprop), "%s", prop);
        snprintf(g_sh->vkey, sizeof(g_sh->vkey), "%s", key);
        snprintf(g_sh->vmsg, sizeof(g_sh->vmsg), "%s", buf);
        FinishStats();
        g_sh->outcome = kViolation;
    }
    _exit(0);
}
void HarnessError(const char* fmt, ...) {
    char buf[5500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if (g_sh) {
        snprintf(g_sh->vmsg, sizeof(g_sh->vmsg), "%s", buf);
        g_sh->outcome = kHarnessError;
    }
    fprintf(stderr, "harness error: %s\n", buf);
    _exit(3);
}

// ================================================================ real primitives
template <typename F>
static F Real(const char* name) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(name)                                                \
    ([]() {                                                       \
        static auto f = Real<decltype(&::name)>(#name);           \
        return f;                                                 \
    }())

static void FutexWait(uint32_t* a, uint32_t v) {
    syscall(SYS_futex, a, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, v, nullptr, nullptr, 0);
}
static void FutexWake(uint32_t* a) {
    syscall(SYS_futex, a, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, nullptr, nullptr, 0);
}
static void WaitGo(SimThread* t) {
    int e = errno;  // a switch must not be visible in the thread's errno
    while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) FutexWait(&t->go, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
    if (g_reap && g_reap != t) {
        SimThread* r = g_reap;
        g_reap = nullptr;
        REAL(pthread_join)(r->real, nullptr);
    }
    errno = e;
}
static void GiveTo(SimThread* t) {
    int e = errno;
    g_cur = t;
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    FutexWake(&t->go);
    errno = e;
}

static std::string Describe() {
    std::string s;
    for (auto* t : *g_threads) {
        char b[128];
        const char* st = t->st == kRunnable ? "runnable" : t->st == kBlocked ? "blocked" : t->st == kSleeping ? "sleeping" : "done";
        if (t->st == kDone) continue;
        snprintf(b, sizeof(b), "t%d %s%s%s; ", t->id, st, t->st == kBlocked ? " in " : "",
                 t->st == kBlocked ? t->why : "");
        s += b;
    }
    return s;
}

// Chooses who runs next and switches. `self_can_run`: the caller could simply continue.
static void Reschedule(bool self_can_run, double p) {
    SimThread* self = t_self;
    Atomic core;
    if (++g_steps > g_budget) {
        g_active = false;
        if (*g_on_livelock) (*g_on_livelock)(Describe());
        Violate(g_opt.prop.c_str(), "livelock", "no completion within %llu scheduling steps: %s",
                (unsigned long long)g_budget, Describe().c_str());
    }
    g_mono_us += 1;
    // re-evaluate predicates and expired sleeps
    for (auto* t : *g_threads) {
        if (t->st == kBlocked && t->pred && (*t->pred)()) {
            t->st = kRunnable;
            t->pred = nullptr;
        } else if ((t->st == kSleeping || (t->st == kBlocked && t->wake_us >= 0)) && t->wake_us <= g_mono_us) {
            t->st = kRunnable;
            t->timed_out = true;
            t->wait_obj = nullptr;
        }
    }
    if (self && self->st == kRunnable) self_can_run = true;
    // candidates in cyclic order after the caller
    SimThread* cand[256];
    int n = 0;
    size_t total = g_threads->size(), me = self ? static_cast<size_t>(self->id) : 0;
    bool rotate = self_can_run && ++g_consec > kMaxConsec;
    if (self_can_run && !rotate) cand[n++] = self;
    for (size_t i = 1; i < total; i++) {
        SimThread* t = (*g_threads)[(me + i) % total];
        if (t->st == kRunnable && n < 250) cand[n++] = t;
    }
    int nrun = n;
    // sleepers may be woken although others could still run (the others were slow)
    for (size_t i = 1; i <= total; i++) {
        SimThread* t = (*g_threads)[(me + i) % total];
        if ((t->st == kSleeping || (t->st == kBlocked && t->wake_us >= 0)) && n < 250) cand[n++] = t;
    }
    if (rotate) {
        cand[n++] = self;
        g_consec = 0;
    }
    if (n == 0) {
        g_active = false;
        std::string what = Describe();
        if (*g_on_deadlock) (*g_on_deadlock)(what);
        Violate(g_opt.prop.c_str(), "deadlock", "no thread can run: %s", what.c_str());
    }
    uint64_t k = 0;
    if (n > 1) {
        if (nrun == 0) {
            // time must pass: default = earliest wake-up
            std::stable_sort(cand, cand + n, [](SimThread* a, SimThread* b) { return a->wake_us < b->wake_us; });
            k = Choose("wake", n, 0.2);
        } else if (self_can_run) {
            k = rotate ? Choose("yield", n, 0.3) : Choose("sched", n, p);
        } else {
            k = Choose("next", n, n > nrun ? 0.6 : (n - 1.0) / n);
        }
    }
    SimThread* nx = cand[k];
    if (nx->st == kSleeping || nx->st == kBlocked) {
        if (nx->wake_us > g_mono_us) g_mono_us = nx->wake_us;
        nx->timed_out = true;
        nx->st = kRunnable;
        nx->wait_obj = nullptr;
    }
    if (nx != self) {
        g_consec = 0;
        g_mem_since = 0;
        g_switches++;
        MixHash(g_loghash, 0x5eed0000u + nx->id);
        g_sh->loghash = g_loghash;
        GiveTo(nx);
        if (self && self->st != kDone) WaitGo(self);
    }
}
static inline void Point(const char*) {
    if (!InSim() || t_self->atomic_depth) return;
    Reschedule(true, g_psync);
}
static inline void PointP(double p) {
    if (!InSim() || t_self->atomic_depth) return;
    Reschedule(true, p);
}
void Yield(const char* why) { Point(why); }

// Blocks the caller on obj until somebody makes it runnable (or the timeout passes).
static bool BlockOn(const void* obj, const char* why, int64_t wake_us) {
    SimThread* t = t_self;
    t->st = kBlocked;
    t->wait_obj = obj;
    t->why = why;
    t->wake_us = wake_us;
    t->timed_out = false;
    t->notified = false;
    Reschedule(false, 0);
    t->wait_obj = nullptr;
    t->wake_us = -1;
    return !t->timed_out;
}
static void WakeAll(const void* obj) {
    for (auto* t : *g_threads)
        if (t->st == kBlocked && t->wait_obj == obj) {
            t->st = kRunnable;
            t->wait_obj = nullptr;
            t->wake_us = -1;
        }
}
void WaitUntil(const char* why, const std::function<bool()>& pred) {
    if (!InSim()) HarnessError("WaitUntil outside simulation");
    while (!pred()) {
        SimThread* t = t_self;
        t->st = kBlocked;
        t->why = why;
        t->pred = &pred;
        t->wait_obj = nullptr;
        t->wake_us = -1;
        Reschedule(false, 0);
        t->pred = nullptr;
    }
}
void SleepUs(int64_t us) {
    if (!InSim()) return;
    SimThread* t = t_self;
    if (t->atomic_depth) {
        g_mono_us += us;
        return;
    }
    t->st = kSleeping;
    t->wake_us = g_mono_us + (us > 0 ? us : 1);
    Reschedule(false, 0);
    t->wake_us = -1;
}
int64_t NowUs() { return g_mono_us + g_wall_off; }
void AdvanceUs(int64_t us) { g_mono_us += us; }
void SkewUs(int64_t us) { g_wall_off += us; }

// ---------------------------------------------------------------- simulated objects
struct MutexState {
    SimThread* owner = nullptr;
    int depth = 0;
};
static std::unordered_map<const void*, MutexState>* g_mutexes;
struct RwState {
    SimThread* writer = nullptr;
    int readers = 0;
};
static std::unordered_map<const void*, RwState>* g_rws;

static bool IsRecursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static int SimLock(pthread_mutex_t* m, bool yield_first) {
    if (yield_first) Point("lock");
    MutexState* s = &(*g_mutexes)[m];
    if (s->owner == t_self && IsRecursive(m)) {
        s->depth++;
        return 0;
    }
    while (s->owner) {
        if (t_self->atomic_depth) HarnessError("blocking inside Atomic section");
        BlockOn(m, "mutex lock", -1);
        s = &(*g_mutexes)[m];
    }
    s->owner = t_self;
    s->depth = 1;
    return 0;
}
static int SimUnlock(pthread_mutex_t* m) {
    MutexState& s = (*g_mutexes)[m];
    if (--s.depth > 0) return 0;
    s.depth = 0;
    s.owner = nullptr;
    WakeAll(m);
    Point("unlock");
    return 0;
}
static int SimCondWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t wake_us) {
    Point("cond");
    MutexState& s = (*g_mutexes)[m];
    s.owner = nullptr;
    s.depth = 0;
    WakeAll(m);
    bool ok = true;
    if (Chance("spurious", g_psync * 0.1)) {
        Fault("spurious_wakeup");
        Reschedule(true, 0.5);
    } else {
        ok = BlockOn(c, "condition wait", wake_us);
    }
    SimLock(m, false);
    return ok ? 0 : ETIMEDOUT;
}
static int64_t AbsToMono(clockid_t clk, const struct timespec* ts) {
    int64_t us = ts->tv_sec * 1000000ll + ts->tv_nsec / 1000;
    if (clk == CLOCK_MONOTONIC) return us;
    return us - g_wall_off;
}

// ---------------------------------------------------------------- thread start
static void* Trampoline(void* p) {
    SimThread* t = static_cast<SimThread*>(p);
    t_self = t;
    WaitGo(t);
    t->ret = t->fn(t->arg);
    t->st = kDone;
    WakeAll(t);
    if (t->detached) {
        t->release = 1;
        g_reap = t;
    }
    t_self = t;
    Reschedule(false, 0);
    t_self = nullptr;
    while (__atomic_load_n(&t->release, __ATOMIC_ACQUIRE) == 0) FutexWait(&t->release, 0);
    return t->ret;
}
}  // namespace dst

// ================================================================ interposed symbols
using namespace dst;  // NOLINT
extern "C" {

#ifndef DST_PLAIN
int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    if (!InSim()) return REAL(pthread_create)(th, attr, fn, arg);
    if (g_threads->size() >= 3000) return EAGAIN;
    auto* t = new SimThread();
    t->id = static_cast<int>(g_threads->size());
    t->fn = fn;
    t->arg = arg;
    g_threads->push_back(t);
    ArmMem(t);
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 1 << 20);
    int rc = REAL(pthread_create)(&t->real, &a, Trampoline, t);
    pthread_attr_destroy(&a);
    if (rc) HarnessError("pthread_create failed: %d", rc);
    *th = t->real;
    Point("create");
    return 0;
}
static void Release(SimThread* t) {
    __atomic_store_n(&t->release, 1, __ATOMIC_RELEASE);
    FutexWake(&t->release);
    REAL(pthread_join)(t->real, nullptr);
}
static SimThread* FindThread(pthread_t th) {
    // most recent first: real ids may be reused
    for (size_t i = g_threads->size(); i-- > 0;)
        if (pthread_equal((*g_threads)[i]->real, th) && !(*g_threads)[i]->joined) return (*g_threads)[i];
    return nullptr;
}
int pthread_join(pthread_t th, void** ret) {
    if (!InSim()) return REAL(pthread_join)(th, ret);
    SimThread* t = FindThread(th);
    if (!t) return ESRCH;
    Point("join");
    while (t->st != kDone) BlockOn(t, "thread join", -1);
    t->joined = true;
    Release(t);
    if (ret) *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t th) {
    if (!InSim()) return REAL(pthread_detach)(th);
    SimThread* t = FindThread(th);
    if (t) t->detached = t->joined = true;
    if (t && t->st == kDone) Release(t);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!InSim()) {
        if (g_active) return 0;
        return REAL(pthread_mutex_lock)(m);
    }
    return SimLock(m, true);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!InSim()) {
        if (g_active) return 0;
        return REAL(pthread_mutex_trylock)(m);
    }
    Point("trylock");
    MutexState& s = (*g_mutexes)[m];
    if (s.owner == t_self && IsRecursive(m)) {
        s.depth++;
        return 0;
    }
    if (s.owner) return EBUSY;
    s.owner = t_self;
    s.depth = 1;
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!InSim()) {
        if (g_active) return 0;
        return REAL(pthread_mutex_unlock)(m);
    }
    return SimUnlock(m);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (g_active) {
        g_mutexes->erase(m);
        return 0;
    }
    return REAL(pthread_mutex_destroy)(m);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!InSim()) return REAL(pthread_cond_wait)(c, m);
    return SimCondWait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (!InSim()) return REAL(pthread_cond_timedwait)(c, m, ts);
    return SimCondWait(c, m, AbsToMono(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
    if (!InSim()) return REAL(pthread_cond_clockwait)(c, m, clk, ts);
    return SimCondWait(c, m, AbsToMono(clk, ts));
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!InSim()) {
        if (g_active) return 0;
        return REAL(pthread_cond_signal)(c);
    }
    Point("signal");
    SimThread* w[256];
    int n = 0;
    for (auto* t : *g_threads)
        if (t->st == kBlocked && t->wait_obj == c) w[n++] = t;
    if (n) {
        SimThread* t = w[n > 1 ? Choose("signal", n, 0.5) : 0];
        t->st = kRunnable;
        t->wait_obj = nullptr;
        t->wake_us = -1;
    }
    Point("signal");
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!InSim()) {
        if (g_active) return 0;
        return REAL(pthread_cond_broadcast)(c);
    }
    Point("broadcast");
    WakeAll(c);
    Point("broadcast");
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    if (g_active) return 0;
    return REAL(pthread_cond_destroy)(c);
}
static int RdLock(pthread_rwlock_t* l, bool try_only) {
    Point("rdlock");
    while ((*g_rws)[l].writer) {
        if (try_only) return EBUSY;
        BlockOn(l, "read lock", -1);
    }
    (*g_rws)[l].readers++;
    return 0;
}
static int WrLock(pthread_rwlock_t* l, bool try_only) {
    Point("wrlock");
    while ((*g_rws)[l].writer || (*g_rws)[l].readers) {
        if (try_only) return EBUSY;
        BlockOn(l, "write lock", -1);
    }
    (*g_rws)[l].writer = t_self;
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    if (!InSim()) return g_active ? 0 : REAL(pthread_rwlock_rdlock)(l);
    return RdLock(l, false);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
    if (!InSim()) return g_active ? 0 : REAL(pthread_rwlock_tryrdlock)(l);
    return RdLock(l, true);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    if (!InSim()) return g_active ? 0 : REAL(pthread_rwlock_wrlock)(l);
    return WrLock(l, false);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
    if (!InSim()) return g_active ? 0 : REAL(pthread_rwlock_trywrlock)(l);
    return WrLock(l, true);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!InSim()) return g_active ? 0 : REAL(pthread_rwlock_unlock)(l);
    RwState& s = (*g_rws)[l];
    if (s.writer == t_self)
        s.writer = nullptr;
    else if (s.readers > 0)
        s.readers--;
    WakeAll(l);
    Point("rwunlock");
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* l) {
    if (g_active) {
        g_rws->erase(l);
        return 0;
    }
    return REAL(pthread_rwlock_destroy)(l);
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    // 0 = not run, 1 = running, 2 = done (glibc's own encoding is not relied upon)
    if (*o == 2) return 0;
    if (!InSim()) {
        if (*o == 0) {
            *o = 1;
            try {
                fn();
            } catch (...) {
                *o = 0;
                throw;
            }
            *o = 2;
        }
        return 0;
    }
    Point("once");
    while (*o == 1) BlockOn(o, "call_once", -1);
    if (*o == 2) return 0;
    *o = 1;
    try {
        fn();
    } catch (...) {
        *o = 0;
        WakeAll(o);
        throw;
    }
    *o = 2;
    WakeAll(o);
    return 0;
}
// function-local statics
int __cxa_guard_acquire(long long* g) {
    auto* b = reinterpret_cast<volatile unsigned char*>(g);
    if (b[0]) return 0;
    if (InSim()) {
        Point("static init");
        while (b[1]) {
            BlockOn(g, "static init", -1);
        }
        if (b[0]) return 0;
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(long long* g) {
    auto* b = reinterpret_cast<volatile unsigned char*>(g);
    b[1] = 0;
    b[0] = 1;
    if (InSim()) {
        WakeAll(g);
        Point("static init");
    }
}
void __cxa_guard_abort(long long* g) {
    auto* b = reinterpret_cast<volatile unsigned char*>(g);
    b[1] = 0;
    if (InSim()) WakeAll(g);
}
// semaphores (kept in the sem_t's first word)
int sem_init(sem_t* s, int, unsigned v) {
    *reinterpret_cast<volatile int*>(s) = static_cast<int>(v);
    return 0;
}
int sem_wait(sem_t* s) {
    auto* c = reinterpret_cast<volatile int*>(s);
    if (!InSim()) {
        --*c;
        return 0;
    }
    Point("sem");
    while (*c <= 0) BlockOn(s, "semaphore", -1);
    *c = *c - 1;
    return 0;
}
int sem_trywait(sem_t* s) {
    auto* c = reinterpret_cast<volatile int*>(s);
    Point("sem");
    if (*c <= 0) {
        errno = EAGAIN;
        return -1;
    }
    *c = *c - 1;
    return 0;
}
int sem_post(sem_t* s) {
    auto* c = reinterpret_cast<volatile int*>(s);
    *c = *c + 1;
    if (InSim()) {
        WakeAll(s);
        Point("sem");
    }
    return 0;
}
int sem_destroy(sem_t*) { return 0; }

int sched_yield(void) {
    if (!InSim()) return 0;
    if (t_self->atomic_depth) return 0;
    g_consec = kMaxConsec;
    Reschedule(true, 0.5);
    return 0;
}
int nanosleep(const struct timespec* req, struct timespec* rem) {
    if (!InSim()) return REAL(nanosleep)(req, rem);
    SleepUs(req->tv_sec * 1000000ll + req->tv_nsec / 1000);
    return 0;
}
int clock_nanosleep(clockid_t clk, int flags, const struct timespec* req, struct timespec* rem) {
    if (!InSim()) return REAL(clock_nanosleep)(clk, flags, req, rem);
    int64_t us = req->tv_sec * 1000000ll + req->tv_nsec / 1000;
    if (flags & TIMER_ABSTIME) us = AbsToMono(clk, req) - g_mono_us;
    SleepUs(us);
    return 0;
}
int usleep(useconds_t us) {
    if (!InSim()) return REAL(usleep)(us);
    SleepUs(us);
    return 0;
}
unsigned sleep(unsigned s) {
    if (!InSim()) return REAL(sleep)(s);
    SleepUs(s * 1000000ll);
    return 0;
}
#endif  // DST_PLAIN
int clock_gettime(clockid_t clk, struct timespec* ts) {
    if (!g_active) return static_cast<int>(syscall(SYS_clock_gettime, clk, ts));
    int64_t us = (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE) ? NowUs() : g_mono_us;
    ts->tv_sec = us / 1000000;
    ts->tv_nsec = (us % 1000000) * 1000;
    return 0;
}
int gettimeofday(struct timeval* tv, void* tz) {
    (void)tz;
    if (!g_active) {
        struct timespec ts;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    int64_t us = NowUs();
    tv->tv_sec = us / 1000000;
    tv->tv_usec = us % 1000000;
    return 0;
}
time_t time(time_t* t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
int get_nprocs(void) { return 4; }
int getentropy(void* b, size_t n) {
    auto* p = static_cast<unsigned char*>(b);
    for (size_t i = 0; i < n; i++) p[i] = static_cast<unsigned char>(Aux());
    return 0;
}
ssize_t getrandom(void* b, size_t n, unsigned) {
    if (getentropy(b, n)) return -1;
    return static_cast<ssize_t>(n);
}
uint32_t arc4random(void) { return static_cast<uint32_t>(Aux()); }
int rand(void) { return static_cast<int>(Aux() & 0x7fffffff); }

// /proc/sys/kernel/random/uuid
FILE* dst_uuid_file(const char* path) {
    if (!g_active || strcmp(path, "/proc/sys/kernel/random/uuid") != 0) return nullptr;
    uint64_t a = Aux(), b = Aux();
    char buf[64];
    int n = snprintf(buf, sizeof(buf), "%08x-%04x-4%03x-a%03x-%012llx\n", (unsigned)(a >> 32),
                     (unsigned)(a >> 16) & 0xffff, (unsigned)a & 0xfff, (unsigned)(b >> 48) & 0xfff,
                     (unsigned long long)(b & 0xffffffffffffull));
    int fd = static_cast<int>(syscall(SYS_memfd_create, "uuid", 0));
    if (fd < 0) HarnessError("memfd_create failed");
    if (syscall(SYS_write, fd, buf, n) != n) HarnessError("memfd write failed");
    syscall(SYS_lseek, fd, 0, SEEK_SET);
    return fdopen(fd, "r");
}
#ifndef DST_POSIX
FILE* fopen(const char* path, const char* mode) {
    if (FILE* f = dst_uuid_file(path)) return f;
    return REAL(fopen)(path, mode);
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
#endif

#ifndef DST_PLAIN
// ---------------------------------------------------------------- instrumentation runtime
static inline void MemPoint() {
    SimThread* t = t_self;
    if (!t || t->atomic_depth || !g_active || t != g_cur) return;
    if (++t->mem_idx < t->mem_next) {
        if (++g_mem_since > kMaxMemSince) {
            g_mem_since = 0;
            g_consec = kMaxConsec + 1;
            Reschedule(true, 0);
        }
        return;
    }
    // a decision: preempt here
    uint64_t idx = t->mem_idx;
    uint64_t v = 1;
    if (g_replay) {
        Stream& s = GetStream(g_memtag, t->id);
        auto it = s.replay.find(idx);
        if (it == s.replay.end()) {
            ArmMem(t);
            return;
        }
        v = it->second;
    } else {
        v = 1 + SplitMix(g_rng) % 4;
    }
    Record(g_memtag, t->id, idx, v);
    ArmMem(t);
    // run another runnable thread: v-th one, cyclically
    SimThread* cand[256];
    int n = 0;
    for (auto* o : *g_threads)
        if (o != t && o->st == kRunnable && n < 250) cand[n++] = o;
    if (n == 0) return;
    if (++g_steps > g_budget) Reschedule(true, 0);
    SimThread* nx = cand[(v - 1) % n];
    g_consec = g_mem_since = 0;
    g_switches++;
    MixHash(g_loghash, 0x3e30000u + nx->id);
    g_sh->loghash = g_loghash;
    GiveTo(nx);
    WaitGo(t);
}
static inline void AtomicPoint() { MemPoint(); }
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define ACC(n)                                              \
    void __tsan_read##n(void*) { MemPoint(); }              \
    void __tsan_write##n(void*) { MemPoint(); }             \
    void __tsan_unaligned_read##n(void*) { MemPoint(); }    \
    void __tsan_unaligned_write##n(void*) { MemPoint(); }   \
    void __tsan_read_write##n(void*) { MemPoint(); }        \
    void __tsan_volatile_read##n(void*) { MemPoint(); }     \
    void __tsan_volatile_write##n(void*) { MemPoint(); }    \
    void __tsan_unaligned_volatile_read##n(void*) { MemPoint(); } \
    void __tsan_unaligned_volatile_write##n(void*) { MemPoint(); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void*, unsigned long) { MemPoint(); }
void __tsan_write_range(void*, unsigned long) { MemPoint(); }
void __tsan_vptr_update(void**, void*) { MemPoint(); }
void __tsan_vptr_read(void**) { MemPoint(); }
void __tsan_atomic_thread_fence(int) { AtomicPoint(); }
void __tsan_atomic_signal_fence(int) {}
#define ATOM(bits, T)                                                                            \
    T __tsan_atomic##bits##_load(const volatile T* a, int) { AtomicPoint(); return *a; }         \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) { AtomicPoint(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); AtomicPoint(); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { AtomicPoint(); T o = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); AtomicPoint(); return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { AtomicPoint(); T o = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); AtomicPoint(); return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { AtomicPoint(); T o = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); AtomicPoint(); return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { AtomicPoint(); T o = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { AtomicPoint(); T o = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { AtomicPoint(); T o = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { AtomicPoint(); T o = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); return o; } \
    bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { AtomicPoint(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { AtomicPoint(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { AtomicPoint(); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
#endif  // DST_PLAIN

}  // extern "C"

// std::future's waiting
namespace std {
#ifndef DST_PLAIN
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool has_timeout,
                                                       chrono::seconds s, chrono::nanoseconds ns) {
    if (!InSim()) return true;
    Point("future");
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return true;
    int64_t wake = -1;
    if (has_timeout) {
        wake = s.count() * 1000000ll + ns.count() / 1000 - g_wall_off;
        if (wake <= g_mono_us) return false;
    }
    return BlockOn(addr, "future wait", wake);
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool has_timeout,
                                                              chrono::seconds s, chrono::nanoseconds ns) {
    if (!InSim()) return true;
    Point("future");
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return true;
    int64_t wake = -1;
    if (has_timeout) {
        wake = s.count() * 1000000ll + ns.count() / 1000;
        if (wake <= g_mono_us) return false;
    }
    return BlockOn(addr, "future wait", wake);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr) {
    if (InSim()) {
        WakeAll(addr);
        Point("future");
    }
}
#endif
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return static_cast<result_type>(Aux()); }
}  // namespace std

// ================================================================ driver
namespace dst {
static std::string JsonEsc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n') {
            o += "\\n";
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof(b), "\\u%04x", c);
            o += b;
        } else {
            o += c;
        }
    }
    return o;
}

static void RunInChild(uint64_t seed) {
    // fresh simulator state
    g_threads = new std::vector<SimThread*>();
    g_mutexes = new std::unordered_map<const void*, MutexState>();
    g_rws = new std::unordered_map<const void*, RwState>();
    g_on_deadlock = new std::function<void(const std::string&)>();
    g_on_livelock = new std::function<void(const std::string&)>();
    g_streams = new std::unordered_map<StreamKey, Stream, StreamHash>();
    g_tagids = new std::unordered_map<std::string, int>();
    g_rng = seed * 0x9e3779b97f4a7c15ull + 0x1234567;
    g_aux = 0xa0761d6478bd642full;
    g_mono_us = 0;
    g_wall_off = 1700000000ll * 1000000;
    if (g_replay)
        for (auto& d : *g_rdecs) GetStream(TagId(d.tag.c_str()), d.tid).replay[d.idx] = d.val;
    auto* main_t = new SimThread();
    main_t->real = pthread_self();
    g_threads->push_back(main_t);
    t_self = main_t;
    g_cur = main_t;
    ArmMem(main_t);
    g_active = true;
    DstRun();
    g_active = false;
    FinishStats();
    if (g_sh->outcome == kNone) g_sh->outcome = kOk;
    _exit(0);
}

struct RunResult {
    int outcome = kNone;
    std::string vprop, vkey, vmsg;
    uint64_t hash = 0;
};

static int g_cpu_limit = 20;
// one child run; result left in g_sh
static RunResult RunOnce(uint64_t seed, bool quiet_stderr) {
    memset(g_sh, 0, offsetof(Shared, dec));
    g_sh->loglen = g_sh->log_total = 0;
    g_sh->ncounters = g_sh->nfaults = 0;
    int pfd[2];
    if (pipe(pfd)) _exit(3);
    fcntl(pfd[0], F_SETFL, O_NONBLOCK);
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) {
        fprintf(stderr, "fork failed\n");
        _exit(3);
    }
    if (pid == 0) {
        struct rlimit rl = {static_cast<rlim_t>(g_cpu_limit), static_cast<rlim_t>(g_cpu_limit + 5)};
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit cl = {0, 0};
        setrlimit(RLIMIT_CORE, &cl);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        dup2(pfd[1], 2);
        close(pfd[0]);
        close(pfd[1]);
        RunInChild(seed);
        _exit(0);
    }
    close(pfd[1]);
    int st = 0;
    std::string err;
    char buf[4096];
    // a wall-clock bound far above the CPU bound catches children blocked outside the simulator
    int waited_ms = 0;
    for (;;) {
        ssize_t r;
        while ((r = read(pfd[0], buf, sizeof(buf))) > 0)
            if (err.size() < 20000) err.append(buf, r);
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        struct timespec ts = {0, waited_ms < 20 ? 200000 : 2000000};
        syscall(SYS_nanosleep, &ts, nullptr);
        waited_ms += waited_ms < 20 ? 1 : 2;
        if (waited_ms > 240000) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            g_sh->outcome = kHarnessError;
            snprintf(g_sh->vmsg, sizeof(g_sh->vmsg), "run blocked outside the simulator");
            break;
        }
    }
    ssize_t r;
    while ((r = read(pfd[0], buf, sizeof(buf))) > 0)
        if (err.size() < 20000) err.append(buf, r);
    close(pfd[0]);
    (void)quiet_stderr;
    RunResult rr;
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && g_sh->outcome != kHarnessError)) {
        if (g_sh->outcome == kNone) {
            // the code under test took the process down
            std::string what, key;
            if (WIFSIGNALED(st)) {
                int sig = WTERMSIG(st);
                what = sig == SIGXCPU || sig == SIGKILL ? "endless computation (cpu limit)" : std::string("signal ") + strsignal(sig);
                key = sig == SIGXCPU || sig == SIGKILL ? "hang" : std::string("crash-") + std::to_string(sig);
            } else {
                what = "process exited with status " + std::to_string(WEXITSTATUS(st));
                key = "exit-" + std::to_string(WEXITSTATUS(st));
            }
            // keep the first informative lines of stderr (assertions, sanitizer reports)
            std::string info;
            size_t p = 0;
            int lines = 0;
            while (p < err.size() && lines < 14) {
                size_t e = err.find('\n', p);
                if (e == std::string::npos) e = err.size();
                std::string ln = err.substr(p, e - p);
                // strip pids and addresses, they differ between runs
                if (ln.find("==") == 0) {
                    size_t q = ln.find("==", 2);
                    if (q != std::string::npos) ln = ln.substr(q + 2);
                }
                info += ln + "\n";
                p = e + 1;
                lines++;
            }
            size_t a = err.find("SUMMARY: ");
            if (a != std::string::npos) info += err.substr(a, err.find('\n', a) - a);
            size_t k = err.find("ERROR: AddressSanitizer: ");
            if (k != std::string::npos) {
                k += strlen("ERROR: AddressSanitizer: ");
                size_t e = err.find_first_of(" :\n", k);
                key = "asan-" + err.substr(k, e - k);
            } else if (err.find("runtime error:") != std::string::npos) {
                key = "ubsan";
            } else if (err.find("Assertion") != std::string::npos) {
                key = "assert";
            } else if (err.find("terminate called") != std::string::npos) {
                key = "terminate";
            }
            snprintf(g_sh->vprop, sizeof(g_sh->vprop), "%s", g_opt.prop.c_str());
            snprintf(g_sh->vkey, sizeof(g_sh->vkey), "%s", key.c_str());
            snprintf(g_sh->vmsg, sizeof(g_sh->vmsg), "%s\n%s", what.c_str(), info.c_str());
            g_sh->outcome = kViolation;
        }
    }
    if (g_sh->outcome == kNone) {
        g_sh->outcome = kHarnessError;
        snprintf(g_sh->vmsg, sizeof(g_sh->vmsg), "run ended without outcome: %s", err.c_str());
    }
    if (g_sh->outcome == kHarnessError && !err.empty()) fprintf(stderr, "%s", err.c_str());
    rr.outcome = g_sh->outcome;
    rr.vprop = g_sh->vprop;
    rr.vkey = g_sh->vkey;
    rr.vmsg = g_sh->vmsg;
    rr.hash = g_sh->loghash;
    return rr;
}

static std::vector<RDec> Collect() {
    std::vector<RDec> v;
    for (uint64_t i = 0; i < g_sh->ndec; i++) {
        const Dec& d = g_sh->dec[i];
        v.push_back(RDec{g_sh->tags[d.tag], d.tid, d.idx, d.val});
    }
    return v;
}
static RunResult RunReplay(const std::vector<RDec>& ds) {
    g_replay = true;
    *g_rdecs = ds;
    RunResult r = RunOnce(0, true);
    g_replay = false;
    return r;
}

static bool SameViolation(const RunResult& r, const std::string& prop, const std::string& key) {
    return r.outcome == kViolation && r.vprop == prop && r.vkey == key;
}

static double WallNow() {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// delta debugging over the non-zero decisions, then smaller values
static std::vector<RDec> Minimise(std::vector<RDec> ds, const std::string& prop, const std::string& key,
                                  double budget_s, int* tries) {
    double t0 = WallNow();
    size_t chunk = std::max<size_t>(1, ds.size() / 2);
    while (chunk >= 1 && WallNow() - t0 < budget_s) {
        bool any = false;
        // drop from the end first: late decisions matter least
        for (size_t end = ds.size(); end > 0 && WallNow() - t0 < budget_s;) {
            size_t b = end > chunk ? end - chunk : 0;
            std::vector<RDec> c(ds.begin(), ds.begin() + b);
            c.insert(c.end(), ds.begin() + end, ds.end());
            ++*tries;
            if (SameViolation(RunReplay(c), prop, key)) {
                ds = c;
                any = true;
            }
            end = b;
        }
        if (chunk == 1 && !any) break;
        if (!any || chunk > ds.size()) chunk = chunk > 1 ? chunk / 2 : (any ? 1 : 0);
        if (ds.empty()) break;
    }
    for (size_t i = 0; i < ds.size() && WallNow() - t0 < budget_s; i++) {
        for (uint64_t v : {uint64_t(1), ds[i].val / 2}) {
            if (v == 0 || v >= ds[i].val) continue;
            auto c = ds;
            c[i].val = v;
            ++*tries;
            if (SameViolation(RunReplay(c), prop, key)) {
                ds = c;
                break;
            }
        }
    }
    return ds;
}

static void WriteReplay(const std::string& path, const std::vector<RDec>& ds, const RunResult& r,
                        uint64_t seed, size_t orig, int tries, const char* binary) {
    FILE* f = REAL(fopen)(path.c_str(), "w");
    if (!f) {
        fprintf(stderr, "cannot write %s\n", path.c_str());
        _exit(3);
    }
    fprintf(f, "# replay file of the deterministic simulator\n");
    fprintf(f, "# reproduce: %s --prop %s --profile '%s' --replay %s\n", binary, g_opt.prop.c_str(), g_opt.profile.c_str(), path.c_str());
    fprintf(f, "prop %s\nprofile %s\nseed %llu\nkey %s\nhash %016llx\n", g_opt.prop.c_str(), g_opt.profile.c_str(),
            (unsigned long long)seed, r.vkey.c_str(), (unsigned long long)r.hash);
    fprintf(f, "# %zu non-default decisions originally, %zu after minimisation (%d trial runs)\n", orig, ds.size(), tries);
    fprintf(f, "# d <kind> <thread> <running number> <value>\n");
    for (auto& d : ds) fprintf(f, "d %s %d %llu %llu\n", d.tag.c_str(), d.tid, (unsigned long long)d.idx, (unsigned long long)d.val);
    fprintf(f, "# violation: %s\n", [&] {
        std::string m = r.vmsg;
        for (auto& c : m)
            if (c == '\n') c = '|';
        return m;
    }().c_str());
    fprintf(f, "# event log of the minimised run:\n");
    std::string log(g_sh->log, g_sh->loglen);
    size_t start = log.size() > 60000 ? log.size() - 60000 : 0;
    size_t p = start;
    while (p < log.size()) {
        size_t e = log.find('\n', p);
        if (e == std::string::npos) e = log.size();
        fprintf(f, "# | %s\n", log.substr(p, e - p).c_str());
        p = e + 1;
    }
    fclose(f);
}

static bool LoadReplay(const std::string& path, std::vector<RDec>* ds, std::string* key, std::string* hash) {
    FILE* f = REAL(fopen)(path.c_str(), "r");
    if (!f) return false;
    char line[8192];
    while (fgets(line, sizeof(line), f)) {
        if (line[0] == 'd' && line[1] == ' ') {
            char tag[64];
            int tid;
            unsigned long long idx, val;
            if (sscanf(line, "d %63s %d %llu %llu", tag, &tid, &idx, &val) == 4) ds->push_back(RDec{tag, tid, idx, val});
        } else if (!strncmp(line, "key ", 4)) {
            *key = line + 4;
            while (!key->empty() && (key->back() == '\n')) key->pop_back();
        } else if (!strncmp(line, "hash ", 5)) {
            *hash = line + 5;
            while (!hash->empty() && (hash->back() == '\n')) hash->pop_back();
        }
    }
    fclose(f);
    return true;
}

int Main(int argc, char** argv) {
    // fixed address space layout: re-exec once without randomisation
    if (!getenv("DST_NOASLR")) {
        int old = personality(0xffffffff);
        if (old >= 0 && !(old & ADDR_NO_RANDOMIZE) && personality(old | ADDR_NO_RANDOMIZE) >= 0) {
            setenv("DST_NOASLR", "1", 1);
            setenv("TZ", "UTC", 1);
            setenv("LC_ALL", "C", 1);
            execv("/proc/self/exe", argv);
        }
    }
    setenv("TZ", "UTC", 1);
    tzset();
    mallopt(M_ARENA_MAX, 1);
    std::string mode, out, replay, known;
    uint64_t base = 1, first = 0, count = 1, stride = 1;
    double max_s = 1e9;
    bool verbose = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") g_opt.prop = next();
        else if (a == "--profile") g_opt.profile = next();
        else if (a == "--search") mode = "search";
        else if (a == "--base") base = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--first") first = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--stride") stride = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--count") count = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--max-seconds") max_s = atof(next().c_str());
        else if (a == "--seed") { mode = "seed"; base = strtoull(next().c_str(), nullptr, 10); }
        else if (a == "--replay") { mode = "replay"; replay = next(); }
        else if (a == "--out") out = next();
        else if (a == "--known") known = next();
        else if (a == "--cpu-limit") g_cpu_limit = atoi(next().c_str());
        else if (a == "--verbose") verbose = true;
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
    g_sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (g_sh == MAP_FAILED) return 3;
    g_rdecs = new std::vector<RDec>();
    DstInit();
    auto seed_of = [&](uint64_t i) {
        uint64_t s = base * 0x2545F4914F6CDD1Dull + i;
        return SplitMix(s) >> 1;
    };
    if (mode == "seed") {
        RunResult r = RunOnce(base, false);
        printf("%.*s", (int)g_sh->loglen, g_sh->log);
        printf("outcome=%d prop=%s key=%s hash=%016llx decisions=%llu nonzero=%llu steps=%llu switches=%llu simtime_us=%llu nontrivial=%d\n%s\n", r.outcome,
               r.vprop.c_str(), r.vkey.c_str(), (unsigned long long)r.hash, (unsigned long long)g_sh->decisions,
               (unsigned long long)g_sh->ndec, (unsigned long long)g_sh->steps, (unsigned long long)g_sh->switches,
               (unsigned long long)g_sh->simtime_us, g_sh->nontrivial, r.vmsg.c_str());
        return r.outcome == kOk ? 0 : r.outcome == kViolation ? 1 : 3;
    }
    if (mode == "replay") {
        std::vector<RDec> ds;
        std::string key, hash;
        if (!LoadReplay(replay, &ds, &key, &hash)) {
            fprintf(stderr, "cannot read %s\n", replay.c_str());
            return 3;
        }
        RunResult r = RunReplay(ds);
        char h[32];
        snprintf(h, sizeof(h), "%016llx", (unsigned long long)r.hash);
        if (verbose) printf("%.*s", (int)g_sh->loglen, g_sh->log);
        printf("replay outcome=%s prop=%s key=%s hash=%s expected_hash=%s\n%s\n",
               r.outcome == kOk ? "ok" : r.outcome == kViolation ? "violation" : "error", r.vprop.c_str(), r.vkey.c_str(), h, hash.c_str(), r.vmsg.c_str());
        if (r.outcome == kHarnessError) return 3;
        if (r.outcome == kViolation && r.vkey == key && hash == h) return 1;
        if (r.outcome == kViolation) return 4;  // reproduces differently
        return 0;
    }
    // search
    std::set<std::string> known_keys;
    {
        size_t p = 0;
        while (p < known.size()) {
            size_t e = known.find(',', p);
            if (e == std::string::npos) e = known.size();
            if (e > p) known_keys.insert(known.substr(p, e - p));
            p = e + 1;
        }
    }
    double t0 = WallNow();
    uint64_t runs = 0, nontrivial = 0, other = 0, decisions = 0, nonzero = 0, switches = 0, steps = 0, simtime = 0, detchecks = 0;
    std::unordered_set<uint64_t> hashes, states, nthashes;
    std::map<std::string, uint64_t> counters, faults, others, knowns;
    std::map<std::string, uint64_t> known_seed;
    std::vector<std::string> samples;
    bool found = false, nondet = false;
    std::string vprop, vkey, vmsg, rfile;
    uint64_t vseed = 0;
    int tries = 0, unstable = 0;
    size_t orig = 0, minned = 0;
    for (uint64_t i = first; i < count; i += stride) {
        if (WallNow() - t0 > max_s) break;
        uint64_t seed = seed_of(i);
        RunResult r = RunOnce(seed, true);
        runs++;
        if (r.outcome == kHarnessError) {
            fprintf(stderr, "HARNESS ERROR seed=%llu: %s\n", (unsigned long long)seed, r.vmsg.c_str());
            return 3;
        }
        decisions += g_sh->decisions;
        nonzero += g_sh->ndec;
        switches += g_sh->switches;
        steps += g_sh->steps;
        simtime += g_sh->simtime_us;
        bool fresh = hashes.insert(r.hash).second;
        if (fresh && g_sh->nontrivial) nthashes.insert(r.hash);
        states.insert(g_sh->statehash);
        if (g_sh->nontrivial) nontrivial++;
        for (int k = 0; k < g_sh->ncounters; k++) counters[g_sh->counters[k].name] += g_sh->counters[k].n;
        for (int k = 0; k < g_sh->nfaults; k++) faults[g_sh->faults[k].name] += g_sh->faults[k].n;
        if (g_sh->nontrivial && samples.size() < 2 && g_sh->loglen > 0)
            samples.push_back("seed " + std::to_string(seed) + ": " + std::string(g_sh->log, std::min<uint64_t>(g_sh->loglen, 1500)));
        if (r.outcome == kViolation) {
            if (r.vprop != g_opt.prop) {
                other++;
                others[r.vprop + "/" + r.vkey]++;
                continue;
            }
            if (known_keys.count(r.vkey)) {
                knowns[r.vkey]++;
                known_seed.emplace(r.vkey, seed);
                continue;
            }
            // The same seed must give the same execution, the decision list must reproduce it, and the minimised list
            // too. Only an execution that went through undefined behaviour (freed memory) can differ; such a one is kept
            // in case nothing better is found.
            std::vector<RDec> ds = Collect(), min = ds;
            RunResult r2 = RunOnce(seed, true), r3 = RunReplay(ds), r4 = r3, r5 = r3;
            bool stable = SameViolation(r2, r.vprop, r.vkey) && r2.hash == r.hash && SameViolation(r3, r.vprop, r.vkey);
            if (stable) {
                min = Minimise(ds, r.vprop, r.vkey, 40.0, &tries);
                r4 = RunReplay(min);
                r5 = RunReplay(min);
                if (!SameViolation(r4, r.vprop, r.vkey) || r4.hash != r5.hash) {
                    min = ds;
                    r4 = RunReplay(min);
                    r5 = RunReplay(min);
                    stable = SameViolation(r4, r.vprop, r.vkey) && r4.hash == r5.hash;
                }
            }
            if (!stable) {
                fprintf(stderr, "violation of %s/%s by seed %llu does not repeat exactly (%s/%s, %s/%s): %s\n", r.vprop.c_str(), r.vkey.c_str(), (unsigned long long)seed, r2.vprop.c_str(), r2.vkey.c_str(), r3.vprop.c_str(),
                        r3.vkey.c_str(), r.vmsg.c_str());
                if (unstable++ > 0 && unstable <= 20) continue;
            }
            bool first_one = !found;
            found = true;
            if (stable || first_one) {
                orig = ds.size();
                minned = min.size();
                vprop = r.vprop;
                vkey = r.vkey;
                vmsg = stable ? r4.vmsg : r.vmsg;
                vseed = seed;
                rfile = out;
                if (!out.empty()) WriteReplay(out, min, stable ? r4 : r, seed, orig, tries, argv[0]);
            }
            if (!stable && unstable <= 20) continue;
            break;
        }
        // determinism spot checks
        if (runs % 97 == 1) {
            uint64_t h = r.hash, dn = g_sh->decisions;
            RunResult r2 = RunOnce(seed, true);
            detchecks++;
            if (r2.outcome != r.outcome || r2.hash != h || g_sh->decisions != dn) {
                fprintf(stderr, "HARNESS ERROR nondeterministic run seed=%llu\n", (unsigned long long)seed);
                nondet = true;
                if (runs > 5000) break;
            }
        }
    }
    if (nondet && !found) return 3;
    double wall = WallNow() - t0;
    printf("{\"runs\":%llu,\"nontrivial\":%llu,\"distinct_executions\":%zu,\"distinct_nontrivial\":%zu,\"distinct_states\":%zu,"
           "\"decisions\":%llu,\"nonzero_decisions\":%llu,\"context_switches\":%llu,\"steps\":%llu,\"sim_us\":%llu,\"wall_s\":%.3f,\"determinism_rechecks\":%llu,\"other_stops\":%llu",
           (unsigned long long)runs, (unsigned long long)nontrivial, hashes.size(), nthashes.size(), states.size(), (unsigned long long)decisions,
           (unsigned long long)nonzero, (unsigned long long)switches, (unsigned long long)steps, (unsigned long long)simtime, wall, (unsigned long long)detchecks, (unsigned long long)other);
    auto dump = [&](const char* name, const std::map<std::string, uint64_t>& m) {
        printf(",\"%s\":{", name);
        bool c = false;
        for (auto& kv : m) {
            printf("%s\"%s\":%llu", c ? "," : "", JsonEsc(kv.first).c_str(), (unsigned long long)kv.second);
            c = true;
        }
        printf("}");
    };
    dump("counters", counters);
    dump("faults", faults);
    dump("others", others);
    dump("known", knowns);
    dump("known_seed", known_seed);
    printf(",\"rule\":\"%s\"", JsonEsc(DstRule()).c_str());
    printf(",\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++) printf("%s\"%s\"", i ? "," : "", JsonEsc(samples[i]).c_str());
    printf("]");
    if (found)
        printf(",\"violation\":{\"prop\":\"%s\",\"key\":\"%s\",\"seed\":%llu,\"decisions\":%zu,\"minimised\":%zu,\"trials\":%d,\"replay\":\"%s\",\"msg\":\"%s\"}", JsonEsc(vprop).c_str(),
               JsonEsc(vkey).c_str(), (unsigned long long)vseed, orig, minned, tries, JsonEsc(rfile).c_str(), JsonEsc(vmsg).c_str());
    // hash sets are merged by the caller
    printf(",\"hashes\":[");
    {
        bool c = false;
        for (auto h : hashes) {
            printf("%s%llu", c ? "," : "", (unsigned long long)(h >> 12));
            c = true;
        }
    }
    printf("],\"nt_hashes\":[");
    {
        bool c = false;
        for (auto h : nthashes) {
            printf("%s%llu", c ? "," : "", (unsigned long long)(h >> 12));
            c = true;
        }
    }
    printf("],\"state_hashes\":[");
    {
        bool c = false;
        for (auto h : states) {
            printf("%s%llu", c ? "," : "", (unsigned long long)(h >> 12));
            c = true;
        }
    }
    printf("]}\n");
    return found ? 1 : 0;
}
}  // namespace dst

int main(int argc, char** argv) { return dst::Main(argc, argv); }
