// Deterministic simulation core: one decision stream, one scheduler, one clock.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace dst {

// ---------------------------------------------------------------- decisions
// Every nondeterministic choice of a run. Value 0 is always the boring choice.
//   Choose(tag, n, p): 0 with probability 1-p, otherwise uniform in [1, n).
//   Pick(tag, n):      uniform in [0, n).
// A decision is identified by (tag, calling simulated thread, running number); replay files list
// the decisions that are not 0.
uint64_t Choose(const char* tag, uint64_t n, double p);
uint64_t Pick(const char* tag, uint64_t n);
inline bool Chance(const char* tag, double p) { return Choose(tag, 2, p) == 1; }
// Picks from [lo, hi]; lo is the boring value.
inline int64_t PickRange(const char* tag, int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(Pick(tag, static_cast<uint64_t>(hi - lo + 1)));
}
// Auxiliary randomness for data contents (not a decision; a fixed sequence per run).
uint64_t Aux();

// ---------------------------------------------------------------- events
// Appends to the event log (and its hash). Must be deterministic text: no addresses.
void Log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Adds to the run's abstract state measure.
void State(uint64_t h);
void StateStr(const std::string& s);
uint64_t HashStr(const std::string& s);
// Counts an injected fault of the given kind, at the place where it takes effect.
void Fault(const char* kind);
// Generic counters for the evidence.
void Count(const char* name, uint64_t n = 1);
// Marks the run as non-trivial under the property's rule.
void NonTrivial();

// Ends the run: property `prop` is violated. `key` names the class of violation (stable text).
[[noreturn]] void Violate(const char* prop, const char* key, const char* fmt, ...)
    __attribute__((format(printf, 3, 4)));
// Ends the run: the harness itself is broken (check error, not a verdict).
[[noreturn]] void HarnessError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define DST_CHECK(prop, key, cond, ...)                        \
    do {                                                       \
        if (!(cond)) ::dst::Violate(prop, key, __VA_ARGS__);   \
    } while (0)

// ---------------------------------------------------------------- scheduling
// Explicit scheduling point.
void Yield(const char* why);
// Probability of a preemption at a synchronisation point / at a memory access.
void SetPreempt(double p_sync, double p_mem);
double PreemptP();
// Draws the usual swarm choice of preemption rates for this run.
void SwarmPreempt(bool with_mem);
// Simulated thread id of the caller (0 = main).
int Tid();
// Blocks the calling thread until pred() holds (re-evaluated whenever anybody runs).
void WaitUntil(const char* why, const std::function<bool()>& pred);
// Scheduling steps so far; runs beyond the budget end as livelock.
uint64_t Steps();
void SetStepBudget(uint64_t n);
// Called when no thread can make progress; must not return. Default: Violate(prop,"deadlock",..).
void OnDeadlock(std::function<void(const std::string& what)> f);
// What to report when the step budget is used up.
void OnLivelock(std::function<void(const std::string& what)> f);
// Suppresses scheduling points (for oracle code running inside the simulation).
struct Atomic {
    Atomic();
    ~Atomic();
};
// Number of context switches so far.
uint64_t Switches();

// ---------------------------------------------------------------- time
int64_t NowUs();               // simulated wall clock, microseconds since epoch
void AdvanceUs(int64_t us);    // time passes
void SkewUs(int64_t us);       // clock jump (may be negative), wall clock only
void SleepUs(int64_t us);

// ---------------------------------------------------------------- the harness's side
struct Options {
    std::string prop;      // property being checked
    std::string profile;   // extra selector
};
const Options& Opt();

// A harness defines this: executes one run. Returning normally means "no violation seen".
}  // namespace dst
void DstRun();
// Called once before forking (single threaded, nothing simulated).
void DstInit();
// Text for the evidence: how cases are made and what is non-trivial.
const char* DstRule();
