// Controlled scheduler and choice recorder of the model checker.
//
// One execution of a scenario is a sequence of choices. Choices are made at
// scheduling points (which thread takes the next synchronisation step), at
// nondeterministic outcomes of these steps (spurious wakeups, the waiter that
// notify_one() wakes) and by the scenario itself (mc::choose()). An execution
// is replayed by giving the recorded choices as prefix.
//
// mc.cc is compiled without sanitizers and uses only static storage and raw
// futex calls, so that the hand-over between threads is invisible to
// ThreadSanitizer: data races are found even though threads run one by one.
#ifndef MC_H
#define MC_H
#include <cstddef>
#include <cstdint>

namespace mc {

enum class Policy { Lazy, Eager };

struct Point {
  uint64_t state;       // hash of the state before the choice
  uint8_t n;            // number of alternatives (1: no choice)
  uint8_t chosen;
  uint8_t altCost;      // cost of choosing anything but alternative 0
  uint8_t costBefore;   // cost spent before this point
};

constexpr int kMaxPoints = 60000;
constexpr int kMaxThreads = 40;

// Reset the recorder for a new execution.
void reset(const uint8_t* prefix, int prefixLength);

// Start/stop controlling the threads that are created by the calling thread.
// explore: offer the alternatives at scheduling points as choices
void activate(int nProcessors, Policy policy, bool explore,
              bool spuriousWakeups);
// Returns the number of threads that did not end
int deactivate();
bool active();
// Also offer a choice after every unlock (switched off by reset())
void setUnlockPoints(bool on);

// Number of processors as seen by the code under test (also when not active)
void setProcessors(int n);

// The user thread waits until all other threads ended or wait for something
void waitQuiescent();
// Scheduling steps that were not offered as choices
uint64_t fixedSteps();

// Scenario-level choice
int choose(int n, int altCost);
// Makes an observation part of the state of the calling thread
void mix(uint64_t value);

// Results of the execution
const Point* points();
int nPoints();
int nChoices();
void getChoices(uint8_t* dest);  // nChoices() entries
int prefixLength();
bool prefixConsumed();
int preemptionsUsed();
uint64_t finalState();

// Counters within the execution
struct Stats {
  uint64_t blockedWaits;    // threads that had to wait for a condition
  uint64_t contendedLocks;  // lock steps that found the lock taken
  uint64_t switches;
};
const Stats& stats();

// Called for deadlocks, livelocks, races and replay divergence; does not return
extern void (*onFailure)(const char* kind, const char* text);
void fail(const char* kind, const char* text);

// Happens-before check of an access to an object (besides locks)
void access(const void* object, bool isWrite, const char* what);

// Number of threads currently managed
int liveThreads();
int createdThreads();
int maxLiveThreads();
}  // namespace mc
#endif
