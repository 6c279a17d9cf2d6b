// Exhaustive exploration of all choice sequences of a set of scenarios, within
// a bound on the number of deviations (preemptions, spurious wakeups, ...).
#ifndef EXPLORE_H
#define EXPLORE_H
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

struct Scenario {
  std::string name;
  std::function<void()> run;
  int bound = 0;       // maximum number of deviations
  bool cache = true;   // prune on equal happens-before state
};

struct Options {
  std::string property;
  std::string tier = "quick";
  std::string evidenceFile;
  std::string replayDir;
  std::string replayFile;
  std::string part;
  std::string variant = "plain";
  int workers = 8;
  double timeCap = 100.0;
  double hangSeconds = 60.0;
  bool checkLeaks = false;
};

// Trace of the current execution, in words (shown with violations)
void note(const std::string& text);
const std::string& trace();
void shortenTrace(size_t length);  // forget what came later
// Report a violation (does not return)
[[noreturn]] void violation(const std::string& kind, const std::string& text);
// Counters that are summed over all executions and end up in the evidence
void count(const std::string& name, uint64_t n = 1);
// An outcome of the execution; the number of different ones is reported
void outcome(uint64_t hash);
// A directory for the current worker
const std::string& scratch();

// Returns the exit code
int explore(const Options& options, const std::vector<Scenario>& scenarios);
Options parseOptions(int argc, char** argv);
#endif
