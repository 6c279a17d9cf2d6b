#ifndef SCENARIOS_H
#define SCENARIOS_H
#include "explore.h"
#include "table.h"

#include <algorithm>

struct SchedOptions {
  bool thorough = false;
  bool verifyFile = false;
  int extraBound = 0;
  int maxBound = 100;
  char tag = 0;            // only scenarios with this tag
  std::string filter;
  bool selects(const std::string& tags, const std::string& name) const {
    return (tag == 0 || tags.find(tag) != std::string::npos) &&
           (filter.empty() || name.find(filter) != std::string::npos);
  }
  int limit(int bound) const {
    return std::max(0, std::min(bound, maxBound));
  }
};
typedef std::vector<Scenario> ScenarioList;
void addScheduleScenarios(ScenarioList& list, const SchedOptions& o);

// The contents of new memory
extern unsigned char memoryFill;

// The scheduler does not explore alternatives, but runs the encoder threads as
// late or as early as possible
class Deterministic {
 public:
  Deterministic(const Config& config, bool eager);
  ~Deterministic();
};

// kind: write, read, columns or rows
void addHistories(ScenarioList& list, const std::string& kind, bool thorough,
                  bool verifyFile, int maxDepth);
// kind: visibilities, nonfinite, dither, levels, packing or weights
void addCodec(ScenarioList& list, const std::string& kind, bool thorough);
// kind: write, seed, progress or format
void addGrid(ScenarioList& list, const std::string& kind, bool thorough);
// kind: chain or refuse
void addSettings(ScenarioList& list, const std::string& kind, bool thorough);
// kind: crash or faults
void addIo(ScenarioList& list, const std::string& kind, bool thorough);
// kind: compress or decompress
void addTools(ScenarioList& list, const std::string& kind, bool thorough);
// Only in the binary of C22
__attribute__((weak)) void addContainer(ScenarioList& list, bool thorough);
#endif
