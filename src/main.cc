// Entry point of the model checker: --part selects the set of scenarios.
#include "mc.h"
#include "scenarios.h"

#include <dyscostman.h>
#include <cstdio>
#include <cstdlib>
#include <map>

extern "C" {
const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=66:abort_on_error=0:detect_stack_use_after_return=1:"
         "allocator_may_return_null=1:max_allocation_size_mb=8000";
}
const char* __tsan_default_options() {
  return "halt_on_error=1:exitcode=66:report_thread_leaks=0";
}
const char* __ubsan_default_options() {
  return "print_stacktrace=1:halt_on_error=1:exitcode=66";
}
}

namespace {
struct Args {
  bool thorough;
};
typedef void (*PartFunction)(ScenarioList&, const Args&);

SchedOptions sched(const Args& a, char tag, int quickExtra, int maxQuick) {
  SchedOptions o;
  o.thorough = a.thorough;
  o.tag = tag;
  if (!a.thorough) {
    o.extraBound = quickExtra;
    o.maxBound = maxQuick;
  }
  if (getenv("FILTER")) o.filter = getenv("FILTER");
  if (getenv("EXTRA")) o.extraBound = atoi(getenv("EXTRA"));
  return o;
}

struct Part {
  const char* name;
  PartFunction function;
};

const Part parts[] = {
    {"sched", [](ScenarioList& l, const Args& a) {
       addScheduleScenarios(l, sched(a, 0, 0, 100));
     }},
    {"sched-write", [](ScenarioList& l, const Args& a) {
       addScheduleScenarios(l, sched(a, 'w', 0, 100));
     }},
    {"sched-read", [](ScenarioList& l, const Args& a) {
       addScheduleScenarios(l, sched(a, 'r', 0, 100));
     }},
    {"sched-end", [](ScenarioList& l, const Args& a) {
       addScheduleScenarios(l, sched(a, 't', 0, 100));
     }},
    {"sched-columns", [](ScenarioList& l, const Args& a) {
       addScheduleScenarios(l, sched(a, 'c', 0, 100));
     }},
    {"sched-memory", [](ScenarioList& l, const Args& a) {
       addScheduleScenarios(l, sched(a, 'm', 0, 1));
     }},
    {"hist-write", [](ScenarioList& l, const Args& a) {
       addHistories(l, "write", a.thorough, true, 100);
     }},
    {"hist-read", [](ScenarioList& l, const Args& a) {
       addHistories(l, "read", a.thorough, true, 100);
     }},
    {"hist-columns", [](ScenarioList& l, const Args& a) {
       addHistories(l, "columns", a.thorough, true, 100);
     }},
    {"hist-rows", [](ScenarioList& l, const Args& a) {
       addHistories(l, "rows", a.thorough, true, 100);
     }},
    {"codec-visibilities", [](ScenarioList& l, const Args& a) {
       addCodec(l, "visibilities", a.thorough);
     }},
    {"codec-nonfinite", [](ScenarioList& l, const Args& a) {
       addCodec(l, "nonfinite", a.thorough);
     }},
    {"codec-dither", [](ScenarioList& l, const Args& a) {
       addCodec(l, "dither", a.thorough);
     }},
    {"codec-levels", [](ScenarioList& l, const Args& a) {
       addCodec(l, "levels", a.thorough);
     }},
    {"codec-packing", [](ScenarioList& l, const Args& a) {
       addCodec(l, "packing", a.thorough);
     }},
    {"codec-weights", [](ScenarioList& l, const Args& a) {
       addCodec(l, "weights", a.thorough);
     }},
    {"container", [](ScenarioList& l, const Args& a) {
       if (addContainer) addContainer(l, a.thorough);
     }},
    {"grid-write", [](ScenarioList& l, const Args& a) {
       addGrid(l, "write", a.thorough);
     }},
    {"grid-memory", [](ScenarioList& l, const Args& a) {
       addGrid(l, "memory", a.thorough);
     }},
    {"hist-memory", [](ScenarioList& l, const Args& a) {
       for (const char* kind : {"write", "read", "columns", "rows"})
         addHistories(l, kind, a.thorough, false,
#if defined(__SANITIZE_THREAD__)
                      a.thorough ? 3 : 2);
#else
                      a.thorough ? 4 : 3);
#endif
     }},
    {"grid-seed", [](ScenarioList& l, const Args& a) {
       addGrid(l, "seed", a.thorough);
     }},
    {"grid-dither", [](ScenarioList& l, const Args& a) {
       addGrid(l, "dither", a.thorough);
     }},
    {"grid-progress", [](ScenarioList& l, const Args& a) {
       addGrid(l, "progress", a.thorough);
     }},
    {"grid-format", [](ScenarioList& l, const Args& a) {
       addGrid(l, "format", a.thorough);
     }},
    {"settings", [](ScenarioList& l, const Args& a) {
       addSettings(l, "chain", a.thorough);
     }},
    {"crash", [](ScenarioList& l, const Args& a) {
       addIo(l, "crash", a.thorough);
     }},
    {"compress", [](ScenarioList& l, const Args& a) {
       addTools(l, "compress", a.thorough);
     }},
    {"tools-memory", [](ScenarioList& l, const Args& a) {
       addTools(l, "memory", a.thorough);
     }},
    {"decompress", [](ScenarioList& l, const Args& a) {
       addTools(l, "decompress", a.thorough);
     }},
    {"faults", [](ScenarioList& l, const Args& a) {
       addIo(l, "faults", a.thorough);
     }},
    {"refuse", [](ScenarioList& l, const Args& a) {
       addSettings(l, "refuse", a.thorough);
     }},
};
// casacore comes with a copy of Dysco. It registers that copy before anything
// else can be registered, after which registerClass() has no effect: the tables
// would be opened with the constructor of the copy. Access to the register is
// obtained with an explicit instantiation.
typedef std::map<casacore::String, casacore::DataManagerCtor> Register;
template <Register* pointer>
struct Access {
  friend Register& theRegister() { return *pointer; }
};
Register& theRegister();
template struct Access<&casacore::DataManager::theirRegisterMap>;

casacore::DataManager* makeOurs(const casacore::String& name,
                                const casacore::Record& spec) {
  return dyscostman::DyscoStMan::makeObject(name, spec);
}
}  // namespace

int main(int argc, char** argv) {
  register_dyscostman();
  theRegister()["DyscoStMan"] = makeOurs;
  Options o = parseOptions(argc, argv);
  Args args;
  args.thorough = o.tier == "thorough";
  if (o.variant == "asan" && o.part != "tools-memory" && o.part != "refuse") o.checkLeaks = true;
  ScenarioList list;
  for (const Part& p : parts)
    if (o.part == p.name) p.function(list, args);
  if (getenv("FILTER")) {
    ScenarioList some;
    for (const Scenario& s : list)
      if (s.name.find(getenv("FILTER")) != std::string::npos) some.push_back(s);
    list = some;
  }
  if (list.empty()) {
    fprintf(stderr, "unknown part '%s'\n", o.part.c_str());
    return 2;
  }
  return explore(o, list);
}
