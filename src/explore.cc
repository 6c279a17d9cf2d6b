#include "explore.h"
#include "mc.h"

#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <set>
#include <sstream>

#include <dirent.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace {

constexpr int kItemChoices = 1012;
constexpr int kItems = 600000;
constexpr int kMaxCost = 12;
constexpr int kMaxScenarios = 4096;
constexpr int kMaxCounters = 96;
constexpr uint64_t kVisitedSize = 1ull << 25;
constexpr uint64_t kOutcomeSize = 1ull << 20;
constexpr int kSampleTotal = 12;

struct Item {
  int32_t next;
  uint16_t scenario;
  uint16_t length;
  uint8_t cost;
  uint8_t choices[kItemChoices];
};

struct Slot {
  std::atomic<int> state;  // 0 idle, 1 running, 2 failed
  std::atomic<double> started;
  int item;
  char kind[64];
  char text[6000];
};

struct ScenarioStats {
  std::atomic<uint64_t> executions, states, transitions, outcomes, deviations;
  std::atomic<uint64_t> maxPoints, blockedWaits, pruned;
  std::atomic<int64_t> pending[kMaxCost + 1];
};

struct Shared {
  std::atomic<int> lock;
  std::atomic<bool> stop;
  std::atomic<bool> capped, overflow;
  int32_t head[kMaxCost + 1];
  int32_t freeList;
  int32_t used;
  std::atomic<int> busy;
  int nCounters;
  char counterName[kMaxCounters][64];
  std::atomic<uint64_t> counters[kMaxCounters];
  std::atomic<uint64_t> leakSuspects;
  int nSamples;
  char samples[kSampleTotal][3000];
  Slot slots[64];
  ScenarioStats stats[kMaxScenarios];
  std::atomic<uint64_t> visited[kVisitedSize];
  std::atomic<uint64_t> outcomes[kOutcomeSize];
  Item items[kItems];
};

Shared* sh;
Slot* mySlot;
std::string trace_;
std::string scratch_;
std::vector<uint64_t> outcomes_;
const std::vector<Scenario>* scenarios_;
Options opt;
bool replaying;
int currentScenario;

double now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}

struct Guard {
  Guard() {
    int expected = 0;
    while (!sh->lock.compare_exchange_weak(expected, 1)) {
      expected = 0;
      __builtin_ia32_pause();
    }
  }
  ~Guard() { sh->lock = 0; }
};

uint64_t mix2(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C159E3779B9ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

// Returns: 0 new, 1 seen with smaller remaining budget, 2 seen
int visit(uint64_t hash, int remaining) {
  uint64_t key = hash & ~0xFFull;
  if (key == 0) key = 0x100;
  uint64_t i = mix2(hash, 1) % kVisitedSize;
  for (uint64_t n = 0; n != 4096; ++n) {
    uint64_t v = sh->visited[i].load(std::memory_order_relaxed);
    if (v == 0) {
      if (sh->visited[i].compare_exchange_strong(v, key | (remaining + 1)))
        return 0;
    }
    while ((v & ~0xFFull) == key) {
      if (int(v & 0xFF) >= remaining + 1) return 2;
      if (sh->visited[i].compare_exchange_strong(v, key | (remaining + 1)))
        return 1;
    }
    i = (i + 1) % kVisitedSize;
  }
  return 0;  // full: explore anyway
}

bool newOutcome(uint64_t hash) {
  if (hash == 0) hash = 1;
  uint64_t i = mix2(hash, 2) % kOutcomeSize;
  for (uint64_t n = 0; n != 4096; ++n) {
    uint64_t v = sh->outcomes[i].load();
    if (v == hash) return false;
    if (v == 0 && sh->outcomes[i].compare_exchange_strong(v, hash)) return true;
    if (v == hash) return false;
    i = (i + 1) % kOutcomeSize;
  }
  return false;
}

void pushLocked(int scenario, const uint8_t* choices, int length, int cost) {
  int index;
  if (sh->freeList >= 0) {
    index = sh->freeList;
    sh->freeList = sh->items[index].next;
  } else if (sh->used < kItems) {
    index = sh->used++;
  } else {
    sh->overflow = true;
    return;
  }
  Item& item = sh->items[index];
  item.scenario = scenario;
  item.length = length;
  item.cost = cost;
  memcpy(item.choices, choices, length);
  item.next = sh->head[cost];
  sh->head[cost] = index;
  ++sh->stats[scenario].pending[cost];
}

int pop() {
  Guard guard;
  for (int c = 0; c <= kMaxCost; ++c) {
    if (sh->head[c] >= 0) {
      int index = sh->head[c];
      sh->head[c] = sh->items[index].next;
      ++sh->busy;
      return index;
    }
  }
  return -1;
}

void finish(int index) {
  Guard guard;
  Item& item = sh->items[index];
  --sh->stats[item.scenario].pending[item.cost];
  item.next = sh->freeList;
  sh->freeList = index;
  --sh->busy;
}

void reportFailure(const char* kind, const char* text) {
  snprintf(mySlot->kind, sizeof mySlot->kind, "%s", kind);
  snprintf(mySlot->text, sizeof mySlot->text, "%s\n  history: %s", text,
           trace_.c_str());
  mySlot->state = 2;
  _exit(70);
}

size_t heapInUse() {
#if defined(__SANITIZE_ADDRESS__)
  return __sanitizer_get_current_allocated_bytes();
#else
  return mallinfo2().uordblks;
#endif
}

// Executes one item, adds its children.
}  // namespace
extern unsigned char memoryFill;
namespace {
void execute(const Item& item, bool children) {
  const Scenario& scenario = (*scenarios_)[item.scenario];
  currentScenario = item.scenario;
  trace_.clear();
  outcomes_.clear();
  trace_.reserve(1 << 16);
  memoryFill = 0x40;
  mc::reset(item.choices, item.length);
  size_t before = opt.checkLeaks ? heapInUse() : 0;
  try {
    scenario.run();
  } catch (std::exception& e) {
    violation("exception", std::string("unexpected exception: ") + e.what());
  }
  if (!mc::prefixConsumed())
    violation("divergence", "the execution ended before its replayed prefix");
  if (opt.checkLeaks && heapInUse() > before) {
    // Leak, or a cache that grows: repeat to find out
    ++sh->leakSuspects;
    int growing = 0;
    const int repeats = 6;
    size_t last = heapInUse();
    size_t delta = 0;
    for (int i = 0; i != repeats; ++i) {
      trace_.clear();
      mc::reset(item.choices, item.length);
      scenario.run();
      size_t current = heapInUse();
      if (current > last) {
        ++growing;
        delta = current - last;
      }
      last = current;
    }
    if (growing == repeats)
      violation("leak", "every execution leaks memory (" +
                            std::to_string(delta) + " bytes)");
  }

  ScenarioStats& stats = sh->stats[item.scenario];
  ++stats.executions;
  stats.blockedWaits += mc::stats().blockedWaits;
  if (mc::nPoints() > int(stats.maxPoints)) stats.maxPoints = mc::nPoints();
  stats.deviations += mc::preemptionsUsed();
  stats.transitions += mc::fixedSteps();
  for (uint64_t o : outcomes_)
    if (newOutcome(mix2(o, item.scenario))) ++stats.outcomes;
  if (!children) return;

  {
    // Keep a few samples, written out
    uint64_t n = stats.executions;
    if (n == 1 || (n == 50 && item.cost > 0)) {
      std::string choices;
      for (int i = 0; i != item.length; ++i)
        choices += std::to_string(item.choices[i]) + " ";
      Guard guard;
      if (sh->nSamples < kSampleTotal)
        snprintf(sh->samples[sh->nSamples++], 3000,
                 "scenario=%s choices=[%s] deviations=%d points=%d history: %s",
                 scenario.name.c_str(), choices.c_str(), mc::preemptionsUsed(),
                 mc::nPoints(), trace_.c_str());
    }
  }

  static uint8_t choices[mc::kMaxPoints];
  mc::getChoices(choices);
  const mc::Point* points = mc::points();
  const int n = mc::nPoints();
  int choiceIndex = 0;
  struct Child {
    int length, cost;
    uint8_t last;
  };
  static std::vector<Child> list;
  list.clear();
  const uint64_t seed = mix2(item.scenario, 1234);
  for (int i = 0; i != n; ++i) {
    const mc::Point& p = points[i];
    const bool isNew = choiceIndex >= item.length;
    if (isNew) {
      ++stats.transitions;
      if (scenario.cache) {
        int r = visit(mix2(p.state, seed), scenario.bound - p.costBefore);
        if (r == 0) ++stats.states;
        if (r == 2) {
          ++stats.pruned;
          break;
        }
      } else {
        ++stats.states;
      }
      if (p.n > 1) {
        const int cost = p.costBefore + p.altCost;
        if (cost <= scenario.bound) {
          if (choiceIndex + 1 > kItemChoices)
            sh->overflow = true;
          else
            for (int a = p.n - 1; a >= 1; --a)
              list.push_back({choiceIndex + 1, cost, uint8_t(a)});
        }
      }
    }
    if (p.n > 1) ++choiceIndex;
  }
  if (!list.empty()) {
    Guard guard;
    for (const Child& c : list) {
      uint8_t saved = choices[c.length - 1];
      choices[c.length - 1] = c.last;
      pushLocked(item.scenario, choices, c.length, c.cost);
      choices[c.length - 1] = saved;
    }
  }
}

void removeTree(const std::string& path) {
  // Only used below the scratch directory
  DIR* d = opendir(path.c_str());
  if (d) {
    while (dirent* e = readdir(d)) {
      std::string name = e->d_name;
      if (name == "." || name == "..") continue;
      std::string p = path + "/" + name;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
        removeTree(p);
      else
        unlink(p.c_str());
    }
    closedir(d);
    rmdir(path.c_str());
  }
}

std::string baseScratch;

void initWorker(int w, const std::string& errFile) {
  mySlot = &sh->slots[w];
  scratch_ = baseScratch + "/w" + std::to_string(w);
  removeTree(scratch_);
  mkdir(scratch_.c_str(), 0755);
  int fd = open("/dev/null", O_RDWR);
  dup2(fd, 0);
  dup2(fd, 1);
  int efd = open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
  dup2(efd, 2);
  close(fd);
  close(efd);
  mc::onFailure = reportFailure;
}

[[noreturn]] void workerMain(int w) {
  initWorker(w, baseScratch + "/err" + std::to_string(w));
  int executions = 0;
  while (!sh->stop) {
    int index = pop();
    if (index < 0) {
      if (sh->busy == 0) break;
      usleep(200);
      continue;
    }
    mySlot->item = index;
    mySlot->started = now();
    mySlot->state = 1;
    execute(sh->items[index], true);
    mySlot->state = 0;
    finish(index);
    if (++executions == 4000) _exit(3);  // start afresh
  }
  _exit(0);
}

struct ReplayResult {
  bool failed;
  std::string kind, text, log;
};

std::string readFile(const std::string& name, size_t maxSize) {
  std::ifstream f(name);
  std::string s((std::istreambuf_iterator<char>(f)),
                std::istreambuf_iterator<char>());
  if (s.size() > maxSize) s = s.substr(0, maxSize) + "...";
  return s;
}

ReplayResult replayItem(const Item& item, double limit) {
  const int w = 63;
  Slot& slot = sh->slots[w];
  slot.state = 1;
  slot.kind[0] = 0;
  slot.text[0] = 0;
  std::string err = baseScratch + "/errreplay";
  pid_t pid = fork();
  if (pid == 0) {
    replaying = true;
    initWorker(w, err);
    execute(item, false);
    slot.state = 0;
    _exit(0);
  }
  double start = now();
  int status = 0;
  bool timedOut = false;
  while (waitpid(pid, &status, WNOHANG) == 0) {
    if (now() - start > limit) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      timedOut = true;
      break;
    }
    usleep(1000);
  }
  ReplayResult r;
  r.failed = true;
  r.log = readFile(err, 20000);
  if (timedOut) {
    r.kind = "hang";
    r.text = "the execution does not finish within " +
             std::to_string(int(limit)) + " s";
  } else if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    r.failed = false;
  } else if (slot.state == 2) {
    r.kind = slot.kind;
    r.text = slot.text;
  } else if (WIFSIGNALED(status)) {
    r.kind = "crash";
    r.text = "process died by signal " + std::to_string(WTERMSIG(status));
  } else {
    r.kind = "crash";
    r.text = "process ended with exit code " +
             std::to_string(WEXITSTATUS(status)) + " (sanitizer report?)";
  }
  return r;
}

std::string json(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c == '\n')
      r += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += c;
  }
  return r + "\"";
}

}  // namespace

void note(const std::string& text) {
  if (trace_.size() < 60000) {
    if (!trace_.empty()) trace_ += "; ";
    trace_ += text;
  }
}
const std::string& trace() { return trace_; }
void shortenTrace(size_t length) {
  if (length < trace_.size()) trace_.resize(length);
}
const std::string& scratch() { return scratch_; }
void violation(const std::string& kind, const std::string& text) {
  reportFailure(kind.c_str(), text.c_str());
  abort();
}
void outcome(uint64_t hash) { outcomes_.push_back(hash); }
void count(const std::string& name, uint64_t n) {
  static std::map<std::string, int> known;
  auto it = known.find(name);
  if (it == known.end()) {
    Guard guard;
    int i = 0;
    while (i != sh->nCounters && name != sh->counterName[i]) ++i;
    if (i == sh->nCounters) {
      if (i == kMaxCounters) return;
      snprintf(sh->counterName[i], 64, "%s", name.c_str());
      ++sh->nCounters;
    }
    it = known.emplace(name, i).first;
  }
  sh->counters[it->second] += n;
}

Options parseOptions(int argc, char** argv) {
  Options o;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--property") o.property = v;
    else if (k == "--tier") o.tier = v;
    else if (k == "--evidence") o.evidenceFile = v;
    else if (k == "--replaydir") o.replayDir = v;
    else if (k == "--replay") o.replayFile = v;
    else if (k == "--part") o.part = v;
    else if (k == "--variant") o.variant = v;
    else if (k == "--workers") o.workers = atoi(v.c_str());
    else if (k == "--timecap") o.timeCap = atof(v.c_str());
    else if (k == "--hang") o.hangSeconds = atof(v.c_str());
  }
  return o;
}

int explore(const Options& options, const std::vector<Scenario>& scenarios) {
  opt = options;
  scenarios_ = &scenarios;
  void* mem = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (mem == MAP_FAILED) {
    perror("mmap");
    return 2;
  }
  sh = static_cast<Shared*>(mem);
  sh->freeList = -1;
  for (int& h : sh->head) h = -1;
  if (scenarios.size() > kMaxScenarios) {
    fprintf(stderr, "too many scenarios\n");
    return 2;
  }
  const char* tmp = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
  baseScratch = std::string(tmp) + "/dyx." + std::to_string(getpid());
  mkdir(baseScratch.c_str(), 0755);
  const double start = now();

  std::string violationText, replayPath;
  int unreproduced = 0;
  auto handleFailure = [&](const Item& item, const std::string& kind,
                           const std::string& text) {
    ReplayResult r;
    r.failed = false;
    for (int i = 0; i != 3 && !r.failed; ++i)
      r = replayItem(item, kind == "hang" ? opt.hangSeconds * 3
                                          : opt.hangSeconds);
    if (!r.failed) {
      fprintf(stderr, "NOT REPRODUCED: %s: %s\n", kind.c_str(), text.c_str());
      ++unreproduced;
      return false;
    }
    replayPath = opt.replayDir + "/" + opt.property + "-" +
                 (opt.part.empty() ? "" : opt.part + "-") + opt.variant + "-" +
                 std::to_string(getpid()) + ".txt";
    std::ofstream f(replayPath);
    f << "property " << opt.property << "\npart " << opt.part << "\nvariant "
      << opt.variant << "\ntier "
      << opt.tier << "\nscenario " << scenarios[item.scenario].name
      << "\nchoices";
    for (int i = 0; i != item.length; ++i) f << ' ' << int(item.choices[i]);
    f << "\nkind " << r.kind << "\n--\n" << r.text << "\n--\n" << r.log << "\n";
    violationText = r.kind + ": " + r.text;
    return true;
  };

  bool found = false;
  if (!opt.replayFile.empty()) {
    std::ifstream f(opt.replayFile);
    std::string line, name;
    static Item item;
    memset(&item, 0, sizeof item);
    bool haveScenario = false;
    while (std::getline(f, line) && line != "--") {
      std::istringstream s(line);
      std::string key;
      s >> key;
      if (key == "scenario") {
        name = line.substr(9);
        for (size_t i = 0; i != scenarios.size(); ++i)
          if (scenarios[i].name == name) {
            item.scenario = i;
            haveScenario = true;
          }
      } else if (key == "choices") {
        int c;
        while (s >> c) item.choices[item.length++] = c;
      }
    }
    if (!haveScenario) {
      fprintf(stderr, "unknown scenario '%s'\n", name.c_str());
      removeTree(baseScratch);
      return 2;
    }
    ReplayResult r = replayItem(item, opt.hangSeconds * 2);
    ReplayResult r2 = replayItem(item, opt.hangSeconds * 2);
    printf("replay: %s\n%s\n%s\n", r.failed ? r.kind.c_str() : "no violation",
           r.text.c_str(), r.log.c_str());
    printf("second replay %s\n",
           r.failed == r2.failed && r.kind == r2.kind ? "identical" : "DIFFERS");
    if (!getenv("KEEP")) removeTree(baseScratch);
    if (r.failed)
      printf("VIOLATION property=%s replay=%s\n", opt.property.c_str(),
             opt.replayFile.c_str());
    return r.failed ? 1 : 0;
  }

  for (size_t i = scenarios.size(); i-- > 0;) {
    uint8_t none = 0;
    Guard guard;
    pushLocked(i, &none, 0, 0);
  }
  std::vector<pid_t> pids(opt.workers, 0);
  auto spawn = [&](int w) {
    pid_t pid = fork();
    if (pid == 0) workerMain(w);
    pids[w] = pid;
  };
  for (int w = 0; w != opt.workers; ++w) {
    sh->slots[w].state = 0;
    spawn(w);
  }
  int running = opt.workers;
  while (running > 0) {
    int status;
    pid_t pid = waitpid(-1, &status, WNOHANG);
    if (pid > 0) {
      for (int w = 0; w != opt.workers; ++w) {
        if (pids[w] != pid) continue;
        pids[w] = 0;
        Slot& slot = sh->slots[w];
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && slot.state == 0) {
          --running;
        } else if (WIFEXITED(status) && WEXITSTATUS(status) == 3 &&
                   slot.state == 0) {
          spawn(w);
        } else if (sh->stop) {
          --running;
        } else {
          std::string kind = slot.state == 2 ? slot.kind : "crash";
          std::string text = slot.state == 2 ? slot.text : "worker died";
          if (slot.state == 1 && WIFSIGNALED(status) &&
              WTERMSIG(status) == SIGKILL)
            kind = "hang";
          Item item = sh->items[slot.item];
          if (handleFailure(item, kind, text)) {
            found = true;
            sh->stop = true;
            --running;
          } else {
            if (unreproduced > 5) {
              sh->stop = true;
              --running;
            } else {
              slot.state = 0;
              finish(slot.item);
              spawn(w);
            }
          }
        }
      }
      continue;
    }
    const double t = now();
    for (int w = 0; w != opt.workers; ++w) {
      if (pids[w] && sh->slots[w].state == 1 &&
          t - sh->slots[w].started > opt.hangSeconds)
        kill(pids[w], SIGKILL);
      if (found && pids[w]) kill(pids[w], SIGKILL);
    }
    if (!sh->stop && t - start > opt.timeCap) {
      sh->capped = true;
      sh->stop = true;
    }
    usleep(2000);
  }

  // Evidence
  uint64_t executions = 0, states = 0, transitions = 0, outcomes = 0, pruned = 0,
           waits = 0;
  std::ostringstream per;
  per << "[";
  for (size_t i = 0; i != scenarios.size(); ++i) {
    ScenarioStats& s = sh->stats[i];
    executions += s.executions;
    states += s.states;
    transitions += s.transitions;
    outcomes += s.outcomes;
    pruned += s.pruned;
    waits += s.blockedWaits;
    int completed = -1;
    for (int c = 0; c <= scenarios[i].bound && c <= kMaxCost; ++c) {
      if (s.pending[c] != 0 || s.executions == 0) break;
      completed = c;
    }
    if (i < 200)
      per << (i ? ",\n  " : "\n  ") << "{\"scenario\":" << json(scenarios[i].name)
          << ",\"bound\":" << scenarios[i].bound
          << ",\"bound_completed\":" << completed
          << ",\"executions\":" << s.executions << ",\"states\":" << s.states
          << ",\"transitions\":" << s.transitions
          << ",\"outcomes\":" << s.outcomes << ",\"longest\":" << s.maxPoints
          << "}";
  }
  per << "]";
  const bool complete = !sh->capped && !sh->overflow && !found && unreproduced == 0;
  std::ofstream e(opt.evidenceFile);
  e << "{\"part\":" << json(opt.part) << ",\"executions\":" << executions
    << ",\"states\":" << states << ",\"transitions\":" << transitions
    << ",\"distinct_outcomes\":" << outcomes << ",\"pruned\":" << pruned
    << ",\"condition_waits\":" << waits
    << ",\"scenarios\":" << scenarios.size()
    << ",\"complete_within_bounds\":" << (complete ? "true" : "false")
    << ",\"time_capped\":" << (sh->capped ? "true" : "false")
    << ",\"queue_overflow\":" << (sh->overflow ? "true" : "false")
    << ",\"unreproduced\":" << unreproduced
    << ",\"leak_suspects\":" << sh->leakSuspects << ",\"counters\":{";
  for (int i = 0; i != sh->nCounters; ++i)
    e << (i ? "," : "") << json(sh->counterName[i]) << ":" << sh->counters[i];
  e << "},\n\"samples\":[";
  for (int i = 0; i != sh->nSamples; ++i)
    e << (i ? ",\n " : "") << json(sh->samples[i]);
  e << "],\n\"per_scenario\":" << per.str() << ",\"wall_s\":" << now() - start
    << ",\"violation\":" << json(violationText) << ",\"replay\":"
    << json(replayPath) << "}\n";
  e.close();
  if (!getenv("KEEP")) removeTree(baseScratch);
  printf("%s/%s: executions=%lu states=%lu transitions=%lu outcomes=%lu "
         "complete=%d wall=%.1fs\n",
         opt.property.c_str(), opt.part.c_str(), (unsigned long)executions,
         (unsigned long)states, (unsigned long)transitions,
         (unsigned long)outcomes, complete, now() - start);
  if (found) {
    printf("%s\n", violationText.substr(0, 3000).c_str());
    printf("VIOLATION property=%s replay=%s\n", opt.property.c_str(),
           replayPath.c_str());
    return 1;
  }
  if (unreproduced > 5) return 2;
  return 0;
}
