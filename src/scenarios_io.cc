// The system calls on the file: crashes after every prefix of the writes, and
// failures of every call.
#include "scenarios.h"

#include "io.h"
#include "mc.h"

#include <cerrno>
#include <cstring>
#include <functional>
#include <map>
#include <unordered_set>

#include <dirent.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {

typedef std::vector<uint8_t> Bytes;
typedef std::map<std::string, Bytes> Snapshot;  // the other files of the table

struct Operation {
  std::function<bool(TestTable&)> enabled;
  std::function<void(TestTable&)> run;
};
typedef std::vector<Operation> Operations;
typedef std::function<void(TestTable&)> Body;

Operation put(int c, int row) {
  return {[=](TestTable& t) { return t.canPut(c, row); },
          [=](TestTable& t) { t.put(c, row); }};
}
Operation get(int c, int row) {
  return {[=](TestTable& t) { return row < t.nRows(); },
          [=](TestTable& t) { t.get(c, row); }};
}
Operation reopen() {
  return {[](TestTable&) { return true; },
          [](TestTable& t) {
            t.close();
            t.open(true);
          }};
}
Operation addRows(int n) {
  return {[](TestTable& t) { return t.nRows() < 10; },
          [=](TestTable& t) { t.addRows(n); }};
}

void putAll(TestTable& t) {
  for (int r = 0; r != t.nRows(); ++r)
    for (int c = 0; c != t.nColumns(); ++c) t.put(c, r);
}
void nothing(TestTable&) {}
void firstBlock(TestTable& t) {
  for (int c = 0; c != t.nColumns(); ++c)
    for (int r = 0; r <= t.config().rowsPerBlock() && r < t.nRows(); ++r)
      t.put(c, r);
}
void allStored(TestTable& t) {
  putAll(t);
  t.close();
  t.open(true);
}
const std::vector<Body> preparations{nothing, firstBlock, allStored};

// casacore numbers the managers by name: the other one is StandardStMan
std::string managerFile(const std::string& directory) {
  return directory + "/table.f0";
}

Snapshot readSnapshot(const std::string& directory) {
  Snapshot s;
  DIR* d = opendir(directory.c_str());
  if (!d) return s;
  while (dirent* e = readdir(d)) {
    const std::string name = e->d_name;
    if (name == "." || name == "..") continue;
    const std::string path = directory + "/" + name;
    if (path != managerFile(directory)) s[name] = ref::readFile(path);
  }
  closedir(d);
  return s;
}

void writeBytes(const std::string& path, const Bytes& b) {
  FILE* f = fopen(path.c_str(), "wb");
  if (!f || fwrite(b.data(), 1, b.size(), f) != b.size())
    violation("internal", "cannot write " + path);
  fclose(f);
}

void writeTable(const std::string& directory, const Snapshot& s,
                const Bytes& file) {
  removeTable(directory);
  mkdir(directory.c_str(), 0755);
  for (auto& f : s) writeBytes(directory + "/" + f.first, f.second);
  writeBytes(managerFile(directory), file);
}

// Index in the history of the value of each row; -1 for zeros, -2 for a value
// that the row never had, -3 for values that are not preserved
typedef std::vector<std::vector<int>> State;

State readState(TestTable& model, const Snapshot& meta, int nRows,
                const Bytes& file, const std::string& when, bool checkReader) {
  const std::string directory = scratch() + "/crashed";
  writeTable(directory, meta, file);
  TestTable r(model.config(), "crashed");
  std::vector<std::vector<TestTable::Cell>> cells = model.cells();
  for (auto& c : cells) c.resize(nRows);
  r.assume(directory, nRows, model.modelRowsPerBlock(), cells);
  State s(model.nColumns(), std::vector<int>(nRows, -3));
  Deterministic d(model.config(), false);
  try {
    r.open(false);
    for (int c = 0; c != model.nColumns(); ++c)
      for (int row = 0; row != nRows; ++row) {
        if (model.skipValue(c, row)) continue;
        const int id = r.identify(c, r.read(c, row));
        int index = id == -1 ? -1 : -2;
        const std::vector<int>& h = model.cell(c, row).history;
        for (size_t i = 0; i != h.size(); ++i)
          if (h[i] == id) index = i;
        s[c][row] = index;
      }
    if (checkReader) r.compareWithReference(file, false);
    r.close();
  } catch (std::exception& e) {
    violation("crash", when + ", the table cannot be read: " + e.what());
  }
  count("states_after_crash_read");
  return s;
}

struct Regions {
  ref::Header h;
  std::vector<ref::Layout> layouts;
  bool valid = false;

  void parse(const Config& config, const Bytes& file) {
    valid = ref::parse(file, h).empty() &&
            h.columns.size() == config.columns.size();
    layouts.clear();
    if (!valid || h.rowsPerBlock == 0) return;
    for (const ColumnConfig& c : config.columns)
      layouts.push_back(ref::layout(h, c.weight, config.nPol, config.nChan));
  }
  // The column and block to which a byte belongs; block -1: the header
  std::pair<int, int> find(size_t position) const {
    if (!valid || position < h.headerSize || h.blockSize == 0) return {0, -1};
    const size_t block = (position - h.headerSize) / h.blockSize;
    size_t offset = (position - h.headerSize) % h.blockSize;
    for (size_t c = 0; c != layouts.size(); ++c) {
      if (offset < layouts[c].size) return {int(c), int(block)};
      offset -= layouts[c].size;
    }
    return {0, -1};
  }
  size_t end(int column, int block) const {
    size_t e = h.headerSize + size_t(block) * h.blockSize;
    for (int c = 0; c <= column; ++c) e += layouts[c].size;
    return e;
  }
};

std::string place(const Config& config, std::pair<int, int> p) {
  if (p.second < 0) return "the header";
  return "block " + std::to_string(p.second) + " of " +
         config.columns[p.first].name;
}

void apply(Bytes& file, const io::Event& e, size_t n) {
  if (e.kind == io::kTruncate) {
    file.resize(e.offset);
    return;
  }
  if (file.size() < e.offset + n) file.resize(e.offset + n, 0);
  std::copy(e.data.begin(), e.data.begin() + n, file.begin() + e.offset);
}

struct Recorded {
  Snapshot before, after;
  int rowsBefore;
  Bytes start;
  std::vector<io::Event> events;
};

std::vector<size_t> tornPoints(size_t n, bool thorough) {
  std::vector<size_t> p;
  if (n < 2) return p;
  if (thorough && n <= 64) {
    for (size_t i = 1; i != n; ++i) p.push_back(i);
    return p;
  }
  for (size_t i : {size_t(1), n / 4, n / 2, n - 1})
    if (i > 0 && i < n && (p.empty() || p.back() != i)) p.push_back(i);
  return p;
}

// Continues with a table after a crash: the damaged block is written again
void recover(TestTable& model, const Snapshot& meta, int nRows,
             const Bytes& file, const State& state, std::pair<int, int> torn,
             const std::string& when) {
  const std::string directory = scratch() + "/crashed";
  writeTable(directory, meta, file);
  Regions regions;
  regions.parse(model.config(), file);
  const int rows = regions.valid ? regions.h.rowsPerBlock : 0;
  Config config = model.config();
  config.firstValue = 100;
  TestTable r(config, "crashed");
  std::vector<std::vector<TestTable::Cell>> cells(
      model.nColumns(), std::vector<TestTable::Cell>(nRows));
  for (int c = 0; c != model.nColumns(); ++c)
    for (int row = 0; row != nRows; ++row) {
      const int i = state[c][row];
      if (i < 0) continue;
      cells[c][row].written = true;
      cells[c][row].id = model.cell(c, row).history[i];
    }
  r.assume(directory, nRows, rows, cells);
  Deterministic d(config, false);
  note(when);
  try {
    r.open(true);
    if (rows == 0)
      putAll(r);
    else if (torn.second >= 0)
      for (int row = torn.second * rows;
           row < (torn.second + 1) * rows && row < nRows; ++row)
        r.put(torn.first, row);
    r.getAll();
    r.close();
    r.verifyStored();
  } catch (std::exception& e) {
    violation("crash", when + ", work cannot be continued: " + e.what());
  }
  count("recoveries");
}

// Verifies the state after every prefix of the writes
void checkCrashes(TestTable& t, const Recorded& rec, bool thorough) {
  // Schedules that lead to the same operations need to be verified once
  static std::unordered_set<std::string> seen;
  std::string key = t.config().describe();
  for (const io::Event& e : rec.events) {
    key += "|" + std::to_string(e.kind) + "," + std::to_string(e.offset) + "," +
           std::to_string(e.a) + "," + std::to_string(e.b) + ",";
    if (e.kind == io::kWrite)
      key += std::to_string(std::hash<std::string>()(
          std::string(e.data.begin(), e.data.end())));
  }
  if (seen.size() > 200000) seen.clear();
  if (!seen.insert(key).second) return;
  count("write_sequences");

  const Config& config = t.config();
  const size_t length = trace().size();
  Bytes file = rec.start;
  Regions regions;
  regions.parse(config, file);
  auto read = [&](const Bytes& f, const std::string& when, bool reader) {
    State s = readState(t, rec.after, t.nRows(), f, when, reader);
    if (rec.rowsBefore != t.nRows()) {
      // The storage manager was ahead of the rest of the table
      State o = readState(t, rec.before, rec.rowsBefore, f, when, false);
      for (int c = 0; c != t.nColumns(); ++c)
        for (int r = 0; r < std::min(rec.rowsBefore, t.nRows()); ++r)
          if (o[c][r] != s[c][r])
            violation("crash", when + ", row " + std::to_string(r) +
                                   " depends on the number of rows");
    }
    return s;
  };
  std::map<std::pair<int, int>, int> puts, writes;
  State state = read(file, "with the initial file", true);
  auto check = [&](const State& now, const std::string& when,
                   std::pair<int, int> except) {
    for (int c = 0; c != t.nColumns(); ++c)
      for (int r = 0; r != t.nRows(); ++r) {
        if (except.second >= 0 && c == except.first &&
            r / config.rowsPerBlock() == except.second)
          continue;
        const bool wrong = except.second >= 0 ? now[c][r] != state[c][r]
                                              : now[c][r] < state[c][r];
        if (now[c][r] == -2 || wrong) {
          auto name = [&](int i) {
            if (i == -2) return std::string("an unknown value");
            if (i == -1) return std::string("zeros");
            return "value #" + std::to_string(t.cell(c, r).history[i]);
          };
          violation("crash", when + ", row " + std::to_string(r) + " of " +
                                 config.columns[c].name + " holds " +
                                 name(now[c][r]) + " instead of " +
                                 name(state[c][r]) + " or a later value");
        }
      }
  };
  int n = 0;
  for (const io::Event& e : rec.events) {
    if (e.kind == io::kMark) {
      ++puts[{e.a, e.b / config.rowsPerBlock()}];
      continue;
    }
    if (e.kind != io::kWrite && e.kind != io::kTruncate) continue;
    if (e.result <= 0 && e.kind == io::kWrite) continue;
    ++n;
    shortenTrace(length);
    Bytes next = file;
    apply(next, e, e.data.size());
    Regions r;
    r.parse(config, next);
    const std::string where = "of write " + std::to_string(n) + " (" +
                              std::to_string(e.data.size()) + " bytes at " +
                              std::to_string(e.offset) + ")";
    if (!r.valid)
      violation("crash", "after the end " + where + ", the header is invalid");
    // What was stored does not change, unless it was written to
    for (size_t i = 0; i != next.size(); ++i) {
      const uint8_t old = i < file.size() ? file[i] : 0;
      if (next[i] == old) continue;
      const std::pair<int, int> p = r.find(i);
      if (p.second < 0) {
        if (file.size() > r.h.headerSize)
          violation("crash", where + " changes the header while data is stored");
      } else if (puts[p] <= writes[p]) {
        violation("crash", where + " changes " + place(config, p) +
                               ", to which nothing was written");
      }
    }
    if (next.size() < file.size())
      violation("crash", where + " makes the file smaller");
    const std::pair<int, int> target = r.find(e.offset);
    if (target.second >= 0) {
      size_t middle = 0;
      const std::vector<size_t> points = tornPoints(e.data.size(), thorough);
      for (size_t torn : points) {
        Bytes f = file;
        apply(f, e, torn);
        const std::string when =
            "with a crash after " + std::to_string(torn) + " bytes " + where;
        check(read(f, when, false), when, target);
        count("torn_writes");
        middle = torn;
      }
      if (middle != 0) {
        Bytes f = file;
        apply(f, e, points[points.size() / 2]);
        recover(t, rec.after, t.nRows(), f, state, target,
                "continuing after a crash in the middle " + where);
      }
      if (e.offset + e.data.size() >= r.end(target.first, target.second))
        ++writes[target];
    }
    file = next;
    regions = r;
    const std::string when = "with a crash after the end " + where;
    const State now = read(file, when, true);
    check(now, when, {0, -1});
    state = now;
    count("crash_points");
    recover(t, rec.after, t.nRows(), file, state, {0, -1},
            "continuing after a crash after the end " + where);
  }
  for (int c = 0; c != t.nColumns(); ++c)
    for (int r = 0; r != t.nRows(); ++r)
      if (state[c][r] != -3 &&
          state[c][r] != int(t.cell(c, r).history.size()) - 1)
        violation("crash", "the last write does not complete the file: row " +
                               std::to_string(r));
  if (ref::readFile(managerFile(t.directory())) != file)
    violation("internal", "the recorded writes do not lead to the file");
}

struct Plan {
  bool eager;
  int preparation;
  std::vector<int> operations;
};

// Makes the choices of a history while it is performed; or repeats one
void perform(TestTable& t, Plan& plan, const Operations& ops, int depth,
             bool repeat) {
  preparations[plan.preparation](t);
  for (int i = 0; i != depth; ++i) {
    int k;
    if (repeat) {
      if (i == int(plan.operations.size())) break;
      k = plan.operations[i];
    } else {
      int enabled[64], n = 0;
      for (size_t o = 0; o != ops.size(); ++o)
        if (ops[o].enabled(t)) enabled[n++] = o;
      const int choice = mc::choose(n + 1, 0);
      if (choice == 0) break;
      k = enabled[choice - 1];
      plan.operations.push_back(k);
    }
    ops[k].run(t);
  }
}

void killedHistory(const Config& config, Plan plan, const Operations& ops,
                   int depth, const Recorded& rec);

void crashHistory(const Config& config, const Operations& ops, int depth,
                  bool thorough, bool kill) {
  Plan plan;
  plan.eager = mc::choose(2, 0) != 0;
  plan.preparation = mc::choose(preparations.size(), 0);
  TestTable t(config);
  note(plan.eager ? "(encoders run early)" : "(encoders run late)");
  Recorded rec;
  {
    Deterministic d(config, plan.eager);
    t.create();
    t.close();
    rec.before = readSnapshot(t.directory());
    rec.rowsBefore = t.nRows();
    rec.start = ref::readFile(managerFile(t.directory()));
    io::track(managerFile(t.directory()));
    t.open(true);
    perform(t, plan, ops, depth, false);
    t.close();
    io::stop();
  }
  rec.after = readSnapshot(t.directory());
  rec.events = io::events();
  if (kill)
    killedHistory(config, plan, ops, depth, rec);
  else
    checkCrashes(t, rec, thorough);
  count("histories");
}

// All schedules of a session, and all crashes of each
void crashSchedule(const Config& config, const Body& prepare, const Body& body,
                   bool thorough) {
  TestTable t(config);
  Recorded rec;
  {
    Deterministic d(config, false);
    t.create();
    t.close();
    rec.before = readSnapshot(t.directory());
    rec.rowsBefore = t.nRows();
    if (prepare) {
      t.open(true);
      prepare(t);
      t.close();
    }
  }
  rec.start = ref::readFile(managerFile(t.directory()));
  io::track(managerFile(t.directory()));
  mc::activate(config.processors, mc::Policy::Lazy, true, false);
  t.open(true);
  body(t);
  t.close();
  mc::deactivate();
  io::stop();
  outcome(mc::finalState());
  rec.after = readSnapshot(t.directory());
  rec.events = io::events();
  checkCrashes(t, rec, thorough);
}

// ---- in a child process

struct Progress {
  int reported;
  char text[200];
};

Progress* progress() {
  static Progress* p = nullptr;
  if (!p)
    p = static_cast<Progress*>(mmap(nullptr, sizeof(Progress),
                                    PROT_READ | PROT_WRITE,
                                    MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  return p;
}

// Returns the status of the child
int inChild(const std::function<int()>& body) {
  memset(progress(), 0, sizeof(Progress));
  const pid_t parent = getpid();
  const pid_t pid = fork();
  if (pid < 0) violation("internal", "fork failed");
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != parent) _exit(0);
    struct rlimit none = {0, 0};
    setrlimit(RLIMIT_CORE, &none);
    _exit(body());
  }
  int status = 0;
  while (waitpid(pid, &status, 0) != pid) {
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 70) _exit(70);  // violation()
  count("processes");
  return status;
}

// The process really ends within each write: the file is as it was
// reconstructed
void killedHistory(const Config& config, Plan plan, const Operations& ops,
                   int depth, const Recorded& rec) {
  Bytes file = rec.start;
  const std::string directory = scratch() + "/killed";
  for (const io::Event& e : rec.events) {
    if (e.kind != io::kWrite || e.result <= 0) continue;
    for (size_t bytes : {size_t(0), e.data.size() / 2, e.data.size()}) {
      const int status = inChild([&]() {
        TestTable t(config, "killed");
        Deterministic d(config, plan.eager);
        t.create();
        t.close();
        io::track(managerFile(directory));
        io::Fault f;
        f.action = io::Fault::Kill;
        f.at = e.index;
        f.bytes = bytes;
        io::setFault(f);
        t.open(true);
        perform(t, plan, ops, depth, true);
        t.close();
        return 0;
      });
      if (!WIFEXITED(status) || WEXITSTATUS(status) != 77)
        violation("internal", "the process did not end where it should: " +
                                  std::to_string(status));
      Bytes want = file;
      apply(want, e, bytes);
      if (bytes == 0) want = file;
      if (ref::readFile(managerFile(directory)) != want)
        violation("crash",
                  "after ending the process, the file differs from the "
                  "reconstruction");
      count("processes_killed");
    }
    apply(file, e, e.data.size());
  }
}

// ---- failing calls

std::string describe(const io::Event& e, const io::Fault& f) {
  const char* actions[] = {"none", "fails", "and all later ones fail",
                           "is short", "is short and later ones fail",
                           "finds the end of the file", "kill"};
  return std::string("call ") + std::to_string(e.index) + " (" +
         io::kindName(e.kind) + " of " + std::to_string(e.length) +
         " bytes at " + std::to_string(e.offset) + ") " + actions[f.action] +
         (f.error ? std::string(" with ") + strerror(f.error) : "");
}

// isMiddle: whether more blocks follow the one that is read. Finding the end of
// the file in the last block is normal: its last columns might not be written.
std::vector<io::Fault> faultsFor(const io::Event& e, bool isMiddle) {
  std::vector<io::Fault> list;
  auto add = [&](io::Fault::Action a, int error, int64_t bytes) {
    io::Fault f;
    f.action = a;
    f.at = e.index;
    f.error = error;
    f.bytes = bytes;
    list.push_back(f);
  };
  switch (e.kind) {
    case io::kOpen:
      add(io::Fault::Fail, e.writable ? EACCES : ENOENT, 0);
      add(io::Fault::FailAll, EMFILE, 0);
      break;
    case io::kRead:
      add(io::Fault::Fail, EIO, 0);
      add(io::Fault::FailAll, EIO, 0);
      if (e.result > 1) add(io::Fault::Short, 0, e.result / 2);
      if (e.result > 1) add(io::Fault::ShortFail, EIO, e.result / 2);
      if (isMiddle && e.result > 0) add(io::Fault::End, 0, 0);
      break;
    case io::kWrite:
      add(io::Fault::Fail, ENOSPC, 0);
      add(io::Fault::FailAll, EIO, 0);
      if (e.length > 1) add(io::Fault::Short, 0, e.length / 2);
      if (e.length > 1) add(io::Fault::ShortFail, ENOSPC, e.length / 2);
      break;
    case io::kSeek:
    case io::kTruncate:
      add(io::Fault::Fail, EIO, 0);
      add(io::Fault::FailAll, EIO, 0);
      break;
    default:
      break;
  }
  return list;
}

// All sessions of a fault history. Returns whether a failure was reported.
bool session(TestTable& t, Plan& plan, const Operations& ops, int depth,
             bool repeat) {
  bool reported = false;
  auto attempt = [&](const std::function<void()>& f) {
    try {
      f();
      return true;
    } catch (std::exception& e) {
      reported = true;
      note(std::string("reported: ") + e.what());
      return false;
    }
  };
  auto end = [&]() {
    attempt([&]() { t.close(); });
    return reported;
  };
  if (!attempt([&]() { t.create(); })) return end();
  if (!attempt([&]() { t.close(); })) return end();
  io::mark(-1, 1);
  if (!attempt([&]() { t.open(true); })) return end();
  if (!repeat) {
    perform(t, plan, ops, depth, false);
  } else {
    if (!attempt([&]() { preparations[plan.preparation](t); })) return end();
    // After a failing read, the program continues; after a failing write, it
    // does not
    for (int k : plan.operations) {
      const int puts = t.puts();
      const bool wasOpen = t.isOpen();
      if (!attempt([&]() { ops[k].run(t); }) &&
          (t.puts() != puts || !wasOpen || !t.isOpen() || !t.attached()))
        return end();
    }
  }
  if (!attempt([&]() { t.close(); })) return end();
  io::mark(-1, 2);
  if (!attempt([&]() { t.open(false); })) return end();
  attempt([&]() { t.getAll(); });
  // Once more: an error is not followed by wrong values
  attempt([&]() { t.getAll(); });
  attempt([&]() { t.close(); });
  return reported;
}

void faultHistory(const Config& config, const Operations& ops, int depth) {
  Plan plan;
  plan.eager = mc::choose(2, 0) != 0;
  plan.preparation = mc::choose(preparations.size(), 0);
  TestTable t(config);
  note(plan.eager ? "(encoders run early)" : "(encoders run late)");
  std::vector<io::Event> events;
  {
    Deterministic d(config, plan.eager);
    removeTable(t.directory());
    io::track(managerFile(t.directory()));
    if (session(t, plan, ops, depth, false))
      violation("fault", "an exception without failing calls");
    io::stop();
    events = io::events();
  }
  {
    Deterministic d(config, false);
    t.verifyStored();
  }
  const size_t length = trace().size();
  const std::string directory = scratch() + "/f";
  const Snapshot meta = readSnapshot(t.directory());
  Bytes file;
  int phase = 0;
  for (const io::Event& e : events) {
    if (e.kind == io::kMark && e.a == -1) phase = e.b;
    // Failures in the creating session do not depend on what follows
    if (phase == 0 && !plan.operations.empty()) {
      if (e.kind == io::kWrite && e.result > 0) apply(file, e, e.data.size());
      continue;
    }
    bool isMiddle = false;
    if (e.kind == io::kRead) {
      Regions regions;
      regions.parse(config, file);
      const int block = regions.find(e.offset).second;
      isMiddle = block >= 0 &&
                 file.size() > regions.h.headerSize +
                                   size_t(block + 1) * regions.h.blockSize;
    }
    for (const io::Fault& f : faultsFor(e, isMiddle)) {
      const std::string what = describe(e, f);
      shortenTrace(length);
      const int status = inChild([&]() {
        note(what);
        TestTable u(config, "f");
        mc::setProcessors(config.processors);
        mc::activate(config.processors,
                     plan.eager ? mc::Policy::Eager : mc::Policy::Lazy, false,
                     false);
        removeTable(directory);
        io::track(managerFile(directory));
        io::setFault(f);
        Plan copy = plan;
        const bool reported = session(u, copy, ops, depth, true);
        if (mc::deactivate() != 0)
          violation("thread", "encoder threads still run after closing");
        if (!io::failed()) return 51;
        return reported ? 50 : 0;
      });
      count("faults");
      const bool ended = WIFEXITED(status);
      if (ended && WEXITSTATUS(status) == 51)
        violation("internal", "the failing call was not reached: " + what);
      const bool aborted = WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT;
      if (!ended && !aborted)
        violation("fault", what + ": the process ended with status " +
                               std::to_string(status));
      if (ended && WEXITSTATUS(status) == 0) {
        // Nothing was reported, so everything should be right
        count("faults_without_effect");
        note(what);
        TestTable u(config, "f");
        u.assume(directory, t.nRows(), t.modelRowsPerBlock(), t.cells());
        Deterministic d(config, false);
        u.verifyStored();
        u.verifyFile();
        continue;
      }
      count(aborted ? "faults_ending_the_process" : "faults_with_exception");
      if (phase == 0) continue;
      // Whatever was stored is still there
      const State before = readState(t, meta, t.nRows(), file,
                                     "before the fault", false);
      const State now = readState(t, readSnapshot(directory), t.nRows(),
                                  ref::readFile(managerFile(directory)),
                                  "after the failure: " + what, false);
      Regions regions;
      regions.parse(config, file);
      std::pair<int, int> target(0, -1);
      if (e.kind == io::kWrite) target = regions.find(e.offset);
      for (int c = 0; c != t.nColumns(); ++c)
        for (int r = 0; r != t.nRows(); ++r) {
          if (target.second >= 0 && c == target.first &&
              r / config.rowsPerBlock() == target.second)
            continue;
          if (now[c][r] == -2 || now[c][r] < before[c][r])
            violation("fault", what + ": row " + std::to_string(r) + " of " +
                                   config.columns[c].name +
                                   (now[c][r] == -1 ? " holds zeros"
                                                    : " holds a wrong value"));
        }
    }
    if (e.kind == io::kWrite && e.result > 0) apply(file, e, e.data.size());
  }
  count("histories");
}

Config base(int rowsPerBlock, int nBlocks, int processors, int nColumns) {
  Config c;
  c.baselines = allBaselines(3, false);
  c.baselines.resize(rowsPerBlock);
  c.nRows = rowsPerBlock * nBlocks;
  c.processors = processors;
  c.columns = dataColumns(nColumns);
  return c;
}

Operations puts(const Config& c, int nRows) {
  Operations ops;
  for (size_t col = 0; col != c.columns.size(); ++col)
    for (int r = 0; r != nRows; ++r) ops.push_back(put(col, r));
  return ops;
}

}  // namespace

void addIo(ScenarioList& list, const std::string& kind, bool thorough) {
  auto add = [&](const std::string& name, int bound, std::function<void()> run) {
    Scenario s;
    s.name = "io/" + name;
    s.bound = bound;
    s.run = run;
    // The state of the file is not part of the hash of the schedule
    s.cache = true;
    list.push_back(s);
  };
  Config af = base(3, 2, 2, 1);
  af.norm = ref::AF;
  Config both = base(2, 3, 2, 1);
  both.columns = dataAndWeight();
  both.nPol = 2;
  Config large = base(1, 3, 2, 2);
  large.nPol = 4;
  large.nChan = 400;  // more than the buffer of a stream
  if (kind == "crash") {
    auto history = [&](const std::string& name, Config c, Operations ops,
                       int quick, int deep, bool kill = false) {
      const int depth = thorough ? deep : quick;
      add(name, 0, [=]() { crashHistory(c, ops, depth, thorough, kill); });
    };
    {
      const Config c = base(1, 3, 2, 1);
      Operations ops = puts(c, 4);
      ops.push_back(get(0, 0));
      ops.push_back(reopen());
      ops.push_back(addRows(1));
      history("crash-1row", c, ops, 3, 4);
      history("kill-1row", c, ops, 1, 2, true);
    }
    {
      Operations ops = puts(both, 6);
      ops.push_back(reopen());
      history("crash-data+weight", both, ops, 2, 3);
      history("kill-data+weight", both, ops, 1, 2, true);
    }
    {
      Operations ops = puts(af, 6);
      ops.push_back(get(0, 0));
      history("crash-af", af, ops, 2, 3);
    }
    {
      const Config c = base(2, 2, 1, 2);
      Operations ops = puts(c, 4);
      ops.push_back(get(1, 3));
      history("crash-2columns", c, ops, 2, 4);
    }
    {
      Operations ops = puts(large, 3);
      history("crash-large", large, ops, 1, 3);
    }
    auto schedule = [&](const std::string& name, int quick, int deep, Config c,
                        Body prepare, Body body) {
      add(name, thorough ? deep : quick,
          [=]() { crashSchedule(c, prepare, body, thorough); });
    };
    schedule("crash-schedules-write", 2, 3, base(1, 4, 2, 1), nullptr, putAll);
    schedule("crash-schedules-3threads", 1, 2, base(1, 4, 3, 1), nullptr, putAll);
    schedule("crash-schedules-2columns", 1, 2, base(1, 2, 1, 2), nullptr, putAll);
    schedule("crash-schedules-rewrite", 1, 2, base(2, 3, 2, 1), putAll,
             [](TestTable& t) {
               t.put(0, 5);
               t.put(0, 0);
               t.put(0, 3);
               t.put(0, 1);
             });
    schedule("crash-schedules-append", 2, 3, base(1, 2, 2, 1), putAll,
             [](TestTable& t) {
               t.addRows(3);
               t.put(0, 4);
               t.put(0, 2);
               t.put(0, 3);
             });
  } else if (kind == "faults") {
    auto history = [&](const std::string& name, Config c, Operations ops,
                       int quick, int deep) {
      const int depth = thorough ? deep : quick;
      add(name, 0, [=]() { faultHistory(c, ops, depth); });
    };
    {
      const Config c = base(1, 3, 2, 1);
      Operations ops = puts(c, 3);
      for (int r = 0; r != 3; ++r) ops.push_back(get(0, r));
      ops.push_back(reopen());
      history("faults-1row", c, ops, 2, 4);
    }
    {
      Operations ops = puts(both, 6);
      for (int c = 0; c != 2; ++c)
        for (int r : {0, 2, 5}) ops.push_back(get(c, r));
      history("faults-data+weight", both, ops, 1, 2);
    }
    {
      Operations ops = puts(af, 6);
      for (int r : {0, 3}) ops.push_back(get(0, r));
      history("faults-af", af, ops, 1, 2);
    }
    {
      Operations ops = puts(large, 3);
      for (int r : {0, 2}) ops.push_back(get(0, r));
      history("faults-large", large, ops, 1, 2);
    }
  }
}
