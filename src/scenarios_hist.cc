// Histories: all sequences of operations on a table up to a depth, with the
// encoder threads running as late or as early as possible.
#include "scenarios.h"

#include "io.h"
#include "mc.h"

#include <functional>

Deterministic::Deterministic(const Config& config, bool eager) {
  // Results should not depend on what memory happens to contain
  static const unsigned char fills[] = {0x3f, 0xc0, 0x40, 0xff};
  memoryFill = fills[(config.processors > 1 ? 2 : 0) + (eager ? 1 : 0)];
  mc::activate(config.processors, eager ? mc::Policy::Eager : mc::Policy::Lazy,
               false, false);
}
Deterministic::~Deterministic() {
  const int live = mc::deactivate();
  if (live != 0)
    violation("thread", std::to_string(live) +
                            " encoder threads still run after closing");
}

namespace {

struct Operation {
  std::function<bool(TestTable&)> enabled;
  std::function<void(TestTable&)> run;
};
typedef std::vector<Operation> Operations;
typedef std::vector<std::function<void(TestTable&)>> Preparations;

Operation put(int c, int row) {
  return {[=](TestTable& t) { return t.canPut(c, row); },
          [=](TestTable& t) { t.put(c, row); }};
}
Operation putSlice(int c, int row) {
  return {[=](TestTable& t) { return t.canPut(c, row); },
          [=](TestTable& t) { t.putSlice(c, row); }};
}
Operation putRows(int c, const std::vector<int>& rows) {
  return {[=](TestTable& t) {
            for (int r : rows)
              if (!t.canPut(c, r)) return false;
            return true;
          },
          [=](TestTable& t) { t.putRows(c, rows); }};
}
// Zeros, or non-finite values
Operation special(int c, int row, int id) {
  return {[=](TestTable& t) { return t.canPut(c, row); },
          [=](TestTable& t) { t.putId(c, row, id); }};
}
Operation get(int c, int row) {
  return {[=](TestTable& t) { return row < t.nRows() && t.hasColumn(c); },
          [=](TestTable& t) { t.get(c, row); }};
}
Operation reopen() {
  return {[](TestTable&) { return true; },
          [](TestTable& t) {
            t.close();
            t.open(true);
          }};
}
// Open for reading, read, and only then make the table writable
Operation reopenForReading(bool readFirst) {
  return {[](TestTable&) { return true; },
          [=](TestTable& t) {
            t.close();
            t.open(false);
            if (readFirst) t.getAll();
            t.reopenWritable();
          }};
}
Operation renameTable() {
  return {[](TestTable&) { return true; }, [](TestTable& t) { t.rename(); }};
}
Operation renameColumn(int c) {
  return {[=](TestTable& t) { return t.hasColumn(c); },
          [=](TestTable& t) { t.renameColumn(c); }};
}
// Reading only, or opening without writing, leaves the file as it is
Operation reopenUnchanged(bool writable) {
  return {[](TestTable&) { return true; },
          [=](TestTable& t) {
            t.close();
            const uint64_t before = t.fileHash();
            t.open(writable);
            t.getAll();
            t.close();
            if (t.fileHash() != before)
              violation("file", "a session without writes changed the file");
            t.open(true);
          }};
}
// Reading a file for which there is no permission to write
Operation reopenReadOnly() {
  return {[](TestTable&) { return true; },
          [=](TestTable& t) {
            t.close();
            io::track(t.dyscoFile());
            io::setReadOnly(true);
            note("no permission to write");
            try {
              t.open(false);
              t.getAll();
              t.close();
            } catch (std::exception& e) {
              violation("file", std::string("a file without write permission "
                                            "cannot be read: ") + e.what());
            }
            for (const io::Event& e : io::events())
              if (e.kind == io::kWrite || e.kind == io::kTruncate)
                violation("file", "a session that reads writes to the file");
            io::stop();
            t.open(true);
          }};
}
Operation getAll() {
  return {[](TestTable&) { return true; }, [](TestTable& t) { t.getAll(); }};
}
Operation call(std::function<void(TestTable&)> f) {
  return {[](TestTable&) { return true; }, f};
}

Operation flush() {
  return {[](TestTable&) { return true; }, [](TestTable& t) { t.flush(); }};
}

// Operations on two tables that are open at the same time
void historyOfTwo(const Config& first, const Config& second,
                  const Operations& ops, int depth) {
  const bool eager = mc::choose(2, 0) != 0;
  TestTable a(first, "a"), b(second, "b");
  TestTable* tables[] = {&a, &b};
  note(eager ? "(encoders run early)" : "(encoders run late)");
  {
    Deterministic d(first, eager);
    for (TestTable* t : tables) t->create();
    // Both have blocks waiting
    for (int r = 0; r <= first.rowsPerBlock(); ++r)
      for (TestTable* t : tables)
        for (int c = 0; c != t->nColumns(); ++c) t->put(c, r);
    for (int i = 0; i != depth; ++i) {
      std::vector<std::pair<int, int>> enabled;
      for (int k = 0; k != 2; ++k)
        for (size_t o = 0; o != ops.size(); ++o)
          if (ops[o].enabled(*tables[k])) enabled.emplace_back(k, o);
      const int k = mc::choose(enabled.size() + 1, 0);
      if (k == 0) break;
      note(enabled[k - 1].first == 0 ? "(first table)" : "(second table)");
      ops[enabled[k - 1].second].run(*tables[enabled[k - 1].first]);
      count("operations");
    }
    for (TestTable* t : tables) t->close();
  }
  Deterministic d(first, false);
  for (TestTable* t : tables) {
    t->verifyStored();
    t->verifyFile();
  }
  count("histories");
}

// The first choice is the schedule, the second the preparation, then come the
// operations. Alternative 0 ends the history.
void history(const Config& config, const Operations& ops, int depth,
             const std::vector<std::function<void(TestTable&)>>& preparations,
             bool verifyFile) {
  const bool eager = mc::choose(2, 0) != 0;
  const int preparation =
      preparations.empty() ? 0 : mc::choose(preparations.size(), 0);
  TestTable t(config);
  note(eager ? "(encoders run early)" : "(encoders run late)");
  {
    Deterministic d(config, eager);
    try {
      t.create();
      if (!preparations.empty()) preparations[preparation](t);
      for (int i = 0; i != depth; ++i) {
        int enabled[64], n = 0;
        for (size_t o = 0; o != ops.size(); ++o)
          if (ops[o].enabled(t)) enabled[n++] = o;
        const int k = mc::choose(n + 1, 0);
        if (k == 0) break;
        ops[enabled[k - 1]].run(t);
        count("operations");
      }
      if (t.isOpen()) t.close();
    } catch (std::exception& e) {
      violation("exception", std::string("an operation is refused: ") + e.what());
    }
  }
  Deterministic d(config, false);
  t.verifyStored();
  if (verifyFile) t.verifyFile();
  count("histories");
}

void nothing(TestTable&) {}
void firstBlock(TestTable& t) {
  // Also the first row of the second block, such that the size is known
  for (int c = 0; c != t.nColumns(); ++c)
    for (int r = 0; r <= t.config().rowsPerBlock(); ++r) t.put(c, r);
}
void everything(TestTable& t) {
  for (int c = 0; c != t.nColumns(); ++c)
    for (int r = 0; r != t.nRows(); ++r) t.put(c, r);
}
void everythingStored(TestTable& t) {
  for (int r = 0; r != t.nRows(); ++r)
    for (int c = 0; c != t.nColumns(); ++c) t.put(c, r);
  t.close();
  t.open(true);
}

Config config(int rowsPerBlock, int nRows, int nColumns, int processors = 2) {
  Config c;
  c.baselines = allBaselines(4, false);
  c.baselines.resize(rowsPerBlock);
  c.nRows = nRows;
  c.processors = processors;
  c.columns = dataColumns(nColumns);
  return c;
}

}  // namespace

void addHistories(ScenarioList& list, const std::string& kind, bool thorough,
                  bool verifyFile, int maxDepth) {
  auto add = [&](const std::string& name, int quick, int deep, Config cfg,
                 Operations ops,
                 std::vector<std::function<void(TestTable&)>> preparations) {
    Scenario s;
    s.name = "hist-" + kind + "/" + name;
    s.cache = false;
    const int depth = std::min(maxDepth, thorough ? deep : quick);
    s.run = [=]() { history(cfg, ops, depth, preparations, verifyFile); };
    list.push_back(s);
  };
  if (kind == "write") {
    // From nothing: the first time block in order, then anything
    add("new-1row", 6, 8, config(1, 4, 1),
        {put(0, 0), put(0, 1), put(0, 2), put(0, 3), reopen()}, {nothing});
    add("new-2rows", 6, 8, config(2, 5, 1),
        {put(0, 0), put(0, 1), put(0, 2), put(0, 4), reopen()}, {nothing});
    add("rewrite", 4, 6, config(2, 6, 1),
        {put(0, 0), put(0, 1), put(0, 2), put(0, 3), put(0, 5), reopen()},
        {firstBlock, everythingStored});
    Config w = config(2, 6, 1, 1);
    w.columns = dataAndWeight();
    w.nPol = 2;
    w.nChan = 2;
    add("data+weight", 4, 5, w,
        {put(0, 0), put(0, 2), put(0, 5), put(1, 1), put(1, 2), put(1, 4),
         reopen()},
        {firstBlock, everythingStored});
    Config af = config(3, 9, 1, 2);
    af.norm = ref::AF;
    add("af", 4, 6, af, {put(0, 0), put(0, 4), put(0, 5), put(0, 8), reopen()},
        {firstBlock});
    Config row = config(3, 7, 1, 2);
    row.norm = ref::Row;
    row.nChan = 3;
    add("row", 4, 6, row,
        {put(0, 0), put(0, 4), put(0, 5), put(0, 6), reopen()}, {firstBlock});
    // Zeros and flagged values: new, and instead of other values
    for (int norm = 0; norm != 3; ++norm) {
      Config z = config(3, 6, 1, 2);
      z.norm = norm;
      z.nPol = 2;
      z.nChan = 2;
      add("special-" + std::string(norm == ref::AF   ? "af"
                                   : norm == ref::RF ? "rf"
                                                     : "row"),
          3, 5, z,
          {put(0, 0), put(0, 4), special(0, 0, TestTable::kZeros),
           special(0, 3, TestTable::kZeros), special(0, 5, TestTable::kZeros),
           special(0, 1, TestTable::kFlagged),
           special(0, 3, TestTable::kFlagged),
           special(0, 5, TestTable::kHalfFlagged), reopen()},
          norm == ref::AF ? Preparations{firstBlock, everythingStored}
                          : Preparations{nothing, firstBlock, everythingStored});
    }
    Config zw = config(2, 4, 1, 1);
    zw.columns = {{"WEIGHT_SPECTRUM", true}};
    add("special-weight", 4, 7, zw,
        {put(0, 0), put(0, 1), put(0, 2), special(0, 0, TestTable::kZeros),
         special(0, 1, TestTable::kZeros), special(0, 2, TestTable::kZeros),
         reopen()},
        {nothing, firstBlock, everythingStored});
    // Parts of rows, and several rows at once
    for (int norm = 0; norm != 3; ++norm) {
      Config p = config(3, 9, 1, 2);
      p.norm = norm;
      p.nPol = 2;
      p.nChan = 3;
      add("parts-" + std::string(norm == ref::AF   ? "af"
                                 : norm == ref::RF ? "rf"
                                                   : "row"),
          3, 5, p,
          {put(0, 0), put(0, 4), putSlice(0, 1), putSlice(0, 4), putSlice(0, 7),
           putRows(0, {8, 0, 5}), putRows(0, {3, 4, 2}), flush(), reopen()},
          {firstBlock, everythingStored});
    }
    Config pw = config(2, 6, 1, 2);
    pw.columns = dataAndWeight();
    pw.nPol = 2;
    pw.nChan = 2;
    add("parts-weight", 3, 5, pw,
        {put(1, 0), put(1, 3), putSlice(1, 1), putSlice(1, 4), putSlice(0, 4),
         putRows(1, {5, 0, 3}), flush(), reopen()},
        {firstBlock, everythingStored});
    Config f = config(2, 6, 1, 2);
    f.fields = true;
    add("fields", 6, 8, f, {put(0, 0), put(0, 1), put(0, 2), put(0, 5)},
        {nothing});
    f.fields = false;
    f.dataDescs = true;
    add("datadescs", 6, 8, f, {put(0, 0), put(0, 1), put(0, 2), put(0, 5)},
        {nothing});
    f.fields = true;
    add("fields+datadescs", 6, 8, f,
        {put(0, 0), put(0, 1), put(0, 2), put(0, 5)}, {nothing});
    f.fields = f.dataDescs = false;
    f.backwards = true;
    add("backwards", 6, 8, f, {put(0, 0), put(0, 1), put(0, 2), put(0, 5)},
        {nothing});
  } else if (kind == "read") {
    add("new", 5, 7, config(1, 4, 1),
        {put(0, 0), put(0, 1), put(0, 2), get(0, 0), get(0, 1), get(0, 3)},
        {nothing});
    add("first-block", 5, 7, config(3, 4, 1),
        {put(0, 0), put(0, 1), put(0, 2), put(0, 3), get(0, 0), get(0, 1),
         get(0, 3)},
        {nothing});
    add("mixed", 4, 6, config(2, 6, 1),
        {put(0, 0), put(0, 2), put(0, 3), get(0, 0), get(0, 2), get(0, 3),
         get(0, 4), reopen()},
        {firstBlock});
    add("stored", 4, 6, config(2, 6, 1),
        {put(0, 1), put(0, 4), get(0, 0), get(0, 1), get(0, 4), get(0, 5),
         call([](TestTable& t) { t.getColumn(0); })},
        {everythingStored});
    Config w = config(2, 4, 1, 1);
    w.columns = dataAndWeight();
    w.nPol = 2;
    w.nChan = 2;
    add("data+weight", 4, 5, w,
        {put(0, 0), put(0, 2), put(1, 1), put(1, 2), get(0, 2), get(1, 2),
         call([](TestTable& t) {
           t.getSlice(0, 3);
           t.getSlice(1, 1);
         }),
         reopen()},
        {firstBlock});
    Config af = config(3, 6, 1, 1);
    af.norm = ref::AF;
    af.nPol = 2;
    add("af", 4, 6, af, {put(0, 0), put(0, 4), get(0, 1), get(0, 5), reopen()},
        {firstBlock, everythingStored});
    // The ways in which casacore reads
    Config ways = config(2, 7, 1, 2);
    ways.columns = dataAndWeight();
    ways.nPol = 2;
    ways.nChan = 2;
    auto both = [](void (TestTable::*f)(int)) {
      return call([=](TestTable& t) {
        (t.*f)(0);
        (t.*f)(1);
      });
    };
    add("ways", 3, 5, ways,
        {put(0, 0), put(0, 4), put(1, 3), putSlice(0, 5),
         both(&TestTable::getColumn), both(&TestTable::getReversed),
         both(&TestTable::getColumnSlice), flush(), reopen()},
        {nothing, firstBlock, everythingStored});
  } else if (kind == "columns") {
    // Two managers in one table, with other settings
    Config other = config(2, 6, 3, 1);
    other.columns[1].manager = 1;
    other.columns[2] = {"WEIGHT_SPECTRUM", true, 1};
    other.nPol = 2;
    Operations ofBoth = {put(0, 0), put(0, 1), put(0, 2), put(1, 0), put(1, 1),
                         put(1, 2), put(2, 0), get(1, 1), reopen()};
    add("2managers-new", 4, 5, other, ofBoth, {nothing});
    Operations written = {put(0, 0), put(0, 5), put(1, 1), put(1, 4),
                          put(2, 3), get(0, 2),  get(1, 2), reopen()};
    written.push_back({[](TestTable& t) { return t.hasColumn(1); },
                       [](TestTable& t) { t.removeColumn(1); }});
    add("2managers", 3, 5, other, written, {firstBlock, everythingStored});
    other.norm = ref::AF;
    other.baselines = allBaselines(3, false);
    other.nRows = 9;
    add("2managers-af", 3, 5, other, written, {firstBlock, everythingStored});
    {
      Config first = config(2, 6, 2, 1), second = config(2, 6, 2, 1);
      first.columns = dataAndWeight();
      second.norm = ref::AF;
      second.dataBits = 12;
      second.nPol = 2;
      second.firstValue = 90;
      Scenario s;
      s.name = "hist-columns/2tables";
      s.cache = false;
      const int depth = thorough ? 5 : 3;
      const Operations ops = {put(0, 0), put(0, 5), put(1, 2), get(0, 1),
                              get(1, 4), reopen()};
      s.run = [=]() { historyOfTwo(first, second, ops, depth); };
      list.push_back(s);
    }
    Config two = config(2, 4, 2, 1);
    add("2data", 5, 5, two,
        {put(0, 0), put(0, 1), put(0, 2), put(1, 0), put(1, 1), put(1, 2),
         get(0, 0), get(1, 2)},
        {nothing});
    add("2data-written", 4, 5, config(2, 6, 2, 2),
        {put(0, 0), put(0, 2), put(0, 5), put(1, 1), put(1, 3), get(0, 4),
         get(1, 0), reopen()},
        {firstBlock});
    Config w = config(1, 3, 1, 1);
    w.columns = {{"WEIGHT_SPECTRUM", true}, {"DATA", false}};
    w.nPol = 4;
    w.nChan = 3;
    add("weight+data", 5, 6, w,
        {put(0, 0), put(0, 1), put(0, 2), put(1, 0), put(1, 1), put(1, 2),
         reopen()},
        {nothing});
    Config three = config(1, 3, 3, 1);
    three.norm = ref::Row;
    add("3columns", 3, 5, three,
        {put(0, 1), put(0, 2), put(1, 1), put(1, 2), put(2, 2), get(1, 1),
         get(2, 1), reopen()},
        {[](TestTable& t) {
          t.put(1, 0);
          t.put(1, 1);
        }});
    Config af = config(3, 6, 1, 1);
    af.columns = dataAndWeight();
    af.norm = ref::AF;
    add("af+weight", 4, 5, af,
        {put(0, 0), put(0, 4), put(1, 1), put(1, 4), get(0, 5), get(1, 3),
         reopen()},
        {firstBlock});
    add("one-column-only", 5, 6, config(2, 4, 2, 1),
        {put(1, 0), put(1, 1), put(1, 2), put(1, 3), get(0, 0), get(0, 2),
         reopen()},
        {nothing});
    Operations remove = {put(0, 2), put(1, 0), put(1, 3), get(1, 1), reopen()};
    remove.push_back({[](TestTable& t) { return t.hasColumn(0); },
                      [](TestTable& t) { t.removeColumn(0); }});
    add("remove-first", 4, 6, config(2, 4, 2, 1), remove,
        {firstBlock, everythingStored, nothing});
    Operations removeLast = {put(1, 2), put(0, 0), put(0, 3), get(0, 1),
                             reopen()};
    removeLast.push_back({[](TestTable& t) { return t.hasColumn(1); },
                          [](TestTable& t) { t.removeColumn(1); }});
    add("remove-last", 4, 5, config(2, 4, 2, 1), removeLast,
        {firstBlock, everythingStored});
    Operations middle = {put(0, 2), put(2, 3), get(2, 1), reopen()};
    middle.push_back({[](TestTable& t) { return t.hasColumn(1); },
                      [](TestTable& t) { t.removeColumn(1); }});
    Config mid = config(2, 6, 3, 1);
    mid.columns[2] = {"WEIGHT_SPECTRUM", true};
    add("remove-middle", 4, 5, mid, middle, {firstBlock, everythingStored});
    // All columns after the removed one move
    Operations any = {put(3, 3), get(2, 1), reopen()};
    for (int c = 0; c != 4; ++c)
      any.push_back({[=](TestTable& t) { return t.hasColumn(c); },
                     [=](TestTable& t) { t.removeColumn(c); }});
    Config four = config(2, 4, 4, 1);
    four.columns = dataColumns(3);
    four.columns.insert(four.columns.begin() + 1, {"WEIGHT_SPECTRUM", true});
    add("remove-any", 3, 5, four, any, {firstBlock, everythingStored});
  } else if (kind == "rows") {
    Operations rows;
    auto last = [](int back) {
      return Operation{
          [=](TestTable& t) {
            return t.nRows() > back && t.canPut(0, t.nRows() - 1 - back);
          },
          [=](TestTable& t) { t.put(0, t.nRows() - 1 - back); }};
    };
    rows = {call([](TestTable& t) { t.addRows(1); }),
            call([](TestTable& t) { t.addRows(t.config().rowsPerBlock()); }),
            {[](TestTable& t) { return t.nRows() > 1; },
             [](TestTable& t) { t.removeLastRow(); }},
            last(0), put(0, 0), put(0, 1), reopen(), getAll()};
    add("extend", 4, 6, config(2, 3, 1), rows, {firstBlock});
    add("extend-stored", 4, 6, config(2, 4, 1), rows, {everythingStored});
    Operations fewer = {call([](TestTable& t) { t.addRows(1); }),
                        {[](TestTable& t) { return t.nRows() > 1; },
                         [](TestTable& t) { t.removeLastRow(); }},
                        last(0), put(0, 0), reopen()};
    // Several blocks at once
    Operations blocks = {
        call([](TestTable& t) { t.addRows(3 * t.config().rowsPerBlock()); }),
        {[](TestTable& t) { return t.nRows() > t.config().rowsPerBlock(); },
         [](TestTable& t) {
           for (int i = 0; i != t.config().rowsPerBlock(); ++i)
             t.removeLastRow();
         }},
        last(0), put(0, 0), reopen(), getAll()};
    add("shrink", 4, 6, config(2, 4, 1), blocks, {firstBlock, everythingStored});
    add("extend-1row", 5, 7, config(1, 2, 1), fewer,
        {firstBlock, everythingStored});
    add("new-empty", 5, 7, config(2, 0, 1),
        {call([](TestTable& t) { t.addRows(2); }), put(0, 0), put(0, 1),
         put(0, 2), put(0, 3), reopen()},
        {nothing});
    add("unchanged", 4, 6, config(2, 5, 1),
        {reopenUnchanged(false), reopenUnchanged(true), reopenReadOnly(), put(0, 0), put(0, 3),
         put(0, 4), call([](TestTable& t) { t.flush(); })},
        {firstBlock, nothing, everythingStored});
    Config w = config(2, 3, 1, 1);
    w.columns = dataAndWeight();
    add("data+weight", 4, 5, w,
        {call([](TestTable& t) { t.addRows(2); }),
         {[](TestTable& t) { return t.nRows() > 1; },
          [](TestTable& t) { t.removeLastRow(); }},
         last(0), put(1, 0), put(1, 2), reopen(), reopenUnchanged(false), reopenReadOnly()},
        {firstBlock});
    Config af = config(3, 6, 1, 1);
    af.norm = ref::AF;
    add("af", 4, 5, af,
        {call([](TestTable& t) { t.addRows(2); }), last(0), put(0, 4),
         reopen()},
        {firstBlock, everythingStored});
    // Tables that are made writable, or moved, while they are open
    Operations moves = {
        reopenForReading(false), reopenForReading(true), renameTable(),
        renameColumn(0), last(0), put(0, 0), put(0, 3),
        call([](TestTable& t) { t.addRows(t.config().rowsPerBlock()); }),
        reopen()};
    add("moved", 3, 5, config(2, 4, 1, 1), moves,
        {firstBlock, everythingStored});
    Config movedColumns = config(2, 6, 3, 1);
    movedColumns.columns[2] = {"WEIGHT_SPECTRUM", true};
    add("moved-columns", 3, 5, movedColumns,
        {reopenForReading(true), renameTable(), renameColumn(1), put(0, 0),
         put(1, 3), put(2, 5),
         {[](TestTable& t) { return t.hasColumn(0); },
          [](TestTable& t) { t.removeColumn(0); }},
         reopen()},
        {firstBlock, everythingStored});
    // Many sessions that each append a time block
    add("sessions", 8, 12, config(2, 4, 1, 1),
        {call([](TestTable& t) {
           t.close();
           t.open(true);
           const int n = t.nRows();
           t.addRows(2);
           t.put(0, n);
           t.put(0, n + 1);
           t.get(0, n - 1);
         }),
         call([](TestTable& t) {
           t.close();
           t.open(true);
           t.addRows(2);
           t.put(0, t.nRows() - 1);
         })},
        {everythingStored});
  }
}
