// Schedules: all interleavings of the user thread and the encoder threads, for
// small histories, up to a bound on the number of deviations.
#include "scenarios.h"

#include "mc.h"

namespace {

typedef std::function<void(TestTable&)> Body;
// Waits may end without a notification
constexpr int kSpurious = 1;
// Threads may also be switched right after an unlock or notification, i.e.
// before what the thread does outside the critical section
constexpr int kUnlock = 2;

// Runs the body under the controlled scheduler, closes the table and verifies
// it in a new session (of which the schedule is not varied).
void runSession(TestTable& t, bool verifyFile) {
  if (t.isOpen()) t.close();
  int live = mc::deactivate();
  if (live != 0)
    violation("thread", std::to_string(live) +
                            " encoder threads still run after closing");
  outcome(mc::finalState());
  mc::activate(t.config().processors, mc::Policy::Lazy, false, false);
  t.verifyStored();
  if (verifyFile) t.verifyFile();
  live = mc::deactivate();
  if (live != 0) violation("thread", "thread still runs after reading");
}

void exploreSession(const Config& config, const Body& body, int extra,
                    bool verifyFile) {
  TestTable t(config);
  mc::activate(config.processors, mc::Policy::Lazy, true, extra & kSpurious);
  mc::setUnlockPoints(extra & kUnlock);
  t.create();
  body(t);
  runSession(t, verifyFile);
}

// The preparation is done without varying its schedule
void exploreSecondSession(const Config& config, const Body& prepare,
                          const Body& body, int extra, bool verifyFile) {
  TestTable t(config);
  mc::activate(config.processors, mc::Policy::Lazy, false, false);
  t.create();
  prepare(t);
  t.close();
  if (mc::deactivate() != 0) violation("thread", "thread runs after closing");
  mc::activate(config.processors, mc::Policy::Lazy, true, extra & kSpurious);
  mc::setUnlockPoints(extra & kUnlock);
  t.open(true);
  body(t);
  runSession(t, verifyFile);
}

Config base(int rowsPerBlock, int nBlocks, int processors, int nColumns) {
  Config c;
  c.baselines = allBaselines(3, false);
  c.baselines.resize(rowsPerBlock);
  c.nRows = rowsPerBlock * nBlocks;
  c.processors = processors;
  c.columns = dataColumns(nColumns);
  return c;
}

void putAll(TestTable& t) {
  for (int r = 0; r != t.nRows(); ++r)
    for (int c = 0; c != t.nColumns(); ++c) t.put(c, r);
}

}  // namespace

void addScheduleScenarios(std::vector<Scenario>& list, const SchedOptions& o) {
  auto add = [&](const std::string& tags, const std::string& name, int quick, int thorough, Config cfg,
                 Body body, int extra = 0) {
    Scenario s;
    s.name = "sched/" + name;
    s.bound = o.limit((o.thorough ? thorough : quick) + o.extraBound);
    const bool vf = o.verifyFile;
    s.run = [=]() { exploreSession(cfg, body, extra, vf); };
    if (o.selects(tags, s.name))
      list.push_back(s);
  };
  auto addSecond = [&](const std::string& tags, const std::string& name, int quick, int thorough,
                       Config cfg, Body prepare, Body body,
                       int extra = 0) {
    Scenario s;
    s.name = "sched/" + name;
    s.bound = o.limit((o.thorough ? thorough : quick) + o.extraBound);
    const bool vf = o.verifyFile;
    s.run = [=]() { exploreSecondSession(cfg, prepare, body, extra, vf); };
    if (o.selects(tags, s.name))
      list.push_back(s);
  };

  // Writing, with one thread and a queue of two blocks
  add("wtm", "write3-1thread", 6, 12, base(1, 3, 1, 1), putAll);
  add("wtm", "write5-1thread-fullqueue", 4, 7, base(1, 5, 1, 1), putAll);
  add("wm", "write3-2threads", 2, 4, base(1, 3, 2, 1), putAll);
  add("wt", "write6-2threads-fullqueue", 1, 2, base(1, 6, 2, 1), putAll);
  add("wm", "write3-3threads", 1, 2, base(1, 3, 3, 1), putAll);
  add("wm", "write3-2threads-2rows", 1, 3, base(2, 3, 2, 1), putAll);
  // Spurious wakeups
  add("tm", "write4-2threads-spurious", 1, 3, base(1, 4, 2, 1), putAll, kSpurious);
  // Switching outside critical sections
  add("wtm", "write3-1thread-outside", 3, 6, base(1, 3, 1, 1), putAll, kUnlock);
  add("wt", "write4-2threads-outside", 1, 2, base(1, 4, 2, 1), putAll, kUnlock);
  add("wct", "2columns-1thread-outside", 1, 2, base(1, 2, 1, 2), putAll, kUnlock);
  add("rt", "read-each-outside", 2, 4, base(1, 3, 1, 1), [](TestTable& t) {
    for (int r = 0; r != 3; ++r) {
      t.put(0, r);
      t.getAll();
    }
  }, kUnlock);
  add("wrt", "rewrite-outside", 2, 4, base(2, 3, 1, 1), [](TestTable& t) {
    for (int r = 0; r != 5; ++r) t.put(0, r);
    t.put(0, 0);
    t.put(0, 3);
    t.put(0, 1);
    t.get(0, 0);
  }, kUnlock);
  addSecond("t", "open-close-outside", 4, 8, base(1, 2, 2, 1), putAll,
            [](TestTable&) {}, kUnlock);
  add("ct", "remove-column-outside", 1, 2, base(1, 3, 1, 2), [](TestTable& t) {
    putAll(t);
    t.removeColumn(0);
    t.get(1, 2);
    t.get(1, 0);
  }, kUnlock);
  // Two columns of one storage manager
  add("wcm", "2columns-1thread", 2, 3, base(1, 2, 1, 2), putAll);
  add("cm", "2columns-2threads", 0, 1, base(1, 2, 2, 2), putAll);
  {
    Config c = base(1, 3, 1, 1);
    c.columns = dataAndWeight();
    c.nPol = 2;
    add("wcm", "data+weight-1thread", 2, 3, c, putAll);
    add("cm", "data+weight-separately", 2, 3, c, [](TestTable& t) {
      for (int col = 0; col != 2; ++col)
        for (int r = 0; r != t.nRows(); ++r) t.put(col, r);
    });
    Config s = c;
    s.staticSeed = true;
    s.processors = 2;
    add("c", "data+weight-static", 1, 2, s, putAll);
  }
  // Reading what is buffered, queued, being encoded or written
  add("rm", "read-queued", 1, 2, base(1, 4, 2, 1), [](TestTable& t) {
    for (int r = 0; r != 3; ++r) t.put(0, r);
    t.get(0, 0);
    t.get(0, 2);
    t.get(0, 3);
    t.put(0, 3);
    t.get(0, 1);
    t.get(0, 3);
  });
  add("r", "read-queued-1thread", 3, 5, base(1, 4, 1, 1), [](TestTable& t) {
    for (int r = 0; r != 3; ++r) t.put(0, r);
    t.get(0, 0);
    t.get(0, 2);
    t.get(0, 3);
    t.put(0, 3);
    t.get(0, 1);
    t.get(0, 3);
      });
  add("rt", "read-each", 4, 6, base(1, 3, 1, 1), [](TestTable& t) {
    for (int r = 0; r != 3; ++r) {
      t.put(0, r);
      t.getAll();
    }
  });
  // Changing a block that may still be queued
  add("wrm", "rewrite-queued", 1, 2, base(2, 3, 2, 1), [](TestTable& t) {
    for (int r = 0; r != 5; ++r) t.put(0, r);
    t.put(0, 0);   // block 0 still queued or being encoded
    t.put(0, 3);   // block 1 may be queued, block 0 becomes queued again
    t.put(0, 1);
    t.get(0, 0);
  });
  add("wr", "rewrite-queued-1thread", 3, 5, base(2, 3, 1, 1), [](TestTable& t) {
    for (int r = 0; r != 5; ++r) t.put(0, r);
    t.put(0, 0);   // block 0 still queued or being encoded
    t.put(0, 3);   // block 1 may be queued, block 0 becomes queued again
    t.put(0, 1);
    t.get(0, 0);
      });
  add("wrt", "rewrite-alternating", 4, 6, base(1, 2, 1, 1), [](TestTable& t) {
    t.put(0, 0);
    t.put(0, 1);
    t.put(0, 0);
    t.put(0, 1);
    t.put(0, 0);
    t.get(0, 1);
  });
  add("rcm", "two-columns-read", 2, 3, base(1, 3, 1, 2), [](TestTable& t) {
    t.put(0, 0);
    t.put(0, 1);
    t.put(1, 0);
    t.get(1, 0);
    t.put(1, 1);
    t.get(0, 0);
    t.put(0, 2);
    t.get(1, 1);
    t.get(1, 2);
  });
  // Second session
  addSecond("t", "open-close", 6, 12, base(1, 2, 2, 1), putAll, [](TestTable&) {});
  addSecond("t", "open-close-2columns", 4, 7, base(1, 2, 1, 2), putAll,
            [](TestTable&) {});
  addSecond("wrm", "second-session-rewrite", 1, 2, base(2, 3, 2, 1), putAll,
            [](TestTable& t) {
              t.put(0, 5);
              t.put(0, 0);
              t.get(0, 5);
              t.put(0, 2);
              t.get(0, 1);
            });
  addSecond("wr", "second-session-rewrite-1thread", 3, 5, base(2, 3, 1, 1), putAll,
            [](TestTable& t) {
              t.put(0, 5);
              t.put(0, 0);
              t.get(0, 5);
              t.put(0, 2);
              t.get(0, 1);
      });
  addSecond("wrm", "second-session-append", 2, 4, base(1, 2, 2, 1), putAll,
            [](TestTable& t) {
              t.addRows(2);
              t.put(0, 3);
              t.get(0, 2);
              t.put(0, 2);
              t.get(0, 3);
            });
  addSecond("wr", "second-session-append-1thread", 3, 6, base(1, 2, 1, 1), putAll,
            [](TestTable& t) {
              t.addRows(2);
              t.put(0, 3);
              t.get(0, 2);
              t.put(0, 2);
              t.get(0, 3);
      });
  addSecond("r", "second-session-reads", 4, 8, base(1, 3, 2, 1), putAll,
            [](TestTable& t) { t.getAll(); });
  // Two managers, of which the encoder threads share only casacore and static
  // objects
  {
    Config c = base(1, 2, 1, 2);
    c.columns[1].manager = 1;
    add("cm", "2managers-1thread", 2, 3, c, putAll);
    c.norm = ref::AF;
    add("cm", "2managers-read", 1, 3, c, [](TestTable& t) {
      putAll(t);
      t.get(0, 0);
      t.get(1, 0);
      t.put(1, 0);
    });
  }
  // Removing a column while work is pending
  add("ctm", "remove-column-pending", 2, 3, base(1, 3, 1, 2), [](TestTable& t) {
    putAll(t);
    t.removeColumn(0);
    t.get(1, 2);
    t.get(1, 0);
  });
  addSecond("ctm", "remove-column-reopened", 3, 5, base(1, 2, 1, 2), putAll,
            [](TestTable& t) {
              t.put(1, 0);
              t.removeColumn(0);
              t.put(1, 1);
              t.get(1, 0);
            });
  // Nothing, one block, and only some columns written
  add("t", "nothing", 4, 6, base(1, 2, 2, 1), [](TestTable&) {});
  add("wt", "one-block", 5, 9, base(2, 2, 2, 1), [](TestTable& t) {
    t.put(0, 0);
    t.put(0, 1);
  });
  add("wctm", "one-block-2columns", 2, 3, base(2, 2, 1, 2), [](TestTable& t) {
    t.put(1, 0);
    t.put(0, 0);
    t.put(0, 1);
    t.get(1, 0);
  });
  add("ct", "one-of-two-columns", 2, 3, base(1, 3, 1, 2), [](TestTable& t) {
    for (int r = 0; r != 3; ++r) t.put(1, r);
    t.get(0, 0);
    t.get(0, 2);
  });
  // Antenna factors
  {
    Config c = base(3, 3, 2, 1);
    c.norm = ref::AF;
    add("wm", "af-write", 1, 2, c, putAll);
    c.norm = ref::Row;
    add("wm", "row-write", 1, 2, c, putAll);
  }
}
