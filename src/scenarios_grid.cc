// Grids: every combination of settings, table layout, order of writing and
// number of threads, with full verification of the resulting table.
#include "scenarios.h"

#include "mc.h"

#include <dyscostman.h>

#include <cmath>
#include <cstring>
#include <fstream>
#include <malloc.h>
#include <sstream>

#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <casacore/tables/Tables/ArrayColumn.h>
#include <casacore/tables/Tables/Table.h>

namespace {

template <typename T, size_t N>
T pickFrom(const T (&list)[N]) {
  return list[mc::choose(N, 0)];
}

void add(ScenarioList& list, const std::string& name,
         std::function<void()> run) {
  Scenario s;
  s.name = name;
  s.cache = false;
  s.run = run;
  list.push_back(s);
}

std::vector<ColumnConfig> columnSet(int i) {
  switch (i) {
    case 0: return dataColumns(1);
    case 1: return dataAndWeight();
    case 2: return {{"WEIGHT_SPECTRUM", true}};
    case 3: return {{"WEIGHT_SPECTRUM", true}, {"DATA", false}};
    case 4:
      return {{"DATA", false}, {"WEIGHT_SPECTRUM", true}, {"MODEL_DATA", false}};
    default: return dataColumns(3);
  }
}

std::vector<std::pair<int, int>> baselineSet(int rows) {
  switch (rows) {
    case 1: return {{0, 1}};
    case 2: return {{0, 1}, {1, 2}};
    case 3: return allBaselines(3, false);
    case 4: return {{0, 0}, {0, 1}, {1, 0}, {1, 1}};
    case 6: return allBaselines(4, false);
    default: {
      std::vector<std::pair<int, int>> b = allBaselines(3, true);
      while (int(b.size()) < rows) b.push_back(b[b.size() - 6]);
      b.resize(rows);
      return b;
    }
  }
}

// ---- writing

enum Order { Sequential, PerColumn, Reversed, Interleaved, Sparse, nOrders };
const char* orderName(int o) {
  static const char* names[] = {"row by row", "column by column",
                                "backwards after the first block",
                                "alternating ends", "every other block"};
  return names[o];
}

void writeInOrder(TestTable& t, int order) {
  note(std::string("write ") + orderName(order));
  const int n = t.nRows(), columns = t.nColumns();
  const int first = std::min(n, t.config().rowsPerBlock() + 1);
  if (order == Sequential) {
    for (int r = 0; r != n; ++r)
      for (int c = 0; c != columns; ++c) t.put(c, r);
    return;
  }
  if (order == PerColumn) {
    for (int c = 0; c != columns; ++c)
      for (int r = 0; r != n; ++r) t.put(c, r);
    return;
  }
  // The first block, and the row that ends it, come in order
  for (int r = 0; r != first; ++r)
    for (int c = 0; c != columns; ++c) t.put(c, r);
  if (order == Reversed) {
    for (int r = n - 1; r >= first; --r)
      for (int c = 0; c != columns; ++c) t.put((c + r) % columns, r);
  } else if (order == Interleaved) {
    int low = first, high = n - 1;
    while (low <= high) {
      for (int c = 0; c != columns; ++c) t.put(c, high);
      if (low != high)
        for (int c = columns - 1; c >= 0; --c) t.put(c, low);
      ++low;
      --high;
    }
  } else {
    const int rows = t.config().rowsPerBlock();
    for (int pass = 0; pass != 2; ++pass)
      for (int r = first; r < n; ++r)
        if ((r / rows) % 2 == pass)
          for (int c = 0; c != columns; ++c)
            // Leaves gaps in the last column
            if (c + 1 != columns || pass == 0 || columns == 1) t.put(c, r);
  }
}

void gridWrite(bool thorough, bool swapped) {
  static const int rowsQuick[] = {1, 2, 3, 6};
  static const int rowsAll[] = {1, 2, 3, 4, 6, 9};
  Config c;
  c.norm = mc::choose(3, 0);
  static const int rowsSwapped[] = {3, 6};
  const int rows = swapped    ? pickFrom(rowsSwapped)
                   : thorough ? pickFrom(rowsAll)
                              : pickFrom(rowsQuick);
  c.baselines = baselineSet(rows);
  if (swapped) {
    // The antenna with the highest index comes first
    for (auto& b : c.baselines) std::swap(b.first, b.second);
    if (mc::choose(2, 0)) std::reverse(c.baselines.begin(), c.baselines.end());
  }
  const int blocks = mc::choose(4, 0);  // 1, 2, 3 and a partial one, many
  c.nRows = blocks < 2    ? rows * (blocks + 1)
            : blocks == 2 ? rows * 3 + (rows + 1) / 2
                          : rows * 24 + 1;
  static const int shapes[][2] = {{1, 1}, {2, 2}, {4, 3}};
  const int shape = mc::choose(3, 0);
  c.nPol = shapes[shape][0];
  c.nChan = shapes[shape][1];
  static const int sets[] = {0, 1, 4};
  c.columns = columnSet(pickFrom(sets));
  static const int processors[] = {1, 2, 8, 64};
  c.processors = swapped ? 2 : pickFrom(processors);
  const int order = mc::choose(nOrders, 0);
  const bool eager = mc::choose(2, 0) != 0;
  c.firstValue = 50 * (order + 1);
  note(eager ? "(encoders run early)" : "(encoders run late)");
  TestTable t(c);
  {
    Deterministic d(c, eager);
    t.create();
    writeInOrder(t, order);
    t.close();
  }
  {
    Deterministic d(c, false);
    t.verifyFile();
  }
  // With other orders, blocks are encoded more than once
  if (order == Sequential || order == PerColumn) t.verifyAdjacent();
  count("tables");
}

// Tables with many time blocks
void gridMany(bool thorough) {
  Config c;
  c.norm = mc::choose(3, 0);
  const bool all = mc::choose(2, 0) != 0;
  const int rows = mc::choose(2, 0) ? 3 : 1;
  c.baselines = baselineSet(rows);
  c.columns = columnSet(mc::choose(2, 0));
  c.processors = 2;
  c.nRows = rows * (all ? (thorough ? 2000 : 300) : 66000);
  const bool eager = mc::choose(2, 0) != 0;
  TestTable t(c);
  {
    Deterministic d(c, eager);
    t.create();
    for (int r = 0; r <= rows; ++r)
      for (int col = 0; col != t.nColumns(); ++col) t.put(col, r);
    if (all) {
      for (int r = rows + 1; r != c.nRows; ++r)
        for (int col = 0; col != t.nColumns(); ++col) t.put(col, r);
    } else {
      // The number of a block or row around the limits of 8 and 16 bits
      for (int n : {65535, 255, 65536, 32767, 256, 32768, 65999}) {
        for (int col = 0; col != t.nColumns(); ++col) {
          t.put(col, n);
          t.put(col, n * rows);
        }
        t.get(0, n);
      }
    }
    t.close();
    t.open(true);
    t.put(0, 0);
    t.put(t.nColumns() - 1, c.nRows - 1);
    t.get(0, c.nRows - 1);
    t.close();
  }
  Deterministic d(c, false);
  t.verifyFile();
  count("tables");
  removeTable(t.directory());
}

// ---- antenna numbers around the limits of 8 and 16 bits. The factors of antennas
// without rows are stored too, so that a block grows with the highest number.

void gridAntennas(bool thorough) {
  static const int first[] = {126, 254, 32766, 65533};
  Config c;
  c.norm = mc::choose(3, 0);
  c.columns = columnSet(mc::choose(2, 0));
  // AF normalization makes a square matrix of all antennas
  const int base = first[mc::choose(c.norm == 0 ? 2 : 4, 0)];
  const int kind = mc::choose(thorough ? 3 : 2, 0);
  if (kind == 2) {
    c.baselines = {{base, 0}, {1, base + 3}, {base + 1, base + 1}};
  } else {
    c.baselines = allBaselines(4, mc::choose(2, 0) != 0);
    for (std::pair<int, int>& b : c.baselines) {
      if (kind == 0 || b.first != 0) b.first += base;
      b.second += base;
    }
  }
  c.nPol = 2;
  c.nChan = 2;
  const int rows = c.rowsPerBlock();
  c.nRows = 2 * rows;
  const bool eager = mc::choose(2, 0) != 0;
  TestTable t(c);
  {
    Deterministic d(c, eager);
    t.create();
    for (int r = 0; r != c.nRows; ++r)
      for (int col = 0; col != t.nColumns(); ++col) t.put(col, r);
    t.get(0, 0);
    t.close();
    t.open(true);
    t.put(0, rows);
    t.get(0, 1);
    t.close();
  }
  Deterministic d(c, false);
  t.verifyFile();
  count("tables");
  removeTable(t.directory());
}

// ---- memory: the same history for every layout, run with the address sanitizer

void gridMemory(bool thorough) {
  static const int bits[] = {2, 3, 4, 6, 8, 10, 12, 16};
  static const int shapes[][2] = {{1, 1}, {1, 3}, {2, 1}, {3, 5}, {4, 2}, {4, 7}};
  Config c;
  c.norm = mc::choose(3, 0);
  const int bit = mc::choose(8, 0);
  c.dataBits = bits[bit];
  c.weightBits = bits[thorough && mc::choose(2, 0) ? bit : 7 - bit];
  const int set = mc::choose(7, 0);
  switch (set) {
    case 0: c.baselines = baselineSet(1); break;
    case 1: c.baselines = {{0, 0}}; break;
    case 2: c.baselines = {{0, 7}, {3, 7}}; break;
    case 3: c.baselines = {{5, 2}, {2, 2}, {5, 4}}; break;
    case 4: c.baselines = baselineSet(4); break;
    case 5: c.baselines = {{0, 1}, {0, 1}, {1, 0}}; break;
    default: c.baselines = baselineSet(9);
  }
  const int shape = mc::choose(6, 0);
  c.nPol = shapes[shape][0];
  c.nChan = shapes[shape][1];
  c.columns = columnSet(thorough ? mc::choose(6, 0) : 2 * mc::choose(3, 0));
  const int rows = c.rowsPerBlock();
  const bool one = mc::choose(2, 0) != 0;  // or the last block is partial
  c.nRows = one ? rows : 2 * rows + (rows + 1) / 2;
  const bool eager = thorough ? mc::choose(2, 0) != 0 : (bit + shape) % 2 != 0;
  // The levels of the other distributions take long with many bits
  c.dist = c.dataBits > 8 ? int(ref::Uniform)
           : thorough     ? mc::choose(4, 0)
                          : (bit + shape) % 4;
  c.coarse = true;
  TestTable t(c);
  {
    Deterministic d(c, eager);
    t.create();
    for (int r = 0; r != t.nRows(); ++r)
      for (int col = 0; col != t.nColumns(); ++col) t.put(col, r);
    t.get(0, 0);
    t.get(t.nColumns() - 1, t.nRows() - 1);
    t.close();
  }
  {
    Deterministic d(c, !eager);
    t.open(true);
    t.getAll();
    const int n = t.nRows();
    t.addRows(rows + 1);
    t.put(0, n);
    t.put(t.nColumns() - 1, t.nRows() - 1);
    t.get(0, t.nRows() - 1);
    t.put(0, 0);
    t.removeLastRow();
    t.getSlice(0, n - 1);
    t.putColumn(t.nColumns() - 1);
    if (t.nColumns() > 1) t.removeColumn(0);
    t.getAll();
    t.close();
  }
  {
    Deterministic d(c, eager);
    t.open(false);
    t.getAll();
    t.close();
  }
  count("tables");
}

// ---- the order in which threads are scheduled does not affect the file

// Everything in the file, apart from the symbols of visibilities
std::vector<uint8_t> withoutSymbols(const TestTable& t,
                                    const std::vector<uint8_t>& file) {
  ref::Header h;
  const std::string error = ref::parse(file, h);
  if (!error.empty()) violation("format", error);
  std::vector<uint8_t> out(file.begin(), file.begin() + h.headerSize);
  if (h.rowsPerBlock == 0) return out;
  for (size_t pos = h.headerSize; pos < file.size(); pos += h.blockSize) {
    size_t offset = pos;
    for (int c = 0; c != t.nColumns(); ++c) {
      const bool weight = t.config().columns[c].weight;
      const ref::Layout l =
          ref::layout(h, weight, t.config().nPol, t.config().nChan);
      const size_t n = weight ? l.size : l.metaFloats * 4;
      for (size_t i = 0; i != n; ++i)
        out.push_back(offset + i < file.size() ? file[offset + i] : 0);
      offset += l.size;
    }
  }
  return out;
}

typedef std::function<void(TestTable&)> Body;

// The reference is made with another schedule and another number of threads
void sameFile(const Config& config, const Body& body, bool sameSession) {
  std::vector<uint8_t> expected;
  for (int run = 0; run != 2; ++run) {
    Config c = config;
    if (run == 0) c.processors = 1;
    TestTable t(c);
    mc::activate(c.processors, run == 0 ? mc::Policy::Eager : mc::Policy::Lazy,
                 run == 1, false);
    t.create();
    body(t);
    t.close();
    if (mc::deactivate() != 0) violation("thread", "thread runs after closing");
    if (run == 1) outcome(mc::finalState());
    std::vector<uint8_t> file = ref::readFile(t.dyscoFile());
    if (!config.staticSeed) file = withoutSymbols(t, file);
    if (run == 0) {
      expected = file;
    } else if (file != expected) {
      size_t i = 0;
      while (i != file.size() && i != expected.size() && file[i] == expected[i])
        ++i;
      violation("schedule",
                std::string("the ") +
                    (config.staticSeed ? "file" : "scale factors or weights") +
                    " depends on the schedule: " + std::to_string(file.size()) +
                    " instead of " + std::to_string(expected.size()) +
                    " bytes, first difference at byte " + std::to_string(i));
    }
    if (run == 1) {
      mc::activate(1, mc::Policy::Lazy, false, false);
      t.verifyStored();
      mc::deactivate();
      if (sameSession) t.verifyAdjacent();
    }
  }
}

Config seedConfig(int rows, int blocks, int processors, int set,
                  bool staticSeed) {
  Config c;
  c.baselines = baselineSet(rows);
  c.nRows = rows * blocks;
  c.processors = processors;
  c.columns = columnSet(set);
  c.nPol = 2;
  c.staticSeed = staticSeed;
  c.firstValue = 85;
  // Many values, of which the dithering gives different symbols
  c.nChan = 4;
  return c;
}

void addSeed(ScenarioList& list, bool thorough) {
  auto addOne = [&](const std::string& name, int quick, int deep,
                    const Config& c, const Body& body, bool adjacent) {
    Scenario s;
    s.name = "seed/" + name;
    s.bound = thorough ? deep : quick;
    s.run = [=]() { sameFile(c, body, adjacent); };
    list.push_back(s);
  };
  const Body all = [](TestTable& t) {
    for (int r = 0; r != t.nRows(); ++r)
      for (int c = 0; c != t.nColumns(); ++c) t.put(c, r);
  };
  for (int fixed = 1; fixed >= 0; --fixed) {
    const std::string tag = fixed ? "static-" : "random-";
    // Data columns use one thread with a static seed
    addOne(tag + "write", fixed ? 5 : 1, fixed ? 9 : 2,
           seedConfig(1, 4, 2, 0, fixed), all, true);
    addOne(tag + "write-2rows", fixed ? 4 : 1, fixed ? 8 : 2,
           seedConfig(2, 4, 3, 0, fixed), all, true);
    addOne(tag + "data+weight", fixed ? 1 : 0, fixed ? 2 : 1, seedConfig(1, 3, 2, 1, fixed), all, true);
    addOne(tag + "2columns", 1, fixed ? 3 : 2,
           seedConfig(1, 2, 1, 4, fixed), all, true);
    addOne(tag + "backwards", fixed ? 4 : 1, fixed ? 8 : 2,
           seedConfig(1, 5, 2, 0, fixed),
           [](TestTable& t) {
             t.put(0, 0);
             t.put(0, 1);
             for (int r = t.nRows() - 1; r != 1; --r) t.put(0, r);
           },
           true);
    for (int norm = 0; norm != 3; ++norm) {
      static const char* names[] = {"af", "rf", "row"};
      Config c = seedConfig(3, 3, 2, 0, fixed);
      c.norm = norm;
      c.dataBits = 8;
      c.coarse = true;
      c.dist = ref::TruncatedGaussian;
      addOne(tag + names[norm], fixed ? 3 : 1, fixed ? 6 : 2, c, all, true);
    }
    if (fixed) {
      // Changing blocks: symbols of earlier encodings are read back
      addOne("static-rewrite", 3, 6, seedConfig(2, 3, 2, 0, true),
             [](TestTable& t) {
               for (int r = 0; r != 5; ++r) t.put(0, r);
               t.put(0, 0);
               t.put(0, 3);
               t.put(0, 5);
               t.get(0, 1);
               t.put(0, 1);
             },
             false);
      // A static seed is not stored: it is used as long as the table is open
    }
  }
}

// ---- bounded memory and steady progress

void progress(bool thorough) {
  Config c;
  static const int processorsQuick[] = {1, 2, 3, 8, 64};
  c.processors = pickFrom(processorsQuick);
  static const int sets[] = {0, 1, 2, 4};
  c.columns = columnSet(pickFrom(sets));
  c.staticSeed = mc::choose(2, 0) != 0;
  const int rows = mc::choose(2, 0) ? 3 : 1;
  c.baselines = baselineSet(rows);
  const int norm[] = {ref::RF, ref::AF, ref::Row};
  c.norm = norm[mc::choose(thorough ? 3 : 1, 0)];
  c.dataBits = 8;
  c.dist = ref::TruncatedGaussian;
  c.coarse = true;
  const int mode = mc::choose(3, 0);
  int dataThreads = std::min(8, c.processors);
  if (c.staticSeed) dataThreads = 1;
  int limit = 0;
  for (const ColumnConfig& col : c.columns)
    limit += col.weight ? std::min(8, c.processors) : dataThreads;
  if (mode == 0) {
    // The encoder threads get to run after every row: blocks that are complete
    // should then be in the file.
    c.nRows = rows * 20;
    c.nPol = 2;
    c.nChan = 2;
    note("(encoders run when all else waits)");
    TestTable t(c);
    Deterministic d(c, false);
    t.create();
    for (int r = 0; r != c.nRows; ++r) {
      for (int col = 0; col != t.nColumns(); ++col) t.put(col, r);
      mc::waitQuiescent();
      if (r % rows == 0 && r != 0) {
        t.verifyAdjacent(r / rows);
        count("blocks_found_in_file", t.nColumns());
      }
    }
    if (mc::maxLiveThreads() > limit)
      violation("threads", std::to_string(mc::maxLiveThreads()) +
                               " threads are used, at most " +
                               std::to_string(limit) + " expected");
    t.close();
    t.verifyAdjacent();
  } else {
    // The encoder threads only run when the user thread has to wait. mode 2:
    // blocks are written backwards
    c.nPol = 4;
    c.nChan = 1024 / rows;
    const int blocks = 80;
    c.nRows = rows * blocks;
    note("(encoders run as late as possible)");
    TestTable t(c);
    Deterministic d(c, false);
    t.create();
    size_t perBlock = 0, before = 0, highest = 0;
    auto inUse = []() {
      const struct mallinfo2 m = mallinfo2();
      return size_t(m.uordblks) + size_t(m.hblkhd);
    };
    for (const ColumnConfig& col : c.columns)
      perBlock = std::max<size_t>(
          perBlock, size_t(rows) * c.nPol * c.nChan * (col.weight ? 4 : 8));
    for (int b = 0; b != blocks; ++b) {
      const int block = b < 2 || mode == 1 ? b : blocks + 1 - b;
      for (int r = 0; r != rows; ++r)
        for (int col = 0; col != t.nColumns(); ++col)
          t.put(col, block * rows + r);
      if (b == 1) before = inUse();
      if (b > 1) highest = std::max(highest, inUse());
    }
    // A small multiple of the number of threads, for every column
    size_t bound = 0;
    for (const ColumnConfig& col : c.columns)
      bound += (4 * (col.weight ? std::min(8, c.processors)
                                : std::min(8, c.processors)) + 4) *
               size_t(rows) * c.nPol * c.nChan * (col.weight ? 4 : 8);
    // Structures of the scheduler and the table itself
    bound += 300000;
    if (highest > before + bound)
      violation("memory",
                std::to_string((highest - before) / perBlock) +
                    " time blocks are held in memory with " +
                    std::to_string(limit) + " encoder threads");
    count("blocks_written", blocks * t.nColumns());
    if (mc::maxLiveThreads() > limit)
      violation("threads", std::to_string(mc::maxLiveThreads()) +
                               " threads are used, at most " +
                               std::to_string(limit) + " expected");
    t.close();
  }
  count("tables");
}

// All schedules: when the encoder threads have nothing left to do, all
// complete blocks are in the file
void addExploredProgress(ScenarioList& list, bool thorough) {
  for (int variant = 0; variant != 5; ++variant) {
    static const char* names[] = {"1thread", "2threads", "3threads",
                                  "2columns", "rewrite"};
    Scenario s;
    s.name = std::string("progress/") + names[variant];
    static const int quick[] = {4, 1, 0, 2, 1}, deep[] = {8, 3, 1, 3, 3};
    s.bound = thorough ? deep[variant] : quick[variant];
    Config c;
    c.baselines = baselineSet(1);
    c.nRows = variant == 2 ? 5 : 4;
    c.processors = variant == 0 || variant == 3 ? 1 : variant == 2 ? 3 : 2;
    c.columns = columnSet(variant == 3 ? 1 : 0);
    s.run = [=]() {
      TestTable t(c);
      mc::activate(c.processors, mc::Policy::Lazy, true, false);
      t.create();
      for (int r = 0; r != c.nRows; ++r) {
        for (int col = 0; col != t.nColumns(); ++col) t.put(col, r);
        if (r >= 2) {
          mc::waitQuiescent();
          t.verifyAdjacent(r);
        }
      }
      if (variant == 4) {
        t.put(0, 0);
        t.put(0, 1);
        mc::waitQuiescent();
        t.verifyAdjacent(1);
      }
      t.close();
      if (mc::deactivate() != 0)
        violation("thread", "thread runs after closing");
      outcome(mc::finalState());
      t.verifyAdjacent();
    };
    list.push_back(s);
  }
}

// ---- dithering of several blocks

// The symbols of all blocks of a column in the file
std::vector<std::vector<unsigned>> storedSymbols(const std::vector<uint8_t>& file,
                                                 const Config& c, int column) {
  ref::Header h;
  const std::string error = ref::parse(file, h);
  if (!error.empty()) violation("format", error);
  size_t start = h.headerSize;
  ref::Layout layout;
  for (int i = 0; i <= column; ++i) {
    layout = ref::layout(h, c.columns[i].weight, c.nPol, c.nChan);
    if (i != column) start += layout.size;
  }
  std::vector<std::vector<unsigned>> blocks;
  for (; start + layout.size <= file.size(); start += h.blockSize) {
    const uint8_t* packed = file.data() + start + layout.metaFloats * 4;
    std::vector<unsigned> symbols(layout.symbols);
    for (size_t i = 0; i != symbols.size(); ++i)
      symbols[i] = ref::symbolAt(packed, i, layout.bits);
    blocks.push_back(symbols);
  }
  return blocks;
}

// Blocks with the same values are dithered independently, whichever thread
// encodes them in which order, in whatever column and session
void addDitheredBlocks(ScenarioList& list, bool thorough) {
  for (int variant = 0; variant != 6; ++variant) {
    static const char* names[] = {"1thread",  "2threads", "3threads",
                                  "2columns", "sessions", "static-seed"};
    static const int quick[] = {1, 2, 1, 1, 1, 1}, deep[] = {3, 3, 2, 2, 3, 3};
    Scenario s;
    s.name = std::string("dither/") + names[variant];
    s.bound = thorough ? deep[variant] : quick[variant];
    s.run = [=]() {
      Config c;
      c.baselines = allBaselines(3, false);
      c.columns = dataColumns(variant == 3 ? 2 : 1);
      c.processors = variant == 2 ? 3 : variant == 0 || variant == 3 ? 1 : 2;
      c.staticSeed = variant == 5;
      c.norm = mc::choose(3, 0);
      c.dataBits = 3;
      c.coarse = true;
      c.nPol = 2;
      c.nChan = 16;
      const int rows = c.rowsPerBlock(), blocks = 4;
      c.nRows = blocks * rows;
      TestTable t(c);
      mc::activate(c.processors, mc::Policy::Lazy, true, false);
      t.create();
      for (int r = 0; r != c.nRows; ++r) {
        if (variant == 4 && r == 2 * rows) {
          t.close();
          t.open(true);
        }
        for (int col = 0; col != t.nColumns(); ++col)
          t.putId(col, r, 20 + r % rows);
      }
      t.close();
      if (mc::deactivate() != 0)
        violation("thread", "thread runs after closing");
      t.verifyAdjacent();
      const std::vector<uint8_t> file = ref::readFile(t.dyscoFile());
      std::vector<std::vector<unsigned>> all;
      for (int col = 0; col != t.nColumns(); ++col)
        for (const std::vector<unsigned>& b : storedSymbols(file, c, col))
          all.push_back(b);
      if (int(all.size()) != blocks * t.nColumns())
        violation("file", "there are " + std::to_string(all.size()) + " blocks");
      for (size_t i = 0; i != all.size(); ++i)
        for (size_t j = 0; j != i; ++j) {
          size_t different = 0;
          for (size_t k = 0; k != all[i].size(); ++k)
            if (all[i][k] != all[j][k]) ++different;
          // Of the 192 components at least a sixth is expected to differ
          if (different < 12)
            violation("dither",
                      "blocks " + std::to_string(j) + " and " +
                          std::to_string(i) + " with the same values have " +
                          std::to_string(different) +
                          " different symbols: they are not dithered "
                          "independently");
          count("pairs_of_blocks");
        }
      outcome(mc::finalState());
    };
    list.push_back(s);
  }
}

// ---- the file format

struct FormatSettings {
  int bits, dist, norm;
  double nu, truncation;
};

void formatWritten(bool thorough) {
  Config c;
  static const int bits[] = {2, 3, 4, 6, 8, 10, 12, 16};
  c.dataBits = pickFrom(bits);
  c.dist = mc::choose(4, 0);
  c.norm = mc::choose(3, 0);
  c.columns = columnSet(mc::choose(6, 0));
  const int other = mc::choose(thorough ? 8 : 2, 0);
  c.firstValue = 37 * (1 + other);
  c.weightBits = bits[(c.dataBits + other * 3) % 8];
  c.nu = other % 2 ? 5.5 : 2.0;
  c.truncation = other % 2 ? 2.5 : 1.75;
  c.coarse = true;
  static const int rows[] = {1, 3, 4, 9};
  static const int shapes[][2] = {{1, 1}, {2, 3}, {4, 2}, {3, 5}};
  const int layout = mc::choose(thorough ? 4 : 2, 0);
  c.baselines = baselineSet(rows[(layout + c.dist) % 4]);
  c.nPol = shapes[(layout + c.norm) % 4][0];
  c.nChan = shapes[(layout + c.norm) % 4][1];
  c.nRows = c.rowsPerBlock() * 2 + (c.rowsPerBlock() + 1) / 2;
  static const std::string names[] = {"DyscoData", "x",
                                      "a longer storage manager name" +
                                          std::string(300, '_'),
                                      "D.1_-"};
  c.managerName = names[(layout + c.dist + c.norm) % 4];
  c.processors = 1;
  TestTable t(c);
  {
    Deterministic d(c, false);
    t.create();
    for (int r = 0; r != c.nRows; ++r)
      for (int col = 0; col != t.nColumns(); ++col)
        // Leave some rows unwritten, and the last part of the last columns
        if (r <= c.rowsPerBlock() || (r + col) % 5 != 0) t.put(col, r);
    t.close();
  }
  {
    Deterministic d(c, false);
    // Compares what Dysco returns with the independent reader
    t.verifyFile();
  }
  // Compares the independent reader with what was written
  t.verifyAdjacent();
  count("tables");
}

// A file that is made by the independent writer
void formatRead(bool thorough) {
  Config c;
  static const int bits[] = {2, 3, 4, 6, 8, 10, 12, 16};
  ref::Header h;
  h.dataBits = pickFrom(bits);
  h.distribution = mc::choose(4, 0);
  h.normalization = mc::choose(3, 0);
  const int set = mc::choose(6, 0);
  c.columns = columnSet(set);
  // It takes long to calculate many levels
  const bool slow = h.dataBits >= 12 && h.distribution != ref::Uniform;
  const int variant = mc::choose(thorough ? 12 : slow ? 1 : 4, 0);
  h.weightBits = bits[(h.dataBits + variant) % 8];
  h.nu = 1.0 + variant;
  h.truncation = 1.5 + 0.25 * variant;
  h.name = variant % 3 == 2 ? "another name" : "DyscoData";
  static const uint32_t gaps[] = {0, 12, 7, 1000};
  h.gap = gaps[variant % 4] * c.columns.size();
  h.versionMajor = 1;
  h.versionMinor = 0;
  static const int rows[] = {1, 3, 4, 9};
  static const int shapes[][2] = {{1, 1}, {2, 3}, {4, 2}, {3, 5}};
  c.baselines = baselineSet(rows[(variant + h.distribution) % 4]);
  c.nPol = shapes[(variant / 2 + h.normalization) % 4][0];
  c.nChan = shapes[(variant / 2 + h.normalization) % 4][1];
  const int n = c.rowsPerBlock();
  c.nRows = 3 * n + (n > 1 ? 1 : 0);
  c.processors = 1;
  // The settings with which the table is created are others
  c.norm = h.normalization == ref::RF ? ref::Row : ref::RF;
  c.dist = h.distribution == ref::Uniform ? ref::Gaussian : ref::Uniform;
  c.dataBits = h.dataBits == 8 ? 6 : 8;
  c.weightBits = h.weightBits == 8 ? 6 : 8;
  c.coarse = true;
  TestTable t(c);
  Deterministic d(c, false);
  t.create();
  for (int r = 0; r != n + 1; ++r)
    for (int col = 0; col != t.nColumns(); ++col) t.put(col, r);
  t.close();
  const std::string path = t.dyscoFile();
  note("replaced by a file with " + std::to_string(h.dataBits) + "," +
       std::to_string(h.weightBits) + " bits, distribution " +
       std::to_string(h.distribution) + ", normalization " +
       std::to_string(h.normalization) + ", " + std::to_string(h.gap) +
       " unused bytes");

  int nAnt = 0;
  for (auto& b : c.baselines)
    nAnt = std::max(nAnt, std::max(b.first, b.second) + 1);
  h.rowsPerBlock = n;
  h.antennaCount = nAnt;
  std::vector<ref::Layout> layouts;
  for (const ColumnConfig& col : c.columns) {
    layouts.push_back(ref::layout(h, col.weight, c.nPol, c.nChan));
    h.columns.push_back({12, uint32_t(layouts.back().size), h.antennaCount});
    h.blockSize += layouts.back().size;
  }
  h.columnCount = c.columns.size();
  std::vector<uint8_t> file = ref::serialize(h);
  h.headerSize = file.size();
  uint32_t state = 12345 + variant;
  auto next = [&]() { return (state = state * 1664525u + 1013904223u) >> 8; };
  const int nBlocks = (c.nRows + n - 1) / n;
  for (int b = 0; b != nBlocks; ++b)
    for (const ref::Layout& l : layouts) {
      std::vector<uint8_t> part(l.size, 0);
      for (size_t i = 0; i != l.metaFloats; ++i) {
        // Some scale factors are zero
        const float f = next() % 11 == 0 ? 0.0f : (1 + next() % 1000) * 0.0037f;
        memcpy(&part[i * 4], &f, 4);
      }
      for (size_t i = 0; i != l.symbols; ++i)
        ref::setSymbol(&part[l.metaFloats * 4], i, l.bits,
                       i < (1u << l.bits) && b == 0 ? i
                                                    : next() % (1u << l.bits));
      file.insert(file.end(), part.begin(), part.end());
    }
  // The last block is complete, or ends within or after one of its columns
  const int cut = mc::choose(slow && !thorough ? 2 : 4, 0);
  const size_t lastBlock = h.headerSize + size_t(nBlocks - 1) * h.blockSize;
  if (cut == 1) file.resize(lastBlock + layouts[0].size);
  if (cut == 2) file.resize(lastBlock + layouts[0].size / 2);
  if (cut == 3) file.resize(lastBlock);
  note("of " + std::to_string(file.size()) + " bytes");
  {
    std::ofstream out(path, std::ios::binary | std::ios::trunc);
    out.write(reinterpret_cast<char*>(file.data()), file.size());
  }
  t.open(false);
  size_t offset = 0;
  for (int col = 0; col != t.nColumns(); ++col) {
    const std::vector<float> levels =
        c.columns[col].weight
            ? std::vector<float>()
            : ref::levels(h.distribution, h.dataBits, h.nu, h.truncation);
    const ref::Layout& l = layouts[col];
    for (int r = 0; r != c.nRows; ++r) {
      const auto& bl = c.baselines[r % n];
      if (h.normalization == ref::AF && bl.first == bl.second &&
          !c.columns[col].weight)
        continue;
      const size_t pos = h.headerSize + size_t(r / n) * h.blockSize + offset;
      const bool stored = pos + l.size <= file.size();
      std::vector<std::complex<double>> want(c.nPol * c.nChan);
      if (stored)
        ref::decodeRow(h, l, &file[pos], r % n, bl.first, bl.second, levels,
                       want.data());
      const std::vector<cfloat> got = t.read(col, r);
      for (size_t v = 0; v != want.size(); ++v) {
        const double w[2] = {want[v].real(), want[v].imag()};
        const double g[2] = {got[v].real(), got[v].imag()};
        // One non-finite component may make the visibility non-finite
        const bool finite = std::isfinite(w[0]) && std::isfinite(w[1]);
        bool ok = finite || !(std::isfinite(g[0]) && std::isfinite(g[1]));
        for (int k = 0; k != 2 && finite; ++k)
          ok = ok && std::fabs(g[k] - w[k]) <= 4e-6 * std::fabs(w[k]) + 1e-12;
        if (!ok) {
          std::ostringstream s;
          s << "row " << r << " of " << c.columns[col].name << " value " << v
            << " of a file by an independent writer: Dysco returns " << got[v]
            << ", expected " << want[v];
          violation("format", s.str());
        }
        count("values_decoded_independently");
      }
    }
    offset += l.size;
  }
  t.close();
  if (ref::readFile(path) != file)
    violation("file", "reading changed the file");
  count("files_by_independent_writer");
}

// A file larger than 4 GB, of which only a few blocks are written
void formatLarge() {
  Config c;
  c.baselines = baselineSet(1);
  c.firstValue = 21;
  c.nPol = 4;
  c.nChan = 15000;
  c.columns = columnSet(mc::choose(2, 0));
  c.nRows = 18500;
  c.processors = 1;
  c.norm = ref::Row;
  TestTable t(c);
  const int eager = mc::choose(2, 0);
  std::vector<int> rows{0, 1};
  {
    Deterministic d(c, eager != 0);
    t.create();
    for (int col = 0; col != t.nColumns(); ++col) t.put(col, 0);
    for (int col = 0; col != t.nColumns(); ++col) t.put(col, 1);
    t.close();
    // Around the limits of 31 and 32 bits
    std::vector<uint8_t> head = ref::readFile(t.dyscoFile());
    ref::Header h;
    const std::string error = ref::parse(head, h);
    if (!error.empty()) violation("format", error);
    for (uint64_t limit : {uint64_t(1) << 31, uint64_t(1) << 32, uint64_t(1) << 33}) {
      const int block = (limit - h.headerSize) / h.blockSize;
      for (int k = -1; k <= 1; ++k)
        if (block + k < c.nRows) rows.push_back(block + k);
    }
    rows.push_back(c.nRows - 1);
    t.open(true);
    for (size_t i = 2; i != rows.size(); ++i)
      for (int col = 0; col != t.nColumns(); ++col) t.put(col, rows[i]);
    t.get(0, rows[3]);
    t.close();
    struct stat st;
    stat(t.dyscoFile().c_str(), &st);
    if (uint64_t(st.st_size) !=
        h.headerSize + uint64_t(c.nRows) * h.blockSize)
      violation("format", "file size is " + std::to_string(st.st_size));
    // Read with an independent reader
    const int fd = open(t.dyscoFile().c_str(), O_RDONLY);
    size_t offset = 0;
    for (int col = 0; col != t.nColumns(); ++col) {
      const ref::Layout l =
          ref::layout(h, c.columns[col].weight, c.nPol, c.nChan);
      const std::vector<float> levels =
          c.columns[col].weight
              ? std::vector<float>()
              : ref::levels(h.distribution, h.dataBits, h.nu, h.truncation);
      for (int r : rows) {
        std::vector<uint8_t> part(l.size);
        const uint64_t pos = h.headerSize + uint64_t(r) * h.blockSize + offset;
        if (pread(fd, part.data(), l.size, pos) != ssize_t(l.size))
          violation("format", "block is not in the file");
        std::vector<std::complex<double>> v(c.nPol * c.nChan);
        ref::decodeRow(h, l, part.data(), 0, 0, 1, levels, v.data());
        for (int i = 0; i != c.nPol * c.nChan; ++i) {
          const int id = t.cell(col, r).id;
          const cfloat want =
              c.columns[col].weight
                  ? cfloat(TestTable::weight(id), 0)
                  : TestTable::value(id, i % c.nPol, i / c.nPol);
          if (!(std::abs(v[i] - std::complex<double>(want)) < 0.002))
            violation("format", "row " + std::to_string(r) +
                                    " is not at its place in a large file");
          count("values_decoded_independently");
        }
      }
      offset += l.size;
    }
    close(fd);
  }
  Deterministic d(c, false);
  t.open(false);
  for (int col = 0; col != t.nColumns(); ++col) {
    for (int r : rows) t.get(col, r);
    t.get(col, 5);
    t.get(col, rows[2] - 1);
  }
  t.close();
  removeTable(t.directory());
}

// ---- a file that can only be read

}  // namespace

void addGrid(ScenarioList& list, const std::string& kind, bool thorough) {
  if (kind == "write") {
    add(list, "grid/write", [=]() { gridWrite(thorough, false); });
    add(list, "grid/write-swapped", [=]() { gridWrite(thorough, true); });
    add(list, "grid/write-many", [=]() { gridMany(thorough); });
    add(list, "grid/write-antennas", [=]() { gridAntennas(thorough); });
    add(list, "grid/format-large", [=]() { formatLarge(); });
  } else if (kind == "memory") {
    add(list, "grid/memory", [=]() { gridMemory(thorough); });
  } else if (kind == "seed") {
    addSeed(list, thorough);
  } else if (kind == "dither") {
    addDitheredBlocks(list, thorough);
  } else if (kind == "progress") {
    add(list, "grid/progress", [=]() { progress(thorough); });
    addExploredProgress(list, thorough);
  } else if (kind == "format") {
    add(list, "grid/format-written", [=]() { formatWritten(thorough); });
    add(list, "grid/format-read", [=]() { formatRead(thorough); });
    add(list, "grid/format-large", [=]() { formatLarge(); });
  }
}
