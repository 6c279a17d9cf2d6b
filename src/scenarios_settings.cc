// Settings through reopening, copying and conversion (C14) and requests and
// files that are to be refused (C15).
#include "scenarios.h"

#include "mc.h"

#include <dyscostman.h>

#include <cmath>
#include <cstring>
#include <fstream>
#include <limits>
#include <sstream>

#include <sys/stat.h>
#include <unistd.h>

#include <casacore/tables/DataMan/DataManager.h>
#include <casacore/tables/Tables/ArrColDesc.h>
#include <casacore/tables/Tables/ArrayColumn.h>
#include <casacore/tables/Tables/ScaColDesc.h>
#include <casacore/tables/Tables/Table.h>
#include <casacore/tables/Tables/TableDesc.h>
#include <casacore/tables/Tables/TableRecord.h>

using casacore::DataManager;
using casacore::Record;
using casacore::Table;
using dyscostman::DyscoStMan;

namespace {

void add(ScenarioList& list, const std::string& name,
         std::function<void()> run) {
  Scenario s;
  s.name = name;
  s.cache = false;
  s.run = run;
  list.push_back(s);
}

const char* distributionName(int d) {
  static const char* names[] = {"Gaussian", "Uniform", "StudentsT",
                                "TruncatedGaussian"};
  return names[d];
}
const char* normalizationName(int n) {
  static const char* names[] = {"AF", "RF", "Row"};
  return names[n];
}

Record specOf(const Config& c) {
  Record r;
  r.define("dataBitCount", c.dataBits);
  r.define("weightBitCount", c.weightBits);
  r.define("distribution", distributionName(c.dist));
  r.define("normalization", normalizationName(c.norm));
  if (c.dist == ref::StudentsT) r.define("studentTNu", c.nu);
  r.define("distributionTruncation", c.truncation);
  return r;
}

DyscoStMan* makeWithSetters(const Config& c) {
  std::unique_ptr<DyscoStMan> m(
      new DyscoStMan(c.dataBits, c.weightBits, c.managerName));
  switch (c.dist) {
    case ref::Gaussian: m->SetGaussianDistribution(); break;
    case ref::Uniform: m->SetUniformDistribution(); break;
    case ref::StudentsT: m->SetStudentsTDistribution(c.nu); break;
    default: m->SetTruncatedGaussianDistribution(c.truncation); break;
  }
  m->SetNormalization(c.norm == ref::AF   ? dyscostman::Normalization::kAF
                      : c.norm == ref::RF ? dyscostman::Normalization::kRF
                                          : dyscostman::Normalization::kRow);
  return m.release();
}

void checkSpec(const Record& r, const Config& c, const char* what) {
  std::ostringstream s;
  if (r.asInt("dataBitCount") != c.dataBits)
    s << " dataBitCount=" << r.asInt("dataBitCount");
  if (r.asInt("weightBitCount") != c.weightBits)
    s << " weightBitCount=" << r.asInt("weightBitCount");
  // Student's t distribution has been given two names
  const std::string dist = r.asString("distribution");
  if (dist != distributionName(c.dist) &&
      !(c.dist == ref::StudentsT && dist == "StudentT"))
    s << " distribution=" << dist;
  if (r.asString("normalization") != normalizationName(c.norm))
    s << " normalization=" << r.asString("normalization");
  if (c.dist == ref::StudentsT && r.asDouble("studentTNu") != c.nu)
    s << " studentTNu=" << r.asDouble("studentTNu");
  if (c.dist == ref::TruncatedGaussian &&
      r.asDouble("distributionTruncation") != c.truncation)
    s << " distributionTruncation=" << r.asDouble("distributionTruncation");
  if (!s.str().empty())
    violation("settings", std::string(what) + " has" + s.str() +
                              " instead of " + c.describe());
  count("specifications_compared");
}

void checkManager(const DataManager& m, const Config& c, const char* what) {
  checkSpec(m.dataManagerSpec(), c, what);
  if (m.dataManagerName() != c.managerName)
    violation("settings", std::string(what) + " is named '" +
                              m.dataManagerName() + "'");
  if (m.dataManagerType() != "DyscoStMan")
    violation("settings", std::string(what) + " has another type");
}

void checkTable(TestTable& t) {
  t.open(false);
  DataManager* m = t.table().findDataManager(t.config().managerName);
  checkManager(*m, t.config(), "the manager of the opened table");
  // As other programs see it
  const Record info = t.table().dataManagerInfo();
  bool found = false;
  for (size_t i = 0; i != info.nfields(); ++i) {
    const Record sub = info.subRecord(i);
    if (sub.asString("TYPE") != "DyscoStMan") continue;
    found = true;
    if (sub.asString("NAME") != t.config().managerName)
      violation("settings", "the table lists another manager name");
    checkSpec(sub.subRecord("SPEC"), t.config(), "the listed specification");
  }
  if (!found) violation("settings", "the table does not list its manager");
  t.close();
  t.verifyFile();
}

void writeSome(TestTable& t) {
  const int n = t.config().rowsPerBlock();
  for (int r = 0; r != t.nRows(); ++r)
    for (int c = 0; c != t.nColumns(); ++c)
      if (r <= n || (r + c) % 4 != 0) t.put(c, r);
}

void settings(bool thorough) {
  Config c;
  static const int bits[] = {2, 3, 4, 6, 8, 10, 12, 16};
  static const double nus[] = {1.0, 2.3, 12.1};
  static const double truncations[] = {1.0, 2.3, 4.7};
  // In quick, the number of combinations is limited by covering pairs
  const int b = mc::choose(8, 0);
  c.dataBits = bits[b];
  c.dist = mc::choose(4, 0);
  c.norm = mc::choose(3, 0);
  const int parameter =
      c.dist == ref::StudentsT || c.dist == ref::TruncatedGaussian
          ? mc::choose(b >= 6 ? 1 : thorough ? 3 : 2, 0)
          : 0;
  c.nu = nus[(parameter + b) % 3];
  c.truncation = truncations[(parameter + b) % 3];
  c.weightBits = bits[(b * 3 + c.dist + 1) % 8];
  static const std::string names[] = {"DyscoData", "other",
                                      std::string(300, 'n') + "3",
                                      "a b/\xc3\xa9 \"x\""};
  c.managerName = names[(b + c.norm) % 4];
  c.baselines = allBaselines(3, false);
  c.nRows = 8;
  c.nPol = 2;
  c.nChan = 2;
  c.columns = c.norm == ref::RF ? dataAndWeight() : dataColumns(2);
  c.processors = 1;
  c.coarse = true;
  c.firstValue = 60;
  const int way = mc::choose(4, 0);
  std::shared_ptr<DataManager> source;
  std::function<DataManager*()> make;
  if (way == 0) {
    note("(manager made with the setters)");
  } else if (way == 1) {
    note("(manager made from a specification)");
    source.reset(DyscoStMan::makeObject(c.managerName, specOf(c)));
    checkManager(*source, c, "a manager made from a specification");
    make = [source]() { return source->clone(); };
  } else if (way == 2) {
    note("(manager made by cloning a clone)");
    source.reset(makeWithSetters(c));
    checkManager(*source, c, "a manager");
    source.reset(source->clone());
    checkManager(*source, c, "a clone");
    make = [source]() { return source->clone(); };
  } else {
    note("(manager made with the specification of another)");
    std::unique_ptr<DataManager> other(makeWithSetters(c));
    source.reset(DataManager::getCtor("DyscoStMan")(c.managerName,
                                                    other->dataManagerSpec()));
    checkManager(*source, c, "a manager with the specification of another");
    make = [source]() { return source->clone(); };
  }
  Config start = c;
  start.makeManager = make;
  Deterministic d(c, false);
  std::unique_ptr<TestTable> t(new TestTable(start));
  t->create();
  writeSome(*t);
  t->close();
  t->verifyAdjacent();
  checkTable(*t);
  const bool slow = c.dataBits >= 12 && c.dist != ref::Uniform;
  const int depth = thorough ? (slow ? 2 : 3)
                    : slow   ? (way == 0 ? 1 : 0)
                             : (way == 0 ? 2 : 1);
  for (int i = 0; i != depth; ++i) {
    const int step = mc::choose(7, 0);
    if (step == 0) break;
    const std::string dir = scratch() + "/copy" + std::to_string(i);
    switch (step) {
      case 1: {
        t->open(true);
        const int n = t->nRows();
        t->addRows(2);
        t->put(0, n);
        t->put(t->nColumns() - 1, 1);
        t->close();
        break;
      }
      case 2:
      case 3: {
        // A new table with (a copy of) the manager of this one
        t->open(false);
        DataManager* m = t->table().findDataManager(t->config().managerName);
        std::shared_ptr<DataManager> copy;
        Config next = t->config();
        if (step == 2) {
          note("new table with a clone of this manager");
          copy.reset(m->clone());
        } else {
          note("new table with the specification of this manager");
          next.managerName = "respecified";
          copy.reset(DataManager::getCtor("DyscoStMan")(next.managerName,
                                                        m->dataManagerSpec()));
        }
        checkManager(*copy, next, "the manager of the new table");
        t->close();
        copy.reset(copy->clone());
        next.makeManager = [copy]() { return copy->clone(); };
        next.nRows = 8;
        t.reset(new TestTable(next, "new" + std::to_string(i)));
        t->create();
        writeSome(*t);
        t->close();
        t->verifyAdjacent();
        break;
      }
      case 4:
      case 5: {
        note(step == 4 ? "deep copy by value" : "deep copy");
        t->open(false);
        removeTable(dir);
        t->table().deepCopy(dir, Table::New, step == 4);
        t->close();
        t->setDirectory(dir);
        if (step == 4) {
          // Everything was written again: the block size is known
          t->setRowsPerBlock(t->config().rowsPerBlock());
        }
        break;
      }
      default: {
        note("rename");
        t->open(true);
        removeTable(dir);
        t->table().rename(dir, Table::New);
        t->close();
        t->setDirectory(dir);
        break;
      }
    }
    checkTable(*t);
    count("steps");
  }
  count("tables");
}

// ---- refused requests

typedef std::function<void(TestTable&)> Request;

template <typename T>
casacore::ArrayColumnDesc<T> arrayDesc(const std::string& name,
                                       const std::string& manager, int nDim) {
  casacore::IPosition shape(nDim, 2);
  casacore::ArrayColumnDesc<T> d(name, "", "DyscoStMan", manager, shape);
  d.setOptions(casacore::ColumnDesc::Direct | casacore::ColumnDesc::FixedShape);
  return d;
}

struct NamedRequest {
  std::string name;
  Request run;
  bool onlyWithData;  // the request is valid as long as nothing was written
};

Record specWith(const std::function<void(Record&)>& change) {
  Config c;
  c.dataBits = 8;
  Record r = specOf(c);
  change(r);
  return r;
}

std::vector<NamedRequest> requests() {
  std::vector<NamedRequest> list;
  auto addTo = [&](const std::string& what, auto desc, bool onlyWithData) {
    list.push_back({"add " + what + " to the manager",
                    [desc](TestTable& t) {
                      t.table().addColumn(desc, t.config().managerName, true);
                    },
                    onlyWithData});
  };
  // A manager in addition to the one that is in use
  auto addNew = [&](const std::string& what, auto desc) {
    list.push_back({"add " + what + " with a new manager",
                    [desc](TestTable& t) {
                      DyscoStMan m(8, 8, "NEW");
                      m.SetUniformDistribution();
                      t.table().addColumn(desc, m);
                    },
                    false});
  };
  for (int existing = 0; existing != 2; ++existing) {
    auto request = [&](const std::string& what, auto desc) {
      if (existing)
        addTo(what, desc, false);
      else
        addNew(what, desc);
    };
    request("a scalar float column",
            casacore::ScalarColumnDesc<float>("NEWCOL", "", "DyscoStMan", "NEW"));
    request("a scalar complex column",
            casacore::ScalarColumnDesc<casacore::Complex>("NEWCOL", "",
                                                          "DyscoStMan", "NEW"));
    request("an indirect complex array column",
            casacore::ArrayColumnDesc<casacore::Complex>("NEWCOL", "",
                                                         "DyscoStMan", "NEW", 2));
    request("a double complex column",
            arrayDesc<casacore::DComplex>("NEWCOL", "NEW", 2));
    request("an integer column", arrayDesc<casacore::Int>("NEWCOL", "NEW", 2));
    request("a boolean column", arrayDesc<casacore::Bool>("NEWCOL", "NEW", 2));
    request("a float column that is not WEIGHT_SPECTRUM",
            arrayDesc<float>("NEWCOL", "NEW", 2));
    request("a double column", arrayDesc<double>("NEWCOL", "NEW", 2));
    request("a one-dimensional column",
            arrayDesc<casacore::Complex>("NEWCOL", "NEW", 1));
    request("a three-dimensional column",
            arrayDesc<casacore::Complex>("NEWCOL", "NEW", 3));
    request("complex weights",
            arrayDesc<casacore::Complex>("WEIGHT_SPECTRUM", "NEW", 2));
    request("double weights", arrayDesc<double>("WEIGHT_SPECTRUM", "NEW", 2));
  }
  addTo("a complex column", arrayDesc<casacore::Complex>("NEWCOL", "NEW", 2),
        true);
  addTo("a weight column", arrayDesc<float>("WEIGHT_SPECTRUM", "NEW", 2), true);
  for (int weights = 0; weights != 2; ++weights)
    for (int b : {0, 1, 5, 7, 9, 11, 13, 14, 15, 17, 24, 31, 32, 33, 64, 256}) {
      list.push_back(
          {"add a column with " + std::to_string(b) + " bits per " +
               (weights ? "weight" : "data value"),
           [=](TestTable& t) {
             DyscoStMan m(weights ? 8 : b, weights ? b : 8, "NEW");
             m.SetUniformDistribution();
             if (weights)
               t.table().addColumn(arrayDesc<float>("WEIGHT_SPECTRUM", "NEW", 2),
                                   m);
             else
               t.table().addColumn(
                   arrayDesc<casacore::Complex>("NEWCOL", "NEW", 2), m);
           },
           false});
    }
  // Settings that do not give any usable levels
  const double nan = std::numeric_limits<double>::quiet_NaN();
  for (double v : {0.0, -1.0, nan, 1e-300, 1e-100}) {
    std::ostringstream o;
    o << v;
    list.push_back({"add a column with Student's t distribution with nu=" +
                        o.str(),
                    [=](TestTable& t) {
                      DyscoStMan m(8, 8, "NEW");
                      m.SetStudentsTDistribution(v);
                      t.table().addColumn(
                          arrayDesc<casacore::Complex>("NEWCOL", "NEW", 2), m);
                    },
                    false});
    list.push_back({"add a column with a Gaussian truncated at " +
                        o.str(),
                    [=](TestTable& t) {
                      DyscoStMan m(8, 8, "NEW");
                      m.SetTruncatedGaussianDistribution(v);
                      t.table().addColumn(
                          arrayDesc<casacore::Complex>("NEWCOL", "NEW", 2), m);
                    },
                    false});
  }
  // Specifications
  auto spec = [&](const std::string& name,
                  const std::function<void(Record&)>& change) {
    list.push_back({"make a manager from a specification " + name,
                    [=](TestTable& t) {
                      Record r = specWith(change);
                      std::unique_ptr<DataManager> m(
                          DyscoStMan::makeObject("NEW", r));
                      t.table().addColumn(
                          arrayDesc<casacore::Complex>("NEWCOL", "NEW", 2), *m);
                    },
                    false});
  };
  spec("with zero data bits", [](Record& r) { r.define("dataBitCount", 0); });
  spec("with zero weight bits", [](Record& r) { r.define("weightBitCount", 0); });
  spec("with negative data bits",
       [](Record& r) { r.define("dataBitCount", -8); });
  spec("with seven data bits", [](Record& r) { r.define("dataBitCount", 7); });
  spec("with an unknown distribution",
       [](Record& r) { r.define("distribution", "uniform"); });
  spec("with an unknown normalization",
       [](Record& r) { r.define("normalization", "ROW"); });
  spec("without settings", [](Record& r) { r = Record(); });
  for (const char* field : {"weightBitCount", "distribution", "normalization",
                            "distributionTruncation"})
    spec(std::string("without ") + field,
         [=](Record& r) { r.removeField(field); });
  spec("with Student's t distribution, but without nu",
       [](Record& r) { r.define("distribution", "StudentsT"); });
  // Rows
  list.push_back({"remove the first row",
                  [](TestTable& t) { t.table().removeRow(0); }, false});
  list.push_back({"remove the last row but one",
                  [](TestTable& t) { t.table().removeRow(t.nRows() - 2); },
                  false});
  return list;
}

void refusedRequests(bool thorough) {
  static const std::vector<NamedRequest> all = requests();
  Config c;
  c.baselines = allBaselines(3, false);
  c.baselines.resize(2);
  c.nPol = 2;
  c.nChan = 2;
  c.nRows = 6;
  c.processors = 1;
  const int set = mc::choose(2, 0);
  c.columns = set ? dataAndWeight() : dataColumns(1);
  const int stage = mc::choose(6, 0);
  const NamedRequest& request = all[mc::choose(all.size(), 0)];
  const bool eager = thorough ? mc::choose(2, 0) != 0 : stage % 2 != 0;
  Deterministic d(c, eager);
  TestTable t(c);
  t.create();
  int next = 0;  // next row to be written
  if (stage == 1) next = 1;
  if (stage == 2) next = 3;
  if (stage >= 3) next = 5;
  for (int r = 0; r != next; ++r)
    for (int col = 0; col != t.nColumns(); ++col) t.put(col, r);
  if (stage == 4 || stage == 5) {
    t.close();
    t.open(true);
  }
  if (stage == 5) t.put(0, 1);
  if (request.onlyWithData && stage == 0) return;
  // This column exists already
  if (set && request.name.find("weight") != std::string::npos &&
      request.name.find("specification") == std::string::npos)
    return;
  note(request.name);
  bool refused = false;
  try {
    request.run(t);
  } catch (std::exception& e) {
    refused = true;
    note("refused");
  }
  if (!refused)
    violation("accepted", "the request was not refused: " + request.name);
  // casacore itself keeps (a part of) columns of which the addition failed:
  // only what is stored by this manager is looked at.
  if (t.table().tableDesc().isColumn("NEWCOL") ||
      (!set && t.table().tableDesc().isColumn("WEIGHT_SPECTRUM")))
    count("columns_kept_by_casacore");
  for (int r = 0; r != next; ++r)
    for (int col = 0; col != t.nColumns(); ++col) t.get(col, r);
  if (mc::choose(2, 0)) {
    for (int r = next; r != t.nRows(); ++r)
      for (int col = 0; col != t.nColumns(); ++col) t.put(col, r);
  }
  t.close();
  t.verifyFile();
  t.open(false);
  t.getAll();
  t.close();
  count("requests_refused");
}

// AF: antennas that are not in the first block
void refusedAntennas() {
  Config c;
  c.norm = ref::AF;
  c.baselines = allBaselines(3, false);
  c.nRows = 9;
  c.processors = 1;
  const int weights = mc::choose(2, 0);
  if (weights) c.columns = dataAndWeight();
  else c.columns = dataColumns(1);
  const int row = 3 + mc::choose(6, 0);
  const int which = mc::choose(2, 0);
  const int antennas[] = {3, 4, 100, 2000000000};
  const int antenna = antennas[mc::choose(4, 0)];
  const bool reopen = mc::choose(2, 0);
  Deterministic d(c, false);
  TestTable t(c);
  t.create();
  for (int r = 0; r != 4; ++r)
    for (int col = 0; col != t.nColumns(); ++col) t.put(col, r);
  if (reopen) {
    t.close();
    t.open(true);
  }
  {
    casacore::ScalarColumn<int> a(t.table(), which ? "ANTENNA2" : "ANTENNA1");
    const int old = a(row);
    a.put(row, antenna);
    note("set antenna of row " + std::to_string(row) + " to " +
         std::to_string(antenna));
    bool refused = false;
    casacore::Array<casacore::Complex> values(
        casacore::IPosition(2, c.nPol, c.nChan));
    values = casacore::Complex(1, 0);
    try {
      casacore::ArrayColumn<casacore::Complex> data(t.table(), "DATA");
      data.put(row, values);
    } catch (std::exception&) {
      refused = true;
    }
    if (!refused) violation("accepted", "an unknown antenna was accepted");
    // Also while it is there, the other rows can be read and written
    t.get(0, row == 4 ? 5 : 4);
    t.put(0, row == 7 ? 6 : 7);
    t.get(0, 0);
    a.put(row, old);
  }
  t.put(0, row);
  t.close();
  t.verifyFile();
  count("requests_refused");
}

// ---- damaged files

void writeFile(const std::string& path, const std::vector<uint8_t>& data) {
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  f.write(reinterpret_cast<const char*>(data.data()), data.size());
}

struct Damage {
  std::string name;
  std::vector<uint8_t> file;
  bool missing = false;
  bool fine = false;  // not damaged
  bool maybe = false;  // need not be refused, but should do no harm
};

std::vector<Damage> damages(const std::vector<uint8_t>& good) {
  std::vector<Damage> list;
  ref::Header h;
  const std::string error = ref::parse(good, h);
  if (!error.empty()) violation("format", error);
  Damage d;
  d.name = "missing file";
  d.missing = true;
  list.push_back(d);
  d = Damage();
  d.name = "unchanged file";
  d.file = good;
  d.fine = true;
  list.push_back(d);
  const size_t end = h.columnHeaderOffset + 12 * h.columns.size();
  for (size_t n = 0; n != end; ++n) {
    d = Damage();
    d.name = "file truncated to " + std::to_string(n) + " bytes";
    d.file.assign(good.begin(), good.begin() + n);
    list.push_back(d);
  }
  const size_t version = 16 + h.name.size() + 12;
  for (int b = 0; b != 4; ++b)
    for (int v : {0, 1, 2, 3, 9, 128, 255}) {
      d = Damage();
      d.file = good;
      if (d.file[version + b] == v) continue;
      d.file[version + b] = v;
      d.name = "file with byte " + std::to_string(b) + " of the version set to " +
               std::to_string(v);
      list.push_back(d);
    }
  for (uint32_t n : {0u, 1u, 2u, 3u, 4u, 256u, 0x01000000u, 0xffffffffu}) {
    if (n == h.columnCount) continue;
    d = Damage();
    d.file = good;
    for (int i = 0; i != 4; ++i) d.file[8 + i] = n >> (8 * i);
    d.name = "file with " + std::to_string(n) + " columns";
    list.push_back(d);
  }
  for (uint32_t n : {0x7fffffffu, 0xffffffffu, 100000u}) {
    d = Damage();
    d.file = good;
    for (int i = 0; i != 4; ++i) d.file[12 + i] = n >> (8 * i);
    d.name = "file with a name of " + std::to_string(n) + " bytes";
    list.push_back(d);
  }
  // Unknown settings
  for (int v : {4, 5, 100, 255}) {
    d = Damage();
    d.file = good;
    d.file[version + 6] = v;
    d.name = "file with distribution " + std::to_string(v);
    list.push_back(d);
  }
  for (int v : {3, 4, 100, 255}) {
    d = Damage();
    d.file = good;
    d.file[version + 7] = v;
    d.name = "file with normalization " + std::to_string(v);
    list.push_back(d);
  }
  for (int k = 0; k != 2; ++k)
    for (int v : {0, 1, 5, 7, 9, 13, 17, 32, 255}) {
      d = Damage();
      d.file = good;
      d.file[version + 4 + k] = v;
      d.name = std::string("file with ") + std::to_string(v) +
               (k ? " bits per weight" : " bits per data value");
      list.push_back(d);
    }
  // Parameters of the distribution without usable levels
  const double nan = std::numeric_limits<double>::quiet_NaN();
  const double inf = std::numeric_limits<double>::infinity();
  for (int k = 0; k != 2; ++k)
    for (double v : {0.0, -1.0, nan, 1e-300, -inf, k ? 1e-100 : inf}) {
      d = Damage();
      d.file = good;
      d.file[version + 6] = k ? ref::TruncatedGaussian : ref::StudentsT;
      std::memcpy(&d.file[version + 8 + 8 * k], &v, 8);
      std::ostringstream o;
      o << "file with a " << (k ? "Gaussian truncated at " : "Student's t distribution with nu=") << v;
      d.name = o.str();
      list.push_back(d);
    }
  d = Damage();
  d.file = good;
  d.file[version + 6] = ref::StudentsT;
  const double nu = 0.7;
  std::memcpy(&d.file[version + 8], &nu, 8);
  d.name = "file with a Student's t distribution with nu=0.7";
  d.maybe = true;
  list.push_back(d);
  // Any other change of a byte
  for (size_t i = 0; i != end; ++i)
    for (int v : {good[i] ^ 0xff, good[i] ^ 0x80, good[i] ^ 1, 0}) {
      d = Damage();
      d.file = good;
      if (good[i] == v) continue;
      d.file[i] = v;
      d.maybe = true;
      d.name = "file with byte " + std::to_string(i) + " set to " + std::to_string(v);
      list.push_back(d);
    }
  return list;
}

void damagedFile() {
  Config c;
  c.baselines = allBaselines(3, false);
  c.nPol = 2;
  c.nChan = 2;
  c.processors = 1;
  c.norm = mc::choose(3, 0);
  c.columns = mc::choose(2, 0)
                  ? dataColumns(2)
                  : std::vector<ColumnConfig>{{"WEIGHT_SPECTRUM", true},
                                              {"DATA", false}};
  const int content = mc::choose(3, 0);  // nothing, one block, several
  c.nRows = content == 1 ? 3 : 8;
  Deterministic d(c, false);
  TestTable t(c);
  t.create();
  if (content != 0)
    for (int r = 0; r != c.nRows; ++r)
      for (int col = 0; col != 2; ++col) t.put(col, r);
  t.close();
  const std::string path = t.dyscoFile();
  const std::vector<uint8_t> good = ref::readFile(path);
  const std::vector<Damage> list = damages(good);
  const Damage& damage = list[mc::choose(list.size(), 0)];
  const bool writable = mc::choose(2, 0);
  if (damage.missing)
    unlink(path.c_str());
  else
    writeFile(path, damage.file);
  note("replaced by a " + damage.name);
  // Weights do not use the number of data bits and the other way around
  if (!t.config().columns[0].weight && damage.name.find("per weight") != std::string::npos)
    return;
  bool refused = false;
  try {
    t.open(writable);
    if (content != 0) t.read(0, 0);
    t.close();
  } catch (std::exception& e) {
    refused = true;
  }
  if (!damage.maybe && refused != !damage.fine)
    violation(refused ? "refused" : "accepted",
              "a " + damage.name + " was " + (refused ? "refused" : "accepted"));
  // It is left as it is
  if (!damage.missing && (refused || !writable) && ref::readFile(path) != damage.file)
    violation("file", "refusing a " + damage.name + " changed it");
  // The original is still usable
  writeFile(path, good);
  t.open(true);
  t.getAll();
  if (content != 0) t.put(0, 0);
  t.close();
  t.verifyFile();
  count("files_refused");
}

}  // namespace

void addSettings(ScenarioList& list, const std::string& kind, bool thorough) {
  if (kind == "chain") {
    add(list, "settings/chain", [=]() { settings(thorough); });
  } else if (kind == "refuse") {
    add(list, "refuse/requests", [=]() { refusedRequests(thorough); });
    add(list, "refuse/antennas", []() { refusedAntennas(); });
    add(list, "refuse/files", []() { damagedFile(); });
  }
}
