// dscompress (C18) and decompress (C19): the main() functions of the tools run
// in a process of their own, on all small measurement sets and option lists
// within the bounds. What they did is seen by reading the set before and after.
#include "scenarios.h"

#include "mc.h"

#include <dyscostman.h>

#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <sstream>

#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <casacore/casa/Arrays/Array.h>
#include <casacore/tables/DataMan/DataManager.h>
#include <casacore/tables/DataMan/IncrementalStMan.h>
#include <casacore/tables/DataMan/StandardStMan.h>
#include <casacore/tables/DataMan/TiledColumnStMan.h>
#include <casacore/tables/DataMan/TiledShapeStMan.h>
#include <casacore/tables/Tables/ArrColDesc.h>
#include <casacore/tables/Tables/ArrayColumn.h>
#include <casacore/tables/Tables/ScaColDesc.h>
#include <casacore/tables/Tables/ScalarColumn.h>
#include <casacore/tables/Tables/SetupNewTab.h>
#include <casacore/tables/Tables/Table.h>
#include <casacore/tables/Tables/TableRecord.h>

using namespace casacore;

// The build renames main()
extern "C" int dscompress_main(int argc, char** argv);
extern "C" int decompress_main(int argc, char** argv);
extern "C" void mcSeedRandomDevice(unsigned value);

namespace {

enum Manager { kStandard, kIndirect, kTiled, kTiledColumn, kIncremental, kDysco };

struct Settings {
  int norm = ref::AF, dist = ref::TruncatedGaussian;
  int dataBits = 8, weightBits = 12;
  double nu = 1.0, truncation = 2.5;
};

struct Col {
  std::string name;
  bool weight = false;
  int nPol = 2, nChan = 2;
  Manager manager = kStandard;
  std::string dyscoName = "DyscoData";  // of a Dysco manager
  bool declared = true;  // does the description have the Dysco manager?
  // Rows from here on are not written, or have another shape
  int undefinedFrom = 1000000, otherShapeFrom = 1000000;
};

struct Row {
  int a1, a2, field, dataDesc;
  double time;
};

struct Set {
  std::vector<Row> rows;
  std::vector<Col> cols;
  std::function<bool(int row, int pol, int chan)> flag;
  Settings dysco;       // of the columns that are already compressed
  int firstUnwritten = 1000000;  // rows of Dysco columns that are not written
  int neighbour = 0;  // what has the name of a temporary set: 1 table, 2 file
  std::string describe() const {
    std::ostringstream s;
    s << rows.size() << " rows:";
    double time = -1;
    int field = -1, dd = -1;
    for (const Row& r : rows) {
      if (&r - rows.data() > 40) {
        s << "...";
        break;
      }
      if (r.time != time || r.field != field || r.dataDesc != dd) s << " |";
      time = r.time;
      field = r.field;
      dd = r.dataDesc;
      s << ' ' << r.a1 << '-' << r.a2;
    }
    static const char* managers[] = {"standard", "indirect", "tiled",
                                     "tiledcolumn", "incremental", "dysco"};
    for (const Col& c : cols)
      s << "; " << c.name << ' ' << c.nPol << 'x' << c.nChan << ' '
        << managers[c.manager]
        << (c.manager == kDysco
                ? " " + c.dyscoName + (c.declared ? "" : " (bound)")
                : std::string());
    return s.str();
  }
};

// ---- files

void removeBelow(const std::string& path) {
  if (path.compare(0, scratch().size() + 1, scratch() + "/") != 0 ||
      path.find("..") != std::string::npos)
    violation("internal", "not a scratch path: " + path);
  DIR* d = opendir(path.c_str());
  if (d) {
    while (dirent* e = readdir(d)) {
      const std::string name = e->d_name;
      if (name == "." || name == "..") continue;
      const std::string p = path + "/" + name;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
        removeBelow(p);
      else
        unlink(p.c_str());
    }
    closedir(d);
  }
  rmdir(path.c_str());
}

// The tools run as an unprivileged user, who owns only the scratch directory
constexpr int kUser = 65534;

void giveAway(const std::string& path) {
  if (geteuid() != 0) return;
  if (lchown(path.c_str(), kUser, kUser) != 0)
    violation("internal", "cannot change the owner of " + path);
  DIR* d = opendir(path.c_str());
  if (!d) return;
  while (dirent* e = readdir(d)) {
    const std::string name = e->d_name;
    if (name == "." || name == "..") continue;
    const std::string p = path + "/" + name;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
      giveAway(p);
    else if (lchown(p.c_str(), kUser, kUser) != 0)
      violation("internal", "cannot change the owner of " + p);
  }
  closedir(d);
}

std::string home() { return scratch() + "/tools"; }
std::string setPath(const std::string& name = "x.ms") {
  return home() + "/" + name;
}

void clearHome() {
  removeBelow(home());
  if (mkdir(home().c_str(), 0755) != 0)
    violation("internal", "cannot make " + home());
}

// ---- measurement sets

cfloat visibility(int column, int row, int a1, int a2, int pol, int chan) {
  const float gain = 0.25f * (1 + a1 % 5) * (1 + a2 % 7) * (1 + 0.5f * column);
  return gain * TestTable::value(60 + (row * 7 + column * 31) % 190, pol, chan);
}
float weightOf(int row, int chan) {
  return TestTable::weight(5 + (row * 13 + chan * 3) % 240);
}

DataManager* makeDysco(const Settings& s, const std::string& name) {
  std::unique_ptr<dyscostman::DyscoStMan> m(
      new dyscostman::DyscoStMan(s.dataBits, s.weightBits, name));
  switch (s.dist) {
    case ref::Gaussian: m->SetGaussianDistribution(); break;
    case ref::Uniform: m->SetUniformDistribution(); break;
    case ref::StudentsT: m->SetStudentsTDistribution(s.nu); break;
    default: m->SetTruncatedGaussianDistribution(s.truncation); break;
  }
  m->SetNormalization(s.norm == ref::AF   ? dyscostman::Normalization::kAF
                      : s.norm == ref::RF ? dyscostman::Normalization::kRF
                                          : dyscostman::Normalization::kRow);
  return m.release();
}

template <typename T>
void addDesc(TableDesc& td, const Col& c) {
  const IPosition shape(2, c.nPol, c.nChan);
  if (c.manager == kIndirect)
    td.addColumn(ArrayColumnDesc<T>(c.name, "a comment", 2));
  else if (c.manager == kTiled)
    td.addColumn(ArrayColumnDesc<T>(c.name, "", 2));
  else if (c.manager == kDysco && c.declared)
    td.addColumn(ArrayColumnDesc<T>(c.name, "", "DyscoStMan", c.dyscoName,
                                    shape,
                                    ColumnDesc::Direct | ColumnDesc::FixedShape));
  else
    td.addColumn(ArrayColumnDesc<T>(
        c.name, "a comment", shape,
        c.manager == kStandard || c.manager == kDysco
            ? ColumnDesc::Direct | ColumnDesc::FixedShape
            : ColumnDesc::FixedShape));
  td.rwColumnDesc(c.name).rwKeywordSet().define("UNIT", "Jy of " + c.name);
  td.rwColumnDesc(c.name).rwKeywordSet().define("number", 5);
}

bool unwritten(const Set& s, const Col& c, int row) {
  return c.manager == kDysco ? row >= s.firstUnwritten
                             : row >= c.undefinedFrom;
}

void createSet(const Set& s, const std::string& path) {
  TableDesc td;
  for (const char* n : {"ANTENNA1", "ANTENNA2", "FIELD_ID", "DATA_DESC_ID", "SCAN"})
    td.addColumn(ScalarColumnDesc<Int>(n));
  td.addColumn(ScalarColumnDesc<Double>("TIME"));
  td.addColumn(ScalarColumnDesc<String>("NOTE"));
  td.addColumn(ArrayColumnDesc<Double>("UVW", IPosition(1, 3), ColumnDesc::Direct));
  const Col& first = s.cols.front();
  td.addColumn(ArrayColumnDesc<Bool>(
      "FLAG", IPosition(2, first.nPol, first.nChan), ColumnDesc::FixedShape));
  for (const Col& c : s.cols)
    if (c.weight)
      addDesc<Float>(td, c);
    else
      addDesc<Complex>(td, c);
  SetupNewTable setup(path, td, Table::New);
  IncrementalStMan incremental("SCANMAN");
  setup.bindColumn("SCAN", incremental);
  std::map<std::string, std::shared_ptr<DataManager>> dysco;
  for (const Col& c : s.cols) {
    const IPosition tile(3, c.nPol, c.nChan, 2);
    if (c.manager == kStandard) {
      // One row per bucket, and one bucket in memory: values go to the file
      StandardStMan m(c.name + "MAN", -1, 1);
      setup.bindColumn(c.name, m);
    } else if (c.manager == kTiled) {
      TiledShapeStMan m("Tiled" + c.name, tile);
      setup.bindColumn(c.name, m);
    } else if (c.manager == kTiledColumn) {
      TiledColumnStMan m("TiledColumn" + c.name, tile);
      setup.bindColumn(c.name, m);
    } else if (c.manager == kIncremental) {
      IncrementalStMan m("Incremental" + c.name);
      setup.bindColumn(c.name, m);
    } else if (c.manager == kDysco) {
      std::shared_ptr<DataManager>& m = dysco[c.dyscoName];
      if (!m) m.reset(makeDysco(s.dysco, c.dyscoName));
      setup.bindColumn(c.name, *m);
    }
  }
  Table t(setup, s.rows.size());
  t.rwKeywordSet().define("MS_VERSION", 2.0);
  {
    TableDesc sub;
    sub.addColumn(ScalarColumnDesc<String>("NAME"));
    SetupNewTable subSetup(path + "/ANTENNA", sub, Table::New);
    Table a(subSetup, 3);
    ScalarColumn<String> name(a, "NAME");
    for (int i = 0; i != 3; ++i) name.put(i, "antenna " + std::to_string(i));
    t.rwKeywordSet().defineTable("ANTENNA", a);
  }
  const int n = s.rows.size();
  ScalarColumn<Int> a1(t, "ANTENNA1"), a2(t, "ANTENNA2"), field(t, "FIELD_ID"),
      dd(t, "DATA_DESC_ID"), scan(t, "SCAN");
  ScalarColumn<Double> time(t, "TIME");
  ScalarColumn<String> text(t, "NOTE");
  ArrayColumn<Double> uvw(t, "UVW");
  ArrayColumn<Bool> flag(t, "FLAG");
  for (int r = 0; r != n; ++r) {
    a1.put(r, s.rows[r].a1);
    a2.put(r, s.rows[r].a2);
    field.put(r, s.rows[r].field);
    dd.put(r, s.rows[r].dataDesc);
    time.put(r, s.rows[r].time);
    scan.put(r, r / 3);
    text.put(r, "row " + std::to_string(r));
    Array<Double> u(IPosition(1, 3));
    for (int i = 0; i != 3; ++i) u.data()[i] = r + 0.1 * i;
    uvw.put(r, u);
    Array<Bool> f(IPosition(2, first.nPol, first.nChan));
    for (int ch = 0; ch != first.nChan; ++ch)
      for (int p = 0; p != first.nPol; ++p)
        f.data()[ch * first.nPol + p] = s.flag && s.flag(r, p, ch);
    flag.put(r, f);
  }
  for (size_t c = 0; c != s.cols.size(); ++c) {
    const Col& col = s.cols[c];
    std::unique_ptr<ArrayColumn<Complex>> data;
    std::unique_ptr<ArrayColumn<Float>> weight;
    if (col.weight)
      weight.reset(new ArrayColumn<Float>(t, col.name));
    else
      data.reset(new ArrayColumn<Complex>(t, col.name));
    for (int r = 0; r != n; ++r) {
      if (unwritten(s, col, r)) continue;
      const int nChan = col.nChan + (r >= col.otherShapeFrom ? 1 : 0);
      const IPosition shape(2, col.nPol, nChan);
      if (col.weight) {
        Array<Float> a(shape);
        for (int ch = 0; ch != nChan; ++ch)
          for (int p = 0; p != col.nPol; ++p)
            a.data()[ch * col.nPol + p] = weightOf(r, ch);
        weight->put(r, a);
      } else {
        Array<Complex> a(shape);
        for (int ch = 0; ch != nChan; ++ch)
          for (int p = 0; p != col.nPol; ++p)
            a.data()[ch * col.nPol + p] =
                visibility(c, r, s.rows[r].a1, s.rows[r].a2, p, ch);
        data->put(r, a);
      }
    }
  }
}

std::string neighbourPath(const std::string& path) { return path + "temp"; }

// Something that is not part of the set, but has a similar name
void createNeighbour(const Set& s, const std::string& path) {
  if (s.neighbour == 1) {
    TableDesc td;
    td.addColumn(ScalarColumnDesc<Int>("VALUE"));
    SetupNewTable setup(neighbourPath(path), td, Table::New);
    Table t(setup, 3);
    ScalarColumn<Int> v(t, "VALUE");
    for (int i = 0; i != 3; ++i) v.put(i, 7 + i);
  } else if (s.neighbour == 2) {
    std::ofstream(neighbourPath(path)) << "something";
  }
}

void checkNeighbour(const Set& s, const std::string& path) {
  if (s.neighbour == 1) {
    try {
      Table t(neighbourPath(path), Table::Old);
      ScalarColumn<Int> v(t, "VALUE");
      if (t.nrow() == 3 && v(0) == 7 && v(1) == 8 && v(2) == 9) return;
    } catch (std::exception& e) {
    }
    violation("neighbour", "another table, " + neighbourPath(path) + ", is lost");
  } else if (s.neighbour == 2) {
    std::ifstream f(neighbourPath(path));
    std::string text;
    std::getline(f, text);
    if (text != "something")
      violation("neighbour", "another file, " + neighbourPath(path) + ", is lost");
  }
}

// ---- the contents of a set

struct ColumnState {
  std::string type, manager, managerName, keywords, comment;
  // Empty: undefined. Otherwise, the bytes of the shape and values
  std::vector<std::string> cells;
  std::vector<std::vector<cfloat>> values;  // of complex and float columns
};

struct TableState {
  size_t nRows = 0;
  std::map<std::string, ColumnState> columns;
  std::string keywords;
  std::map<std::string, Settings> dysco;  // Dysco managers
  std::map<std::string, std::string> managers;  // name -> type
  std::vector<std::string> subtableNames;
  std::string path;
};

template <typename T>
std::string bytesOf(const Array<T>& a) {
  std::string s;
  for (size_t i = 0; i != a.ndim(); ++i)
    s += std::to_string(a.shape()[i]) + (i + 1 == a.ndim() ? ":" : "x");
  std::vector<T> v(a.begin(), a.end());
  s.append(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(T));
  return s;
}
template <>
std::string bytesOf(const Array<Bool>& a) {
  std::string s;
  for (size_t i = 0; i != a.ndim(); ++i)
    s += std::to_string(a.shape()[i]) + (i + 1 == a.ndim() ? ":" : "x");
  for (Bool b : a) s += b ? '1' : '0';
  return s;
}

template <typename T>
void readArrays(const Table& t, const std::string& name, ColumnState& s) {
  ArrayColumn<T> c(t, name);
  for (size_t r = 0; r != t.nrow(); ++r) {
    if (!c.isDefined(r)) {
      s.cells.push_back("");
      continue;
    }
    Array<T> a;
    c.get(r, a, true);
    s.cells.push_back(bytesOf(a));
  }
}
void toValues(const Array<Complex>& a, std::vector<cfloat>& v) {
  v.assign(a.begin(), a.end());
}
void toValues(const Array<Float>& a, std::vector<cfloat>& v) {
  v.assign(a.begin(), a.end());
}
template <typename T>
void readValues(const Table& t, const std::string& name, ColumnState& s) {
  ArrayColumn<T> c(t, name);
  for (size_t r = 0; r != t.nrow(); ++r) {
    std::vector<cfloat> v;
    if (c.isDefined(r)) {
      Array<T> a;
      c.get(r, a, true);
      toValues(a, v);
      // All NaNs are the same
      for (T& x : a)
        if (x != x) x = T(std::numeric_limits<float>::quiet_NaN());
      s.cells.push_back(bytesOf(a));
    } else
      s.cells.push_back("");
    s.values.push_back(v);
  }
}
template <typename T>
void readScalars(const Table& t, const std::string& name, ColumnState& s) {
  ScalarColumn<T> c(t, name);
  for (size_t r = 0; r != t.nrow(); ++r) {
    std::ostringstream o;
    o.precision(17);
    o << c(r);
    s.cells.push_back(o.str() + ";");
  }
}

TableState readSet(const std::string& path) {
  TableState s;
  s.path = path;
  Config config;
  config.processors = 1;
  mc::setProcessors(1);
  Deterministic d(config, false);
  Table t(path, Table::Old);
  s.nRows = t.nrow();
  // With the managers that are really used
  const TableDesc actual = t.actualTableDesc();
  for (size_t i = 0; i != actual.ncolumn(); ++i) {
    const ColumnDesc& desc = actual[i];
    ColumnState& c = s.columns[desc.name()];
    std::ostringstream type, keywords;
    type << desc.dataType() << (desc.isArray() ? " array" : " scalar");
    c.type = type.str();
    c.manager = desc.dataManagerType();
    c.managerName = desc.dataManagerGroup();
    c.comment = desc.comment();
    keywords << TableColumn(t, desc.name()).keywordSet();
    c.keywords = keywords.str();
    if (desc.isArray()) switch (desc.dataType()) {
        case TpComplex: readValues<Complex>(t, desc.name(), c); break;
        case TpFloat: readValues<Float>(t, desc.name(), c); break;
        case TpDouble: readArrays<Double>(t, desc.name(), c); break;
        case TpBool: readArrays<Bool>(t, desc.name(), c); break;
        default: violation("internal", "column type");
      }
    else
      switch (desc.dataType()) {
        case TpInt: readScalars<Int>(t, desc.name(), c); break;
        case TpDouble: readScalars<Double>(t, desc.name(), c); break;
        case TpString: readScalars<String>(t, desc.name(), c); break;
        default: violation("internal", "column type");
      }
  }
  const TableRecord& k = t.keywordSet();
  std::ostringstream keywords;
  for (size_t i = 0; i != k.nfields(); ++i) {
    keywords << k.name(i) << ": ";
    if (k.dataType(i) == TpTable) {
      Table sub = k.asTable(i);
      std::string name = sub.tableName();
      if (name.compare(0, path.size(), path) != 0)
        violation("subtable", "subtable " + k.name(i) + " is in " + name);
      keywords << name.substr(path.size());
      for (size_t c = 0; c != sub.tableDesc().ncolumn(); ++c) {
        ColumnState state;
        readScalars<String>(sub, sub.tableDesc()[c].name(), state);
        keywords << " " << sub.tableDesc()[c].name();
        for (const std::string& v : state.cells) keywords << " " << v;
      }
    } else if (k.dataType(i) == TpDouble)
      keywords << k.asDouble(i);
    else
      keywords << "type " << k.dataType(i);
    keywords << "\n";
  }
  s.keywords = keywords.str();
  const Record info = t.dataManagerInfo();
  for (size_t i = 0; i != info.nfields(); ++i) {
    const Record sub = info.subRecord(i);
    std::string columns;
    for (const String& n : Array<String>(sub.asArrayString("COLUMNS")))
      columns += n + " ";
    s.managers[sub.asString("NAME") + " of " + columns] = sub.asString("TYPE");
  }
  return s;
}

// What the independent reader finds in the file of a Dysco manager. Columns in
// the order of the file
struct DyscoFile {
  ref::Header header;
  std::vector<uint8_t> bytes;
};

std::map<std::string, DyscoFile> readDyscoFiles(const std::string& path) {
  std::map<std::string, DyscoFile> result;
  DIR* d = opendir(path.c_str());
  if (!d) return result;
  while (dirent* e = readdir(d)) {
    const std::string name = e->d_name;
    if (name.compare(0, 7, "table.f") != 0) continue;
    std::vector<uint8_t> b = ref::readFile(path + "/" + name);
    if (b.size() < 4 || (b[0] == 0xbe && b[1] == 0xbe)) continue;
    if (name.back() == 'i' || name.find("_TSM") != std::string::npos) continue;
    DyscoFile f;
    const std::string error = ref::parse(b, f.header);
    if (!error.empty()) continue;
    f.bytes = b;
    result[f.header.name] = f;
  }
  closedir(d);
  return result;
}

std::string differences(const TableState& a, const TableState& b,
                        const std::set<std::string>& except) {
  std::ostringstream s;
  if (a.nRows != b.nRows)
    s << "; " << b.nRows << " rows instead of " << a.nRows;
  for (auto& i : a.columns) {
    auto j = b.columns.find(i.first);
    if (j == b.columns.end()) {
      s << "; column " << i.first << " is gone";
      continue;
    }
    if (i.second.type != j->second.type) s << "; " << i.first << " has another type";
    if (i.second.keywords != j->second.keywords)
      s << "; the keywords of " << i.first << " are " << j->second.keywords
        << " instead of " << i.second.keywords;
    if (except.count(i.first)) continue;
    if (i.second.manager != j->second.manager ||
        i.second.managerName != j->second.managerName)
      s << "; the manager of " << i.first << " is " << j->second.manager << " "
        << j->second.managerName << " instead of " << i.second.manager << " "
        << i.second.managerName;
    for (size_t r = 0; r != std::min(a.nRows, b.nRows); ++r)
      if (i.second.cells[r] != j->second.cells[r]) {
        s << "; row " << r << " of " << i.first << " changed";
        if (!i.second.values.empty() && !i.second.values[r].empty() &&
            !j->second.values[r].empty())
          s << " from " << i.second.values[r][0] << "... to "
            << j->second.values[r][0] << "...";
        break;
      }
  }
  for (auto& j : b.columns)
    if (!a.columns.count(j.first)) s << "; there is a new column " << j.first;
  if (a.keywords != b.keywords)
    s << "; the table keywords are\n" << b.keywords << "instead of\n"
      << a.keywords;
  return s.str();
}

// ---- running a tool

typedef std::vector<std::string> Args;

std::string join(const Args& args) {
  std::string s;
  for (const std::string& a : args) {
    const size_t p = a.compare(0, home().size(), home()) == 0 ? home().size() : 0;
    s += " " + a.substr(p);
  }
  return s;
}

// The tool runs as in a process of its own: an exception that it does not
// handle ends the process without unwinding. Returns true when it ended with
// success
bool runTool(int (*tool)(int, char**), const char* name, const Args& args,
             unsigned seed = 1, bool eager = false, int processors = 2) {
  note(std::string(name) + join(args));
  giveAway(home());
  // The user has to be able to get there
  const pid_t parent = getpid();
  const pid_t pid = fork();
  if (pid < 0) violation("internal", "fork failed");
  if (pid == 0) {
    if (geteuid() == 0 &&
        (setgroups(0, nullptr) != 0 || setgid(kUser) != 0 || setuid(kUser) != 0))
      violation("internal", "cannot become an unprivileged user");
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != parent) _exit(0);
    struct rlimit none = {0, 0};
    setrlimit(RLIMIT_CORE, &none);
    signal(SIGABRT, SIG_DFL);
    signal(SIGSEGV, SIG_DFL);
    umask(0);
    if (chdir(home().c_str()) != 0)
      violation("internal", "cannot go to the scratch directory");
    mcSeedRandomDevice(seed);
    mc::setProcessors(processors);
    std::vector<std::vector<char>> copies;
    std::vector<char*> argv;
    copies.emplace_back(name, name + strlen(name) + 1);
    for (const std::string& a : args)
      copies.emplace_back(a.c_str(), a.c_str() + a.size() + 1);
    for (auto& c : copies) argv.push_back(c.data());
    argv.push_back(nullptr);
    [&]() noexcept {
      mc::activate(processors, eager ? mc::Policy::Eager : mc::Policy::Lazy,
                   false, false);
      const int result = tool(argv.size() - 1, argv.data());
      if (mc::deactivate() != 0)
        violation("thread", "encoder threads still run when the tool ends");
      _exit(result == 0 ? 0 : 1);
    }();
  }
  int status = 0;
  while (waitpid(pid, &status, 0) != pid) {
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 70) _exit(70);  // violation()
  count("tool_runs");
  if (WIFSIGNALED(status) && WTERMSIG(status) != SIGABRT)
    violation("crash", std::string(name) + " ended with signal " +
                           std::to_string(WTERMSIG(status)));
  return WIFEXITED(status) && WEXITSTATUS(status) == 0;
}

// ---- oracles

bool regular(const std::vector<Row>& rows) {
  std::vector<std::vector<std::pair<int, int>>> blocks;
  for (size_t i = 0; i != rows.size(); ++i) {
    if (i == 0 || rows[i].time != rows[i - 1].time ||
        rows[i].field != rows[i - 1].field ||
        rows[i].dataDesc != rows[i - 1].dataDesc)
      blocks.emplace_back();
    blocks.back().emplace_back(rows[i].a1, rows[i].a2);
  }
  for (auto& b : blocks)
    if (b != blocks[0]) return false;
  return true;
}

int firstBlockSize(const std::vector<Row>& rows) {
  size_t i = 1;
  while (i < rows.size() && rows[i].time == rows[0].time &&
         rows[i].field == rows[0].field && rows[i].dataDesc == rows[0].dataDesc)
    ++i;
  return i;
}

// Compares a compressed column with the values that it had
void checkCompressed(const Set& s, const std::string& name,
                     const TableState& before, const TableState& after,
                     const std::map<std::string, DyscoFile>& files,
                     const Settings& settings, int encodings) {
  const ColumnState& old = before.columns.at(name);
  auto found = after.columns.find(name);
  if (found == after.columns.end())
    violation("column", name + " is gone");
  const ColumnState& now = found->second;
  if (now.manager != "DyscoStMan")
    violation("column", name + " is stored by " + now.manager);
  if (now.values.size() != old.values.size())
    violation("column", name + " has another number of rows");
  auto f = files.find(now.managerName);
  if (f == files.end())
    violation("file", "there is no file of manager " + now.managerName);
  const ref::Header& h = f->second.header;
  std::ostringstream wrong;
  if (h.dataBits != settings.dataBits) wrong << " data bits " << int(h.dataBits);
  if (h.weightBits != settings.weightBits)
    wrong << " weight bits " << int(h.weightBits);
  if (h.distribution != settings.dist)
    wrong << " distribution " << int(h.distribution);
  if (h.normalization != settings.norm)
    wrong << " normalization " << int(h.normalization);
  if (settings.dist == ref::TruncatedGaussian &&
      h.truncation != settings.truncation)
    wrong << " truncation " << h.truncation;
  if (settings.dist == ref::StudentsT && h.nu != settings.nu)
    wrong << " nu " << h.nu;
  if (int(h.rowsPerBlock) != firstBlockSize(s.rows))
    wrong << " rows per block " << h.rowsPerBlock;
  if (!wrong.str().empty())
    violation("settings", "the file of " + name + " has" + wrong.str());
  // Where the column is in the blocks: columns are in order of their creation,
  // which is not known here. The one that decodes to the values is taken
  std::vector<std::pair<std::string, const Col*>> members;
  for (const Col& c : s.cols) {
    auto i = after.columns.find(c.name);
    if (i != after.columns.end() && i->second.manager == "DyscoStMan" &&
        i->second.managerName == now.managerName)
      members.emplace_back(c.name, &c);
  }
  const Col* column = nullptr;
  for (const Col& c : s.cols)
    if (c.name == name) column = &c;
  const size_t n = size_t(column->nPol) * column->nChan;
  const ref::Layout l =
      ref::layout(h, column->weight, column->nPol, column->nChan);
  const std::vector<float> levels =
      column->weight
          ? std::vector<float>()
          : ref::levels(h.distribution, h.dataBits, h.nu, h.truncation);
  const double largest =
      levels.empty() ? 0 : std::max(-levels.front(), levels.back());
  std::set<size_t> offsets;
  std::sort(members.begin(), members.end());
  do {
    size_t o = 0;
    for (auto& m : members) {
      if (m.first == name) break;
      o += ref::layout(h, m.second->weight, m.second->nPol, m.second->nChan).size;
    }
    offsets.insert(o);
  } while (std::next_permutation(members.begin(), members.end()));
  std::string best;  // what is wrong with the most likely place
  size_t bestRow = 0;
  for (size_t offset : offsets) {
    std::string reason;
    size_t r = 0;
    for (; r != s.rows.size() && reason.empty(); ++r) {
      const std::vector<cfloat>& got = now.values[r];
      if (got.size() != n) violation("shape", name + " has another shape");
      const int block = r / h.rowsPerBlock, inBlock = r % h.rowsPerBlock;
      const size_t pos = h.headerSize + size_t(block) * h.blockSize + offset;
      if (pos + l.size > f->second.bytes.size()) {
        reason = "row " + std::to_string(r) + " is not in the file";
        break;
      }
      std::vector<float> meta(l.metaFloats);
      memcpy(meta.data(), &f->second.bytes[pos], l.metaFloats * sizeof(float));
      if (column->weight) {
        const double step = double(meta[0]) / ((1u << l.bits) - 1);
        for (size_t i = 0; i != n; ++i) {
          const double e = std::fabs(double(got[i].real()) - old.values[r][i].real());
          if (!(e <= encodings * step * 0.501 + 1e-7)) {
            std::ostringstream t;
            t << "row " << r << " value " << i << " is " << got[i].real()
              << " instead of " << old.values[r][i].real();
            reason = t.str();
            break;
          }
          count("values_compared");
        }
        continue;
      }
      if (h.normalization == ref::AF && s.rows[r].a1 == s.rows[r].a2) continue;
      for (size_t i = 0; i != n && reason.empty(); ++i) {
        const int pol = i % column->nPol, chan = i / column->nPol;
        std::ostringstream t;
        t << "row " << r << " value " << i << " (was " << old.values[r][i]
          << ") is " << got[i];
        const bool flagged = s.flag && s.flag(r, pol, chan);
        const bool wasFinite = std::isfinite(old.values[r][i].real()) &&
                               std::isfinite(old.values[r][i].imag());
        const bool isFinite =
            std::isfinite(got[i].real()) && std::isfinite(got[i].imag());
        if (flagged || !wasFinite) {
          if (isFinite) violation("flag", name + ": flagged " + t.str());
          count("values_compared");
          continue;
        }
        if (!isFinite) violation("flag", name + ": not flagged " + t.str());
        const double scale = ref::visScale(h, l, meta.data(), inBlock,
                                           s.rows[r].a1, s.rows[r].a2, i);
        for (int k = 0; k != 2; ++k) {
          const double x =
              (k ? old.values[r][i].imag() : old.values[r][i].real()) / scale;
          const double y = (k ? got[i].imag() : got[i].real()) / scale;
          const double margin = 1e-5 * largest;
          // The decoded value is one of the levels
          auto up = std::lower_bound(levels.begin(), levels.end(),
                                     float(y - margin));
          bool ok = scale > 0 && up != levels.end() && *up <= y + margin;
          if (ok) {
            const int at = up - levels.begin();
            const int n = levels.size(), low = std::max(0, at - encodings),
                      high = std::min(n - 1, at + encodings);
            // The factors of the first of several encodings are not known, and
            // those of the Student's t distribution can be very different
            ok = encodings == 1
                     ? x >= levels[low] - margin && x <= levels[high] + margin
                     : h.distribution == ref::StudentsT ||
                           std::fabs(x - y) <= 2 * (levels[high] - levels[low]);
          }
          if (!ok) {
            t << ", with factor " << scale
              << " this is not a neighbouring level";
            reason = t.str();
            break;
          }
          count("values_compared");
        }
      }
    }
    if (reason.empty()) return;
    if (best.empty() || r > bestRow) {
      best = reason;
      bestRow = r;
    }
  }
  violation("value", name + ": " + best);
}

// ---- sets

std::vector<Row> makeRows(const std::vector<std::vector<std::pair<int, int>>>& blocks,
                          int separator) {
  std::vector<Row> rows;
  for (size_t b = 0; b != blocks.size(); ++b)
    for (auto& p : blocks[b]) {
      Row r;
      r.a1 = p.first;
      r.a2 = p.second;
      // The shortest possible time step, also backwards. With 4, the sum of
      // field and data description stays the same.
      const double step = 1.0 / 1048576.0;
      r.field = separator == 1 || separator == 4 ? b % 2 : 0;
      r.dataDesc = separator == 2 ? b % 2 : separator == 4 ? (b + 1) % 2 : 0;
      r.time = 4915430400.0 + (separator == 0   ? step * b
                               : separator == 3 ? -step * b
                                                : 0.0);
      rows.push_back(r);
    }
  return rows;
}

std::vector<Row> regularRows(int nBlocks, int nAnt, bool autos = false) {
  return makeRows(std::vector<std::vector<std::pair<int, int>>>(
                      nBlocks, allBaselines(nAnt, autos)),
                  0);
}

Col makeColumn(const std::string& name, Manager manager = kStandard,
               int nPol = 2, int nChan = 2) {
  Col c;
  c.name = name;
  c.weight = name == "WEIGHT_SPECTRUM";
  c.manager = manager;
  c.nPol = nPol;
  c.nChan = nChan;
  return c;
}

bool someFlags(int row, int pol, int chan) {
  return (row * 5 + pol * 3 + chan) % 4 == 1;
}

enum Expect { kAccept, kRefuse, kEither };

// Runs dscompress and compares everything
bool checkCompress(const Set& s, const Args& options,
                   const std::vector<std::string>& selected,
                   const Settings& settings, Expect expect, int encodings = 1,
                   bool staticSeed = false,
                   const std::string& spelling = std::string()) {
  note("(" + s.describe() + ")");
  clearHome();
  createSet(s, setPath());
  createNeighbour(s, setPath());
  const TableState before = readSet(setPath());
  Args args = options;
  args.push_back(spelling.empty() ? setPath() : spelling);
  const bool accepted = runTool(dscompress_main, "dscompress", args);
  const TableState after = readSet(setPath());
  checkNeighbour(s, setPath());
  if (!accepted) {
    if (expect == kAccept)
      violation("refused", "dscompress refuses a regular set");
    const std::string d = differences(before, after, {});
    if (!d.empty())
      violation("modified", "dscompress refused, but modified the set" + d);
    count("sets_refused");
    return false;
  }
  if (expect == kRefuse)
    violation("accepted", "dscompress accepts what it should refuse");
  const std::map<std::string, DyscoFile> files = readDyscoFiles(setPath());
  const std::string d = differences(
      before, after, std::set<std::string>(selected.begin(), selected.end()));
  if (!d.empty()) violation("other", "dscompress changed other parts" + d);
  for (const std::string& name : selected) {
    const bool wasDysco = before.columns.at(name).manager == "DyscoStMan";
    checkCompressed(s, name, before, after, files,
                    wasDysco ? s.dysco : settings, encodings);
  }
  if (staticSeed) {
    // The same again, with other random numbers and another schedule
    clearHome();
    createSet(s, setPath());
    if (!runTool(dscompress_main, "dscompress", args, 99, true, 3))
      violation("refused", "dscompress refuses the same set");
    const std::map<std::string, DyscoFile> again = readDyscoFiles(setPath());
    for (auto& f : files)
      if (again.at(f.first).bytes != f.second.bytes)
        violation("seed", "with -static-seed the result differs between runs");
  }
  count("sets_compressed");
  return true;
}

// All baseline lists
void compressRegular(bool thorough) {
  static const std::vector<std::pair<int, int>> baselines{{0, 1}, {0, 2}, {1, 2}};
  auto sequence = [&](int maxLength, bool empty) {
    std::vector<std::pair<int, int>> l;
    const int length = empty ? mc::choose(maxLength + 1, 0)
                             : 1 + mc::choose(maxLength, 0);
    for (int i = 0; i != length; ++i) l.push_back(baselines[mc::choose(3, 0)]);
    return l;
  };
  std::vector<std::vector<std::pair<int, int>>> blocks;
  blocks.push_back(sequence(thorough ? 3 : 2, false));
  const std::vector<std::pair<int, int>> first = blocks[0];
  blocks.push_back(sequence(first.size() + 1, true));
  if (blocks.back().empty()) {
    blocks.pop_back();
  } else {
    const int third = mc::choose(6, 0);
    std::vector<std::pair<int, int>> b = first;
    switch (third) {
      case 0: b.clear(); break;
      case 1: break;
      case 2: b.pop_back(); break;
      case 3: b.push_back(baselines[1]); break;
      case 4: b.back().second = 3; break;
      case 5: std::swap(b.front().first, b.front().second); break;
    }
    if (!b.empty()) blocks.push_back(b);
  }
  Set s;
  s.rows = makeRows(blocks, blocks.size() > 1 ? mc::choose(5, 0) : 0);
  s.cols = {makeColumn("DATA", kStandard, 1, 2)};
  s.flag = [](int row, int, int chan) { return (row + chan) % 3 == 0; };
  const Settings settings;
  checkCompress(s, {}, {"DATA"}, settings, regular(s.rows) ? kAccept : kRefuse);
}

// All flag patterns of four rows of two values
void compressFlags(bool thorough) {
  Settings settings;
  const int norm = mc::choose(3, 0);
  settings.norm = norm;
  Args args{norm == ref::AF   ? "-afnormalization"
            : norm == ref::RF ? "-rfnormalization"
                              : "-rownormalization"};
  const int shape = mc::choose(2, 0);
  Set s;
  s.rows = makeRows({{{0, 1}, {0, 2}}, {{0, 1}, {0, 2}}}, 0);
  s.cols = {makeColumn("DATA", kStandard, shape ? 2 : 1, shape ? 1 : 2),
            makeColumn("MODEL_DATA", kTiled, shape ? 2 : 1, shape ? 1 : 2)};
  std::vector<std::string> selected{"DATA"};
  const int columns = mc::choose(thorough ? 3 : 2, 0);
  if (columns == 1) selected = {"DATA", "MODEL_DATA"};
  if (columns == 2) selected = {"MODEL_DATA"};
  for (const std::string& c : selected) {
    args.push_back("-column");
    args.push_back(c);
  }
  unsigned pattern = 0;
  for (int i = 0; i != 8; ++i) pattern |= unsigned(mc::choose(2, 0)) << i;
  s.flag = [=](int row, int pol, int chan) {
    return (pattern >> (row * 2 + pol + chan)) & 1;
  };
  std::ostringstream t;
  t << "(flags " << std::hex << pattern << ")";
  note(t.str());
  checkCompress(s, args, selected, settings, kAccept);
}

struct Option {
  Args args;
  std::function<void(Settings&, std::vector<std::string>&, bool&)> effect;
  bool bad = false;
  bool unusual = false;  // either is fine
};

std::vector<Option> allOptions() {
  typedef std::vector<std::string> Names;
  std::vector<Option> list;
  auto set = [&](const Args& args, std::function<void(Settings&)> f) {
    list.push_back(
        {args, [f](Settings& s, Names&, bool&) { f(s); }, false, false});
  };
  auto bad = [&](const Args& args) {
    list.push_back({args, [](Settings&, Names&, bool&) {}, true, false});
  };
  set({"-rfnormalization"}, [](Settings& s) { s.norm = ref::RF; });
  set({"-afnormalization"}, [](Settings& s) { s.norm = ref::AF; });
  set({"-rownormalization"}, [](Settings& s) { s.norm = ref::Row; });
  set({"-uniform"}, [](Settings& s) { s.dist = ref::Uniform; });
  set({"-gaussian"}, [](Settings& s) { s.dist = ref::Gaussian; });
  set({"-studentt"}, [](Settings& s) {
    s.dist = ref::StudentsT;
    s.nu = 1.0;
  });
  set({"-truncgaus", "1.5"}, [](Settings& s) {
    s.dist = ref::TruncatedGaussian;
    s.truncation = 1.5;
  });
  set({"-truncgaus", "3.25"}, [](Settings& s) {
    s.dist = ref::TruncatedGaussian;
    s.truncation = 3.25;
  });
  set({"-data-bit-rate", "4"}, [](Settings& s) { s.dataBits = 4; });
  set({"-data-bit-rate", "6"}, [](Settings& s) { s.dataBits = 6; });
  set({"-weight-bit-rate", "3"}, [](Settings& s) { s.weightBits = 3; });
  set({"-weight-bit-rate", "16"}, [](Settings& s) { s.weightBits = 16; });
  list.push_back({{"-static-seed"}, [](Settings&, Names&, bool& b) { b = true; },
                  false, false});
  set({"-reorder"}, [](Settings&) {});
  for (const char* c : {"DATA", "MODEL_DATA", "WEIGHT_SPECTRUM"})
    list.push_back({{"-column", c},
                    [c](Settings&, Names& n, bool&) { n.push_back(c); }, false,
                    false});
  bad({"-data-bit-rate", "5"});
  bad({"-data-bit-rate", "abc"});
  bad({"-weight-bit-rate", "17"});
  bad({"-truncgaus", "0"});
  bad({"-nonsense"});
  bad({"-column", "ABSENT"});
  bad({"-column", "FLAG"});
  bad({"-column", "ANTENNA1"});
  return list;
}

void compressOptions(int depth) {
  const std::vector<Option> options = allOptions();
  Settings settings;
  std::vector<std::string> selected;
  bool staticSeed = false, bad = false, badTruncation = false, repeated = false;
  int encodings = 1;
  Args args;
  const int n = mc::choose(depth + 1, 0);
  for (int i = 0; i != n; ++i) {
    const Option& o = options[mc::choose(options.size(), 0)];
    args.insert(args.end(), o.args.begin(), o.args.end());
    o.effect(settings, selected, staticSeed);
    if (o.args[0] == "-reorder") encodings = 2;
    // A value that a later option replaces may or may not be refused
    if (o.args[0] == "-truncgaus") badTruncation = o.bad;
    else if (o.bad) bad = true;
    if (o.args[0] == "-uniform" || o.args[0] == "-gaussian" ||
        o.args[0] == "-studentt")
      badTruncation = false;
  }
  bool overruled = false;
  for (int k = 0; k != 2; ++k) {
    const std::string name = k ? "-weight-bit-rate" : "-data-bit-rate";
    int uses = 0;
    for (const std::string& a : args) uses += a == name;
    overruled = overruled || uses > 1;
  }
  if (selected.empty() && !bad) selected.push_back("DATA");
  std::vector<std::string> different;
  for (const std::string& c : selected)
    if (std::find(different.begin(), different.end(), c) == different.end())
      different.push_back(c);
    else
      repeated = true;
  Set s;
  s.rows = regularRows(2, 3);
  s.cols = {makeColumn("DATA"), makeColumn("MODEL_DATA", kTiled),
            makeColumn("WEIGHT_SPECTRUM", kTiledColumn)};
  s.flag = someFlags;
  bool anyTruncation = false;
  for (const std::string& a : args) anyTruncation = anyTruncation || a == "0";
  const Expect expect = overruled || repeated ||
                                (anyTruncation && !badTruncation)
                            ? kEither
                        : bad || badTruncation ? kRefuse
                                               : kAccept;
  if ((bad || badTruncation) && expect == kEither) {
    // Should at least be left as it is when refused
    clearHome();
    createSet(s, setPath());
    const TableState before = readSet(setPath());
    args.push_back(setPath());
    if (!runTool(dscompress_main, "dscompress", args)) {
      const std::string d = differences(before, readSet(setPath()), {});
      if (!d.empty())
        violation("modified", "dscompress refused, but modified the set" + d);
    }
    return;
  }
  checkCompress(s, args, different, settings, expect, encodings, staticSeed);
}

// All bit rates
void compressBits(bool thorough) {
  static const std::set<int> supported{2, 3, 4, 6, 8, 10, 12, 16};
  Settings settings;
  settings.dist = mc::choose(4, 0);
  settings.norm = mc::choose(3, 0);
  const bool data = mc::choose(2, 0) == 0;
  const int bits = mc::choose(20, 0) - 1;
  if (!thorough && data && bits > 10 && settings.dist != ref::Uniform) return;
  Args args;
  if (data) {
    settings.dataBits = bits;
    args = {"-data-bit-rate", std::to_string(bits)};
  } else {
    settings.weightBits = bits;
    args = {"-weight-bit-rate", std::to_string(bits)};
  }
  static const char* dists[] = {"-gaussian", "-uniform", "-studentt", ""};
  if (*dists[settings.dist]) args.push_back(dists[settings.dist]);
  static const char* norms[] = {"-afnormalization", "-rfnormalization",
                                "-rownormalization"};
  args.push_back(norms[settings.norm]);
  args.insert(args.end(), {"-column", "DATA", "-column", "WEIGHT_SPECTRUM"});
  Set s;
  s.rows = regularRows(2, 3);
  s.cols = {makeColumn("DATA"), makeColumn("WEIGHT_SPECTRUM")};
  s.flag = someFlags;
  checkCompress(s, args, {"DATA", "WEIGHT_SPECTRUM"}, settings,
                supported.count(bits) ? kAccept : kRefuse);
}

// Columns, their managers and shapes
void compressColumns(bool thorough) {
  Set s;
  s.rows = regularRows(mc::choose(2, 0) ? 2 : 1, 3);
  s.flag = mc::choose(2, 0) ? someFlags
                            : std::function<bool(int, int, int)>();
  static const char* names[] = {"DATA", "MODEL_DATA", "WEIGHT_SPECTRUM"};
  static const Manager managers[] = {kStandard, kDysco, kIndirect, kTiled,
                                     kTiledColumn, kIncremental};
  const int nManagers = thorough ? 6 : 4;
  for (int i = 0; i != 3; ++i) {
    const int m = i == 0 ? mc::choose(nManagers, 0) : mc::choose(3, 0);
    Col c = makeColumn(names[i], managers[m]);
    if (m == 1 && i != 0) c.dyscoName = "DyscoStMan";
    if (i == 0) c.declared = false;
    s.cols.push_back(c);
  }
  // Another shape for the weights
  if (mc::choose(2, 0)) s.cols[2].nChan = 3;
  static const std::vector<std::vector<int>> selections{
      {0}, {1}, {2}, {0, 1}, {1, 0}, {0, 2}, {2, 0}, {0, 1, 2}, {2, 1, 0}};
  const std::vector<int>& selection =
      selections[mc::choose(thorough ? 9 : 8, 0)];
  Args args;
  std::vector<std::string> selected;
  for (int i : selection) {
    args.push_back("-column");
    args.push_back(names[i]);
    selected.push_back(names[i]);
  }
  checkCompress(s, args, selected, Settings(), kAccept);
}

// Cells that differ in shape or are not defined
void compressCells() {
  Set s;
  s.rows = regularRows(2, 3);
  s.flag = someFlags;
  static const char* names[] = {"DATA", "MODEL_DATA", "WEIGHT_SPECTRUM"};
  static const Manager managers[] = {kIndirect, kTiled};
  const Manager m = managers[mc::choose(2, 0)];
  for (int i = 0; i != 3; ++i) s.cols.push_back(makeColumn(names[i], m));
  const int which = mc::choose(3, 0);
  const int from = mc::choose(6, 0);
  const bool undefined = mc::choose(2, 0);
  (undefined ? s.cols[which].undefinedFrom : s.cols[which].otherShapeFrom) = from;
  if (!undefined && from == 0) s.cols[which].undefinedFrom = 0;
  const int selection = mc::choose(4, 0);
  Args args;
  std::vector<std::string> selected;
  for (int i = 0; i != 3; ++i)
    if (selection == 3 || selection == i) {
      args.push_back("-column");
      args.push_back(names[i]);
      selected.push_back(names[i]);
    }
  note(std::string(undefined ? "(no values" : "(another shape") + " from row " +
       std::to_string(from) + " of " + names[which] + ")");
  checkCompress(s, args, selected, Settings(),
                selection == 3 || selection == which ? kRefuse : kAccept);
}

// Option lists that end too early, and spellings of the path
void compressCalls() {
  Set s;
  s.rows = regularRows(2, 3);
  s.cols = {makeColumn("DATA"), makeColumn("TEMP_DATA"),
            makeColumn("WEIGHT_SPECTRUM")};
  s.flag = someFlags;
  const int kind = mc::choose(5, 0);
  if (kind == 4) {
    // Values without usable levels
    s.cols[1].name = "MODEL_DATA";
    static const char* values[] = {"1e-300", "nan", "-1", "-inf", "x"};
    Args args{"-truncgaus", values[mc::choose(5, 0)]};
    static const char* bits[] = {"2", "8", "16"};
    args.insert(args.end(), {"-data-bit-rate", bits[mc::choose(3, 0)]});
    if (mc::choose(2, 0)) args.insert(args.end(), {"-column", "WEIGHT_SPECTRUM"});
    checkCompress(s, args, {"DATA"}, Settings(), kRefuse);
  } else if (kind == 3) {
    s.cols[1].name = "MODEL_DATA";
    s.neighbour = 1 + mc::choose(2, 0);
    Args args;
    if (mc::choose(2, 0)) args.push_back("-reorder");
    note(s.neighbour == 1 ? "(next to a table x.mstemp)"
                          : "(next to a file x.mstemp)");
    checkCompress(s, args, {"DATA"}, Settings(), kAccept, 1 + args.size());
  } else if (kind == 0) {
    s.cols[1].name = "MODEL_DATA";
    static const std::vector<Args> lists{
        {"-data-bit-rate"}, {"-weight-bit-rate"}, {"-truncgaus"}, {"-column"},
        {"-reorder"},       {"-static-seed"},     {"-"},          {"--"}};
    Args args = lists[mc::choose(lists.size(), 0)];
    const int before = mc::choose(3, 0);
    if (before == 1) args.insert(args.begin(), {"-data-bit-rate", "8"});
    if (before == 2) args.insert(args.begin(), {"-column", "DATA"});
    clearHome();
    createSet(s, setPath());
    const TableState state = readSet(setPath());
    const bool missing = mc::choose(2, 0);
    if (!missing) args.push_back(setPath());
    const bool ignores = args.size() >= 2 && !missing &&
                         (args[args.size() - 2] == "-reorder" ||
                          args[args.size() - 2] == "-static-seed");
    const bool accepted = runTool(dscompress_main, "dscompress", args);
    if (accepted != ignores)
      violation(accepted ? "accepted" : "refused",
                "dscompress handles an option without value wrongly");
    const std::string d = differences(state, readSet(setPath()), {});
    if (!accepted && !d.empty())
      violation("modified", "dscompress refused, but modified the set" + d);
  } else if (kind == 1) {
    // A column that has the name of a temporary column is kept
    const int selection = mc::choose(3, 0);
    std::vector<std::string> selected{"DATA"};
    if (selection == 1) selected = {"WEIGHT_SPECTRUM"};
    if (selection == 2) selected = {"TEMP_DATA"};
    Args args;
    for (const std::string& c : selected) {
      args.push_back("-column");
      args.push_back(c);
    }
    checkCompress(s, args, selected, Settings(),
                  selection == 0 ? kEither : kAccept);
  } else {
    s.cols[1].name = "MODEL_DATA";
    const std::vector<std::string> spellings{
        setPath() + "/", setPath() + "//", "x.ms", "x.ms/", "./x.ms",
        "../tools/x.ms"};
    const std::string spelling = spellings[mc::choose(spellings.size(), 0)];
    Args args;
    int encodings = 1;
    if (mc::choose(2, 0)) {
      args.push_back("-reorder");
      encodings = 2;
    }
    checkCompress(s, args, {"DATA"}, Settings(), kAccept, encodings, false,
                  spelling);
    // Nothing else is left in the directory
    DIR* d = opendir(home().c_str());
    while (dirent* e = readdir(d)) {
      const std::string name = e->d_name;
      if (name != "." && name != ".." && name != "x.ms")
        violation("left", name + " is left behind");
    }
    closedir(d);
  }
}

// More rows, channels and antennas
void compressLarge(bool thorough) {
  static const int sizes[][4] = {{4, 9, 4, 8},  {30, 4, 2, 16}, {2, 12, 1, 1},
                                 {3, 5, 3, 33}, {100, 3, 4, 2}, {353, 3, 1, 2},
                                 {7, 20, 2, 5}, {1, 47, 1, 1},  {3, 4, 1, 1100},
                                 {1400, 3, 1, 1}, {5500, 3, 1, 1}};
  const int i = mc::choose(thorough ? 11 : 9, 0);
  Settings settings;
  settings.norm = mc::choose(3, 0);
  static const char* norms[] = {"-afnormalization", "-rfnormalization",
                                "-rownormalization"};
  Args args{norms[settings.norm], "-column", "DATA", "-column",
            "WEIGHT_SPECTRUM"};
  int encodings = 1;
  if (mc::choose(2, 0)) {
    args.push_back("-reorder");
    encodings = 2;
  }
  Set s;
  s.rows = regularRows(sizes[i][0], sizes[i][1], mc::choose(2, 0));
  s.cols = {makeColumn("DATA", kTiled, sizes[i][2], sizes[i][3]),
            makeColumn("WEIGHT_SPECTRUM", kStandard, sizes[i][2], sizes[i][3])};
  s.flag = someFlags;
  const int last = mc::choose(3, 0);
  bool accept = true;
  if (last == 1) {
    s.rows.pop_back();
    accept = false;
  } else if (last == 2) {
    std::swap(s.rows.back().a1, s.rows.back().a2);
    accept = s.rows.back().a1 == s.rows.back().a2;
  }
  // A single block can have any baselines
  accept = accept || sizes[i][0] == 1;
  checkCompress(s, args, {"DATA", "WEIGHT_SPECTRUM"}, settings,
                accept ? kAccept : kRefuse, encodings);
}

// ---- decompress

void checkDecompress(const Set& s, const std::string& spelling,
                     bool mayRefuse = false) {
  note("(" + s.describe() + ")");
  clearHome();
  {
    Config config;
    mc::setProcessors(2);
    Deterministic d(config, false);
    createSet(s, setPath());
  }
  createNeighbour(s, setPath());
  const TableState before = readSet(setPath());
  std::set<std::string> dysco;
  for (auto& c : before.columns)
    if (c.second.manager == "DyscoStMan") dysco.insert(c.first);
  const bool accepted = runTool(decompress_main, "decompress", {spelling});
  const TableState after = readSet(setPath());
  checkNeighbour(s, setPath());
  if (!accepted) {
    if (!mayRefuse) violation("refused", "decompress fails");
    const std::string d = differences(before, after, {});
    if (!d.empty())
      violation("modified", "decompress refused, but modified the set" + d);
    return;
  }
  std::string d = differences(before, after, dysco);
  for (const std::string& name : dysco) {
    auto i = after.columns.find(name);
    if (i == after.columns.end()) continue;  // reported above
    if (i->second.manager == "DyscoStMan")
      d += "; " + name + " is still compressed";
    const ColumnState& old = before.columns.at(name);
    for (size_t r = 0; r != std::min(before.nRows, after.nRows); ++r)
      if (old.cells[r] != i->second.cells[r]) {
        std::ostringstream t;
        t << "; row " << r << " of " << name << " changed";
        if (!old.values[r].empty() && !i->second.values[r].empty())
          t << " from " << old.values[r][0] << "... to "
            << i->second.values[r][0] << "...";
        d += t.str();
        break;
      }
  }
  for (auto& m : after.managers)
    if (m.second == "DyscoStMan") d += "; manager " + m.first + " remains";
  if (!d.empty()) violation("decompress", "after decompress" + d);
  if (!readDyscoFiles(setPath()).empty())
    violation("left", "a file of Dysco is left");
  DIR* dir = opendir(home().c_str());
  while (dirent* e = readdir(dir)) {
    const std::string name = e->d_name;
    if (name != "." && name != ".." && name != "x.ms" &&
        !(s.neighbour && name == "x.mstemp"))
      violation("left", name + " is left behind");
  }
  closedir(dir);
  count("sets_decompressed");
}

// Columns and files with the names that the tool uses itself
void decompressNames() {
  Set s;
  s.rows = regularRows(2, 3);
  s.flag = someFlags;
  static const char* names[] = {"DATA", "TEMP_DATA", "WEIGHT_SPECTRUM",
                                "TEMP_WEIGHT_SPECTRUM"};
  // Absent, ordinary or compressed
  bool used = false;
  for (int i = 0; i != 4; ++i) {
    // The type of weights is accepted for one name only
    const int kind = mc::choose(i == 3 ? 2 : 3, 0);
    if (kind == 0) continue;
    used = used || i % 2;
    Col c = makeColumn(names[i], kind == 1 ? kStandard : kDysco);
    c.weight = i >= 2;
    s.cols.push_back(c);
  }
  s.neighbour = mc::choose(3, 0);
  const bool reversed = mc::choose(2, 0);
  if (reversed) std::reverse(s.cols.begin(), s.cols.end());
  if (s.cols.empty()) return;
  if (s.neighbour)
    note(s.neighbour == 1 ? "(next to a table x.mstemp)"
                          : "(next to a file x.mstemp)");
  checkDecompress(s, setPath(), used);
}

void decompressColumns(bool thorough) {
  Set s;
  s.dysco.norm = mc::choose(3, 0);
  s.dysco.dist = (s.dysco.norm + 1) % 3;
  s.dysco.nu = 3.0;
  const int content = mc::choose(thorough ? 5 : 4, 0);
  // One block, several, a part of the last one, a single row, many
  s.rows = regularRows(content == 0 ? 1 : content == 4 ? 6 : 3, 3);
  if (content == 2) s.firstUnwritten = 5;
  if (content == 3) s.rows.resize(1);
  static const char* names[] = {"DATA", "WEIGHT_SPECTRUM", "CORRECTED_DATA",
                                "ABC"};
  const int managers = mc::choose(3, 0);
  const bool separate = managers == 1, bound = managers == 2;
  // Absent, ordinary or compressed
  for (int i = 0; i != 4; ++i) {
    const int kind = mc::choose(i == 3 && !thorough ? 2 : 3, 0);
    if (kind == 0) continue;
    Col c = makeColumn(names[i], kind == 1 ? (i == 1 ? kTiled : kStandard)
                                           : kDysco);
    if (separate && i % 2) c.dyscoName = "other";
    if (i == 3) c.dyscoName = "DyscoStMan";
    c.declared = !bound;
    s.cols.push_back(c);
  }
  if (s.cols.empty()) return;
  s.flag = someFlags;
  checkDecompress(s, setPath());
}

void decompressSettings(bool thorough) {
  Set s;
  static const int bits[] = {2, 3, 4, 6, 8, 10, 12, 16};
  s.dysco.norm = mc::choose(3, 0);
  s.dysco.dist = mc::choose(4, 0);
  const int b = mc::choose(thorough || s.dysco.dist == ref::Uniform ? 8 : 6, 0);
  s.dysco.dataBits = bits[b];
  s.dysco.weightBits = bits[(b + 3) % 8];
  s.dysco.nu = 4.0;
  s.rows = regularRows(1 + mc::choose(3, 0), 3, mc::choose(2, 0));
  static const int shapes[][2] = {{1, 1}, {2, 3}, {4, 2}, {3, 1}};
  const int* shape = shapes[mc::choose(thorough ? 4 : 3, 0)];
  s.cols = {makeColumn("DATA", kDysco, shape[0], shape[1]),
            makeColumn("WEIGHT_SPECTRUM", kDysco, shape[0], shape[1])};
  s.flag = someFlags;
  const std::vector<std::string> spellings{setPath(), setPath() + "/", "x.ms",
                                           "./x.ms//"};
  checkDecompress(s, spellings[mc::choose(4, 0)]);
}

// Numbers of rows and values beyond what might be handled at once
void decompressLarge(bool thorough) {
  static const int sizes[][4] = {{33, 3, 2, 2},  {34, 3, 1, 1},  {43, 3, 1, 3},
                                 {171, 3, 1, 1}, {342, 3, 2, 1}, {1367, 3, 1, 1},
                                 {1, 20, 4, 9},  {2, 5, 4, 260}, {2, 47, 1, 1},
                                 {3400, 3, 1, 1}, {22000, 3, 1, 1}};
  const int* size = sizes[mc::choose(thorough ? 11 : 9, 0)];
  Set s;
  s.dysco.norm = mc::choose(3, 0);
  s.dysco.dist = ref::Uniform;
  s.dysco.dataBits = 8;
  s.rows = regularRows(size[0], size[1]);
  // Up to two rows less, or not all of them written
  const int last = mc::choose(4, 0);
  if (last == 1 || last == 2) s.rows.resize(s.rows.size() - last);
  if (last == 3) s.firstUnwritten = s.rows.size() - 2;
  s.cols = {makeColumn("DATA", kDysco, size[2], size[3]),
            makeColumn("WEIGHT_SPECTRUM", kDysco, size[2], size[3])};
  s.flag = someFlags;
  checkDecompress(s, setPath());
}

// Compressing and decompressing, one after another
void toolSequences(int depth) {
  Set s;
  s.rows = regularRows(2, 3);
  s.cols = {makeColumn("DATA"), makeColumn("MODEL_DATA", kTiled),
            makeColumn("WEIGHT_SPECTRUM")};
  s.flag = someFlags;
  note("(" + s.describe() + ")");
  clearHome();
  createSet(s, setPath());
  struct Action {
    std::vector<std::string> columns;
    bool reorder;
    Settings settings;
  };
  std::vector<Action> actions;
  Settings four;
  four.dataBits = 10;
  four.norm = ref::RF;
  four.dist = ref::Uniform;
  actions.push_back({{}, false, {}});
  actions.push_back({{"DATA"}, false, {}});
  actions.push_back({{"MODEL_DATA"}, false, four});
  actions.push_back({{"DATA", "WEIGHT_SPECTRUM"}, true, four});
  actions.push_back({{"WEIGHT_SPECTRUM", "MODEL_DATA"}, false, {}});
  const int n = 1 + mc::choose(depth, 0);
  std::map<std::string, Settings> compressed;
  TableState before = readSet(setPath());
  for (int i = 0; i != n; ++i) {
    const Action& a = actions[mc::choose(actions.size(), 0)];
    if (a.columns.empty()) {
      if (!runTool(decompress_main, "decompress", {setPath()}))
        violation("refused", "decompress fails");
      TableState after = readSet(setPath());
      std::set<std::string> dysco;
      for (auto& c : compressed) dysco.insert(c.first);
      std::string d = differences(before, after, dysco);
      for (const std::string& name : dysco) {
        auto k = after.columns.find(name);
        if (k == after.columns.end()) continue;
        if (k->second.manager == "DyscoStMan")
          d += "; " + name + " is still compressed";
        if (k->second.cells != before.columns.at(name).cells)
          d += "; the values of " + name + " changed";
      }
      if (!d.empty()) violation("decompress", "after decompress" + d);
      compressed.clear();
      before = after;
      continue;
    }
    Args args;
    for (const std::string& c : a.columns) {
      args.push_back("-column");
      args.push_back(c);
    }
    if (a.settings.norm == ref::RF)
      args.insert(args.end(), {"-data-bit-rate", "10", "-rfnormalization",
                               "-uniform"});
    if (a.reorder) args.push_back("-reorder");
    args.push_back(setPath());
    if (!runTool(dscompress_main, "dscompress", args))
      violation("refused", "dscompress refuses a regular set");
    TableState after = readSet(setPath());
    std::set<std::string> changed(a.columns.begin(), a.columns.end());
    // Reordering encodes all compressed columns again
    if (a.reorder)
      for (auto& c : compressed) changed.insert(c.first);
    const std::string d = differences(before, after, changed);
    if (!d.empty()) violation("other", "dscompress changed other parts" + d);
    for (const std::string& c : a.columns)
      if (!compressed.count(c)) compressed[c] = a.settings;
    const std::map<std::string, DyscoFile> files = readDyscoFiles(setPath());
    for (auto& c : compressed)
      if (changed.count(c.first)) {
        Set plain = s;
        if (std::find(a.columns.begin(), a.columns.end(), c.first) ==
            a.columns.end())
          plain.flag = nullptr;
        checkCompressed(plain, c.first, before, after, files, c.second,
                        a.reorder ? 2 : 1);
      }
    before = after;
  }
}

void add(ScenarioList& list, const std::string& name,
         std::function<void()> run) {
  Scenario s;
  s.name = name;
  s.cache = false;
  s.run = run;
  list.push_back(s);
}

}  // namespace

void addTools(ScenarioList& list, const std::string& kind, bool thorough) {
  if (kind == "memory") {
    add(list, "memory/calls", []() { compressCalls(); });
    add(list, "memory/cells", []() { compressCells(); });
    add(list, "memory/large", [=]() { compressLarge(thorough); });
    add(list, "memory/regular", [=]() { compressRegular(thorough); });
    add(list, "memory/sequences",
        [=]() { toolSequences(thorough ? 3 : 2); });
  } else if (kind == "compress") {
    add(list, "compress/calls", []() { compressCalls(); });
    add(list, "compress/cells", []() { compressCells(); });
    add(list, "compress/options",
        [=]() { compressOptions(3); });
    add(list, "compress/bits", [=]() { compressBits(thorough); });
    add(list, "compress/columns", [=]() { compressColumns(thorough); });
    add(list, "compress/large", [=]() { compressLarge(thorough); });
    add(list, "compress/sequences",
        [=]() { toolSequences(thorough ? 5 : 4); });
    add(list, "compress/flags", [=]() { compressFlags(thorough); });
    add(list, "compress/regular", [=]() { compressRegular(thorough); });
  } else if (kind == "decompress") {
    add(list, "decompress/columns", [=]() { decompressColumns(thorough); });
    add(list, "decompress/settings", [=]() { decompressSettings(thorough); });
    add(list, "decompress/names", []() { decompressNames(); });
    add(list, "decompress/large", [=]() { decompressLarge(thorough); });
    add(list, "decompress/sequences",
        [=]() { toolSequences(thorough ? 4 : 3); });
  }
}
