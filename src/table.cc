#include "table.h"
#include "explore.h"
#include "io.h"
#include "mc.h"

#include <dyscostman.h>

#include <casacore/casa/Arrays/Array.h>
#include <casacore/casa/Arrays/Slicer.h>
#include <casacore/tables/DataMan/DataManager.h>
#include <casacore/tables/Tables/ArrColDesc.h>
#include <casacore/tables/Tables/ArrayColumn.h>
#include <casacore/tables/Tables/RefRows.h>
#include <casacore/tables/Tables/ScaColDesc.h>
#include <casacore/tables/Tables/ScalarColumn.h>
#include <casacore/tables/Tables/SetupNewTab.h>
#include <casacore/tables/Tables/Table.h>
#include <casacore/tables/Tables/TableLock.h>

#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <sstream>

#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace casacore;

struct TestTable::Impl {
  Table table;
  struct Col {
    std::unique_ptr<ArrayColumn<Complex>> data;
    std::unique_ptr<ArrayColumn<Float>> weight;
  };
  std::vector<Col> cols;
};

std::string Config::describe() const {
  std::ostringstream s;
  const char* norms[] = {"AF", "RF", "Row"};
  const char* dists[] = {"Gaussian", "Uniform", "StudentsT",
                         "TruncatedGaussian"};
  s << norms[norm] << "/" << dists[dist] << "/" << dataBits << "," << weightBits
    << " rows/block=" << baselines.size() << " rows=" << nRows
    << " pol=" << nPol << " chan=" << nChan << " threads=" << processors
    << (staticSeed ? " static" : "") << " columns=";
  for (const ColumnConfig& c : columns)
    s << c.name << (c.manager == 0 ? "," : " (other manager),");
  return s.str();
}

std::vector<std::pair<int, int>> allBaselines(int nAnt, bool autos) {
  std::vector<std::pair<int, int>> r;
  for (int i = 0; i != nAnt; ++i)
    for (int j = autos ? i : i + 1; j < nAnt; ++j) r.emplace_back(i, j);
  return r;
}
std::vector<ColumnConfig> dataColumns(int n) {
  std::vector<ColumnConfig> c{{"DATA", false}};
  if (n > 1) c.push_back({"MODEL_DATA", false});
  if (n > 2) c.push_back({"CORRECTED_DATA", false});
  return c;
}
std::vector<ColumnConfig> dataAndWeight() {
  return {{"DATA", false}, {"WEIGHT_SPECTRUM", true}};
}

void removeTable(const std::string& path) {
  DIR* d = opendir(path.c_str());
  if (!d) return;
  while (dirent* e = readdir(d)) {
    std::string name = e->d_name;
    if (name == "." || name == "..") continue;
    unlink((path + "/" + name).c_str());
  }
  closedir(d);
  rmdir(path.c_str());
}

TestTable::TestTable(const Config& config, const std::string& name)
    : config_(config),
      directory_(scratch() + "/" + name),
      nPuts_(config.firstValue),
      removed_(config.columns.size(), false) {
  cells_.resize(config.columns.size());
  graveyard_.resize(config.columns.size());
}

TestTable::~TestTable() {}

cfloat TestTable::value(int id, int pol, int chan) {
  if (id >= kSliced) {
    const int whole = (id - kSliced) / 256;
    return value(chan == 0 ? (id - kSliced) % 256
                           : whole == 256 ? int(kZeros) : whole,
                 pol, chan);
  }
  if (id == kZeros) return cfloat(0, 0);
  if (id == kFlagged || (id == kHalfFlagged && chan == 0)) {
    const float nan = std::numeric_limits<float>::quiet_NaN();
    return cfloat(nan, nan);
  }
  cfloat v(0.2f + 0.8f * (id % 16) / 15.0f, float((id / 16) % 16) / 15.0f);
  static const cfloat rotation[4] = {cfloat(1, 0), cfloat(0, 1), cfloat(-1, 0),
                                     cfloat(0, -1)};
  return v * rotation[(pol + 2 * chan + chan / 2) % 4];
}
float TestTable::weight(int id, int chan) {
  if (id >= kSliced) {
    const int whole = (id - kSliced) / 256;
    return weight(chan == 0 ? (id - kSliced) % 256
                            : whole == 256 ? int(kZeros) : whole);
  }
  if (id >= kZeros) return 0.0f;
  return (1 + id % 255) / 256.0f;
}

void TestTable::create() {
  removeTable(directory_);
  note("create " + config_.describe());
  mc::setProcessors(config_.processors);
  TableDesc td;
  for (const char* n : {"ANTENNA1", "ANTENNA2", "FIELD_ID", "DATA_DESC_ID"})
    td.addColumn(ScalarColumnDesc<Int>(n));
  td.addColumn(ScalarColumnDesc<Double>("TIME"));
  const IPosition shape(2, config_.nPol, config_.nChan);
  const int option = ColumnDesc::Direct | ColumnDesc::FixedShape;
  for (const ColumnConfig& c : config_.columns) {
    const std::string manager = config_.managerNameOf(c.manager);
    if (c.weight)
      td.addColumn(ArrayColumnDesc<Float>(c.name, "", "DyscoStMan", manager,
                                          shape, option));
    else
      td.addColumn(ArrayColumnDesc<Complex>(c.name, "", "DyscoStMan", manager,
                                            shape, option));
  }
  SetupNewTable setup(directory_, td, Table::New);
  std::unique_ptr<DataManager> made;
  if (config_.makeManager) made.reset(config_.makeManager());
  dyscostman::DyscoStMan manager(config_.dataBits, config_.weightBits,
                                 config_.managerName);
  switch (config_.dist) {
    case ref::Gaussian: manager.SetGaussianDistribution(); break;
    case ref::Uniform: manager.SetUniformDistribution(); break;
    case ref::StudentsT: manager.SetStudentsTDistribution(config_.nu); break;
    case ref::TruncatedGaussian:
      manager.SetTruncatedGaussianDistribution(config_.truncation);
      break;
  }
  auto normalization = [](int norm) {
    return norm == ref::AF   ? dyscostman::Normalization::kAF
           : norm == ref::RF ? dyscostman::Normalization::kRF
                             : dyscostman::Normalization::kRow;
  };
  manager.SetNormalization(normalization(config_.norm));
  manager.SetStaticSeed(config_.staticSeed);
  dyscostman::DyscoStMan second(12, 16, config_.managerNameOf(1));
  second.SetUniformDistribution();
  second.SetNormalization(normalization(config_.normOf(1)));
  for (const ColumnConfig& c : config_.columns) {
    if (c.manager == 1)
      setup.bindColumn(c.name, second);
    else
      setup.bindColumn(c.name, made ? *made : manager);
  }
  impl_.reset(new Impl());
  impl_->table = Table(setup, config_.nRows);
  nRows_ = config_.nRows;
  rowsPerBlock_[0] = rowsPerBlock_[1] = 0;
  for (size_t c = 0; c != cells_.size(); ++c)
  {
    cells_[c].assign(nRows_, Cell());
    graveyard_[c].clear();
  }
  fillMeta(0, nRows_);
  attach();
}

bool TestTable::attached() const {
  return impl_ && impl_->cols.size() == config_.columns.size();
}

casacore::Table& TestTable::table() { return impl_->table; }

void TestTable::fillMeta(int from, int to) {
  if (from == to) return;
  Table& t = impl_->table;
  ScalarColumn<Int> a1(t, "ANTENNA1"), a2(t, "ANTENNA2"), field(t, "FIELD_ID"),
      dd(t, "DATA_DESC_ID");
  ScalarColumn<Double> time(t, "TIME");
  const int n = config_.baselines.size();
  for (int r = from; r != to; ++r) {
    const int block = r / n;
    a1.put(r, config_.baselines[r % n].first);
    a2.put(r, config_.baselines[r % n].second);
    field.put(r, config_.fields ? block % 2 : 0);
    // With both, the sum stays the same
    dd.put(r, config_.dataDescs ? (block + config_.fields) % 2 : 0);
    // Modified Julian date in seconds, with the shortest possible time steps
    const int step = (config_.fields || config_.dataDescs) ? block / 2 : block;
    time.put(r, 4915430400.0 +
                    (config_.backwards ? -1.0 : 1.0) / 1048576.0 * step);
  }
}

void TestTable::attach() {
  impl_->cols.clear();
  impl_->cols.resize(config_.columns.size());
  for (size_t c = 0; c != config_.columns.size(); ++c) {
    if (removed_[c]) continue;
    if (config_.columns[c].weight)
      impl_->cols[c].weight.reset(
          new ArrayColumn<Float>(impl_->table, config_.columns[c].name));
    else
      impl_->cols[c].data.reset(
          new ArrayColumn<Complex>(impl_->table, config_.columns[c].name));
  }
}

void TestTable::open(bool writable) {
  note(writable ? "open rw" : "open ro");
  mc::setProcessors(config_.processors);
  impl_.reset(new Impl());
  impl_->table = Table(directory_, writable ? Table::Update : Table::Old);
  if (int(impl_->table.nrow()) != nRows_)
    violation("rows", "table has " + std::to_string(impl_->table.nrow()) +
                          " rows instead of " + std::to_string(nRows_));
  attach();
}

void TestTable::close() {
  note("close");
  impl_->cols.clear();
  impl_.reset();
  for (int m = 0; m != 2; ++m) {
    if (rowsPerBlock_[m] != 0) continue;
    // A single unfinished time block is stored
    for (int c : present(m))
      for (int r = 0; r != nRows_; ++r)
        if (cells_[c][r].written && r + 1 > rowsPerBlock_[m])
          rowsPerBlock_[m] = r + 1;
  }
}

bool TestTable::canPut(int c, int row) const {
  if (removed_[c] || row < 0 || row >= nRows_) return false;
  if (rowsPerBlockKnown(c)) return true;
  const int n = config_.baselines.size();
  // The first time block is to be written completely and in order
  if (row > n) return false;
  int written = 0;
  while (written < nRows_ && written < n && cells_[c][written].written)
    ++written;
  return row <= written;
}

void TestTable::put(int c, int row) { putId(c, row, nPuts_++ % 256); }

void TestTable::putId(int c, int row, int id) {
  note("put " + config_.columns[c].name + "[" + std::to_string(row) + "]=" +
       (id == kZeros ? "zeros"
        : id == kFlagged ? "flagged"
        : id == kHalfFlagged ? "first channel flagged"
                         : "#" + std::to_string(id)));
  io::mark(c, row);
  const IPosition shape(2, config_.nPol, config_.nChan);
  if (!rowsPerBlockKnown(c) && row == int(config_.baselines.size()))
    rowsPerBlock_[config_.columns[c].manager] = row;
  // Half of the cells are written from a section of a larger array
  const bool section = (c + row) % 2 != 0;
  if (config_.columns[c].weight) {
    Array<Float> all(section ? shape + 2 : shape);
    all = -777.0f;
    Array<Float> a(section ? all(Slicer(IPosition(2, 1, 1), shape)) : all);
    a = weight(id);
    impl_->cols[c].weight->put(row, a);
  } else {
    Array<Complex> all(section ? shape + 2 : shape);
    all = Complex(-777.0f, 777.0f);
    Array<Complex> a(section ? all(Slicer(IPosition(2, 1, 1), shape)) : all);
    for (int ch = 0; ch != config_.nChan; ++ch)
      for (int pol = 0; pol != config_.nPol; ++pol)
        a(IPosition(2, pol, ch)) = value(id, pol, ch);
    impl_->cols[c].data->put(row, a);
  }
  written(c, row, id);
}

void TestTable::written(int c, int row, int id) {
  Cell& cell = cells_[c][row];
  cell.written = true;
  cell.unknown = false;
  cell.id = id;
  cell.history.push_back(id);
}

void TestTable::putSlice(int c, int row) {
  const Cell& cell = cells_[c][row];
  const int old = !cell.written || cell.id == kZeros ? 256
                  : cell.id >= kSliced              ? (cell.id - kSliced) / 256
                                                    : cell.id;
  const int first = nPuts_++ % 256;
  note("putSlice first channel of " + config_.columns[c].name + "[" +
       std::to_string(row) + "]=#" + std::to_string(first));
  const Slicer slicer(IPosition(2, 0, 0), IPosition(2, config_.nPol, 1));
  if (config_.columns[c].weight) {
    Array<Float> a(IPosition(2, config_.nPol, 1));
    a = weight(first);
    impl_->cols[c].weight->putSlice(row, slicer, a);
  } else {
    Array<Complex> a(IPosition(2, config_.nPol, 1));
    for (int pol = 0; pol != config_.nPol; ++pol)
      a.data()[pol] = value(first, pol, 0);
    impl_->cols[c].data->putSlice(row, slicer, a);
  }
  written(c, row, kSliced + old * 256 + first);
}

void TestTable::putRows(int c, const std::vector<int>& rows) {
  std::string list;
  for (int r : rows) list += " " + std::to_string(r);
  note("putColumnCells " + config_.columns[c].name + list);
  Vector<uInt> numbers(rows.size());
  for (size_t i = 0; i != rows.size(); ++i) numbers[i] = rows[i];
  const IPosition shape(3, config_.nPol, config_.nChan, rows.size());
  std::vector<int> ids;
  for (size_t i = 0; i != rows.size(); ++i) ids.push_back(nPuts_++ % 256);
  if (config_.columns[c].weight) {
    Array<Float> a(shape);
    Float* p = a.data();
    for (int id : ids)
      for (int i = 0; i != config_.nPol * config_.nChan; ++i) *p++ = weight(id);
    impl_->cols[c].weight->putColumnCells(RefRows(numbers), a);
  } else {
    Array<Complex> a(shape);
    Complex* p = a.data();
    for (int id : ids)
      for (int ch = 0; ch != config_.nChan; ++ch)
        for (int pol = 0; pol != config_.nPol; ++pol) *p++ = value(id, pol, ch);
    impl_->cols[c].data->putColumnCells(RefRows(numbers), a);
  }
  for (size_t i = 0; i != rows.size(); ++i) written(c, rows[i], ids[i]);
}

void TestTable::putColumn(int c) {
  note("putColumn " + config_.columns[c].name);
  const IPosition shape(3, config_.nPol, config_.nChan, nRows_);
  const int first = nPuts_;
  if (config_.columns[c].weight) {
    Array<Float> a(shape);
    Float* p = a.data();
    for (int r = 0; r != nRows_; ++r)
      for (int i = 0; i != config_.nPol * config_.nChan; ++i)
        *p++ = weight((first + r) % 256);
    impl_->cols[c].weight->putColumn(a);
  } else {
    Array<Complex> a(shape);
    Complex* p = a.data();
    for (int r = 0; r != nRows_; ++r)
      for (int ch = 0; ch != config_.nChan; ++ch)
        for (int pol = 0; pol != config_.nPol; ++pol)
          *p++ = value((first + r) % 256, pol, ch);
    impl_->cols[c].data->putColumn(a);
  }
  for (int r = 0; r != nRows_; ++r) written(c, r, (first + r) % 256);
  nPuts_ += nRows_;
  if (!rowsPerBlockKnown(c) && nRows_ > int(config_.baselines.size()))
    rowsPerBlock_[config_.columns[c].manager] = config_.baselines.size();
}

template <typename T>
std::vector<cfloat> TestTable::readInto(ArrayColumn<T>& column, int c, int row,
                                        T old) {
  // Cells are read into arrays that hold other values, and half of them into a
  // section (that is not contiguous) of a larger array
  const IPosition shape(2, config_.nPol, config_.nChan);
  const bool section = (c + row) % 2 != 0;
  std::vector<cfloat> v(shape.product());
  Array<T> all(section ? shape + 2 : shape);
  all = old;
  Array<T> a(section ? all(Slicer(IPosition(2, 1, 1), shape)) : all);
  column.get(row, a, !section);
  if (a.nelements() != v.size()) violation("shape", "wrong shape returned");
  std::copy(a.begin(), a.end(), v.begin());
  if (section) {
    a = old;
    for (const T& x : all)
      if (memcmp(&x, &old, sizeof x) != 0)
        violation("section", "reading a cell into a section of an array "
                             "changed the rest of the array");
  }
  return v;
}

std::vector<cfloat> TestTable::read(int c, int row) {
  if (config_.columns[c].weight)
    return readInto(*impl_->cols[c].weight, c, row, 777.0f);
  return readInto(*impl_->cols[c].data, c, row, Complex(777.0f, -777.0f));
}

int TestTable::identify(int c, const std::vector<cfloat>& v) const {
  bool zero = true;
  for (const cfloat& x : v) zero = zero && x == cfloat(0, 0);
  if (zero) return -1;
  bool flagged = true;
  for (const cfloat& x : v) flagged = flagged && !std::isfinite(x.real());
  if (flagged) return kFlagged;
  const int n = config_.columns[c].weight ? 255 : 256;
  for (int id = 0; id != n; ++id) {
    bool ok = true;
    size_t i = 0;
    for (int ch = 0; ch != config_.nChan && ok; ++ch)
      for (int pol = 0; pol != config_.nPol && ok; ++pol, ++i) {
        if (config_.columns[c].weight)
          ok = std::fabs(v[i].real() - weight(id)) < 0.0015;
        else {
          const cfloat d = v[i] - value(id, pol, ch);
          ok = std::fabs(d.real()) <= config_.tolerance &&
               std::fabs(d.imag()) <= config_.tolerance;
        }
      }
    if (ok) return id;
  }
  return -2;
}

void TestTable::compare(int c, int row, const cfloat* values, const char* how) {
  if (skipValue(c, row)) return;
  const Cell& cell = cells_[c][row];
  if (cell.unknown) {
    const int id = identify(
        c, std::vector<cfloat>(values, values + config_.nPol * config_.nChan));
    bool known = id == -1;
    for (int h : cell.history) known = known || h == id;
    if (!known)
      violation("value", std::string(how) + " of re-added row " +
                             std::to_string(row) +
                             " gives a value that was never written to it");
    return;
  }
  size_t i = 0;
  for (int ch = 0; ch != config_.nChan; ++ch)
    for (int pol = 0; pol != config_.nPol; ++pol, ++i) {
      const cfloat got = values[i];
      cfloat want(0, 0);
      double tolerance = 0.0;
      if (cell.written) {
        if (config_.columns[c].weight) {
          want = weight(cell.id, ch);
          tolerance = 0.0015;
        } else {
          want = value(cell.id, pol, ch);
          tolerance = config_.tolerance;
        }
        if (config_.coarse) tolerance = 1e30;
      } else if (config_.coarse) {
        // The level in the middle is not always exactly zero
        tolerance = 1e-9;
      }
      if (std::isnan(want.real())) {
        if (std::isfinite(got.real()) || std::isfinite(got.imag())) {
          std::ostringstream s;
          s << how << " of " << config_.columns[c].name << " row " << row
            << " pol " << pol << " chan " << ch << " gives " << got
            << ", but the value is flagged";
          violation("value", s.str());
        }
        continue;
      }
      const cfloat d = got - want;
      if (!(std::fabs(d.real()) <= tolerance &&
            std::fabs(d.imag()) <= tolerance)) {
        std::ostringstream s;
        std::vector<cfloat> all(values,
                                values + config_.nPol * config_.nChan);
        const int id = identify(c, all);
        s << how << " of " << config_.columns[c].name << " row " << row
          << " pol " << pol << " chan " << ch << " gives " << got
          << ", expected " << want;
        if (cell.written)
          s << " (value #" << cell.id << ")";
        else
          s << " (never written)";
        if (id >= 0) s << "; the row holds value #" << id;
        if (id == -1) s << "; the row holds zeros";
        violation("value", s.str());
      }
    }
}

void TestTable::get(int c, int row) {
  note("get " + config_.columns[c].name + "[" + std::to_string(row) + "]");
  std::vector<cfloat> v = read(c, row);
  compare(c, row, v.data(), "reading");
  count("reads_compared");
}

void TestTable::getAll() {
  note("read all");
  for (int c = 0; c != nColumns(); ++c) {
    if (removed_[c]) continue;
    for (int r = 0; r != nRows_; ++r) {
      std::vector<cfloat> v = read(c, r);
      compare(c, r, v.data(), "reading");
      count("reads_compared");
    }
  }
}

void TestTable::getColumn(int c) {
  note("getColumn " + config_.columns[c].name);
  std::vector<cfloat> v;
  if (config_.columns[c].weight) {
    Array<Float> a(IPosition(3, config_.nPol, config_.nChan, nRows_));
    a = 777.0f;
    impl_->cols[c].weight->getColumn(a);
    v.assign(a.begin(), a.end());
  } else {
    Array<Complex> a(IPosition(3, config_.nPol, config_.nChan, nRows_));
    a = Complex(777.0f, -777.0f);
    impl_->cols[c].data->getColumn(a);
    v.assign(a.begin(), a.end());
  }
  const size_t n = config_.nPol * config_.nChan;
  if (v.size() != n * nRows_) violation("shape", "wrong column shape");
  for (int r = 0; r != nRows_; ++r) compare(c, r, &v[r * n], "getColumn");
}

void TestTable::getReversed(int c) {
  note("getColumnCells " + config_.columns[c].name + ", last row first");
  if (nRows_ == 0) return;
  Vector<uInt> numbers(nRows_);
  for (int r = 0; r != nRows_; ++r) numbers[r] = nRows_ - 1 - r;
  std::vector<cfloat> v;
  if (config_.columns[c].weight) {
    Array<Float> a = impl_->cols[c].weight->getColumnCells(RefRows(numbers));
    v.assign(a.begin(), a.end());
  } else {
    Array<Complex> a = impl_->cols[c].data->getColumnCells(RefRows(numbers));
    v.assign(a.begin(), a.end());
  }
  const size_t n = config_.nPol * config_.nChan;
  if (v.size() != n * nRows_) violation("shape", "wrong shape of cells");
  for (int r = 0; r != nRows_; ++r)
    compare(c, r, &v[(nRows_ - 1 - r) * n], "getColumnCells");
}

void TestTable::getColumnSlice(int c) {
  note("getColumn " + config_.columns[c].name + ", last channel");
  const Slicer slicer(IPosition(2, 0, config_.nChan - 1),
                      IPosition(2, config_.nPol, 1));
  std::vector<cfloat> v;
  if (config_.columns[c].weight) {
    Array<Float> a = impl_->cols[c].weight->getColumn(slicer);
    v.assign(a.begin(), a.end());
  } else {
    Array<Complex> a = impl_->cols[c].data->getColumn(slicer);
    v.assign(a.begin(), a.end());
  }
  const size_t n = config_.nPol;
  if (v.size() != n * nRows_) violation("shape", "wrong shape of slices");
  for (int r = 0; r != nRows_; ++r) {
    std::vector<cfloat> all = read(c, r);
    std::copy_n(&v[r * n], n, all.end() - n);
    compare(c, r, all.data(), "getColumn (slices)");
  }
}

void TestTable::getSlice(int c, int row) {
  // The last polarization and channel
  note("getSlice " + config_.columns[c].name + "[" + std::to_string(row) + "]");
  const IPosition start(2, config_.nPol - 1, config_.nChan - 1);
  const Slicer slicer(start, IPosition(2, 1, 1));
  std::vector<cfloat> v = read(c, row);
  cfloat x;
  if (config_.columns[c].weight)
    x = *impl_->cols[c].weight->getSlice(row, slicer).data();
  else
    x = *impl_->cols[c].data->getSlice(row, slicer).data();
  if (memcmp(&x, &v.back(), sizeof x) != 0)
    violation("value", "slice differs from the full cell");
  compare(c, row, v.data(), "reading");
}

void TestTable::assume(const std::string& directory, int nRows,
                       int rowsPerBlock,
                       const std::vector<std::vector<Cell>>& cells) {
  directory_ = directory;
  nRows_ = nRows;
  rowsPerBlock_[0] = rowsPerBlock;
  cells_ = cells;
  for (auto& g : graveyard_) g.clear();
}

void TestTable::addRows(int n) {
  note("add " + std::to_string(n) + " rows");
  impl_->table.addRow(n);
  const int old = nRows_;
  nRows_ += n;
  for (size_t c = 0; c != cells_.size(); ++c) {
    cells_[c].resize(nRows_);
    for (int r = old; r != nRows_; ++r) {
      if (r < int(graveyard_[c].size())) {
        cells_[c][r] = graveyard_[c][r];
        cells_[c][r].written = false;
        cells_[c][r].unknown = true;
      }
    }
  }
  fillMeta(old, nRows_);
}

void TestTable::removeLastRow() {
  note("remove last row");
  impl_->table.removeRow(nRows_ - 1);
  --nRows_;
  for (size_t c = 0; c != cells_.size(); ++c) {
    if (graveyard_[c].size() < cells_[c].size())
      graveyard_[c].resize(cells_[c].size());
    graveyard_[c][nRows_] = cells_[c][nRows_];
    cells_[c].resize(nRows_);
  }
}

void TestTable::flush() {
  note("flush");
  impl_->table.flush();
}

void TestTable::removeColumn(int c) {
  note("remove column " + config_.columns[c].name);
  impl_->cols[c].data.reset();
  impl_->cols[c].weight.reset();
  impl_->table.removeColumn(config_.columns[c].name);
  removed_[c] = true;
  // casacore recreates its columns
  attach();
}

void TestTable::reopenWritable() {
  note("reopen rw");
  impl_->table.reopenRW();
  if (!impl_->table.isWritable())
    violation("open", "the table could not be made writable");
  attach();
}

void TestTable::rename() {
  note("rename table");
  // casacore's own managers open their files when these are used first, with the
  // name of the table at the time of opening it
  if (nRows_ != 0)
    for (const char* n : {"ANTENNA1", "ANTENNA2", "FIELD_ID", "DATA_DESC_ID"})
      ScalarColumn<Int>(impl_->table, n)(0);
  directory_ += "r";
  impl_->table.rename(directory_, Table::New);
}

void TestTable::renameColumn(int c) {
  const std::string name = config_.columns[c].name + "X";
  note("rename column " + config_.columns[c].name);
  impl_->cols[c].data.reset();
  impl_->table.renameColumn(name, config_.columns[c].name);
  config_.columns[c].name = name;
  attach();
}

void TestTable::verifyStored() {
  if (impl_) close();
  open(false);
  getAll();
  close();
}

std::vector<int> TestTable::present(int manager) const {
  std::vector<int> list;
  for (size_t c = 0; c != config_.columns.size(); ++c)
    if (!removed_[c] && config_.columns[c].manager == manager)
      list.push_back(c);
  return list;
}

int TestTable::nManagers() const {
  for (const ColumnConfig& c : config_.columns)
    if (c.manager == 1) return 2;
  return 1;
}

std::string TestTable::dyscoFile(int manager) const {
  // The file of the only Dysco manager, or of the one with this name
  DIR* d = opendir(directory_.c_str());
  std::string result;
  if (!d) return result;
  while (dirent* e = readdir(d)) {
    std::string name = e->d_name;
    if (name.compare(0, 7, "table.f") != 0) continue;
    const std::string path = directory_ + "/" + name;
    std::vector<uint8_t> head(4);
    FILE* f = fopen(path.c_str(), "rb");
    size_t n = f ? fread(head.data(), 1, 4, f) : 0;
    if (f) fclose(f);
    // Standard managers start with the AipsIO magic value 0xbebebebe
    if (n == 4 && head[0] == 0xbe && head[1] == 0xbe) continue;
    if (name.back() == 'i') continue;  // table.f0i: indirect arrays
    if (nManagers() != 1) {
      ref::Header h;
      if (!ref::parse(ref::readFile(path), h).empty() ||
          h.name != config_.managerNameOf(manager))
        continue;
    }
    result = path;
  }
  closedir(d);
  return result;
}

uint64_t TestTable::fileHash() const {
  uint64_t h = 1469598103934665603ull;
  for (int m = 0; m != nManagers(); ++m)
    for (uint8_t b : ref::readFile(dyscoFile(m)))
      h = (h ^ b) * 1099511628211ull;
  return h;
}

void TestTable::compareWithReference(const std::vector<uint8_t>& file,
                                     bool modelled, int manager) {
  ref::Header h;
  const std::string error = ref::parse(file, h);
  if (!error.empty()) violation("format", error);
  if (h.rowsPerBlock == 0) return;
  const std::vector<int> present = this->present(manager);
  std::vector<ref::Layout> layouts;
  for (int c : present)
    layouts.push_back(ref::layout(h, config_.columns[c].weight, config_.nPol,
                                  config_.nChan));
  for (size_t i = 0; i != present.size(); ++i) {
    const int c = present[i];
    size_t offset = 0;
    for (size_t k = 0; k != i; ++k) offset += layouts[k].size;
    const std::vector<float> levels =
        config_.columns[c].weight
            ? std::vector<float>()
            : ref::levels(h.distribution, h.dataBits, h.nu, h.truncation);
    for (int r = 0; r != nRows_; ++r) {
      if (skipValue(c, r)) continue;
      const size_t block = r / int(h.rowsPerBlock);
      const size_t pos = h.headerSize + block * h.blockSize + offset;
      std::vector<uint8_t> data(layouts[i].size, 0);
      // A column part past the end of the file holds zeros
      if (pos + data.size() <= file.size())
        memcpy(data.data(), &file[pos], data.size());
      std::vector<std::complex<double>> want(config_.nPol * config_.nChan);
      const int n = config_.baselines.size();
      ref::decodeRow(h, layouts[i], data.data(), r % int(h.rowsPerBlock),
                     config_.baselines[r % n].first,
                     config_.baselines[r % n].second, levels, want.data());
      const std::vector<cfloat> got = read(c, r);
      for (size_t v = 0; v != want.size(); ++v) {
        const bool finite = std::isfinite(want[v].real()) &&
                            std::isfinite(want[v].imag());
        if (!finite && !std::isfinite(got[v].real()) &&
            (layouts[i].weight || !std::isfinite(got[v].imag())))
          continue;
        const double e = std::max(std::fabs(got[v].real() - want[v].real()),
                                  std::fabs(got[v].imag() - want[v].imag()));
        const double m = std::max(std::fabs(want[v].real()),
                                  std::fabs(want[v].imag()));
        if (!(e <= 4e-6 * m + 1e-12)) {
          std::ostringstream s;
          s << "row " << r << " of " << config_.columns[c].name << " value "
            << v << ": Dysco returns " << got[v]
            << ", the independent reader " << want[v];
          violation("format", s.str());
        }
        count("values_decoded_independently");
      }
      if (modelled) compare(c, r, got.data(), "reading");
    }
  }
}

void TestTable::verifyFile() {
  if (impl_) close();
  for (int m = 0; m != nManagers(); ++m)
    if (!present(m).empty()) verifyFileOf(m);
}

void TestTable::verifyFileOf(int m) {
  const std::vector<uint8_t> file = ref::readFile(dyscoFile(m));
  const int rowsPerBlock = rowsPerBlock_[m];
  ref::Header h;
  std::string error = ref::parse(file, h);
  if (!error.empty()) violation("format", error);
  if (h.name != config_.managerNameOf(m))
    violation("format", "manager name is '" + h.name + "'");
  if (m == 1 &&
      (h.dataBits != 12 || h.weightBits != 16 ||
       h.distribution != ref::Uniform || h.normalization != config_.normOf(1)))
    violation("format", "header does not hold the settings");
  if (m == 0 && (h.dataBits != config_.dataBits || h.weightBits != config_.weightBits ||
      h.distribution != config_.dist || h.normalization != config_.norm ||
      (config_.dist == ref::StudentsT && h.nu != config_.nu) ||
      (config_.dist == ref::TruncatedGaussian &&
       h.truncation != config_.truncation)))
    violation("format", "header does not hold the settings");
  const std::vector<int> present = this->present(m);
  if (h.columns.size() != present.size())
    violation("format", "wrong number of columns in header");
  if (h.rowsPerBlock != uint32_t(rowsPerBlock))
    violation("format", "rowsPerBlock is " + std::to_string(h.rowsPerBlock) +
                            ", expected " + std::to_string(rowsPerBlock));
  std::vector<ref::Layout> layouts;
  size_t blockSize = 0;
  for (size_t i = 0; i != present.size(); ++i) {
    layouts.push_back(ref::layout(h, config_.columns[present[i]].weight,
                                  config_.nPol, config_.nChan));
    if (rowsPerBlock != 0 && h.columns[i].blockSize != layouts[i].size)
      violation("format", "column block size is " +
                              std::to_string(h.columns[i].blockSize) +
                              ", expected " + std::to_string(layouts[i].size));
    blockSize += layouts[i].size;
  }
  if (rowsPerBlock == 0) {
    if (file.size() > h.headerSize)
      violation("format", "a file without blocks has data");
    return;
  }
  int nAnt = 0;
  for (auto& b : config_.baselines)
    nAnt = std::max(nAnt, std::max(b.first, b.second) + 1);
  if (rowsPerBlock == int(config_.baselines.size()) &&
      h.antennaCount != uint32_t(nAnt))
    violation("format",
              "antennaCount is " + std::to_string(h.antennaCount));
  if (h.blockSize != blockSize)
    violation("format", "block size is " + std::to_string(h.blockSize) +
                            ", expected " + std::to_string(blockSize));
  // Blocks of removed rows may stay
  int maxRows = nRows_;
  for (auto& column : graveyard_) maxRows = std::max(maxRows, int(column.size()));
  const size_t nBlocks = (maxRows + rowsPerBlock - 1) / rowsPerBlock;
  if (file.size() > h.headerSize + std::max<size_t>(nBlocks, 1) * blockSize)
    violation("format", "file is larger than its blocks");
  open(false);
  compareWithReference(file, true, m);
  close();
}

void TestTable::verifyAdjacent(int endBlock) {
  if (nManagers() != 1)
    violation("internal", "verifyAdjacent() is for one manager");
  const std::vector<uint8_t> file = ref::readFile(dyscoFile());
  ref::Header h;
  const std::string error = ref::parse(file, h);
  if (!error.empty()) violation("format", error);
  if (h.rowsPerBlock == 0) return;
  const int rows = h.rowsPerBlock;
  size_t offset = 0;
  size_t index = 0;
  for (int c = 0; c != nColumns(); ++c) {
    if (removed_[c]) continue;
    if (index++ >= h.columns.size()) violation("format", "column is missing");
    const bool isWeight = config_.columns[c].weight;
    const ref::Layout l = ref::layout(h, isWeight, config_.nPol, config_.nChan);
    const std::vector<float> levels =
        isWeight ? std::vector<float>()
                 : ref::levels(h.distribution, h.dataBits, h.nu, h.truncation);
    const int end = endBlock < 0 ? nRows_ : std::min(nRows_, endBlock * rows);
    for (int r = 0; r != end; ++r) {
      if (!cells_[c][r].written || skipValue(c, r)) continue;
      const size_t pos = h.headerSize + (r / rows) * size_t(h.blockSize) + offset;
      if (pos + l.size > file.size())
        violation("format", "block " + std::to_string(r / rows) + " of " +
                                config_.columns[c].name +
                                " was written, but is not in the file");
      const uint8_t* data = &file[pos];
      std::vector<float> meta(l.metaFloats);
      memcpy(meta.data(), data, l.metaFloats * sizeof(float));
      const uint8_t* packed = data + l.metaFloats * sizeof(float);
      const int row = r % rows;
      const int id = cells_[c][r].id;
      auto where = [&](int pol, int ch) {
        std::ostringstream s;
        s << "row " << r << " of " << config_.columns[c].name << " pol " << pol
          << " chan " << ch;
        return s.str();
      };
      if (isWeight) {
        const double step = double(meta[0]) / ((1u << l.bits) - 1);
        for (int ch = 0; ch != config_.nChan; ++ch) {
          const unsigned s =
              ref::symbolAt(packed, size_t(row) * l.nChan + ch, l.bits);
          const double e = std::fabs(s * step - double(weight(id, ch)));
          if (!(e <= step * 0.5001 + 1e-7))
            violation("value", where(0, ch) + ": stored weight " +
                                   std::to_string(s * step) + ", written " +
                                   std::to_string(weight(id)));
          count("values_compared_with_levels");
        }
        continue;
      }
      const int vis = l.nPol * l.nChan;
      for (int i = 0; i != vis; ++i) {
        const double scale =
            ref::visScale(h, l, meta.data(), row,
                          config_.baselines[r % config_.baselines.size()].first,
                          config_.baselines[r % config_.baselines.size()].second,
                          i);
        const cfloat v = value(id, i % l.nPol, i / l.nPol);
        for (int k = 0; k != 2; ++k) {
          const unsigned s =
              ref::symbolAt(packed, (size_t(row) * vis + i) * 2 + k, l.bits);
          const double x = k == 0 ? v.real() : v.imag();
          if (s >= levels.size())
            violation("value", where(i % l.nPol, i / l.nPol) +
                                   ": stored symbol is non-finite");
          const double margin = 5e-6 * std::fabs(scale * levels.back());
          const double low = s == 0 ? levels[0] : levels[s - 1];
          const double high =
              s + 1 == levels.size() ? levels[s] : levels[s + 1];
          // Also not clipped
          if (!(scale > 0) || x < low * scale - margin ||
              x > high * scale + margin) {
            std::ostringstream t;
            t << where(i % l.nPol, i / l.nPol) << ": component " << x
              << " is stored as symbol " << s << ", level "
              << levels[s] * scale << " with neighbours " << low * scale
              << " and " << high * scale;
            violation("value", t.str());
          }
          count("values_compared_with_levels");
        }
      }
    }
    offset += l.size;
  }
}
