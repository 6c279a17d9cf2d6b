// A casacore table with columns stored by Dysco, together with a reference
// model of what it should contain. Every read is compared with the model.
#ifndef TABLE_H
#define TABLE_H
#include "reference.h"

#include <complex>
#include <functional>
#include <cstdint>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace casacore {
template <typename T>
class ArrayColumn;
class DataManager;
class Table;
}

typedef std::complex<float> cfloat;

struct ColumnConfig {
  std::string name;
  bool weight;
  // Which manager the column is bound to: the one of the configuration or a
  // second one, that has other settings
  int manager = 0;
};

struct Config {
  std::vector<std::pair<int, int>> baselines;  // the rows of a time block
  int nRows = 0;
  int nPol = 1, nChan = 1;
  int norm = ref::RF, dist = ref::Uniform;
  int dataBits = 16, weightBits = 12;
  double nu = 3.0, truncation = 2.5;
  bool staticSeed = false;
  int processors = 2;
  std::vector<ColumnConfig> columns;
  double tolerance = 0.02;
  std::string managerName = "DyscoData";
  int fieldOfBlock(int block) const { return fields ? block % 2 : 0; }
  bool fields = false;      // consecutive blocks differ in field, not in time
  bool dataDescs = false;   // ... or in data description id
  bool backwards = false;   // times go back
  // Too few bits to compare values: only verifyAdjacent() does
  bool coarse = false;
  // Number of the first value: the first sixteen are (almost) real
  int firstValue = 0;
  std::string managerNameOf(int manager) const {
    return manager == 0 ? managerName : managerName + "2";
  }
  int normOf(int manager) const {
    return manager == 0 ? norm : norm == ref::RF ? ref::Row : ref::RF;
  }
  // Makes the manager of a new table, if not the default one
  std::function<casacore::DataManager*()> makeManager;

  int rowsPerBlock() const { return baselines.size(); }
  std::string describe() const;
};

// Baselines: all pairs of nAnt antennas
std::vector<std::pair<int, int>> allBaselines(int nAnt, bool autos);
std::vector<ColumnConfig> dataColumns(int n);
std::vector<ColumnConfig> dataAndWeight();

class TestTable {
 public:
  explicit TestTable(const Config& config, const std::string& name = "t");
  ~TestTable();

  void create();
  void open(bool writable);
  void close();
  bool isOpen() const { return bool(impl_); }
  bool attached() const;  // are the columns available?

  // Store a new value in a row (each put has a unique value)
  void put(int column, int row);
  // Store the value with the given number, or one of these
  enum { kZeros = 1000, kFlagged, kHalfFlagged, kSliced = 2000 };
  void putId(int column, int row, int id);
  // Read a row and compare
  void get(int column, int row);
  void getAll();          // all rows of all columns, cell by cell
  void getColumn(int column);  // with ArrayColumn::getColumn()
  void getSlice(int column, int row);
  void putColumn(int column);
  // Store the first channel of a row (ArrayColumn::putSlice())
  void putSlice(int column, int row);
  // Store several rows at once, that are not in order
  void putRows(int column, const std::vector<int>& rows);
  // Read all rows at once, last row first
  void getReversed(int column);
  // Read one channel of the entire column
  void getColumnSlice(int column);
  void addRows(int n);
  void removeLastRow();
  void flush();
  void removeColumn(int column);
  // Make a table that is open for reading writable
  void reopenWritable();
  // Move the table (which is open), or rename a visibility column
  void rename();
  void renameColumn(int column);

  // Close, open for reading, check everything, and close again
  void verifyStored();
  // Compare the file with the independent reader. exact: the values that
  // Dysco returns should be those of the reader
  void verifyFile();

  // Compare the stored symbols with the written values: these should be one of
  // the two levels next to the value. Only for rows that were encoded once.
  // The table may still be open; then the blocks before endBlock are compared.
  void verifyAdjacent(int endBlock = -1);
  casacore::Table& table();
  void setDirectory(const std::string& directory) { directory_ = directory; }

  // Is a put to this row allowed (rules for the first time block)?
  bool canPut(int column, int row) const;
  bool canClose() const { return true; }

  int nRows() const { return nRows_; }
  int nColumns() const { return config_.columns.size(); }
  void setRowsPerBlock(int n) { rowsPerBlock_[0] = n; }
  bool hasColumn(int c) const { return !removed_[c]; }
  const Config& config() const { return config_; }
  bool rowsPerBlockKnown(int column) const {
    return rowsPerBlock_[config_.columns[column].manager] != 0;
  }
  int modelRowsPerBlock() const { return rowsPerBlock_[0]; }
  int puts() const { return nPuts_; }

  std::string directory() const { return directory_; }
  std::string dyscoFile(int manager = 0) const;

  // The value with the given number
  static cfloat value(int id, int pol, int chan);
  static float weight(int id, int chan = 1);

  struct Cell {
    bool written = false;
    int id = -1;
    std::vector<int> history;  // all ids that were written to this cell
    // The row was removed and added again: zeros or an earlier value
    bool unknown = false;
  };
  // Makes this the model of a table that exists: its directory and contents
  void assume(const std::string& directory, int nRows, int rowsPerBlock,
              const std::vector<std::vector<Cell>>& cells);
  const std::vector<std::vector<Cell>>& cells() const { return cells_; }
  // Decode the file independently and compare with what is read
  void compareWithReference(const std::vector<uint8_t>& file,
                            bool modelled = true, int manager = 0);
  const Cell& cell(int c, int r) const { return cells_[c][r]; }
  Cell& cell(int c, int r) { return cells_[c][r]; }
  // Reads the raw values of a row
  std::vector<cfloat> read(int column, int row);
  template <typename T>
  std::vector<cfloat> readInto(casacore::ArrayColumn<T>& cells, int column,
                               int row, T old);
  // Returns the id of the stored value, -1 for zeros, -2 for anything else
  int identify(int column, const std::vector<cfloat>& values) const;
  bool isAuto(int row) const {
    auto& b = config_.baselines[row % config_.baselines.size()];
    return b.first == b.second;
  }
  bool skipValue(int column, int row) const {
    // Auto-correlations are not preserved by AF
    return config_.normOf(config_.columns[column].manager) == ref::AF &&
           isAuto(row) && !config_.columns[column].weight;
  }
  // Values of all rows, for comparing runs
  uint64_t fileHash() const;

 private:
  struct Impl;
  std::unique_ptr<Impl> impl_;
  Config config_;
  std::string directory_;
  int nRows_ = 0;
  int nPuts_ = 0;
  int rowsPerBlock_[2] = {0, 0};  // as the managers know it
  std::vector<std::vector<Cell>> cells_;
  std::vector<std::vector<Cell>> graveyard_;  // removed rows
  std::vector<bool> removed_;

  void fillMeta(int from, int to);
  void attach();
  // The columns of a manager
  std::vector<int> present(int manager) const;
  int nManagers() const;
  void verifyFileOf(int manager);
  void written(int column, int row, int id);
  void compare(int column, int row, const cfloat* values, const char* how);
};

void removeTable(const std::string& directory);
#endif
