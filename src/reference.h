// Independent implementation of the Dysco file format, version 1.0: it uses no
// code of the repository. Quantization levels come from boost::math.
#ifndef REFERENCE_H
#define REFERENCE_H
#include <complex>
#include <cstdint>
#include <string>
#include <vector>

namespace ref {

enum Dist { Gaussian = 0, Uniform = 1, StudentsT = 2, TruncatedGaussian = 3 };
enum Norm { AF = 0, RF = 1, Row = 2 };

// The 2^bits-1 levels, in increasing order
const std::vector<float>& levels(int dist, int bits, double nu, double truncation);

struct Header {
  uint32_t headerSize = 0, columnHeaderOffset = 0, columnCount = 0;
  std::string name;
  uint32_t rowsPerBlock = 0, antennaCount = 0, blockSize = 0;
  uint16_t versionMajor = 0, versionMinor = 0;
  uint8_t dataBits = 0, weightBits = 0, distribution = 0, normalization = 0;
  double nu = 0, truncation = 0;
  uint32_t gap = 0;  // unused bytes after the header (for serialize())
  struct Column {
    uint32_t size, blockSize, antennaCount;
  };
  std::vector<Column> columns;
};

std::vector<uint8_t> readFile(const std::string& path);
// Returns an error, or an empty string
std::string parse(const std::vector<uint8_t>& file, Header& header);
std::vector<uint8_t> serialize(const Header& header);

// Layout of one column within a block
struct Layout {
  bool weight;
  int nPol, nChan;
  size_t metaFloats, symbols, bits, size;
};
Layout layout(const Header& h, bool weight, int nPol, int nChan);

unsigned symbolAt(const uint8_t* packed, size_t index, size_t bits);
void setSymbol(uint8_t* packed, size_t index, size_t bits, unsigned value);

// Scale factor of visibility i = channel*nPol + pol
double visScale(const Header& h, const Layout& l, const float* meta, int row,
                int a1, int a2, int i);

// Decode one row of a column in a block. For weights, the real parts.
void decodeRow(const Header& h, const Layout& l, const uint8_t* columnData,
               int row, int a1, int a2, const std::vector<float>& levels,
               std::complex<double>* dest);

}  // namespace ref
#endif
