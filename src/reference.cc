#include "reference.h"

#include <boost/math/distributions/normal.hpp>
#include <boost/math/distributions/students_t.hpp>

#include <cmath>
#include <cstring>
#include <fstream>
#include <limits>
#include <map>
#include <tuple>

namespace ref {

const std::vector<float>& levels(int dist, int bits, double nu, double trunc) {
  static std::map<std::tuple<int, int, double, double>, std::vector<float>>
      known;
  auto key = std::make_tuple(dist, bits, nu, trunc);
  auto it = known.find(key);
  if (it != known.end()) return it->second;
  const size_t n = (size_t(1) << bits) - 1;
  std::vector<float> result(n);
  boost::math::normal_distribution<double> normal;
  for (size_t i = 0; i != n; ++i) {
    const double p = (i + 0.5) / n;
    // Use the symmetry for precision
    const bool upper = p > 0.5;
    const double q = upper ? (n - 1 - i + 0.5) / n : p;
    double v = 0.0;
    if (2 * i + 1 == n)
      v = 0.0;
    else
      switch (dist) {
        case Gaussian:
          v = std::sqrt(3.0) * boost::math::quantile(normal, q);
          break;
        case Uniform:
          v = std::sqrt(3.0) * (-1.0 + 2.0 * q);
          break;
        case StudentsT:
          v = boost::math::quantile(
              boost::math::students_t_distribution<double>(nu), q);
          break;
        case TruncatedGaussian: {
          const double c = boost::math::cdf(normal, -trunc);
          v = boost::math::quantile(normal, q * (1.0 - 2.0 * c) + c);
          break;
        }
      }
    result[i] = upper ? -v : v;
  }
  return known[key] = result;
}

std::vector<uint8_t> readFile(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  return std::vector<uint8_t>((std::istreambuf_iterator<char>(f)),
                              std::istreambuf_iterator<char>());
}

namespace {
uint64_t little(const std::vector<uint8_t>& f, size_t& pos, int n) {
  uint64_t v = 0;
  for (int i = 0; i != n; ++i) v |= uint64_t(f[pos + i]) << (8 * i);
  pos += n;
  return v;
}
double littleDouble(const std::vector<uint8_t>& f, size_t& pos) {
  uint64_t v = little(f, pos, 8);
  double d;
  memcpy(&d, &v, 8);
  return d;
}
void put(std::vector<uint8_t>& f, uint64_t v, int n) {
  for (int i = 0; i != n; ++i) f.push_back(uint8_t(v >> (8 * i)));
}
void putDouble(std::vector<uint8_t>& f, double d) {
  uint64_t v;
  memcpy(&v, &d, 8);
  put(f, v, 8);
}
}  // namespace

std::string parse(const std::vector<uint8_t>& f, Header& h) {
  size_t pos = 0;
  if (f.size() < 16) return "file has no header";
  h.headerSize = little(f, pos, 4);
  h.columnHeaderOffset = little(f, pos, 4);
  h.columnCount = little(f, pos, 4);
  size_t n = little(f, pos, 4);
  if (f.size() < pos + n + 12 + 4 + 4 + 16) return "header is truncated";
  h.name.assign(f.begin() + pos, f.begin() + pos + n);
  pos += n;
  h.rowsPerBlock = little(f, pos, 4);
  h.antennaCount = little(f, pos, 4);
  h.blockSize = little(f, pos, 4);
  h.versionMajor = little(f, pos, 2);
  h.versionMinor = little(f, pos, 2);
  h.dataBits = little(f, pos, 1);
  h.weightBits = little(f, pos, 1);
  h.distribution = little(f, pos, 1);
  h.normalization = little(f, pos, 1);
  h.nu = littleDouble(f, pos);
  h.truncation = littleDouble(f, pos);
  if (pos != h.columnHeaderOffset)
    return "column header offset " + std::to_string(h.columnHeaderOffset) +
           " is not the end of the header, " + std::to_string(pos);
  h.columns.clear();
  for (size_t i = 0; i != h.columnCount; ++i) {
    if (f.size() < pos + 12) return "column header is truncated";
    size_t start = pos;
    Header::Column c;
    c.size = little(f, pos, 4);
    c.blockSize = little(f, pos, 4);
    c.antennaCount = little(f, pos, 4);
    if (c.size != 12) return "column header has unexpected size";
    pos = start + c.size;
    h.columns.push_back(c);
  }
  // The blocks start at headerSize; there may be unused bytes before that
  if (pos > h.headerSize || h.headerSize > pos + 16 * (h.columnCount + 1))
    return "header size " + std::to_string(h.headerSize) +
           " does not fit the end of the column headers, " +
           std::to_string(pos);
  if (h.versionMajor != 1 || h.versionMinor != 0) return "version is not 1.0";
  return "";
}

std::vector<uint8_t> serialize(const Header& h) {
  std::vector<uint8_t> f;
  const size_t offset = 7 * 4 + h.name.size() + 4 + 4 + 16;
  put(f, offset + 12 * h.columns.size() + h.gap, 4);
  put(f, offset, 4);
  put(f, h.columns.size(), 4);
  put(f, h.name.size(), 4);
  f.insert(f.end(), h.name.begin(), h.name.end());
  put(f, h.rowsPerBlock, 4);
  put(f, h.antennaCount, 4);
  put(f, h.blockSize, 4);
  put(f, h.versionMajor, 2);
  put(f, h.versionMinor, 2);
  put(f, h.dataBits, 1);
  put(f, h.weightBits, 1);
  put(f, h.distribution, 1);
  put(f, h.normalization, 1);
  putDouble(f, h.nu);
  putDouble(f, h.truncation);
  for (const Header::Column& c : h.columns) {
    put(f, 12, 4);
    put(f, c.blockSize, 4);
    put(f, c.antennaCount, 4);
  }
  f.resize(f.size() + h.gap, 0);
  return f;
}

Layout layout(const Header& h, bool weight, int nPol, int nChan) {
  Layout l;
  l.weight = weight;
  l.nPol = nPol;
  l.nChan = nChan;
  const size_t vis = size_t(nPol) * nChan;
  if (weight) {
    l.bits = h.weightBits;
    l.metaFloats = 1;
    l.symbols = size_t(h.rowsPerBlock) * nChan;
  } else {
    l.bits = h.dataBits;
    l.symbols = size_t(h.rowsPerBlock) * vis * 2;
    switch (h.normalization) {
      case AF: l.metaFloats = vis + size_t(h.antennaCount) * nPol; break;
      case RF: l.metaFloats = vis + size_t(h.rowsPerBlock) * nPol; break;
      default: l.metaFloats = h.rowsPerBlock; break;
    }
  }
  l.size = l.metaFloats * 4 + (l.symbols * l.bits + 7) / 8;
  return l;
}

unsigned symbolAt(const uint8_t* packed, size_t index, size_t bits) {
  unsigned v = 0;
  for (size_t b = 0; b != bits; ++b) {
    const size_t bit = index * bits + b;
    v |= unsigned((packed[bit / 8] >> (bit % 8)) & 1) << b;
  }
  return v;
}

void setSymbol(uint8_t* packed, size_t index, size_t bits, unsigned value) {
  for (size_t b = 0; b != bits; ++b) {
    const size_t bit = index * bits + b;
    packed[bit / 8] &= ~(1 << (bit % 8));
    packed[bit / 8] |= ((value >> b) & 1) << (bit % 8);
  }
}

double visScale(const Header& h, const Layout& l, const float* meta, int row,
                int a1, int a2, int i) {
  const int vis = l.nPol * l.nChan;
  const int p = i % l.nPol;
  switch (h.normalization) {
    case AF: {
      const float* ant = meta + vis + p * h.antennaCount;
      return double(meta[i]) * double(ant[a1]) * double(ant[a2]);
    }
    case RF:
      return double(meta[i]) * double(meta[vis + row * l.nPol + p]);
    default:
      return meta[row];
  }
}

void decodeRow(const Header& h, const Layout& l, const uint8_t* columnData,
               int row, int a1, int a2, const std::vector<float>& levels,
               std::complex<double>* dest) {
  std::vector<float> meta(l.metaFloats);
  memcpy(meta.data(), columnData, l.metaFloats * 4);
  const uint8_t* packed = columnData + l.metaFloats * 4;
  const int vis = l.nPol * l.nChan;
  if (l.weight) {
    const double scale = double(meta[0]) / double((1u << l.bits) - 1);
    for (int ch = 0; ch != l.nChan; ++ch) {
      const double v =
          symbolAt(packed, size_t(row) * l.nChan + ch, l.bits) * scale;
      for (int p = 0; p != l.nPol; ++p) dest[ch * l.nPol + p] = v;
    }
    return;
  }
  const double nan = std::numeric_limits<double>::quiet_NaN();
  for (int i = 0; i != vis; ++i) {
    const double scale = visScale(h, l, meta.data(), row, a1, a2, i);
    double c[2];
    for (int k = 0; k != 2; ++k) {
      const unsigned s =
          symbolAt(packed, (size_t(row) * vis + i) * 2 + k, l.bits);
      c[k] = s >= levels.size() ? nan : double(levels[s]) * scale;
    }
    dest[i] = std::complex<double>(c[0], c[1]);
  }
}

}  // namespace ref
