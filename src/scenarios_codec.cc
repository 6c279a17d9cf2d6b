// The codecs, enumerated: all blocks over small alphabets, all levels and
// boundaries, all packing lengths. Oracles use the independent levels and
// layout of reference.cc.
#include "scenarios.h"

#include "mc.h"

#include <aftimeblockencoder.h>
#include <bytepacker.h>
#include <dictionary.h>
#include <rftimeblockencoder.h>
#include <rowtimeblockencoder.h>
#include <stochasticencoder.h>
#include <timeblockbuffer.h>
#include <weightblockencoder.h>

#include <cmath>
#include <cstring>
#include <limits>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>

#include <sys/mman.h>

using dyscostman::BytePacker;
using dyscostman::Dictionary;
typedef dyscostman::StochasticEncoder<float> Quantizer;

namespace {

const int kBits[] = {2, 3, 4, 6, 8, 10, 12, 16};
const char* const kNorms[] = {"AF", "RF", "Row"};
struct Distribution {
  int dist;
  double nu, truncation;
  const char* name;
};
const Distribution kDistributions[] = {
    {ref::Gaussian, 0.0, 0.0, "Gaussian"},
    {ref::Uniform, 0.0, 0.0, "Uniform"},
    {ref::StudentsT, 1.0, 0.0, "StudentsT(1)"},
    {ref::TruncatedGaussian, 0.0, 2.5, "TruncatedGaussian(2.5)"},
    {ref::StudentsT, 5.0, 0.0, "StudentsT(5)"},
    {ref::TruncatedGaussian, 0.0, 1.5, "TruncatedGaussian(1.5)"},
    {ref::TruncatedGaussian, 0.0, 4.5, "TruncatedGaussian(4.5)"},
    {ref::StudentsT, 0.7, 0.0, "StudentsT(0.7)"},
    {ref::StudentsT, 40.0, 0.0, "StudentsT(40)"},
    {ref::TruncatedGaussian, 0.0, 0.3, "TruncatedGaussian(0.3)"},
    {ref::TruncatedGaussian, 0.0, 9.0, "TruncatedGaussian(9)"}};

const Quantizer& quantizer(const Distribution& d, int bits) {
  static std::map<std::pair<const Distribution*, int>,
                  std::unique_ptr<Quantizer>>
      known;
  std::unique_ptr<Quantizer>& q = known[std::make_pair(&d, bits)];
  if (!q) {
    const size_t n = size_t(1) << bits;
    switch (d.dist) {
      case ref::Gaussian: q.reset(new Quantizer(n, 1.0, true)); break;
      case ref::Uniform: q.reset(new Quantizer(n, 1.0, false)); break;
      case ref::StudentsT:
        q.reset(new Quantizer(Quantizer::StudentTEncoder(n, d.nu, 1.0)));
        break;
      default:
        q.reset(
            new Quantizer(Quantizer::TruncatedGausEncoder(n, d.truncation, 1.0)));
    }
  }
  return *q;
}

// ---- Control over the dither values ----

uint32_t untemper(uint32_t y) {
  y ^= y >> 18;
  y ^= (y << 15) & 0xefc60000u;
  uint32_t t = y;
  for (int i = 0; i != 5; ++i) t = y ^ ((t << 7) & 0x9d2c5680u);
  y = t;
  t = y;
  for (int i = 0; i != 3; ++i) t = y ^ (t >> 11);
  return t;
}

// A generator of which the first 624 dither values are as given (cyclic)
std::mt19937 generator(const std::vector<unsigned>& dither) {
  const auto range = Quantizer::GetDitherDistribution();
  if (range.min() != 0 || range.max() != (1u << 31) - 1)
    violation("dither", "the dither values are " + std::to_string(range.min()) +
                            ".." + std::to_string(range.max()) +
                            ", instead of 0..2^31-1");
  std::stringstream s;
  for (size_t i = 0; i != 624; ++i)
    s << untemper(dither[i % dither.size()] << 1) << ' ';
  s << 0;
  std::mt19937 g;
  s >> g;
  std::mt19937 copy = g;
  std::uniform_int_distribution<unsigned> d = Quantizer::GetDitherDistribution();
  for (size_t i = 0; i != 624; ++i) {
    const unsigned v = d(copy);
    if (v != dither[i % dither.size()])
      violation("dither",
                "the dither distribution does not cover 0..2^31-1 uniformly: " +
                    std::to_string(dither[i % dither.size()]) + " gives " +
                    std::to_string(v));
  }
  return g;
}
const unsigned kMaxDither = (1u << 31) - 1;

// ---- Visibility blocks ----

struct Shape {
  std::vector<std::pair<int, int>> rows;
  int nPol, nChan, nAnt;
  int vis() const { return nPol * nChan; }
  int size() const { return vis() * rows.size(); }
};

class Codec {
 public:
  Codec(int norm, const Distribution& d, int bits, const Shape& s)
      : norm(norm),
        bits(bits),
        dist(d),
        shape(s),
        q(quantizer(d, bits)),
        levels(ref::levels(d.dist, bits, d.nu, d.truncation)),
        buffer(s.nPol, s.nChan),
        decoded(s.nPol, s.nChan) {
    header.rowsPerBlock = s.rows.size();
    header.antennaCount = s.nAnt;
    header.dataBits = bits;
    header.normalization = norm;
    layout = ref::layout(header, false, s.nPol, s.nChan);
    switch (norm) {
      case ref::AF:
        encoder.reset(new AFTimeBlockEncoder(s.nPol, s.nChan, true));
        break;
      case ref::RF:
        encoder.reset(new RFTimeBlockEncoder(s.nPol, s.nChan));
        break;
      default:
        encoder.reset(new RowTimeBlockEncoder(s.nPol, s.nChan));
    }
    const size_t m = encoder->MetaDataCount(s.rows.size(), s.nPol, s.nChan,
                                            s.nAnt);
    const size_t n =
        encoder->SymbolCount(s.rows.size(), s.nPol, s.nChan);
    if (m != layout.metaFloats || n != layout.symbols)
      violation("layout", describe() + ": wrong number of values");
    meta.resize(m + 2 * kGuard);
    symbols.resize(n + 2 * kGuard);
    decoded.resize(s.rows.size());
    zero = generator({0});
    max = generator({kMaxDither});
  }

  std::string describe() const {
    std::ostringstream s;
    s << kNorms[norm] << ' ' << dist.name << ' ' << bits << " bits, rows";
    for (size_t r = 0; r != std::min<size_t>(shape.rows.size(), 50); ++r)
      s << ' ' << shape.rows[r].first << '-' << shape.rows[r].second;
    if (shape.rows.size() > 50) s << " ... (" << shape.rows.size() << " rows)";
    s << ", " << shape.nPol << " pol, " << shape.nChan << " chan";
    return s.str();
  }
  std::string describe(const cfloat* values) const {
    std::ostringstream s;
    s.precision(9);
    s << describe() << ", values";
    for (int i = 0; i != std::min(shape.size(), 200); ++i) s << ' ' << values[i];
    if (shape.size() > 200) s << " ...";
    return s.str();
  }
  [[noreturn]] void bad(const char* kind, const cfloat* values, int row, int i,
                        const std::string& text) const {
    std::ostringstream s;
    s << describe(values) << ": row " << row << " value " << i << " " << text;
    violation(kind, s.str());
  }

  enum Dither { Zero, Max, None };
  void encode(const cfloat* values, Dither dither) {
    buffer.ResetData();
    for (size_t r = 0; r != shape.rows.size(); ++r)
      buffer.SetData(r, shape.rows[r].first, shape.rows[r].second,
                     values + r * shape.vis());
    run(dither);
    if (dither == None)
      encoder->EncodeWithoutDithering(q, buffer, meta.data() + kGuard,
                                      symbols.data() + kGuard, shape.nAnt);
    else {
      std::mt19937 g = dither == Zero ? zero : max;
      encoder->EncodeWithDithering(q, buffer, meta.data() + kGuard,
                                   symbols.data() + kGuard, shape.nAnt, g);
    }
    for (size_t i = 0; i != kGuard; ++i)
      if (meta[i] != kGuardFloat || meta[meta.size() - 1 - i] != kGuardFloat ||
          symbols[i] != kGuardSymbol ||
          symbols[symbols.size() - 1 - i] != kGuardSymbol)
        bad("memory", values, 0, 0, "encoding writes outside its buffers");
  }
  void encodeWith(const cfloat* values, std::mt19937 g) {
    encode(values, Zero);
    run(Zero);
    encoder->EncodeWithDithering(q, buffer, meta.data() + kGuard,
                                 symbols.data() + kGuard, shape.nAnt, g);
  }

  // Encodes and decodes a block and verifies each value
  void check(const cfloat* values, Dither dither) {
    encode(values, dither);
    const float* m = meta.data() + kGuard;
    const unsigned* sym = symbols.data() + kGuard;
    encoder->InitializeDecode(m, shape.rows.size(), shape.nAnt);
    const int vis = shape.vis();
    const double maxLevel = levels.back();
    for (size_t r = 0; r != shape.rows.size(); ++r) {
      const int a1 = shape.rows[r].first, a2 = shape.rows[r].second;
      const bool lost = norm == ref::AF && a1 == a2;
      encoder->Decode(q, decoded, sym, r, a1, a2);
      const std::vector<cfloat>& out = decoded[r].visibilities;
      for (int i = 0; i != vis; ++i) {
        const cfloat v = values[r * vis + i], d = out[i];
        const bool finite = isFinite(v);
        if (!finite) {
          if (isFinite(d))
            bad("nonfinite", values, r, i,
                "is not finite but is decoded as a finite value");
        } else if (!isFinite(d)) {
          bad("nonfinite", values, r, i,
              "is finite but is decoded as a non-finite value");
        }
        const double scale = ref::visScale(header, layout, m, r, a1, a2, i);
        for (int k = 0; k != 2; ++k) {
          const double c = k ? v.imag() : v.real();
          const double got = k ? d.imag() : d.real();
          const unsigned s = sym[(r * vis + i) * 2 + k];
          if (s > levels.size())
            bad("symbol", values, r, i, "has a symbol out of range");
          if (!std::isfinite(c)) continue;
          const double x = c / scale;
          if (!lost && finite && c != 0.0) {
            const int row =
                norm == ref::Row ? r : norm == ref::RF
                                           ? r * shape.nPol + i % shape.nPol
                                           : 0;
            use(0, row, x);
            use(1, norm == ref::Row ? 0 : i, x);
          }
          if (!finite || lost) continue;
          if (s == levels.size())
            bad("symbol", values, r, i, "is finite but has a non-finite symbol");
          if (!(std::fabs(got - levels[s] * scale) <=
                1e-6 * std::fabs(levels[s] * scale)))
            bad("decode", values, r, i,
                "is decoded as " + std::to_string(got) + " instead of " +
                    std::to_string(levels[s] * scale));
          if (c == 0.0 && dither != None) {
            // Zero is a level and stays zero
            if (std::fabs(got) > 1e-6 * scale * maxLevel)
              bad("value", values, r, i, "is zero but is decoded as another value");
            continue;
          }
          if (scale == 0.0) {
            if (c == 0.0) continue;
            // AF regards antennas with a very small gain as absent. Blocks that
            // are not like a product of gains can have such a solution
            if (mayLose && norm == ref::AF &&
                std::fabs(c) <= 1e-2 * largestCross(values, i)) {
              ++nLost;
              continue;
            }
            bad("value", values, r, i, "is lost because its scale factor is zero");
          }
          if (!(std::fabs(x) <= maxLevel * (1.0 + 5e-6)))
            bad("clip", values, r, i,
                "is clipped: it is " + std::to_string(x / maxLevel) +
                    " times the largest level");
          // One of the levels next to x, up to the precision of the factors
          const double t = 5e-6 * std::fabs(x);
          const int lower = std::lower_bound(levels.begin(), levels.end(),
                                             x - t) - levels.begin() - 1;
          const int upper = std::upper_bound(levels.begin(), levels.end(),
                                             x + t) - levels.begin();
          if (int(s) < lower || int(s) > upper)
            bad("value", values, r, i,
                "is encoded as level " + std::to_string(s) +
                    ", the adjacent levels are " + std::to_string(lower) +
                    " to " + std::to_string(upper));
        }
      }
    }
    for (int unit = 0; unit != 2; ++unit) {
      if ((norm == ref::AF && unit == 0) || (norm == ref::Row && unit == 1))
        continue;
      for (size_t i = 0; i != best[unit].size(); ++i)
        if (hasFinite[unit][i] &&
            std::fabs(best[unit][i]) < maxLevel * (1.0 - 5e-6))
          bad("range", values, unit == 0 ? i : 0, unit == 1 ? i : 0,
              "the scaled unit uses only " +
                  std::to_string(best[unit][i] / maxLevel) + " of the range");
    }
    ++nChecked;
  }
  ~Codec() {
    count("blocks_encoded", nChecked);
    count("values_of_absent_antennas", nLost);
  }
  bool mayLose = true;
  double largestCross(const cfloat* values, int i) const {
    double m = 0.0;
    for (size_t r = 0; r != shape.rows.size(); ++r) {
      const cfloat v = values[r * shape.vis() + i];
      if (shape.rows[r].first != shape.rows[r].second && isFinite(v))
        m = std::max<double>(m, std::max(std::fabs(v.real()), std::fabs(v.imag())));
    }
    return m;
  }

  static bool isFinite(const cfloat& v) {
    return std::isfinite(v.real()) && std::isfinite(v.imag());
  }
  const unsigned* symbolData() const { return symbols.data() + kGuard; }

  const int norm, bits;
  const Distribution& dist;
  const Shape shape;
  const Quantizer& q;
  const std::vector<float> levels;
  ref::Header header;
  ref::Layout layout;

 private:
  static constexpr size_t kGuard = 8;
  static constexpr float kGuardFloat = 12345.5f;
  static constexpr unsigned kGuardSymbol = 0xdeadbeef;
  void run(Dither) {
    std::fill(meta.begin(), meta.end(), kGuardFloat);
    std::fill(symbols.begin(), symbols.end(), kGuardSymbol);
    const size_t units[2] = {shape.rows.size() * shape.nPol,
                             size_t(shape.vis())};
    for (int u = 0; u != 2; ++u) {
      best[u].assign(units[u], 0.0);
      hasFinite[u].assign(units[u], false);
    }
  }
  void use(int unit, int i, double x) {
    if (std::fabs(x) > best[unit][i]) best[unit][i] = std::fabs(x);
    hasFinite[unit][i] = true;
  }
  // Largest share of the range used, per row & polarization and per channel.
  // The finite component of a non-finite visibility does not count
  std::vector<double> best[2];
  std::vector<char> hasFinite[2];
  TimeBlockEncoder::FBuffer buffer, decoded;
  std::unique_ptr<TimeBlockEncoder> encoder;
  std::vector<float> meta;
  std::vector<unsigned> symbols;
  std::mt19937 zero, max;
  uint64_t nChecked = 0, nLost = 0;
};

// All assignments of alphabet values to the visibilities of a block
void enumerate(Codec& codec, const std::vector<cfloat>& alphabet, int part,
               int nParts) {
  const int n = codec.shape.size();
  std::vector<int> digits(n, 0);
  std::vector<cfloat> values(n, alphabet[0]);
  // The first digits are given by the part
  for (int i = 0, p = part, m = nParts; i != n && m > 1;
       ++i, p /= alphabet.size(), m /= alphabet.size()) {
    digits[i] = p % alphabet.size();
    values[i] = alphabet[digits[i]];
  }
  int first = 0;
  for (int m = nParts; m > 1; m /= alphabet.size()) ++first;
  while (true) {
    codec.check(values.data(), Codec::Zero);
    codec.check(values.data(), Codec::Max);
    int i = first;
    for (; i < n; ++i) {
      if (++digits[i] != int(alphabet.size())) {
        values[i] = alphabet[digits[i]];
        break;
      }
      digits[i] = 0;
      values[i] = alphabet[0];
    }
    if (i >= n) break;
  }
}

std::vector<Shape> smallShapes() {
  return {
      {{{0, 1}, {0, 2}, {1, 2}}, 1, 2, 3},
      {{{0, 1}, {0, 2}, {1, 2}}, 2, 1, 3},
      {{{0, 0}, {0, 1}, {1, 1}}, 1, 2, 2},
      {{{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}, 1, 1, 4},
      {{{2, 0}, {0, 2}, {4, 0}}, 2, 1, 6},
      {{{1, 3}, {3, 2}}, 1, 3, 5},
      {{{0, 1}}, 3, 2, 2},
  };
}

// Blocks with many antennas, channels and polarizations
void addLarge(ScenarioList& list, bool thorough, bool nonFinite) {
  Scenario s;
  s.name = nonFinite ? "codec/nonfinite-large" : "codec/large";
  s.cache = false;
  s.run = [=]() {
    static const int ants[] = {5, 7, 16, 33, 64, 130, 257};
    const int nAnt = ants[mc::choose(thorough ? 7 : 5, 0)];
    const int nPol = 1 + mc::choose(4, 0);
    static const int chans[] = {1, 7, 33, 64, 129, 300};
    const int nChan = chans[mc::choose(nAnt > 100 ? 2 : nAnt > 33 ? 3 : thorough ? 6 : 4, 0)];
    const int norm = mc::choose(3, 0);
    const bool autos = mc::choose(2, 0) != 0;
    const int order = mc::choose(nAnt <= 7 ? 4 : 3, 0);
    Shape shape = {allBaselines(nAnt, autos), nPol, nChan, nAnt};
    if (order == 1) {
      // Second antenna first
      std::reverse(shape.rows.begin(), shape.rows.end());
      for (auto& r : shape.rows) std::swap(r.first, r.second);
    } else if (order == 2) {
      // Some baselines are absent, and so is the last antenna
      std::vector<std::pair<int, int>> rows;
      for (size_t r = 0; r != shape.rows.size(); ++r)
        if (r % 7 != 3 && shape.rows[r].second != nAnt - 1)
          rows.push_back(shape.rows[r]);
      shape.rows = rows;
    } else if (order == 3) {
      // Only a few antennas, of which the numbers do not fit one byte (or two)
      const int last = nAnt == 5 ? 300 : norm == ref::AF ? 257 : 70000;
      shape.nAnt = last + 1;
      for (auto& r : shape.rows) {
        // (pattern 3 has the last antennas in mind)
        if (r.first > 1) r.first = last - nAnt + 1 + r.first;
        if (r.second > 1) r.second = last - nAnt + 1 + r.second;
      }
    }
    Codec c(norm, kDistributions[nPol % 2 ? 1 : 3], nonFinite ? 4 : 10, shape);
    note(c.describe());
    c.mayLose = false;
    const float bad = std::numeric_limits<float>::quiet_NaN();
    std::vector<cfloat> values(shape.size());
    for (int pattern = 0; pattern != 6; ++pattern) {
      for (size_t r = 0; r != shape.rows.size(); ++r)
        for (int v = 0; v != shape.vis(); ++v) {
          const int a1 = shape.rows[r].first, a2 = shape.rows[r].second;
          const int ch = v / nPol, pol = v % nPol;
          double f = 1.0;
          bool flag = false;
          switch (pattern) {
            case 0:
              f = (1.0 + 0.3 * (a1 % 4)) * (1.0 + 0.3 * (a2 % 4));
              flag = (r * 5 + v * 3) % 13 == 0;
              break;
            case 1:  // a strong last channel, a weak first polarization
              f = (ch == nChan - 1 ? 1e3 : 1.0) * (pol == 0 ? 0.1 : 1.0);
              flag = ch == nChan - 1 || ch % 10 == 4;
              break;
            case 2:  // a strong last row
              f = r + 1 == shape.rows.size() ? 30.0 : 1.0;
              flag = r + 1 == shape.rows.size();
              break;
            case 3:  // the last antennas are weak
              f = (a1 + 2 >= shape.nAnt ? 0.1 : 1.0) *
                  (a2 + 2 >= shape.nAnt ? 0.1 : 1.0);
              flag = a1 + 2 >= shape.nAnt || a2 + 2 >= shape.nAnt;
              break;
            case 4:  // a single strong value at the end
              f = r + 1 == shape.rows.size() && v + 1 == shape.vis() ? 1e2 : 1.0;
              flag = f != 1.0;
              break;
            default:  // a slope over the channels
              f = std::pow(10.0, double(ch % 40) / 10.0 - 3.0);
              flag = (a1 + a2 + ch) % 3 != 0;
              break;
          }
          const unsigned k = (r * 2654435761u + v * 40503u) >> 7;
          values[r * shape.vis() + v] =
              nonFinite && flag
                  ? cfloat(k % 3 ? bad : 0.4f, k % 3 != 1 ? bad : 0.1f)
                  : cfloat(f * (0.3 + 0.01 * (k % 61)),
                           f * (-0.4 + 0.01 * (k / 61 % 79)));
        }
      c.check(values.data(), Codec::Zero);
      if (pattern == 0) c.check(values.data(), Codec::Max);
      if (thorough) c.check(values.data(), Codec::None);
    }
  };
  list.push_back(s);
}

void addVisibilities(ScenarioList& list, bool thorough) {
  addLarge(list, thorough, false);
  const cfloat i(0, 1);
  std::vector<cfloat> alphabet = {
      cfloat(0, 0), cfloat(1, 0.3), cfloat(0, -0.5), cfloat(0.01, -0.007),
      cfloat(-30, 2), cfloat(0.25, 0.25)};
  if (thorough) {
    alphabet.push_back(cfloat(-0.7, 0));
    alphabet.push_back(cfloat(400, -1000));
  }
  {
    Scenario s;
    s.name = "codec/all-blocks";
    s.cache = false;
    s.run = [=]() {
      const std::vector<Shape> shapes = smallShapes();
      const int shape = mc::choose(shapes.size(), 0);
      const int norm = mc::choose(3, 0);
      const int dist = mc::choose(4, 0);
      static const int quick[] = {2, 3, 8, 12};
      const int bits = thorough ? kBits[mc::choose(8, 0)] : quick[mc::choose(4, 0)];
      const int parts = alphabet.size();
      const int part = mc::choose(parts, 0);
      Codec c(norm, kDistributions[dist], bits, shapes[shape]);
      note(c.describe());
      enumerate(c, alphabet, part, parts);
    };
    list.push_back(s);
  }
  {
    // A single visibility and a pair, with many values
    Scenario s;
    s.name = "codec/all-values";
    s.cache = false;
    s.run = [=]() {
      const int norm = mc::choose(3, 0);
      const int dist = mc::choose(7, 0);
      const int bits = kBits[mc::choose(8, 0)];
      const int second = mc::choose(3, 0);
      Codec c(norm, kDistributions[dist], bits,
              {{{0, 1}}, 1, second == 0 ? 1 : 2, 2});
      note(c.describe());
      std::vector<float> v = {0,     1,     -1,     0.5,   -0.5,  1e-3,
                              -1e-3, 3e-7,  -3e-7,  1e6,   -1e6,  1e-30,
                              1e30,  -1e30, 0.9999, 1.001, 1e-10, 7};
      for (float re : v)
        for (float im : v) {
          cfloat values[2] = {cfloat(re, im),
                              second == 1 ? cfloat(1, -1) : cfloat(-im, 2e-3)};
          c.check(values, Codec::Zero);
          c.check(values, Codec::Max);
          c.check(values, Codec::None);
        }
    };
    list.push_back(s);
  }
  {
    // Every level, every boundary and the values next to them, for a block of
    // which one value fixes the scale
    Scenario s;
    s.name = "codec/all-levels";
    s.cache = false;
    s.run = [=]() {
      const int norm = mc::choose(3, 0);
      const int dist = mc::choose(4, 0);
      const int b = mc::choose(thorough ? 8 : 7, 0);
      const float scale = mc::choose(2, 0) ? 3.7e-5f : 1.0f;
      Codec c(norm, kDistributions[dist], kBits[b],
              {{{0, 1}}, 1, norm == ref::Row ? 2 : 1, 2});
      note(c.describe());
      const size_t step = 1;
      for (size_t l = 0; l < c.levels.size(); l += step)
        for (int k = 0; k != 4; ++k) {
          const float next =
              l + 1 < c.levels.size() ? c.levels[l + 1] : c.levels[l];
          float x = c.levels[l] + (next - c.levels[l]) * k / 4;
          cfloat values[2] = {cfloat(x, c.levels.back()) * scale,
                              cfloat(-x, x * 0.9f) * scale};
          c.check(values, Codec::Zero);
          c.check(values, Codec::Max);
          c.check(values, Codec::None);
        }
    };
    list.push_back(s);
  }
  {
    // Larger blocks with differences in scale between antennas, channels,
    // polarizations and a single outlying row
    Scenario s;
    s.name = "codec/scales";
    s.cache = false;
    s.run = [=]() {
      Shape shape = {allBaselines(4, mc::choose(2, 0) != 0), 2, 3, 4};
      const int norm = mc::choose(3, 0);
      const int dist = mc::choose(4, 0);
      static const int bits[] = {2, 4, 12};
      Codec c(norm, kDistributions[dist], bits[mc::choose(3, 0)], shape);
      note(c.describe());
      c.mayLose = false;
      static const double channelScale[] = {1.0, 1e-20, 1e15};
      static const double polScale[] = {1.0, 1e4};
      static const double antennaScale[] = {1.0, 0.05, 20.0};
      std::vector<cfloat> values(shape.size());
      const int gains = mc::choose(9, 0);  // of the first two antennas
      for (int ant = 0; ant != 9; ++ant)   // and of the others
        for (int ch = 0; ch != 9; ++ch)
          for (int pol = 0; pol != 2; ++pol)
            for (size_t outlier = 0; outlier <= shape.rows.size();
                 outlier += thorough ? 1 : 3) {
              const int g[4] = {gains % 3, gains / 3, ant % 3, ant / 3};
              for (size_t r = 0; r != shape.rows.size(); ++r)
                for (int v = 0; v != shape.vis(); ++v) {
                  const int channel = v / 2, p = v % 2;
                  double f = antennaScale[g[shape.rows[r].first]] *
                             antennaScale[g[shape.rows[r].second]];
                  if (channel) f *= channelScale[channel == 1 ? ch % 3 : ch / 3];
                  if (p && pol) f *= polScale[1];
                  if (r == outlier) f *= 40.0;
                  const int k = (r * 7 + v * 5) % 11;
                  values[r * shape.vis() + v] =
                      cfloat(f * (0.3 + 0.05 * k), f * (-0.4 + 0.07 * k));
                }
              c.check(values.data(), Codec::Zero);
              c.check(values.data(), Codec::Max);
            }
    };
    list.push_back(s);
  }
  {
    // One visibility differs from all others in a block of zeros or ones
    Scenario s;
    s.name = "codec/single-outlier";
    s.cache = false;
    s.run = [=]() {
      const int autos = mc::choose(2, 0);
      Shape shape = {allBaselines(autos ? 4 : 5, autos != 0), 4, 3, autos ? 4 : 5};
      const int norm = mc::choose(3, 0);
      const int dist = mc::choose(4, 0);
      const int background = mc::choose(3, 0);
      Codec c(norm, kDistributions[dist], 8, shape);
      note(c.describe());
      static const cfloat backgrounds[] = {cfloat(0, 0), cfloat(1, -1),
                                           cfloat(1e-4, 3e-4)};
      std::vector<cfloat> values(shape.size(), backgrounds[background]);
      for (int at = 0; at != shape.size(); ++at) {
        for (cfloat x : {cfloat(0, 0), cfloat(1, 0), cfloat(0, -1),
                         cfloat(-0.1, 0.1)}) {
          values[at] = x;
          c.check(values.data(), Codec::Zero);
          c.check(values.data(), Codec::Max);
        }
        values[at] = backgrounds[background];
      }
    };
    list.push_back(s);
  }
}

// ---- Non-finite visibilities ----

void addNonFinite(ScenarioList& list, bool thorough) {
  addLarge(list, thorough, true);
  const float inf = std::numeric_limits<float>::infinity();
  const float nan = std::numeric_limits<float>::quiet_NaN();
  const std::vector<cfloat> bad = {cfloat(nan, nan), cfloat(nan, 90.0f),
                                   cfloat(-300.0f, nan), cfloat(inf, 1),
                                   cfloat(0.1f, -inf), cfloat(-inf, inf)};
  {
    // All assignments of non-finite and finite values
    Scenario s;
    s.name = "codec/nonfinite-all";
    s.cache = false;
    s.run = [=]() {
      const std::vector<Shape> shapes = smallShapes();
      const int shape = mc::choose(shapes.size(), 0);
      const int norm = mc::choose(3, 0);
      const int dist = mc::choose(4, 0);
      static const int b[] = {2, 12, 4, 8, 3, 6, 10, 16};
      const int bits = b[mc::choose(thorough ? 8 : 3, 0)];
      const int part = mc::choose(5, 0);
      // Five of the values at a time
      static const int sets[][5] = {
          {0, 6, 7, 8, 0}, {1, 6, 7, 3, 0}, {2, 6, 5, 4, 7}, {0, 1, 2, 6, 8}};
      std::vector<cfloat> all = bad;
      all.push_back(cfloat(0.8f, -0.1f));
      all.push_back(cfloat(0, 0));
      all.push_back(cfloat(-20.0f, 0.5f));
      const int* set = sets[mc::choose(4, 0)];
      std::vector<cfloat> alphabet;
      for (int k = 0; k != 5; ++k) alphabet.push_back(all[set[k]]);
      Codec c(norm, kDistributions[dist], bits, shapes[shape]);
      note(c.describe());
      enumerate(c, alphabet, part, 5);
    };
    list.push_back(s);
  }
  {
    // All masks over larger blocks
    Scenario s;
    s.name = "codec/nonfinite-masks";
    s.cache = false;
    s.run = [=]() {
      static const int kind[] = {0, 3, 1, 2, 4, 5};
      std::vector<Shape> shapes = {
          {allBaselines(3, false), 2, 2, 3},
          {allBaselines(4, false), 1, 2, 4},
          {allBaselines(3, true), 2, 1, 3},
          {allBaselines(2, true), 2, 2, 2}};
      const Shape shape = shapes[mc::choose(4, 0)];
      const int norm = mc::choose(3, 0);
      const int k = kind[mc::choose(thorough ? 6 : 3, 0)];
      const int bits = mc::choose(2, 0) ? 8 : 2;
      const int part = mc::choose(8, 0);
      Codec c(norm, kDistributions[mc::choose(thorough ? 4 : 1, 0)], bits,
              shape);
      note(c.describe());
      std::vector<cfloat> values(shape.size());
      const int n = shape.size();
      for (uint32_t mask = part; mask < (1u << n); mask += 8) {
        for (int i = 0; i != n; ++i)
          values[i] = (mask >> i) & 1
                          ? bad[k]
                          : cfloat(0.3f + 0.1f * (i % 5), 0.5f - 0.13f * (i % 7));
        c.check(values.data(), mask & 16 ? Codec::Zero : Codec::Max);
      }
    };
    list.push_back(s);
  }
  {
    // Entire rows, antennas, channels and polarizations
    Scenario s;
    s.name = "codec/nonfinite-units";
    s.cache = false;
    s.run = [=]() {
      Shape shape = {allBaselines(4, mc::choose(2, 0) != 0), 2, 3, 4};
      const int norm = mc::choose(3, 0);
      const int dist = mc::choose(4, 0);
      const int bits = kBits[mc::choose(8, 0)];
      Codec c(norm, kDistributions[dist], bits, shape);
      note(c.describe());
      std::vector<cfloat> values(shape.size());
      for (const cfloat& b : bad)
        for (int ants = 0; ants != 16; ++ants)
          for (int chans = 0; chans != 8; ++chans)
            for (int pols = 0; pols != 4; ++pols) {
              for (int i = 0; i != shape.size(); ++i) {
                const int r = i / shape.vis(), v = i % shape.vis();
                const bool flag = ((ants >> shape.rows[r].first) & 1) ||
                                  ((ants >> shape.rows[r].second) & 1) ||
                                  ((chans >> (v / 2)) & 1) ||
                                  ((pols >> (v % 2)) & 1);
                values[i] = flag ? b
                                 : cfloat(0.3f + 0.1f * (i % 5),
                                          0.5f - 0.13f * (i % 7));
              }
              c.check(values.data(), Codec::Zero);
              c.check(values.data(), Codec::Max);
            }
    };
    list.push_back(s);
  }
}

// ---- Dithering ----

void addDither(ScenarioList& list, bool thorough) {
  {
    // Number of dither values for which the upper level is taken
    Scenario s;
    s.name = "codec/dither-share";
    s.cache = false;
    s.run = [=]() {
      const Distribution& d = kDistributions[mc::choose(7, 0)];
      const int bits = kBits[mc::choose(8, 0)];
      const Quantizer& q = quantizer(d, bits);
      note(std::string(d.name) + " " + std::to_string(bits) + " bits");
      const size_t n = (size_t(1) << bits) - 1;
      const int nFractions = bits <= 8 ? 64 : bits <= 12 ? 16 : 4;
      auto fail = [&](float v, unsigned dither, unsigned got, const char* text) {
        std::ostringstream o;
        o.precision(9);
        o << d.name << " " << bits << " bits: value " << v << " with dither "
          << dither << " gives symbol " << got << ": " << text;
        violation("dither", o.str());
      };
      uint64_t cases = 0;
      for (size_t l = 0; l != n; ++l) {
        const float left = q.Decode(l);
        // The level itself
        for (unsigned dither : {0u, 1u, 1u << 30, kMaxDither - 1, kMaxDither}) {
          const unsigned got = q.EncodeWithDithering(left, dither);
          if (got != l) fail(left, dither, got, "a level should be kept");
        }
        if (l + 1 == n) break;
        const float right = q.Decode(l + 1);
        for (int f = 0; f <= nFractions + 3; ++f) {
          float v;
          if (f == 0)
            v = std::nextafter(left, right);
          else if (f <= nFractions - 1)
            v = left + (right - left) * (float(f) / nFractions);
          else if (f == nFractions)
            v = std::nextafter(right, left);
          else if (f == nFractions + 1)
            v = left + (right - left) * 1e-3f;
          else if (f == nFractions + 2)
            v = right - (right - left) * 1e-3f;
          else
            v = left + (right - left) * 0.7853f;
          if (!(v > left && v < right)) continue;
          const double share =
              (double(v) - left) / (double(right) - left) * 2147483648.0;
          // Binary search for the number of values that give the upper level
          auto upper = [&](unsigned dither) {
            const unsigned got = q.EncodeWithDithering(v, dither);
            if (got != l && got != l + 1)
              fail(v, dither, got, "not an adjacent level");
            ++cases;
            return got == l + 1;
          };
          uint64_t low = 0, high = 1ull << 31;  // first with the lower level
          while (low < high) {
            const uint64_t mid = (low + high) / 2;
            if (upper(mid))
              low = mid + 1;
            else
              high = mid;
          }
          if (std::fabs(double(low) - share) > 2147483648.0 * 4e-7 + 2)
            fail(v, low, l, ("the share of dither values giving the upper level is " +
                             std::to_string(low / 2147483648.0) + ", expected " +
                             std::to_string(share / 2147483648.0))
                                .c_str());
          // Monotone in the dither value
          for (uint64_t k = 0; k <= 31; ++k)
            for (int sign = -1; sign <= 1; ++sign) {
              const int64_t dither = (int64_t(1) << k) + sign;
              if (dither > kMaxDither) continue;
              if (upper(dither) != (uint64_t(dither) < low))
                fail(v, dither, l, "not monotone in the dither value");
            }
        }
      }
      // Outside the range
      const float lo = q.Decode(0), hi = q.Decode(n - 1);
      for (unsigned dither : {0u, 1u, 1u << 30, kMaxDither}) {
        for (float v : {lo, std::nextafter(lo, -1e30f), lo * 2 - 1, -1e30f,
                        -std::numeric_limits<float>::max()})
          if (q.EncodeWithDithering(v, dither) != 0)
            fail(v, dither, q.EncodeWithDithering(v, dither),
                 "should be the lowest level");
        for (float v : {hi, std::nextafter(hi, 1e30f), hi * 2 + 1, 1e30f,
                        std::numeric_limits<float>::max()})
          if (q.EncodeWithDithering(v, dither) != n - 1)
            fail(v, dither, q.EncodeWithDithering(v, dither),
                 "should be the highest level");
        for (float v : {std::numeric_limits<float>::infinity(),
                        -std::numeric_limits<float>::infinity(),
                        std::numeric_limits<float>::quiet_NaN()}) {
          const unsigned got = q.EncodeWithDithering(v, dither);
          if (got != n) fail(v, dither, got, "should be the non-finite symbol");
        }
      }
      count("dithered_values", cases);
    };
    list.push_back(s);
  }
  {
    // All 2^31 dither values for a few inputs
    Scenario s;
    s.name = "codec/dither-all-values";
    s.cache = false;
    s.run = [=]() {
      const Distribution& d = kDistributions[mc::choose(thorough ? 4 : 1, 0)];
      const Quantizer& q = quantizer(d, 3);
      const int which = mc::choose(2, 0);
      const uint64_t part = mc::choose(8, 0);
      const unsigned l = which ? 2 : 4;
      const float left = q.Decode(l), right = q.Decode(l + 1);
      const float v = left + (right - left) * (which ? 0.3f : 0.91f);
      const double share = (double(v) - left) / (double(right) - left) * 2147483648.0;
      const uint64_t n = (1ull << 31) / 8;
      for (uint64_t dither = part * n; dither != (part + 1) * n; ++dither) {
        const unsigned got = q.EncodeWithDithering(v, unsigned(dither));
        const bool up = got == l + 1;
        if ((!up && got != l) ||
            (up != (double(dither) < share) &&
             std::fabs(double(dither) - share) > 2147483648.0 * 4e-7 + 2))
          violation("dither", std::string(d.name) + ": dither value " +
                                  std::to_string(dither) + " gives symbol " +
                                  std::to_string(got));
      }
      count("dithered_values", n);
    };
    list.push_back(s);
  }
  {
    // Each component has its own dither value: changing one draw changes
    // exactly one symbol, and each symbol depends on one draw
    Scenario s;
    s.name = "codec/dither-independent";
    s.cache = false;
    s.run = [=]() {
      const int norm = mc::choose(3, 0);
      const int dist = mc::choose(4, 0);
      std::vector<Shape> shapes = smallShapes();
      const Shape shape = shapes[mc::choose(shapes.size(), 0)];
      Codec c(norm, kDistributions[dist], 4, shape);
      note(c.describe());
      const int n = shape.size();
      // No component equals a level, except for the extremes
      std::vector<cfloat> values(n);
      for (int i = 0; i != n; ++i)
        values[i] = cfloat(0.3f + 0.0137f * i, -0.51f + 0.0211f * i);
      c.encode(values.data(), Codec::Max);
      std::vector<unsigned> base(c.symbolData(), c.symbolData() + 2 * n);
      c.encode(values.data(), Codec::Zero);
      std::vector<unsigned> up(c.symbolData(), c.symbolData() + 2 * n);
      std::set<int> sensitive, seen;
      for (int i = 0; i != 2 * n; ++i)
        if (base[i] != up[i]) sensitive.insert(i);
      if (sensitive.size() < size_t(2 * n) * 2 / 5)
        violation("dither", c.describe(values.data()) +
                                ": dithering affects too few components");
      for (int k = 0; k != 2 * n; ++k) {
        std::vector<unsigned> dither(624, kMaxDither);
        dither[k] = 0;
        c.encodeWith(values.data(), generator(dither));
        int changed = 0;
        for (int i = 0; i != 2 * n; ++i)
          if (c.symbolData()[i] != base[i]) {
            ++changed;
            if (c.symbolData()[i] != up[i] || !seen.insert(i).second)
              violation("dither", c.describe(values.data()) + ": component " +
                                      std::to_string(i) +
                                      " depends on several dither values");
          }
        if (changed > 1)
          violation("dither", c.describe(values.data()) + ": draw " +
                                  std::to_string(k) + " is used for " +
                                  std::to_string(changed) + " components");
        count("draws");
      }
      if (seen != sensitive)
        violation("dither", c.describe(values.data()) +
                                ": some components are not dithered");
    };
    list.push_back(s);
  }
}

// ---- Quantizer ----

void addLevels(ScenarioList& list, bool thorough) {
  {
    Scenario s;
    s.name = "codec/levels";
    s.cache = false;
    s.run = [=]() {
      const Distribution& d = kDistributions[mc::choose(11, 0)];
      const int bits = kBits[mc::choose(8, 0)];
      const std::string who = std::string(d.name) + " " + std::to_string(bits) + " bits: ";
      note(who);
      try {
        quantizer(d, bits);
      } catch (std::exception& e) {
        // For these the levels are hard to calculate
        if (d.dist == ref::StudentsT && d.nu < 1.0) return;
        violation("levels", who + e.what());
      }
      const Quantizer& q = quantizer(d, bits);
      const size_t n = (size_t(1) << bits) - 1;
      if (q.QuantizationCount() != n + 1)
        violation("levels", who + "wrong number of levels");
      std::vector<float> level(n);
      for (size_t i = 0; i != n; ++i) level[i] = q.Decode(i);
      const std::vector<float> expected = ref::levels(d.dist, bits, d.nu, d.truncation);
      auto fail = [&](size_t i, const std::string& text) {
        std::ostringstream o;
        o.precision(9);
        o << who << "level " << i << " (" << level[i] << ") " << text;
        violation("levels", o.str());
      };
      if (std::isfinite(q.Decode(n))) fail(n - 1, "the last symbol should be non-finite");
      for (size_t i = 0; i != n; ++i) {
        if (!std::isfinite(level[i])) fail(i, "is not finite");
        if (i && !(level[i] > level[i - 1])) fail(i, "does not increase");
        if (std::fabs(level[i] + level[n - 1 - i]) > 2e-6 * std::fabs(level[i]) + 1e-9)
          fail(i, "is not symmetric");
        if (std::fabs(level[i] - expected[i]) > 4e-6 * std::fabs(expected[i]) + 1e-9)
          fail(i, "differs from the distribution: " + std::to_string(expected[i]));
      }
      if (std::fabs(level[n / 2]) > 1e-9) fail(n / 2, "should be zero");
      if (q.MaxQuantity() != level[n - 1] || q.MinQuantity() != level[0])
        fail(0, "or the last one is not the extreme that is reported");
      // Without dithering
      const bool nearest = d.dist == ref::Uniform;
      for (size_t i = 0; i != n; ++i) {
        for (int ulp = -1; ulp <= 1; ++ulp) {
          float v = level[i];
          if (ulp) v = std::nextafter(v, ulp * std::numeric_limits<float>::infinity());
          if (q.Encode(v) != i) fail(i, "is not encoded as itself");
        }
        for (unsigned dither : {0u, kMaxDither})
          if (q.EncodeWithDithering(level[i], dither) != i)
            fail(i, "is not kept by dithering");
        if (i + 1 == n) break;
        // The boundary: everything below gives i, everything above i + 1
        const int steps = bits <= 10 ? 64 : 8;
        bool up = false;
        float previous = level[i];
        for (int k = 1; k < steps; ++k) {
          const float v = level[i] + (level[i + 1] - level[i]) * (float(k) / steps);
          const size_t got = q.Encode(v);
          if (got != i && got != i + 1) fail(i, "neighbouring value is not encoded to an adjacent level");
          if (up && got == i) fail(i, "encoding is not monotone above it");
          if (nearest && std::fabs(k / double(steps) - 0.5) > 1e-3 + 1e-7 * std::fabs(level[i]) / (level[i + 1] - level[i])) {
            if (got != (k * 2 < steps ? i : i + 1)) fail(i, "or the next is not the nearest level");
          }
          if (!up && got == i + 1) {
            // Find the exact boundary by bisection over floats
            float a = previous, b = v;
            while (true) {
              float m = a + (b - a) / 2;
              if (!(m > a && m < b)) break;
              if (q.Encode(m) == i) a = m; else b = m;
            }
            if (q.Encode(std::nextafter(a, -1e30f)) != i ||
                q.Encode(std::nextafter(b, 1e30f)) != i + 1)
              fail(i, "has no sharp upper boundary");
            up = true;
          }
          previous = v;
        }
        if (!up) fail(i, "is chosen for all values up to the next level");
        count("levels");
      }
      float v = level[n - 1];
      for (int k = 0; k != 200 && v < 3e38f; ++k, v = v * 1.7f + 1e-6f) {
        if (q.Encode(v) != n - 1) fail(n - 1, "is not used for larger values");
        if (q.Encode(-v) != 0) fail(0, "is not used for smaller values");
      }
      const float huge = std::numeric_limits<float>::max();
      if (q.Encode(huge) != n - 1 || q.Encode(-huge) != 0)
        fail(n - 1, "is not used for the largest float");
      if (q.Encode(std::numeric_limits<float>::infinity()) != n ||
          q.Encode(-std::numeric_limits<float>::infinity()) != n ||
          q.Encode(std::numeric_limits<float>::quiet_NaN()) != n)
        fail(n - 1, ": non-finite values do not give the non-finite symbol");
    };
    list.push_back(s);
  }
  {
    // All floats, in increasing order
    Scenario s;
    s.name = "codec/all-floats";
    s.cache = false;
    s.run = [=]() {
      static const std::pair<int, int> quick[] = {{0, 4}, {1, 12}};
      int dist, bits;
      if (thorough) {
        dist = mc::choose(4, 0);
        bits = kBits[mc::choose(8, 0)];
      } else {
        const auto& p = quick[mc::choose(2, 0)];
        dist = p.first;
        bits = p.second;
      }
      const uint32_t part = mc::choose(16, 0);
      const Quantizer& q = quantizer(kDistributions[dist], bits);
      note(std::string(kDistributions[dist].name) + " " + std::to_string(bits) + " bits");
      const size_t n = (size_t(1) << bits) - 1;
      // The magnitudes of this part, positive and negative
      const uint32_t last = 0x7f7fffff;
      const uint32_t from = (uint64_t(last) + 1) * part / 16,
                     to = (uint64_t(last) + 1) * (part + 1) / 16;
      unsigned previous[2] = {0, unsigned(n)};
      uint64_t cases = 0;
      for (uint32_t u = from; u != to; ++u) {
        float v;
        memcpy(&v, &u, 4);
        const unsigned p = q.Encode(v), m = q.Encode(-v);
        if (u == from) previous[0] = p, previous[1] = m;
        if (p < previous[0] || m > previous[1] || p >= n || p < n / 2 || m > n / 2)
          violation("monotone", std::string(kDistributions[dist].name) + " " +
                                    std::to_string(bits) + " bits: encoding is not monotone at +-" +
                                    std::to_string(v) + " (float " + std::to_string(u) + ")");
        previous[0] = p;
        previous[1] = m;
        cases += 2;
      }
      count("floats", cases);
    };
    list.push_back(s);
  }
  {
    // All dictionary sizes and all positions
    Scenario s;
    s.name = "codec/dictionary";
    s.cache = false;
    s.run = [=]() {
      const size_t part = mc::choose(8, 0);
      const size_t limit = thorough ? 2100 : 520;
      std::vector<size_t> sizes;
      for (size_t n = 2; n <= limit; ++n) sizes.push_back(n);
      for (size_t n : {1023, 1024, 1025, 4095, 65535, 65536})
        if (n > limit) sizes.push_back(n);
      uint64_t cases = 0;
      for (size_t k = part; k < sizes.size(); k += 8) {
        const size_t n = sizes[k];
        for (int duplicates = 0; duplicates != 2; ++duplicates) {
          Dictionary d(n);
          for (size_t i = 0; i != n; ++i)
            d.begin()[i] = float(int(duplicates ? i / 2 : i) - int(n / 3)) * 0.5f;
          const float* data = d.begin();
          auto check = [&](const char* name, const float* got, float v) {
            const float* want = std::lower_bound(data, data + n, v);
            ++cases;
            if (got != want)
              violation("dictionary",
                        std::string(name) + " of " + std::to_string(v) +
                            " in a dictionary of " + std::to_string(n) + " gives " +
                            std::to_string(got - data) + " instead of " +
                            std::to_string(want - data));
          };
          for (size_t i = 0; i <= n; ++i)
            for (int f = -1; f <= 1; ++f) {
              float v = i == n ? data[n - 1] + 10.0f : data[i] + 0.25f * f;
              check("lower_bound", d.lower_bound(v), v);
              if (duplicates) continue;
              auto variants = [&](auto& dict) {
                if constexpr (requires { dict.lower_bound_branchless_two_minimum(v); })
                  check("lower_bound_branchless_two_minimum", dict.lower_bound_branchless_two_minimum(v), v);
                if constexpr (requires { dict.lower_bound_branchless(v); })
                  check("lower_bound_branchless", dict.lower_bound_branchless(v), v);
                if constexpr (requires { dict.lower_bound_two_minimum(v); })
                  check("lower_bound_two_minimum", dict.lower_bound_two_minimum(v), v);
                if constexpr (requires { dict.lower_bound_one_minimum(v); })
                  check("lower_bound_one_minimum", dict.lower_bound_one_minimum(v), v);
                if constexpr (requires { dict.lower_bound_slow(v); })
                  check("lower_bound_slow", dict.lower_bound_slow(v), v);
              };
              variants(d);
            }
          for (float v : {-1e30f, 1e30f, -std::numeric_limits<float>::max(),
                          std::numeric_limits<float>::max()})
            check("lower_bound", d.lower_bound(v), v);
        }
        Dictionary d(n);
        for (size_t i = 0; i != n; ++i) d.begin()[i] = i * 2.0f;
        if (d.size() != n || d.largest_symbol() != n - 1 ||
            d.largest_value() != (n - 1) * 2.0f || d.smallest_value() != 0.0f)
          violation("dictionary", "properties of a dictionary of " + std::to_string(n));
        for (size_t i = 0; i != n; ++i)
          if (d.symbol(d.begin() + i) != i || d.value(Dictionary::symbol_t(i)) != i * 2.0f)
            violation("dictionary", "symbol " + std::to_string(i));
      }
      count("searches", cases);
    };
    list.push_back(s);
  }
}

// ---- Bit packing ----

// An array of which the end or the start lies against an inaccessible page
class Guarded {
 public:
  Guarded(size_t size, bool atEnd, size_t alignment) : size_(size) {
    pages_ = (size + 4096) / 4096 + 1;
    map_ = static_cast<unsigned char*>(
        mmap(nullptr, (pages_ + 2) * 4096, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(map_, 4096, PROT_NONE);
    mprotect(map_ + (pages_ + 1) * 4096, 4096, PROT_NONE);
    atEnd_ = atEnd;
    alignment_ = alignment;
    use(size);
  }
  ~Guarded() { munmap(map_, (pages_ + 2) * 4096); }
  void use(size_t size) {
    size_ = size;
    data_ = atEnd_ ? map_ + (pages_ + 1) * 4096 - size : map_ + 4096;
  }
  void fill(unsigned char v) { memset(map_ + 4096, v, pages_ * 4096); }
  // All bytes outside the array still have the given value
  bool intact(unsigned char v) const {
    const unsigned char *a = map_ + 4096, *b = a + pages_ * 4096;
    // Only the neighbourhood
    const unsigned char* from = std::max<const unsigned char*>(a, data_ - 64);
    const unsigned char* to = std::min<const unsigned char*>(b, data_ + size_ + 64);
    for (const unsigned char* p = from; p < data_; ++p)
      if (*p != v) return false;
    for (const unsigned char* p = data_ + size_; p < to; ++p)
      if (*p != v) return false;
    return true;
  }
  unsigned char* data() { return data_; }
  unsigned* words() { return reinterpret_cast<unsigned*>(data_); }

 private:
  size_t size_, pages_, alignment_;
  bool atEnd_;
  unsigned char *map_, *data_;
};

void addPacking(ScenarioList& list, bool thorough) {
  {
    Scenario s;
    s.name = "codec/packing";
    s.cache = false;
    s.run = [=]() {
      const int bits = kBits[mc::choose(8, 0)];
      const bool atEnd = mc::choose(2, 0) != 0;
      const size_t part = mc::choose(8, 0);
      const size_t limit = thorough ? 1100 : 300;
      note(std::to_string(bits) + " bits");
      Guarded source(limit * 4, atEnd, 4), packed(limit * 2 + 8, atEnd, 1),
          result(limit * 4, atEnd, 4);
      const unsigned mask = (1u << bits) - 1;
      uint64_t cases = 0;
      for (size_t n = part; n <= limit; n += 8) {
        const size_t size = (n * bits + 7) / 8;
        if (BytePacker::bufferSize(n, bits) != size)
          violation("packing", "bufferSize(" + std::to_string(n) + "," +
                                   std::to_string(bits) + ") is " +
                                   std::to_string(BytePacker::bufferSize(n, bits)));
        source.use(n * 4);
        packed.use(size);
        result.use(n * 4);
        // Patterns: each value in each position of the last 24 symbols (and
        // the first 8), on a background of zeros and of ones
        const size_t nValues = bits <= 8 ? mask + 1 : 2 * bits + 6;
        const size_t positions = std::max<size_t>(n, 1);
        for (size_t at = 0; at != positions; ++at) {
          if (at >= 8 && at + 24 < n) continue;
          for (size_t k = 0; k != nValues; ++k) {
            unsigned value;
            if (bits <= 8)
              value = k;
            else if (k < size_t(bits))
              value = 1u << k;
            else if (k < 2 * size_t(bits))
              value = mask & ~(1u << (k - bits));
            else {
              static const unsigned others[] = {0, 0xffff, 0x5555, 0xaaaa, 0x1234, 0x0ff0};
              value = others[k - 2 * bits] & mask;
            }
            // Large alphabets: one background per value
            const int background = (k + at) % 3;
            unsigned* src = source.words();
            for (size_t i = 0; i != n; ++i)
              src[i] = background == 0 ? 0 : background == 1 ? mask
                                                            : (i * 2654435761u >> 7) & mask;
            if (n) src[at] = value;
            const unsigned char guard = 0x5a + background;
            packed.fill(guard);
            BytePacker::pack(bits, packed.data(), src, n);
            auto bad = [&](const char* text) {
              std::ostringstream o;
              o << text << " (" << bits << " bits, " << n << " symbols, symbol " << at
                << " = " << value << ", background " << background << ")";
              violation("packing", o.str());
            };
            if (!packed.intact(guard)) bad("packing writes outside its buffer");
            for (size_t i = 0; i != n; ++i)
              if (ref::symbolAt(packed.data(), i, bits) != src[i])
                bad("the packed bytes do not hold the symbols in little-endian bit order");
            result.fill(guard);
            BytePacker::unpack(bits, result.words(), packed.data(), n);
            if (!result.intact(guard)) bad("unpacking writes outside its buffer");
            if (n && memcmp(result.words(), src, n * 4) != 0)
              bad("unpacking does not give the symbols back");
            ++cases;
          }
        }
      }
      count("arrays_packed", cases);
    };
    list.push_back(s);
  }
  {
    // Long arrays: every length up to a few thousand, and lengths around
    // powers of two
    Scenario s;
    s.name = "codec/packing-long";
    s.cache = false;
    s.run = [=]() {
      const int bits = kBits[mc::choose(8, 0)];
      const bool atEnd = mc::choose(2, 0) != 0;
      const size_t part = mc::choose(8, 0);
      note(std::to_string(bits) + " bits");
      const size_t largest = (size_t(1) << (thorough ? 22 : 19)) + 40;
      Guarded source(largest * 4, atEnd, 4), packed(largest * 2 + 8, atEnd, 1),
          result(largest * 4, atEnd, 4);
      const unsigned mask = (1u << bits) - 1;
      std::vector<size_t> lengths;
      for (size_t n = part; n <= (thorough ? 20000 : 4200); n += 8) lengths.push_back(n);
      for (size_t k = 12; (size_t(1) << k) < largest; ++k)
        for (int d = -33; d <= 33; ++d)
          if ((k + d + 40) % 8 == part && (std::abs(d) < 10 || std::abs(d) > 30 || thorough) &&
              (k < 17 || std::abs(d) < 4))
            lengths.push_back((size_t(1) << k) + d);
      uint64_t cases = 0;
      for (size_t n : lengths)
        for (unsigned background = 0; background != (n < 4096 ? 1 : 2); ++background) {
          const size_t size = (n * bits + 7) / 8;
          source.use(n * 4);
          packed.use(size);
          result.use(n * 4);
          unsigned* src = source.words();
          // Not periodic, neither in a power of two
          for (size_t i = 0; i != n; ++i)
            src[i] = background == 0
                         ? (uint64_t((i + 1 + n) * 0x9e3779b97f4a7c15ull) >> 40) & mask
                         : (i % 7 == 0 ? i / 7 & mask : mask - (i & mask));
          packed.fill(0x5a);
          BytePacker::pack(bits, packed.data(), src, n);
          auto bad = [&](const char* text) {
            std::ostringstream o;
            o << text << " (" << bits << " bits, " << n << " symbols)";
            violation("packing", o.str());
          };
          if (!packed.intact(0x5a)) bad("packing writes outside its buffer");
          for (size_t i = 0; i != n; ++i)
            if (ref::symbolAt(packed.data(), i, bits) != src[i])
              bad("the packed bytes do not hold the symbols in little-endian bit order");
          result.fill(0x5a);
          BytePacker::unpack(bits, result.words(), packed.data(), n);
          if (!result.intact(0x5a)) bad("unpacking writes outside its buffer");
          if (n && memcmp(result.words(), src, n * 4) != 0)
            bad("unpacking does not give the symbols back");
          ++cases;
        }
      count("arrays_packed", cases);
      // Sizes of arrays that do not fit in memory
      for (size_t k = 4; k != 58; ++k)
        for (int d = -9; d != 10; ++d) {
          const size_t n = (size_t(1) << k) + d;
          const size_t size = n / 8 * bits + (n % 8 * bits + 7) / 8;
          if (BytePacker::bufferSize(n, bits) != size)
            violation("packing", "bufferSize(" + std::to_string(n) + "," +
                                     std::to_string(bits) + ") is " +
                                     std::to_string(BytePacker::bufferSize(n, bits)));
        }
    };
    list.push_back(s);
  }
  {
    Scenario s;
    s.name = "codec/packing-bitcounts";
    s.cache = false;
    s.run = [=]() {
      for (unsigned bits = 0; bits != 80; ++bits) {
        bool supported = false;
        for (int b : kBits) supported = supported || unsigned(b) == bits;
        unsigned symbols[16] = {0, 1, 1, 0, 0, 1, 0, 1, 1, 1, 0, 0, 1, 0, 1, 0};
        unsigned char packed[160] = {};
        unsigned result[16] = {};
        for (int direction = 0; direction != 2; ++direction) {
          bool refused = false;
          try {
            if (direction == 0)
              BytePacker::pack(bits, packed, symbols, 16);
            else
              BytePacker::unpack(bits, result, packed, 16);
          } catch (std::exception&) {
            refused = true;
          }
          if (refused == supported)
            violation("packing", std::string(supported ? "refuses " : "accepts ") +
                                     std::to_string(bits) + " bits");
        }
        count("bit_counts");
      }
    };
    list.push_back(s);
  }
}

// ---- Weights ----

void checkWeights(int nRows, int nPol, int nChan, int bits, const float* values) {
  WeightBlockEncoder encoder(nPol, nChan, size_t(1) << bits);
  TimeBlockBuffer<float> buffer(nPol, nChan), decoded(nPol, nChan);
  const size_t row = size_t(nPol) * nChan;
  for (int r = 0; r != nRows; ++r) buffer.SetData(r, 0, 1, values + r * row);
  float meta[3] = {7.5f, 0.0f, 7.5f};
  const size_t n = encoder.SymbolCount(nRows);
  std::vector<unsigned> symbols(n + 2, 0xdeadbeef);
  auto bad = [&](const std::string& text) {
    std::ostringstream s;
    s.precision(9);
    s << nRows << " rows, " << nPol << " pol, " << nChan << " chan, " << bits
      << " bits, weights";
    for (size_t i = 0; i != std::min<size_t>(200, row * nRows); ++i)
      s << ' ' << values[i];
    violation("weights", s.str() + ": " + text);
  };
  if (encoder.MetaDataFloatCount() != 1 || n != size_t(nRows * nChan))
    bad("wrong number of values");
  encoder.Encode(buffer, meta + 1, symbols.data() + 1);
  if (meta[0] != 7.5f || meta[2] != 7.5f || symbols[0] != 0xdeadbeef ||
      symbols[n + 1] != 0xdeadbeef)
    bad("encoding writes outside its buffers");
  WeightBlockEncoder decoder(nPol, nChan, size_t(1) << bits);
  decoder.InitializeDecode(meta + 1);
  decoded.resize(nRows);
  double largest = 0.0;
  for (int r = 0; r != nRows; ++r)
    for (int ch = 0; ch != nChan; ++ch) {
      float m = values[r * row + ch * nPol];
      for (int p = 1; p != nPol; ++p) m = std::min(m, values[r * row + ch * nPol + p]);
      largest = std::max<double>(largest, m);
    }
  const double step = largest / ((1 << bits) - 1);
  for (int r = 0; r != nRows; ++r) {
    decoder.Decode(decoded, symbols.data() + 1, r);
    const std::vector<float>& out = decoded[r].visibilities;
    if (out.size() != row) bad("wrong number of decoded values");
    for (int ch = 0; ch != nChan; ++ch) {
      const unsigned s = symbols[1 + r * nChan + ch];
      if (s >> bits) bad("symbol " + std::to_string(s) + " does not fit");
      float m = values[r * row + ch * nPol];
      for (int p = 1; p != nPol; ++p) m = std::min(m, values[r * row + ch * nPol + p]);
      for (int p = 0; p != nPol; ++p) {
        const float got = out[ch * nPol + p];
        std::ostringstream s;
        s.precision(9);
        s << "row " << r << " channel " << ch << " pol " << p << " gives " << got
          << ", the minimum is " << m;
        if (!(std::fabs(double(got) - m) <= 0.5 * step * (1 + 1e-5) + 2e-7 * m)) bad(s.str());
        if ((m == 0.0f || m == float(largest)) && got != m) bad(s.str() + " (should be exact)");
      }
    }
  }
}

void addWeights(ScenarioList& list, bool thorough) {
  {
    Scenario s;
    s.name = "codec/weights";
    s.cache = false;
    s.run = [=]() {
      static const float alphabet[] = {0, 1, 0.37f, 1e-12f, 2.5e20f, 1.0f / 3.0f, 4095};
      static const int shapes[][3] = {{1, 1, 1}, {3, 1, 1}, {1, 1, 4}, {1, 4, 1},
                                      {2, 2, 1}, {1, 2, 2}, {5, 1, 1}, {1, 2, 3},
                                      {3, 2, 1}};
      const int* shape = shapes[mc::choose(9, 0)];
      const int bits = kBits[mc::choose(8, 0)];
      const int n = shape[0] * shape[1] * shape[2];
      const int k = n <= 4 ? 7 : thorough ? 6 : 5;
      std::vector<float> values(n);
      uint64_t total = 1, cases = 0;
      for (int i = 0; i != n; ++i) total *= k;
      for (uint64_t c = 0; c != total; ++c) {
        uint64_t x = c;
        for (int i = 0; i != n; ++i, x /= k) values[i] = alphabet[x % k];
        checkWeights(shape[0], shape[1], shape[2], bits, values.data());
        ++cases;
      }
      count("weight_blocks", cases);
    };
    list.push_back(s);
  }
  {
    // Every level and every boundary between levels
    Scenario s;
    s.name = "codec/weight-levels";
    s.cache = false;
    s.run = [=]() {
      const int bits = kBits[mc::choose(8, 0)];
      static const float scales[] = {1.0f, 3.0e-9f, 7.7e8f, 1.0f / 3, 4095.0f, 1e-20f};
      const float top = scales[mc::choose(6, 0)];
      const int n = 1 << bits;
      for (int l = 0; l != n; ++l)
        for (double f : {0.0, 0.25, 0.499, 0.501, 0.75}) {
          const float values[4] = {top, top, float(top * std::min(1.0, (l + f) / (n - 1))), top};
          checkWeights(1, 2, 2, bits, values);
          checkWeights(4, 1, 1, bits, values);
        }
      count("weight_blocks", n * 10);
    };
    list.push_back(s);
  }
  {
    // Many rows, channels and polarizations; small and large weights
    Scenario s;
    s.name = "codec/weights-large";
    s.cache = false;
    s.run = [=]() {
      static const int rows[] = {1, 2, 10, 300, 3000};
      static const int chans[] = {1, 3, 64, 257, 1025};
      const int nRows = rows[mc::choose(5, 0)];
      const int nChan = chans[mc::choose(5, 0)];
      const int nPol = 1 + mc::choose(4, 0);
      const int bits = kBits[mc::choose(8, 0)];
      const int n = nRows * nChan * nPol;
      if (n > (thorough ? 1000000 : 200000)) return;
      std::vector<float> values(n);
      static const float scales[] = {1.0f, 1e-36f, 3e38f, 1e9f};
      for (int scale = 0; scale != 4; ++scale)
        for (int pattern = 0; pattern != 6; ++pattern) {
          for (int i = 0; i != n; ++i) {
            const unsigned k = unsigned(i * 2654435761u) >> 7;
            float f;
            switch (pattern) {
              case 0: f = 0.25f + 0.0078125f * (k % 96); break;
              case 1: f = i + 1 == n ? 1.0f : 0.0f; break;      // the last one
              case 2: f = i / nPol == n / nPol - 1 ? 1.0f : 0.001f; break;
              case 3: f = i % nPol == nPol - 1 ? 0.5f : 1.0f; break;
              case 4: f = i / (nChan * nPol) == 0 ? 1.0f : 0.1f; break;
              default: f = k % 5 == 0 ? 0.0f : 1.0f / (1 + k % 50); break;
            }
            values[i] = f * scales[scale];
          }
          checkWeights(nRows, nPol, nChan, bits, values.data());
          count("weight_blocks");
          if (n > 20000 && scale > 0 && !thorough) break;
        }
    };
    list.push_back(s);
  }
}

}  // namespace

void addCodec(ScenarioList& list, const std::string& kind, bool thorough) {
  if (kind == "visibilities") addVisibilities(list, thorough);
  if (kind == "nonfinite") addNonFinite(list, thorough);
  if (kind == "dither") addDither(list, thorough);
  if (kind == "levels") addLevels(list, thorough);
  if (kind == "packing") addPacking(list, thorough);
  if (kind == "weights") addWeights(list, thorough);
}
