// Independent JPEG generator: builds an image model, then writes a JPEG file
// for it with its own entropy coder. Shares no code with the code under test.
#ifndef VERIF_JPEGGEN_H_
#define VERIF_JPEGGEN_H_

#include <array>
#include <string>
#include <vector>

#include "pbt.h"

namespace jg {

using pbt::Bytes;
using pbt::Case;
using pbt::Rng;
using pbt::Src;

extern const uint8_t kZigZag[64];  // zigzag position -> natural index

struct QTable {
  int index = 0;
  int precision = 0;
  bool is_last = true;
  std::array<int, 64> v;  // natural order
};

struct HTable {
  int cls = 0;  // 0 DC, 1 AC
  int id = 0;
  bool is_last = true;
  std::array<int, 17> counts{};
  std::vector<int> vals;
};

struct ScanComp {
  int comp, td, ta;
};
struct Scan {
  std::vector<ScanComp> comps;
  int Ss = 0, Se = 63, Ah = 0, Al = 0;
};

struct Comp {
  int id = 1, h = 1, v = 1, tq = 0;
  int bw = 0, bh = 0;  // padded size in blocks
  int cw = 0, ch = 0;  // size in blocks of a non-interleaved scan
  std::vector<int16_t> coef;  // natural order, block after block
};

// What a JPEG file truly contains.
struct Jpeg {
  Bytes bytes;
  int width = 0, height = 0;
  int hmax = 1, vmax = 1, mcu_cols = 0, mcu_rows = 0;
  int sof = 0xC0;
  int restart_interval = 0;
  std::vector<Comp> comps;
  std::vector<QTable> quants;  // in file order
  std::vector<HTable> huffs;   // in file order
  std::vector<Scan> scans;
  std::vector<uint8_t> markers;           // in order, 0xFF = raw data
  std::vector<Bytes> app, com;            // marker byte + length + payload
  std::vector<Bytes> raw;                 // bytes between markers
  Bytes tail;
  // Byte positions of interest.
  size_t sof_pos = 0, first_sos_pos = 0, eoi_pos = 0;
  std::vector<size_t> segment_pos;  // of every marker
  bool conforming = true;
  int near_limit = 0;               // which count is near the supported maximum
  bool late_level = false;          // some refinement follows a finer one
  std::vector<std::string> labels;
  size_t TotalBlocks() const;
  std::string Describe() const;
};

enum { kManyTables = 1, kManyShort, kManyApp, kManyCom, kLongTail, kWide, kHigh };

struct Options {
  bool quirks = true;         // allow unusual but accepted constructs
  uint32_t max_blocks = 400;  // rough budget of 8x8 blocks
  bool allow_large = true;    // sometimes exceed 1024 blocks per component
  uint32_t huge_one_in = 0;   // chance of more than 33000 blocks
  bool metadata = true;
  bool natural_only = false;
  uint32_t limits_one_in = 0;  // chance of a count near the supported maximum
  bool late_level = false;  // put some refinement after a finer one
  bool full = false;      // as many blocks as max_blocks
  int wider = 1, higher = 1;  // factors of the size
};

// Full random JPEG.
Jpeg Generate(Src& s, const Options& o);

// Natural-looking image as JPEG.
struct PhotoParams {
  int width, height, quality, sampling;  // sampling: 0 444, 1 422, 2 420, 3 gray
  bool progressive, optimized;
  uint64_t seed;
};
Jpeg Photo(const PhotoParams& p);

// --- building blocks, exposed for other generators -----------------------
void FillCoefficients(Src& s, Jpeg* j, bool conforming, bool natural_only);
void StdQuant(int quality, bool chroma, std::array<int, 64>* out);
Bytes RandomBytes(Rng& r, size_t n, int style);
// Adds random metadata to app/com lists (as full segments without 0xFF).
Bytes RandomSegment(Src& s);
// Random mutation of a byte string (bit flips, splices, deletions...).
Bytes Mutate(Src& s, const Bytes& in, int max_edits);

}  // namespace jg

#endif
