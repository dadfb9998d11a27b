// Images whose number of blocks is near the supported maximum of 2^21 per component.
#ifndef VERIF_BIGLIMIT_H_
#define VERIF_BIGLIMIT_H_
#include <string>

#include "pbt.h"

namespace big {

typedef std::vector<uint8_t> Bytes;
static const uint64_t kMaxBlocks = 1u << 21;

// Grey, all coefficients zero.
// over: a little more than the maximum.
inline Bytes Jpeg(pbt::Src& s, bool over, std::string* what) {
  uint64_t w = 1u << s.Range(8, 12), h = kMaxBlocks / w;
  if (s.Chance(1, 3)) w = 257 + s.Below(7900), h = kMaxBlocks / w;
  if (over) {
    if ((h == 8192 || s.Bool()) && w < 8190 && h * (w + 1) > kMaxBlocks) ++w;
    else ++h;
  }
  const bool prog = s.Chance(1, 3);
  const int W = (int)(w * 8 - s.Below(8)), H = (int)std::min<uint64_t>(65535, h * 8 - s.Below(8));
  *what = pbt::Fmt("%d x %d, %s", W, H, prog ? "progressive" : "baseline");
  Bytes o;
  auto add = [&](std::initializer_list<int> v) {
    for (int x : v) o.push_back((uint8_t)x);
  };
  add({0xFF, 0xD8, 0xFF, 0xDB, 0, 67, 0});
  for (int i = 0; i < 64; ++i) o.push_back(16);
  add({0xFF, prog ? 0xC2 : 0xC0, 0, 11, 8, H >> 8, H & 255, W >> 8, W & 255, 1, 1, 0x11, 0});
  add({0xFF, 0xC4, 0, 21, 0x00, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1});
  if (!prog) add({0xFF, 0xC4, 0, 20, 0x10, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0});
  add({0xFF, 0xDA, 0, 8, 1, 1, 0x00, 0, prog ? 0 : 63, 0});
  // One bit per block, or two.
  const uint64_t bits = ((W + 7) / 8) * (uint64_t)((H + 7) / 8) * (prog ? 1 : 2);
  uint64_t whole = bits / 8;
  o.insert(o.end(), whole, 0);
  if (bits % 8) o.push_back((uint8_t)(0xFF >> (bits % 8)));
  add({0xFF, 0xD9});
  return o;
}

}  // namespace big
#endif
