// JPEG files whose entropy-coded data consist mostly of 0xFF bytes and are
// longer than the internal buffers of a writer.
#ifndef VERIF_DENSE_H_
#define VERIF_DENSE_H_

#include "pbt.h"

namespace dense {

using pbt::Bytes;
using pbt::Rng;
using pbt::Src;

struct Bits {
  Bytes* o;
  uint32_t acc = 0;
  int n = 0;
  void Put(int len, uint32_t v) {
    for (int i = len - 1; i >= 0; --i) {
      acc = acc << 1 | (v >> i & 1);
      if (++n == 8) {
        o->push_back((uint8_t)acc);
        if ((acc & 255) == 255) o->push_back(0);
        acc = n = 0;
      }
    }
  }
  void Flush() {
    while (n) Put(1, 1);
  }
};

// One component, bw x bh blocks.
inline Bytes Jpeg(Src& s) {
  const int bw = 1 + s.Below(120), bh = 1 + s.Below(std::max(1, 2600 / bw)), nb = bw * bh;
  const bool refine = s.Chance(2, 3);
  const int ones = s.Below(4) ? 1 + s.Below(10) : 0;  // a bit is zero once in 2^ones; 0 = never
  const int dri = s.Chance(1, 4) ? 1 + s.Below(std::min(nb, 2000)) : 0;
  const int lead = s.Below(130);  // zeros at the beginning, shift the rest
  const int burst = s.Chance(1, 3) ? 8 + s.Below(400) : 0;  // a zero after that many ones
  Rng r(s.Seed());
  uint64_t made = 0;
  auto bit = [&]() -> uint32_t {
    ++made;
    if (made <= (uint64_t)lead) return 0;
    if (burst && made % burst == 0) return 0;
    return ones ? (r.Below(1u << ones) != 0) : 1;
  };
  Bytes j;
  auto add = [&](std::initializer_list<int> v) {
    for (int x : v) j.push_back((uint8_t)x);
  };
  add({0xFF, 0xD8, 0xFF, 0xDB, 0, 67, 0});
  for (int i = 0; i < 64; ++i) j.push_back(16);
  add({0xFF, refine ? 0xC2 : 0xC0, 0, 11, 8, bh * 8 >> 8, bh * 8 & 255, bw * 8 >> 8, bw * 8 & 255, 1, 1, 0x11, 0});
  auto table = [&](int slot, std::initializer_list<int> by_length, std::initializer_list<int> symbols) {
    add({0xFF, 0xC4, 0, 19 + (int)symbols.size(), slot});
    add(by_length);
    for (size_t i = by_length.size(); i < 16; ++i) j.push_back(0);
    add(symbols);
  };
  auto sos = [&](int ss, int se, int a) { add({0xFF, 0xDA, 0, 8, 1, 1, 0, ss, se, a}); };
  if (dri) add({0xFF, 0xDD, 0, 4, dri >> 8, dri & 255});
  Bits b{&j};
  auto restart = [&](int i) {
    if (dri && i && i % dri == 0) {
      b.Flush();
      add({0xFF, 0xD0 + (i / dri - 1) % 8});
    }
  };
  table(0x00, {1}, {0});
  if (!refine) {
    // Every coefficient takes 1 + cat bits.
    const int cat = 8 + (int)s.Below(3);
    table(0x10, {1}, {cat});
    sos(0, 63, 0);
    for (int i = 0; i < nb; ++i) {
      restart(i);
      b.Put(1, 0);
      for (int k = 1; k < 64; ++k) {
        b.Put(1, 0);
        for (int n = 0; n < cat; ++n) b.Put(1, bit());
      }
    }
    b.Flush();
  } else {
    table(0x10, {0, 1, 0, 11}, {0x01, 0x00, 0x10, 0x20, 0x30, 0x40, 0x50, 0x60, 0x70, 0x80, 0x90, 0xA0});
    // Codes: symbol 1 is 00, run symbol x0 is 4 bits 0100 + x.
    sos(0, 0, 0);
    for (int i = 0; i < nb; ++i) {
      restart(i);
      b.Put(1, 0);
    }
    b.Flush();
    const int al = 1 + s.Below(2);
    sos(1, 63, al);
    for (int i = 0; i < nb; ++i) {
      restart(i);
      for (int k = 1; k < 64; ++k) {
        b.Put(2, 0);
        b.Put(1, bit());
      }
    }
    b.Flush();
    for (int a = al; a > 0; --a) {
      sos(1, 63, a << 4 | (a - 1));
      made = 0;
      const int step = s.Bool() ? 2047 : 1 + (int)s.Below(2047);
      for (int i = 0; i < nb;) {
        restart(i);
        int run = std::min(step, nb - i);
        if (dri) run = std::min(run, dri - i % dri);
        int e = 0;
        while (2 << e <= run) ++e;
        b.Put(4, 4 + e);
        if (e) b.Put(e, run - (1 << e));
        for (int n = run * 63; n > 0; --n) b.Put(1, bit());
        i += run;
      }
      b.Flush();
    }
  }
  add({0xFF, 0xD9});
  return j;
}

// An image with about `nonzeros` or more nonzero coefficients per component: so
// many select contexts that smaller images do not have.
inline Bytes BigDense(Rng& r, uint32_t nonzeros) {
  const int nc = r.Below(3) ? 1 : 3;
  const uint32_t per_block = 25 + r.Below(35);
  const uint32_t nb = (uint32_t)(nonzeros * (1.0 + r.Below(100) / 100.0)) / per_block;
  uint32_t bw = 1;
  while (bw * bw < nb) ++bw;
  const uint32_t bh = bw;
  Bytes j;
  auto add = [&](std::initializer_list<uint32_t> v) {
    for (uint32_t x : v) j.push_back((uint8_t)x);
  };
  add({0xFF, 0xD8, 0xFF, 0xDB, 0, 67, 0});
  for (int i = 0; i < 64; ++i) j.push_back(1 + r.Below(60));
  add({0xFF, 0xC0, 0, 8u + 3 * nc, 8, bh * 8 >> 8, bh * 8 & 255, bw * 8 >> 8, bw * 8 & 255, (uint32_t)nc});
  for (int c = 0; c < nc; ++c) add({1u + c, 0x11, 0});
  // DC: categories 0, 1, 2. AC: three nonzero symbols and the end of block.
  add({0xFF, 0xC4, 0, 19 + 3, 0x00, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2});
  add({0xFF, 0xC4, 0, 19 + 5, 0x10, 0, 2, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x01, 0x02, 0x11, 0x04, 0x00});
  add({0xFF, 0xDA, 0, 6u + 2 * nc, (uint32_t)nc});
  for (int c = 0; c < nc; ++c) add({1u + c, 0});
  add({0, 63, 0});
  Bits b{&j};
  int dc[3] = {0, 0, 0};
  for (uint32_t i = 0; i < nb || i < bw * bh; ++i) {
    if (i >= bw * bh) break;
    for (int c = 0; c < nc; ++c) {
      int d = (int)r.Below(7) - 3;
      if (dc[c] + d > 900 || dc[c] + d < -900) d = 0;
      dc[c] += d;
      int cat = d == 0 ? 0 : (d == 1 || d == -1) ? 1 : 2;
      b.Put(2, cat);
      if (cat) b.Put(cat, d > 0 ? d : d + (1 << cat) - 1);
      uint32_t k = 1, stop = r.Below(10) == 0 ? 1 + r.Below(64) : 64 - r.Below(1 + 2 * (64 - per_block));
      while (k < 64) {
        if (k >= stop) {
          b.Put(3, 6);  // end of block
          break;
        }
        uint32_t v = r.Below(16);
        if (v < 9) {
          b.Put(2, 0), b.Put(1, v & 1);
        } else if (v < 12) {
          b.Put(2, 1), b.Put(2, r.Below(4));
        } else if (v < 15 && k < 63) {
          b.Put(3, 4), b.Put(1, v & 1), ++k;
        } else {
          b.Put(3, 5), b.Put(4, r.Below(16));
        }
        ++k;
      }
    }
  }
  b.Flush();
  add({0xFF, 0xD9});
  return j;
}

}  // namespace dense

#endif
