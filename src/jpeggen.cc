#include "jpeggen.h"

#include <math.h>
#include <stdlib.h>

#include <algorithm>

#include "frozen_markers.h"

namespace jg {

const uint8_t kZigZag[64] = {
    0,  1,  8,  16, 9,  2,  3,  10, 17, 24, 32, 25, 18, 11, 4,  5,
    12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6,  7,  14, 21, 28,
    35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51,
    58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63};

namespace {

const int kLumaQ[64] = {16, 11, 10, 16, 24, 40, 51, 61, 12, 12, 14, 19, 26, 58, 60, 55,
                        14, 13, 16, 24, 40, 57, 69, 56, 14, 17, 22, 29, 51, 87, 80, 62,
                        18, 22, 37, 56, 68, 109, 103, 77, 24, 35, 55, 64, 81, 104, 113, 92,
                        49, 64, 78, 87, 103, 121, 120, 101, 72, 92, 95, 98, 112, 100, 103, 99};
const int kChromaQ[64] = {17, 18, 24, 47, 99, 99, 99, 99, 18, 21, 26, 66, 99, 99, 99, 99,
                          24, 26, 56, 99, 99, 99, 99, 99, 47, 66, 99, 99, 99, 99, 99, 99,
                          99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99,
                          99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99, 99};

// Annex K typical Huffman tables.
const uint8_t kDcL_bits[17] = {0, 0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0};
const uint8_t kDcC_bits[17] = {0, 0, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0};
const uint8_t kAcL_bits[17] = {0, 0, 2, 1, 3, 3, 2, 4, 3, 5, 5, 4, 4, 0, 0, 1, 0x7d};
const uint8_t kAcL_val[162] = {
    0x01, 0x02, 0x03, 0x00, 0x04, 0x11, 0x05, 0x12, 0x21, 0x31, 0x41, 0x06, 0x13, 0x51, 0x61, 0x07, 0x22, 0x71,
    0x14, 0x32, 0x81, 0x91, 0xa1, 0x08, 0x23, 0x42, 0xb1, 0xc1, 0x15, 0x52, 0xd1, 0xf0, 0x24, 0x33, 0x62, 0x72,
    0x82, 0x09, 0x0a, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a, 0x34, 0x35, 0x36, 0x37,
    0x38, 0x39, 0x3a, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59,
    0x5a, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0x83,
    0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0xa2, 0xa3,
    0xa4, 0xa5, 0xa6, 0xa7, 0xa8, 0xa9, 0xaa, 0xb2, 0xb3, 0xb4, 0xb5, 0xb6, 0xb7, 0xb8, 0xb9, 0xba, 0xc2, 0xc3,
    0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xe1, 0xe2,
    0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xea, 0xf1, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa};
const uint8_t kAcC_bits[17] = {0, 0, 2, 1, 2, 4, 4, 3, 4, 7, 5, 4, 4, 0, 1, 2, 0x77};
const uint8_t kAcC_val[162] = {
    0x00, 0x01, 0x02, 0x03, 0x11, 0x04, 0x05, 0x21, 0x31, 0x06, 0x12, 0x41, 0x51, 0x07, 0x61, 0x71, 0x13, 0x22,
    0x32, 0x81, 0x08, 0x14, 0x42, 0x91, 0xa1, 0xb1, 0xc1, 0x09, 0x23, 0x33, 0x52, 0xf0, 0x15, 0x62, 0x72, 0xd1,
    0x0a, 0x16, 0x24, 0x34, 0xe1, 0x25, 0xf1, 0x17, 0x18, 0x19, 0x1a, 0x26, 0x27, 0x28, 0x29, 0x2a, 0x35, 0x36,
    0x37, 0x38, 0x39, 0x3a, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58,
    0x59, 0x5a, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a,
    0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a,
    0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7, 0xa8, 0xa9, 0xaa, 0xb2, 0xb3, 0xb4, 0xb5, 0xb6, 0xb7, 0xb8, 0xb9, 0xba,
    0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda,
    0xe2, 0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xea, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa};

int CeilDiv(int a, int b) { return (a + b - 1) / b; }
int BitLen(int v) {
  int n = 0;
  while (v) {
    ++n;
    v >>= 1;
  }
  return n;
}

// One element of an entropy-coded segment.
struct Sym {
  uint8_t tbl;  // 0..3 DC tables, 4..7 AC tables, 254 restart, 255 raw bits
  uint8_t sym;
  uint8_t nbits;
  uint16_t bits;
};
typedef std::vector<Sym> Stream;

struct EobState {
  int run = 0;
  int tbl = 4;
  std::vector<uint8_t> corr;
};

void FlushEob(EobState* e, Stream* out) {
  if (e->run > 0) {
    int n = BitLen(e->run) - 1;
    out->push_back({(uint8_t)e->tbl, (uint8_t)(n << 4), (uint8_t)n, (uint16_t)(e->run & ((1 << n) - 1))});
    e->run = 0;
  }
  for (uint8_t b : e->corr) out->push_back({255, 0, 1, b});
  e->corr.clear();
}

struct EncQuirk {
  int extra_zrl = 0;   // chance in 1/64 per block of redundant ZRL codes
  int eob_split = 0;   // chance in 1/64 of ending an EOB run early
  size_t corr_limit = 900;  // refinement bits in one EOB run (libjpeg: 937)
};

void PutMag(Stream* out, int tbl, int run, int v) {
  int a = v < 0 ? -v : v;
  int s = BitLen(a);
  int bits = v < 0 ? v - 1 : v;
  out->push_back({(uint8_t)tbl, (uint8_t)(run << 4 | s), (uint8_t)s, (uint16_t)(bits & ((1 << s) - 1))});
}

// `seen`: per zigzag index, the bits of the magnitude that earlier scans conveyed.
void EncodeBlock(const int16_t* c, const Scan& sc, bool progressive, int td, int ta, int* pred, EobState* e,
                 const EncQuirk& q, Rng& rng, const uint16_t* seen, Stream* out) {
  int Ss = progressive ? sc.Ss : 0, Se = progressive ? sc.Se : 63;
  int Al = progressive ? sc.Al : 0, Ah = progressive ? sc.Ah : 0;
  bool runs_ok = Ss > 0;
  if (Ss == 0) {
    if (Ah == 0) {
      int dc = c[0] >> Al;
      PutMag(out, td, 0, dc - *pred);
      *pred = dc;
    } else {
      out->push_back({255, 0, 1, (uint16_t)((c[0] >> Al) & 1)});
    }
    Ss = 1;
  }
  if (Ss > Se) return;
  if (Ah == 0) {
    int r = 0;
    for (int k = Ss; k <= Se; ++k) {
      int v = c[kZigZag[k]];
      v = v < 0 ? -((-v) >> Al) : v >> Al;
      if (v == 0) {
        ++r;
        continue;
      }
      FlushEob(e, out);
      while (r > 15) {
        out->push_back({(uint8_t)(4 + ta), 0xF0, 0, 0});
        r -= 16;
      }
      PutMag(out, 4 + ta, r, v);
      r = 0;
    }
    if (r >= 16 && q.extra_zrl && rng.Chance(q.extra_zrl, 64)) {
      FlushEob(e, out);
      int n = 1 + (int)rng.Below(r / 16);
      for (int i = 0; i < n; ++i) out->push_back({(uint8_t)(4 + ta), 0xF0, 0, 0});
      r -= 16 * n;
    }
    if (r > 0) {
      if (e->run == 0) e->tbl = 4 + ta;
      ++e->run;
      if (!runs_ok || e->run == 0x7FFF || (q.eob_split && rng.Chance(q.eob_split, 64))) FlushEob(e, out);
    }
    return;
  }
  // Refinement of AC coefficients.
  int mag[64], eob = 0;
  for (int k = Ss; k <= Se; ++k) {
    // What matters to a decoder is whether the value was nonzero before this scan.
    int a = abs(c[kZigZag[k]]);
    mag[k] = ((a & seen[k]) ? 2 : 0) | ((a >> Al) & 1);
    if (mag[k] == 1) eob = k;
  }
  int r = 0;
  std::vector<uint8_t> corr;
  for (int k = Ss; k <= Se; ++k) {
    if (mag[k] == 0) {
      ++r;
      continue;
    }
    while (r > 15 && k <= eob) {
      FlushEob(e, out);
      out->push_back({(uint8_t)(4 + ta), 0xF0, 0, 0});
      for (uint8_t b : corr) out->push_back({255, 0, 1, b});
      corr.clear();
      r -= 16;
    }
    if (mag[k] > 1) {
      corr.push_back(mag[k] & 1);
      continue;
    }
    FlushEob(e, out);
    out->push_back({(uint8_t)(4 + ta), (uint8_t)(r << 4 | 1), 1, (uint16_t)(c[kZigZag[k]] < 0 ? 0 : 1)});
    for (uint8_t b : corr) out->push_back({255, 0, 1, b});
    corr.clear();
    r = 0;
  }
  if (r > 0 || !corr.empty()) {
    if (e->run == 0) e->tbl = 4 + ta;
    ++e->run;
    e->corr.insert(e->corr.end(), corr.begin(), corr.end());
    if (!runs_ok || e->run == 0x7FFF || e->corr.size() > q.corr_limit || (q.eob_split && rng.Chance(q.eob_split, 64)))
      FlushEob(e, out);
  }
}

Stream EncodeScan(const Jpeg& j, const Scan& sc, bool dri_active, const EncQuirk& q, Rng& rng) {
  Stream out;
  bool prog = j.sof == 0xC2;
  bool inter = sc.comps.size() > 1;
  int cols, rows;
  if (inter) {
    cols = j.mcu_cols;
    rows = j.mcu_rows;
  } else {
    cols = j.comps[sc.comps[0].comp].cw;
    rows = j.comps[sc.comps[0].comp].ch;
  }
  int pred[4] = {0, 0, 0, 0};
  uint16_t seen[4][64] = {};
  if (prog && sc.Ah > 0)
    for (const Scan& p : j.scans) {
      if (&p == &sc) break;
      for (auto& pc : p.comps)
        for (int k = p.Ss; k <= p.Se && k < 64; ++k)
          seen[pc.comp][k] |= (uint16_t)(p.Ah ? 1u << p.Al : 0xFFFFu << p.Al);
    }
  EobState e;
  int ri = dri_active ? j.restart_interval : 0;
  int left = ri;
  for (int my = 0; my < rows; ++my)
    for (int mx = 0; mx < cols; ++mx) {
      if (ri > 0) {
        if (left == 0) {
          FlushEob(&e, &out);
          out.push_back({254, 0, 0, 0});
          memset(pred, 0, sizeof pred);
          left = ri;
        }
        --left;
      }
      for (auto& scc : sc.comps) {
        const Comp& c = j.comps[scc.comp];
        int nv = inter ? c.v : 1, nh = inter ? c.h : 1;
        for (int y = 0; y < nv; ++y)
          for (int x = 0; x < nh; ++x) {
            size_t b = (size_t)(my * nv + y) * c.bw + (mx * nh + x);
            EncodeBlock(&c.coef[b * 64], sc, prog, scc.td, scc.ta, &pred[scc.comp], &e, q, rng, seen[scc.comp], &out);
          }
      }
    }
  FlushEob(&e, &out);
  return out;
}

// Annex K.2: optimal code lengths limited to 16 bits, all-ones code reserved.
HTable OptimalTable(const std::vector<uint64_t>& freq_in) {
  std::vector<uint64_t> freq(257, 0);
  for (int i = 0; i < 256; ++i) freq[i] = freq_in[i];
  freq[256] = 1;
  std::vector<int> codesize(257, 0), others(257, -1);
  while (true) {
    int c1 = -1, c2 = -1;
    uint64_t v = ~0ull;
    for (int i = 0; i <= 256; ++i)
      if (freq[i] && freq[i] <= v) {
        v = freq[i];
        c1 = i;
      }
    v = ~0ull;
    for (int i = 0; i <= 256; ++i)
      if (freq[i] && freq[i] <= v && i != c1) {
        v = freq[i];
        c2 = i;
      }
    if (c2 < 0) break;
    freq[c1] += freq[c2];
    freq[c2] = 0;
    codesize[c1]++;
    while (others[c1] >= 0) {
      c1 = others[c1];
      codesize[c1]++;
    }
    others[c1] = c2;
    codesize[c2]++;
    while (others[c2] >= 0) {
      c2 = others[c2];
      codesize[c2]++;
    }
  }
  std::vector<int> bits(300, 0);
  for (int i = 0; i <= 256; ++i)
    if (codesize[i]) bits[codesize[i]]++;
  for (int i = 299; i > 16; --i) {
    while (bits[i] > 0) {
      int k = i - 2;
      while (bits[k] == 0) --k;
      bits[i] -= 2;
      bits[i - 1]++;
      bits[k + 1] += 2;
      bits[k]--;
    }
  }
  int i = 16;
  while (i > 0 && bits[i] == 0) --i;
  if (i > 0) bits[i]--;
  HTable t;
  for (int k = 1; k <= 16; ++k) t.counts[k] = bits[k];
  for (int len = 1; len <= 299; ++len)
    for (int sy = 0; sy < 256; ++sy)
      if (codesize[sy] == len) t.vals.push_back(sy);
  return t;
}

HTable StdTable(int cls, bool chroma) {
  HTable t;
  t.cls = cls;
  const uint8_t* b = cls ? (chroma ? kAcC_bits : kAcL_bits) : (chroma ? kDcC_bits : kDcL_bits);
  int n = 0;
  for (int i = 1; i <= 16; ++i) {
    t.counts[i] = b[i];
    n += b[i];
  }
  for (int i = 0; i < n; ++i) t.vals.push_back(cls ? (chroma ? kAcC_val[i] : kAcL_val[i]) : i);
  return t;
}

// Random valid table containing at least the symbols with freq > 0.
HTable RandomTable(const std::vector<uint64_t>& freq, int cls, Rng& r) {
  std::vector<int> syms;
  int maxsym = cls ? 255 : 11;
  int extra = r.Chance(1, 3) ? 0 : r.Range(0, cls ? 60 : 6);
  if (cls && r.Chance(1, 8)) extra = 256;
  std::vector<char> in(256, 0);
  for (int i = 0; i < 256; ++i)
    if (freq[i]) {
      in[i] = 1;
      syms.push_back(i);
    }
  for (int i = 0; i < extra; ++i) {
    int x = extra == 256 ? i : r.Range(0, maxsym);
    if (!in[x]) {
      in[x] = 1;
      syms.push_back(x);
    }
  }
  for (size_t i = syms.size(); i > 1; --i) std::swap(syms[i - 1], syms[r.Below((uint32_t)i)]);
  HTable t;
  t.cls = cls;
  if (syms.empty()) return t;
  // Random lengths: repeatedly split a random leaf of a tree.
  std::vector<int> leaves = {0};
  size_t need = syms.size() + 1;
  while (leaves.size() < need) {
    size_t i;
    if (r.Chance(1, 2)) {
      i = r.Below((uint32_t)leaves.size());
    } else {
      i = 0;  // shallowest
      for (size_t k = 0; k < leaves.size(); ++k)
        if (leaves[k] < leaves[i]) i = k;
    }
    if (leaves[i] >= 16) {
      i = 0;
      for (size_t k = 0; k < leaves.size(); ++k)
        if (leaves[k] < leaves[i]) i = k;
    }
    int d = leaves[i] + 1;
    leaves[i] = d;
    leaves.push_back(d);
  }
  std::sort(leaves.begin(), leaves.end());
  leaves.pop_back();  // reserve (at least) the all-ones code
  // Optionally lengthen some codes (incomplete code).
  if (r.Chance(1, 3))
    for (auto& l : leaves)
      if (l < 16 && r.Chance(1, 6)) ++l;
  std::sort(leaves.begin(), leaves.end());
  // The reserved code must still exist at the greatest length.
  for (int l : leaves) t.counts[l]++;
  t.vals = syms;
  int code = 0, maxl = leaves.back();
  for (int l = 1; l <= maxl; ++l) code = (code + t.counts[l]) << (l < maxl ? 1 : 0);
  if (code >= (1 << maxl)) {  // used the all-ones code; lengthen the last one
    int l = maxl;
    if (l < 16) {
      t.counts[l]--;
      t.counts[l + 1]++;
    }
  }
  return t;
}

bool Covers(const HTable& t, const std::vector<uint64_t>& f) {
  std::vector<char> in(256, 0);
  for (int v : t.vals) in[v] = 1;
  for (int i = 0; i < 256; ++i)
    if (f[i] && !in[i]) return false;
  return true;
}

struct CodeBook {
  std::array<int, 256> len{};
  std::array<int, 256> code{};
};
CodeBook Build(const HTable& t) {
  CodeBook b;
  int code = 0;
  size_t p = 0;
  for (int l = 1; l <= 16; ++l) {
    for (int i = 0; i < t.counts[l]; ++i) {
      b.len[t.vals[p]] = l;
      b.code[t.vals[p]] = code++;
      ++p;
    }
    code <<= 1;
  }
  return b;
}

struct BitOut {
  Bytes* o;
  uint64_t acc = 0;
  int n = 0;
  void Put(int bits, uint32_t v) {
    if (!bits) return;
    acc = acc << bits | (v & ((1u << bits) - 1));
    n += bits;
    while (n >= 8) {
      uint8_t b = (uint8_t)(acc >> (n - 8));
      o->push_back(b);
      if (b == 0xFF) o->push_back(0);
      n -= 8;
    }
    acc &= (1ull << n) - 1;
  }
  void Pad(int mode, Rng& r) {
    if (n == 0) return;
    int k = 8 - n;
    uint32_t m = (1u << k) - 1;
    uint32_t v = mode == 0 ? m : mode == 1 ? 0 : ((uint32_t)r.Next() & m);
    Put(k, v);
  }
};

void Put16(Bytes* o, int v) {
  o->push_back((uint8_t)(v >> 8));
  o->push_back((uint8_t)v);
}

// Layout of the frame geometry.
void SetGeometry(Jpeg* j) {
  j->hmax = j->vmax = 1;
  for (auto& c : j->comps) {
    j->hmax = std::max(j->hmax, c.h);
    j->vmax = std::max(j->vmax, c.v);
  }
  j->mcu_cols = CeilDiv(j->width, 8 * j->hmax);
  j->mcu_rows = CeilDiv(j->height, 8 * j->vmax);
  for (auto& c : j->comps) {
    c.bw = j->mcu_cols * c.h;
    c.bh = j->mcu_rows * c.v;
    c.cw = CeilDiv(j->width * c.h, 8 * j->hmax);
    c.ch = CeilDiv(j->height * c.v, 8 * j->vmax);
    c.coef.assign((size_t)c.bw * c.bh * 64, 0);
  }
}

// Reduces the coefficients to what the scan script conveys.
void MaskByScript(Jpeg* j) {
  bool prog = j->sof == 0xC2;
  for (size_t ci = 0; ci < j->comps.size(); ++ci) {
    Comp& c = j->comps[ci];
    for (int k = 0; k < 64; ++k) {
      int al = 16;          // lowest conveyed bit
      bool outside = true;  // are padding blocks conveyed by all scans?
      bool any = false;
      int bits_in = 0, bits_out = 0;
      for (auto& s : j->scans) {
        for (auto& sc : s.comps) {
          if (sc.comp != (int)ci) continue;
          int Ss = prog ? s.Ss : 0, Se = prog ? s.Se : 63, Al = prog ? s.Al : 0, Ah = prog ? s.Ah : 0;
          if (k < Ss || k > Se) continue;
          any = true;
          al = std::min(al, Al);
          int m = Ah == 0 ? (0xFFFF << Al) & 0xFFFF : 1 << Al;
          bits_in |= m;
          if (s.comps.size() > 1) bits_out |= m;
          else outside = false;
        }
      }
      (void)al;
      (void)outside;
      int n = kZigZag[k];
      for (int y = 0; y < c.bh; ++y)
        for (int x = 0; x < c.bw; ++x) {
          int16_t& v = c.coef[((size_t)y * c.bw + x) * 64 + n];
          if (!any) {
            v = 0;
            continue;
          }
          bool pad = (x >= c.cw || y >= c.ch);
          int m = pad ? bits_out : bits_in;
          if (pad && bits_out != bits_in) m = 0;  // keep it simple: nothing conveyed there
          if (m == 0xFFFF) continue;
          if (k == 0) {
            v = (int16_t)(v & m);
          } else {
            int a = abs(v) & m;
            v = (int16_t)(v < 0 ? -a : a);
          }
        }
    }
  }
}

void DcRange(Jpeg* j, int lo, int hi) {
  for (auto& c : j->comps)
    for (size_t b = 0; b < c.coef.size(); b += 64) c.coef[b] = (int16_t)std::max(lo, std::min(hi, (int)c.coef[b]));
}

}  // namespace

size_t Jpeg::TotalBlocks() const {
  size_t n = 0;
  for (auto& c : comps) n += (size_t)c.bw * c.bh;
  return n;
}

std::string Jpeg::Describe() const {
  std::string s = pbt::Fmt("%dx%d sof%02x %zuc[", width, height, sof, comps.size());
  for (auto& c : comps) s += pbt::Fmt("%dx%d,", c.h, c.v);
  s += pbt::Fmt("] scans=%zu ri=%d dht=%zu dqt=%zu app=%zu com=%zu raw=%zu tail=%zu bytes=%zu", scans.size(),
                restart_interval, huffs.size(), quants.size(), app.size(), com.size(), raw.size(), tail.size(),
                bytes.size());
  return s;
}

void StdQuant(int q, bool chroma, std::array<int, 64>* out) {
  int scale = q < 50 ? 5000 / std::max(1, q) : 200 - 2 * q;
  for (int i = 0; i < 64; ++i) {
    int v = ((chroma ? kChromaQ : kLumaQ)[i] * scale + 50) / 100;
    (*out)[i] = std::max(1, std::min(255, v));
  }
}

Bytes RandomBytes(Rng& r, size_t n, int style) {
  Bytes b(n);
  static const char* words[] = {"Exif", "<x:xmpmeta ", "Adobe", " quality=", "ICC_PROFILE", "\r\n", "2019:10:1", "00"};
  switch (style) {
    case 0:
      for (auto& x : b) x = (uint8_t)r.Next();
      break;
    case 1:
      for (size_t i = 0; i < n;) {
        const char* w = words[r.Below(8)];
        for (; *w && i < n; ++w) b[i++] = (uint8_t)*w;
      }
      break;
    case 2:
      for (auto& x : b) x = 0;
      break;
    default: {
      static const uint8_t mk[] = {0xFF, 0xD8, 0xD9, 0xC0, 0xC4, 0xDA, 0x00, 0xDB, 0xE0, 0xFE, 0xFF, 0xFF};
      for (auto& x : b) x = mk[r.Below(12)];
    }
  }
  return b;
}

// Changes one byte, often the last one.
void Spoil(Bytes* p, Rng& r) {
  (*p)[r.Chance(1, 3) ? p->size() - 1 : r.Below((uint32_t)p->size())] ^= (uint8_t)(1 << r.Below(8));
}

Bytes RandomSegment(Src& s) {
  Bytes p;
  int kind = s.Weighted({6, 5, 4, 2, 2, 2, 4, 4});
  uint8_t marker = 0xFE;
  Rng r(s.Seed());
  switch (kind) {
    case 0: {  // comment
      p = RandomBytes(r, s.Size(200), s.Below(4));
      break;
    }
    case 1: {  // JFIF
      static const uint8_t base[14] = {'J', 'F', 'I', 'F', 0, 1, 1, 0, 0, 1, 0, 1, 0, 0};
      p.assign(base, base + 14);
      marker = 0xE0;
      static const int dens[] = {1, 72, 96, 100, 150, 180, 240, 300, 28, 50, 118, 0, 255, 256, 65535};
      p[6] = (uint8_t)s.Below(4);
      p[7] = (uint8_t)s.Below(5);
      int dx = dens[s.Below(15)], dy = s.Chance(1, 4) ? dens[s.Below(15)] : dx;
      p[8] = (uint8_t)(dx >> 8);
      p[9] = (uint8_t)dx;
      p[10] = (uint8_t)(dy >> 8);
      p[11] = (uint8_t)dy;
      if (s.Chance(1, 6)) {
        p[12] = 1;
        p[13] = 1;
        p.resize(17, 7);
      }
      break;
    }
    case 2: {  // random APPn
      marker = (uint8_t)(0xE0 + s.Below(16));
      p = RandomBytes(r, s.Size(300), s.Below(4));
      break;
    }
    case 3: {  // known ICC profile with a free byte
      marker = 0xE2;
      p.assign(kFrozenApp2 + 3, kFrozenApp2 + sizeof kFrozenApp2);
      p[81] = (uint8_t)s.Below(256);
      if (s.Chance(1, 4)) Spoil(&p, r);
      break;
    }
    case 4: {
      marker = 0xEC;
      p.assign(kFrozenApp12 + 3, kFrozenApp12 + sizeof kFrozenApp12);
      p[12] = (uint8_t)s.Below(256);
      if (s.Chance(1, 4)) Spoil(&p, r);
      break;
    }
    case 5: {
      marker = 0xEE;
      p.assign(kFrozenApp14 + 3, kFrozenApp14 + sizeof kFrozenApp14);
      p[7] = (uint8_t)s.Below(256);
      if (s.Chance(1, 4)) Spoil(&p, r);
      break;
    }
    case 6: {  // large
      marker = s.Bool() ? (uint8_t)(0xE0 + s.Below(16)) : 0xFE;
      p = RandomBytes(r, s.Chance(1, 12) ? 65533 : s.Size(20000), s.Below(4));
      break;
    }
    default: {  // empty
      marker = s.Bool() ? (uint8_t)(0xE0 + s.Below(16)) : 0xFE;
      break;
    }
  }
  Bytes seg;
  seg.push_back(marker);
  Put16(&seg, (int)p.size() + 2);
  seg.insert(seg.end(), p.begin(), p.end());
  return seg;
}

void FillCoefficients(Src& s, Jpeg* j, bool conforming, bool natural_only) {
  int acmax = 1023;
  if (!conforming && s.Chance(1, 3)) acmax = 2047;
  for (auto& c : j->comps) {
    int mode = natural_only ? 2 : s.Weighted({2, 3, 8, 2, 3, 2, 2, 2, 2, 1});
    Rng r(s.Seed());
    int density = (int)s.Below(64);
    size_t nb = c.coef.size() / 64;
    int run = 0;
    int walk = r.Range(-300, 300);
    // Mode "statistics": two values in turn, others rarely.
    int value[4], rare = 20 << r.Below(8), sign = (int)r.Below(3), turn = 0;
    for (int& v : value) v = std::min(acmax, (1 << r.Below(1 + r.Below(10))) + (int)r.Below(3));
    const bool gaps = r.Chance(1, 3);
    for (size_t b = 0; b < nb; ++b) {
      int16_t* p = &c.coef[b * 64];
      switch (mode) {
        case 0:  // empty
          break;
        case 1:  // DC only
          p[0] = (int16_t)(r.Range(-1024, 1023) * (int)r.Below(density + 2) / (density + 2));
          break;
        case 2: {  // natural-like
          walk += (int)(r.Gauss() * (4 + density));
          walk = std::max(-1000, std::min(1000, walk));
          p[0] = (int16_t)walk;
          double act = exp(r.Gauss() * 0.8) * (0.3 + density / 12.0);
          for (int k = 1; k < 64; ++k) {
            double sg = act * 14.0 / (k + 2);
            double g = r.Gauss() * sg;
            int v = (int)(g);
            p[kZigZag[k]] = (int16_t)std::max(-acmax, std::min(acmax, v));
          }
          break;
        }
        case 3:  // extreme noise
          p[0] = (int16_t)r.Range(-1024, 1023);
          for (int k = 1; k < 64; ++k) p[k] = (int16_t)r.Range(-acmax, acmax);
          break;
        case 4:  // sparse
          if (r.Chance(1, 2)) p[0] = (int16_t)r.Range(-1024, 1023);
          for (int n = (int)r.Below(4); n > 0; --n) {
            int m = (1 << r.Below(11)) - 1;
            p[r.Below(64)] = (int16_t)r.Range(-m, m);
          }
          break;
        case 5:  // runs of empty blocks
          if (run == 0) run = r.Range(-3, 40);
          if (run > 0) {
            --run;
          } else {
            ++run;
            p[0] = (int16_t)r.Range(-50, 50);
            p[kZigZag[r.Below(64)]] = (int16_t)r.Range(-3, 3);
          }
          break;
        case 6:  // constant pattern
          p[0] = (int16_t)(density * 16 - 512);
          p[1] = (int16_t)(density - 30);
          p[8] = (int16_t)(30 - density);
          break;
        case 7: {  // all magnitudes with sharp edges, highest frequency only
          int m = (1 << r.Below(11)) - 1;
          p[63] = (int16_t)(r.Chance(1, 2) ? m : -m);
          p[7] = (int16_t)r.Range(-m, m);
          p[56] = (int16_t)r.Range(-m, m);
          p[0] = (int16_t)(r.Chance(1, 2) ? 1023 : -1024);
          break;
        }
        case 9:
          p[0] = (int16_t)(density * 16 - 512);
          for (int k = 1; k < 64; ++k) {
            if (gaps && k > density) break;
            int v = value[r.Below(rare) ? (turn++ & 1) : 2 + r.Below(2)];
            p[kZigZag[k]] = (int16_t)(sign == 0 || (sign == 1 && r.Chance(1, 2)) ? v : -v);
          }
          break;
        default:  // row / column structured (AC prediction)
          p[0] = (int16_t)r.Range(-200, 200);
          for (int k = 1; k < 8; ++k) {
            p[k] = (int16_t)((r.Range(-density, density) * 8) / (k + 1));
            p[8 * k] = (int16_t)((r.Range(-density, density) * 8) / (k + 1));
          }
          break;
      }
    }
    static const char* names[] = {"empty", "dc-only", "natural", "noise", "sparse", "empty-runs", "constant", "peaks", "rowcol", "statistics"};
    j->labels.push_back(std::string("coef:") + names[mode]);
  }
}

namespace {

void ChooseSampling(Src& s, Jpeg* j, bool quirk) {
  int n = (int)j->comps.size();
  static const int common[][2] = {{1, 1}, {2, 1}, {1, 2}, {2, 2}, {4, 1}, {1, 4}, {4, 2}, {2, 4}, {4, 4}};
  if (n == 1) {
    if (s.Chance(1, 4)) {
      j->comps[0].h = 1 + s.Below(quirk && s.Chance(1, 6) ? 15 : 4);
      j->comps[0].v = 1 + s.Below(quirk && s.Chance(1, 6) ? 15 : 4);
    }
    return;
  }
  if (s.Chance(3, 5)) {
    int k = s.Weighted({4, 3, 3, 5, 1, 1, 1, 1, 1});
    j->comps[0].h = common[k][0];
    j->comps[0].v = common[k][1];
    if (n == 4 && s.Bool()) {
      j->comps[3].h = common[k][0];
      j->comps[3].v = common[k][1];
    }
    return;
  }
  // Arbitrary integral ratios: every factor divides the maximum.
  int lim = quirk && s.Chance(1, 5) ? 15 : 4;
  int H = 1 + s.Below(lim), V = 1 + s.Below(lim);
  auto divisor = [&](int m) {
    std::vector<int> d;
    for (int i = 1; i <= m; ++i)
      if (m % i == 0) d.push_back(i);
    return d[s.Below((uint32_t)d.size())];
  };
  for (auto& c : j->comps) {
    c.h = divisor(H);
    c.v = divisor(V);
  }
  int a = s.Below(n), b = s.Below(n);
  j->comps[a].h = H;
  j->comps[b].v = V;
}

// Tables of the format that are no scaled standard tables (frozen).
const int kOtherQ[2][64] = {
    {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
     1, 1, 1, 1, 1, 1, 1, 2, 1, 1, 1, 1, 1, 1, 2, 2,
     1, 1, 1, 1, 1, 2, 2, 3, 1, 1, 1, 1, 2, 2, 3, 3,
     1, 1, 1, 2, 2, 3, 3, 3, 1, 1, 2, 2, 3, 3, 3, 3},
    {9, 9, 9, 12, 11, 12, 24, 13, 13, 24, 50, 33, 28, 33, 50, 50,
     50, 50, 50, 50, 50, 50, 50, 50, 50, 50, 50, 50, 50, 50, 50, 50,
     50, 50, 50, 50, 50, 50, 50, 50, 50, 50, 50, 50, 50, 50, 50, 50,
     50, 50, 50, 50, 50, 50, 50, 50, 50, 50, 50, 50, 50, 50, 50, 50},
};

void ChooseQuant(Src& s, Jpeg* j, bool quirk) {
  int nq = 1 + s.Weighted({5, 6, 2, 1});
  std::vector<int> idx = {0, 1, 2, 3};
  if (s.Chance(1, 5))
    for (int i = 3; i > 0; --i) std::swap(idx[i], idx[s.Below(i + 1)]);
  for (int i = 0; i < nq; ++i) {
    QTable q;
    q.index = idx[i];
    if (quirk && i > 0 && s.Chance(1, 10)) q.index = idx[i - 1];  // redefinition
    int mode = s.Weighted({6, 2, 2, 2, 2, 1, 2});
    Rng r(s.Seed());
    switch (mode) {
      case 0:
        StdQuant(1 + s.Below(100), i > 0, &q.v);
        break;
      case 1:
        q.v.fill(1 + s.Below(255));
        break;
      case 2:
        for (auto& x : q.v) x = r.Range(1, 255);
        break;
      case 3: {
        StdQuant(1 + s.Below(100), s.Bool(), &q.v);
        for (int k = 0; k < 4; ++k) q.v[r.Below(64)] = r.Range(1, 255);
        break;
      }
      case 4: {
        int a = r.Range(1, 20), b = r.Range(0, 8);
        for (int y = 0; y < 8; ++y)
          for (int x = 0; x < 8; ++x) q.v[y * 8 + x] = std::min(255, a + b * (x + y));
        break;
      }
      case 6: {  // a table of the format, or nearly
        int k = s.Below(8);
        if (k < 7) StdQuant(70 + 5 * k, i > 0, &q.v);
        else std::copy(kOtherQ[i > 0], kOtherQ[i > 0] + 64, q.v.begin());
        for (int m = s.Below(3); m > 0; --m) {
          int& v = q.v[r.Below(64)];
          v = std::max(1, std::min(255, v + (r.Chance(1, 2) ? 1 : -1) * (int)r.Below(3)));
        }
        break;
      }
      default:
        q.v.fill(1);
    }
    if (j->sof != 0xC0 && s.Chance(1, 8)) {
      q.precision = 1;
      if (s.Bool())
        for (auto& x : q.v) x = r.Range(1, s.Bool() ? 60000 : 600);
      if (quirk && s.Chance(1, 3)) {
        // Neighbours that differ as much as possible.
        int k = s.Below(63), n = s.Bool() ? 2 : 3 + s.Below(10), up = s.Below(2);
        const int near = s.Below(5);
        for (int i = k; i < std::min(64, k + n); ++i)
          q.v[kZigZag[i]] = (i + up) % 2 ? 65535 - s.Below(near + 1) : 1 + s.Below(near + 1);
      }
    }
    j->quants.push_back(q);
  }
  std::vector<int> defined;
  for (auto& q : j->quants)
    if (std::find(defined.begin(), defined.end(), q.index) == defined.end()) defined.push_back(q.index);
  for (size_t i = 0; i < j->comps.size(); ++i)
    j->comps[i].tq = defined[std::min(defined.size() - 1, (size_t)(i == 0 ? 0 : s.Chance(1, 5) ? s.Below((uint32_t)defined.size()) : 1))];
}

int TableId(Src& s, int comp, int maxid) {
  if (s.Chance(1, 6)) return s.Below(maxid + 1);
  return comp == 0 ? 0 : std::min(1, maxid);
}

void BaselineScript(Src& s, Jpeg* j, bool quirk) {
  int n = (int)j->comps.size();
  int maxid = j->sof == 0xC0 && !quirk ? 1 : 3;
  std::vector<std::vector<int>> groups;
  int units = 0;
  for (auto& c : j->comps) units += c.h * c.v;
  bool force_split = !quirk && units > 10;
  if (n == 1) {
    groups = {{0}};
  } else if (!force_split && s.Chance(3, 4)) {
    groups.resize(1);
    for (int i = 0; i < n; ++i) groups[0].push_back(i);
  } else {
    for (int i = 0; i < n; ++i) {
      if (!groups.empty() && !force_split && s.Chance(1, 3)) groups.back().push_back(i);
      else groups.push_back({i});
    }
  }
  if (quirk && s.Chance(1, 8)) {
    std::swap(groups[0], groups[s.Below((uint32_t)groups.size())]);
    if (groups.size() > 1 && s.Chance(1, 4)) groups.pop_back();
  }
  if (quirk && s.Chance(1, 12))
    for (auto& g : groups) std::reverse(g.begin(), g.end());
  for (auto& g : groups) {
    Scan sc;
    for (int c : g) sc.comps.push_back({c, TableId(s, c, maxid), TableId(s, c, maxid)});
    if (quirk && s.Chance(1, 20)) {
      sc.Se = s.Below(64);
      sc.Ss = s.Below(sc.Se + 1);
      sc.Ah = s.Below(16);
      sc.Al = s.Below(16);
    }
    j->scans.push_back(sc);
  }
}

void ProgressiveScript(Src& s, Jpeg* j, bool quirk, bool late_level) {
  int n = (int)j->comps.size();
  int units = 0;
  for (auto& c : j->comps) units += c.h * c.v;
  bool split = n > 1 && ((!quirk && units > 10) || s.Chance(1, 5));
  int dc_al = s.Weighted({4, 4, 1, 1});
  if (quirk && s.Chance(1, 10)) dc_al = s.Below(11);
  std::vector<int> tids;
  for (int i = 0; i < n; ++i) tids.push_back(TableId(s, i, 3));
  auto dc_scans = [&](int ah, int al) {
    if (split) {
      for (int i = 0; i < n; ++i) {
        Scan sc;
        sc.Ss = sc.Se = 0;
        sc.Ah = ah;
        sc.Al = al;
        sc.comps.push_back({i, tids[i], ah ? 0 : 0});
        j->scans.push_back(sc);
      }
    } else {
      Scan sc;
      sc.Ss = sc.Se = 0;
      sc.Ah = ah;
      sc.Al = al;
      for (int i = 0; i < n; ++i) sc.comps.push_back({i, tids[i], 0});
      j->scans.push_back(sc);
    }
  };
  dc_scans(0, dc_al);
  std::vector<Scan> ac;
  // Per component: bands with successive approximation; then an interleaving
  // that keeps the order within each component band.
  std::vector<std::vector<Scan>> queues;
  for (int i = 0; i < n; ++i) {
    if (quirk && s.Chance(1, 12)) continue;  // never send AC of this component
    std::vector<int> cuts = {1};
    int nb = s.Weighted({4, 4, 2, 1});
    for (int b = 0; b < nb; ++b) cuts.push_back(1 + s.Below(63));
    std::sort(cuts.begin(), cuts.end());
    cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    for (size_t b = 0; b < cuts.size(); ++b) {
      int lo = cuts[b], hi = b + 1 < cuts.size() ? cuts[b + 1] - 1 : 63;
      int al = s.Weighted({5, 4, 2, 1});
      if (quirk && s.Chance(1, 16)) al = s.Below(10);
      if (late_level) al = 2 + s.Below(4);
      int ta = TableId(s, i, 3);
      std::vector<Scan> q;
      Scan sc;
      sc.comps.push_back({i, 0, ta});
      sc.Ss = lo;
      sc.Se = hi;
      sc.Ah = 0;
      sc.Al = al;
      q.push_back(sc);
      int stop = 0;
      if (quirk && s.Chance(1, 10)) stop = s.Below(al + 1);
      for (int a = al; a > stop; --a) {
        sc.Ah = a;
        sc.Al = a - 1;
        sc.comps[0].ta = s.Chance(1, 4) ? TableId(s, i, 3) : ta;
        q.push_back(sc);
      }
      if (quirk && s.Chance(1, 16)) {
        // Skip a refinement level.
        if (q.size() > 2) q.erase(q.begin() + 1 + s.Below((uint32_t)q.size() - 1));
      }
      if (late_level && q.size() > 2) {
        // A refinement that follows a finer one.
        size_t from = 1 + s.Below((uint32_t)q.size() - 2);
        Scan moved = q[from];
        q.erase(q.begin() + from);
        q.insert(q.begin() + from + 1 + s.Below((uint32_t)(q.size() - from)), moved);
        // Skip other levels, even all between the two.
        for (size_t i = q.size() - 1; i > 0 && q.size() > 3; --i)
          if (q[i].Al != moved.Al && q[i].Al > 0 && s.Chance(1, 2)) q.erase(q.begin() + i);
        bool late = false;
        for (size_t i = 1; i < q.size(); ++i) late |= q[i].Al > q[i - 1].Al;
        if (!late) {
          queues.push_back(q);
          continue;
        }
        if (!j->late_level) j->labels.push_back("late-level");
        j->late_level = true;
      }
      queues.push_back(q);
    }
  }
  int dc_left = dc_al;
  std::vector<size_t> pos(queues.size(), 0);
  while (true) {
    std::vector<size_t> avail;
    for (size_t i = 0; i < queues.size(); ++i)
      if (pos[i] < queues[i].size()) avail.push_back(i);
    size_t total = avail.size() + (dc_left > 0 ? 1 : 0);
    if (total == 0) break;
    size_t k = s.Below((uint32_t)total);
    if (k == avail.size()) {
      if (quirk && s.Chance(1, 12)) {
        dc_left = 0;
        continue;
      }
      dc_scans(dc_left, dc_left - 1);
      --dc_left;
    } else {
      j->scans.push_back(queues[avail[k]][pos[avail[k]]++]);
    }
  }
  if (quirk && n > 1 && s.Chance(1, 25)) {
    // A single scan carrying everything, interleaved, sequential-like.
    j->scans.clear();
    Scan sc;
    sc.Ss = 0;
    sc.Se = 63;
    sc.Al = s.Below(3);
    for (int i = 0; i < n; ++i) sc.comps.push_back({i, tids[i], tids[i]});
    j->scans.push_back(sc);
  } else if (quirk && n > 1 && s.Chance(1, 25)) {
    // Interleaved AC scan.
    j->scans.clear();
    dc_scans(0, 0);
    Scan sc;
    sc.Ss = 1;
    sc.Se = 63;
    sc.Al = s.Below(2);
    for (int i = 0; i < n; ++i) sc.comps.push_back({i, 0, tids[i]});
    j->scans.push_back(sc);
    if (sc.Al) {
      sc.Ah = 1;
      sc.Al = 0;
      j->scans.push_back(sc);
    }
  }
}

struct Emit {
  Jpeg* j;
  Bytes& o;
  explicit Emit(Jpeg* jj) : j(jj), o(jj->bytes) {}
  void Marker(int m) {
    j->segment_pos.push_back(o.size());
    o.push_back(0xFF);
    o.push_back((uint8_t)m);
    j->markers.push_back((uint8_t)m);
  }
  void Raw(const Bytes& b) {
    if (b.empty()) return;
    j->markers.push_back(0xFF);
    j->raw.push_back(b);
    o.insert(o.end(), b.begin(), b.end());
  }
  void Segment(const Bytes& seg) {  // marker byte + length + payload
    j->segment_pos.push_back(o.size());
    o.push_back(0xFF);
    o.insert(o.end(), seg.begin(), seg.end());
    j->markers.push_back(seg[0]);
    (seg[0] == 0xFE ? j->com : j->app).push_back(seg);
  }
};

}  // namespace

// Writes the file for the model: tables, scans, metadata.
static void Write(Jpeg* j, Src& s, bool quirk, bool metadata, int huff_mode, int qual_seed) {
  (void)qual_seed;
  Emit e(j);
  Rng bulk(s.Seed());
  bool prog = j->sof == 0xC2;
  int pad_mode = quirk ? s.Weighted({8, 2, 2}) : s.Weighted({20, 1, 0});
  EncQuirk q;
  if (quirk && s.Chance(1, 3)) q.extra_zrl = 1 + s.Below(40);
  if (s.Chance(1, 3)) q.eob_split = 1 + s.Below(40);
  if (s.Chance(1, 2)) q.corr_limit = 4000000;
  if (!quirk) q.extra_zrl = 0;

  // Where does DRI go?  -1: absent, 0: before first scan, k: before scan k.
  int dri_at = -1;
  if (s.Chance(1, 3)) {
    dri_at = 0;
    if (quirk && j->scans.size() > 1 && s.Chance(1, 4)) dri_at = s.Below((uint32_t)j->scans.size());
    int mcus = j->mcu_cols * j->mcu_rows;
    switch (s.Below(5)) {
      case 0: j->restart_interval = 1 + s.Below(8); break;
      case 1: j->restart_interval = std::min(65535, j->mcu_cols); break;
      case 2: j->restart_interval = 1 + s.Below(std::min(65535, mcus + 2)); break;
      case 3: j->restart_interval = 65535; break;
      default: j->restart_interval = s.Bool() ? 0 : std::max(1, std::min(65535, mcus)); break;
    }
    // Bound the number of restart markers.
    if (j->restart_interval > 0 && mcus / j->restart_interval > 3000) j->restart_interval = mcus / 3000 + 1;
  }

  std::vector<Stream> streams;
  for (size_t i = 0; i < j->scans.size(); ++i)
    streams.push_back(EncodeScan(*j, j->scans[i], dri_at >= 0 && (int)i >= dri_at, q, bulk));

  // Frequencies, per scan or global.
  typedef std::array<std::vector<uint64_t>, 8> Freqs;
  auto empty = []() {
    Freqs f;
    for (auto& v : f) v.assign(256, 0);
    return f;
  };
  std::vector<Freqs> per(j->scans.size(), empty());
  Freqs all = empty();
  std::vector<std::array<bool, 8>> refs(j->scans.size());
  std::array<bool, 8> refs_all{};
  for (size_t i = 0; i < streams.size(); ++i) {
    refs[i].fill(false);
    for (auto& y : streams[i])
      if (y.tbl < 8) {
        per[i][y.tbl][y.sym]++;
        all[y.tbl][y.sym]++;
      }
    const Scan& sc = j->scans[i];
    for (auto& c : sc.comps) {
      // Tables that the file must define for this scan.
      int Ss = prog ? sc.Ss : 0, Se = prog ? sc.Se : 63;
      // In sequential files Ss/Se are ignored by decoders, but tables are
      // looked up by the written values too.
      if (sc.Ss == 0 || Ss == 0) refs[i][c.td] = true;
      if (sc.Se > 0 || Se > 0) refs[i][4 + c.ta] = true;
    }
    for (int t = 0; t < 8; ++t) refs_all[t] = refs_all[t] || refs[i][t];
  }
  const int near = s.Chance(1, 6) ? 1 + s.Below(3) : 0;  // tables that differ little from the standard ones
  auto make = [&](int t, const std::vector<uint64_t>& f) {
    HTable h;
    int mode = huff_mode;
    if (mode == 0) {  // standard if possible
      h = StdTable(t >= 4, (t & 3) != 0);
      if (near && bulk.Chance(2, 3)) {
        HTable std = h;
        uint32_t n = (uint32_t)h.vals.size();
        uint32_t a = bulk.Below(n), b = bulk.Below(n);
        if (near == 1) std::swap(h.vals[a], h.vals[b]);
        if (near == 2) {  // another symbol
          int v = (int)bulk.Below(t >= 4 ? 256 : 12);
          if (std::find(h.vals.begin(), h.vals.end(), v) == h.vals.end()) h.vals[a] = v;
          else h.vals.pop_back(), --h.counts[16 - (t >= 4 ? 0 : (t & 3) ? 5 : 7)];
        }
        if (near == 3) {  // other lengths
          for (int len = 15; len > 1; --len)
            if (h.counts[len] > 1 && bulk.Chance(1, 3)) {
              --h.counts[len], ++h.counts[len + 1];
              break;
            }
        }
        if (!Covers(h, f)) h = std;
      }
      if (!Covers(h, f)) mode = 1;
    }
    if (mode == 1 || mode == 2) h = OptimalTable(f);
    if (mode == 3) h = RandomTable(f, t >= 4, bulk);
    h.cls = t >= 4;
    h.id = t & 3;
    return h;
  };
  bool global = huff_mode == 0 || huff_mode == 2 || (huff_mode == 3 && s.Bool());
  std::vector<std::vector<HTable>> before(j->scans.size());
  std::array<bool, 8> defined{};
  std::vector<std::array<HTable, 8>> active(j->scans.size());
  if (global) {
    for (int t = 0; t < 8; ++t)
      if (refs_all[t]) before[0].push_back(make(t, all[t]));
    if (quirk && s.Chance(1, 10)) {  // unused table
      std::vector<uint64_t> f(256, 0);
      f[0] = 1;
      f[1] = 3;
      int t = s.Below(8);
      if (!refs_all[t]) before[0].push_back(make(t, f));
    }
  } else {
    for (size_t i = 0; i < j->scans.size(); ++i)
      for (int t = 0; t < 8; ++t)
        if (refs[i][t]) {
          bool need = false;
          for (auto x : per[i][t]) need |= x != 0;
          if (need || !defined[t]) before[i].push_back(make(t, per[i][t]));
          defined[t] = true;
        }
  }
  if (s.Chance(1, 5)) {
    for (auto& b : before)
      if (b.size() > 1) std::swap(b[0], b[b.size() - 1]);
  }
  if (j->near_limit == kManyTables) {
    size_t have = 0;
    for (auto& b : before) have += b.size();
    size_t want = 506 + s.Below(10);
    std::vector<HTable> extra;
    std::vector<uint64_t> f(256, 0);
    for (f[0] = f[1] = 1; have + extra.size() < want;) {
      int t = bulk.Below(8);
      HTable h = RandomTable(f, t >= 4, bulk);
      h.cls = t >= 4;
      h.id = t & 3;
      extra.push_back(h);
    }
    before[0].insert(before[0].begin(), extra.begin(), extra.end());
    if (want >= 512) j->conforming = false;  // more than the codec supports
  }
  // Emission.
  e.o.push_back(0xFF);
  e.o.push_back(0xD8);
  const bool counted = j->near_limit == kManyShort || j->near_limit == kManyApp || j->near_limit == kManyCom;
  auto misc = [&](int chance_den) {
    if (!metadata || counted) return;
    while (s.Chance(1, chance_den)) e.Segment(RandomSegment(s));
    if (quirk && s.Chance(1, 40)) {
      Bytes b;
      int kind = s.Below(4);
      if (kind == 0) b.assign(1 + s.Below(4), 0xFF);       // fill bytes
      else if (kind == 1) b.assign(1 + s.Below(300), 0x00);
      else if (kind == 2) {
        b = RandomBytes(bulk, 1 + s.Size(400), 0);
        for (auto& x : b)
          if (x == 0xFF) x = 0x7F;
      } else {
        b = {0xFF, 0x00, 0xFF, 0xD8, 0x12};
      }
      e.Raw(b);
      // Two raw blocks in a row would merge; a marker must follow.
      if (kind == 0 || !b.empty()) e.Segment(RandomSegment(s));
    }
    if (quirk && s.Chance(1, 60)) e.Marker(0xD0 + s.Below(8));
  };
  if (metadata && s.Chance(1, 2)) {
    static const uint8_t jfif[17] = {0xE0, 0, 16, 'J', 'F', 'I', 'F', 0, 1, 1, 0, 0, 1, 0, 1, 0, 0};
    Bytes b(jfif, jfif + 17);
    e.Segment(b);
  }
  if (j->near_limit == kManyShort || j->near_limit == kManyApp || j->near_limit == kManyCom) {
    const bool many_short = j->near_limit == kManyShort, com = j->near_limit == kManyCom;
    const int limit = many_short ? 832 : 1024;
    const int others = (int)j->app.size();
    const int n = limit - 4 + s.Below(7) - (many_short ? others : 0);
    const bool icc = s.Chance(1, 4);
    for (int i = 0; i < n; ++i) {
      Bytes b = {0xFE, 0, 2};
      if (many_short && icc && bulk.Chance(1, 2)) {
        b.assign(kFrozenApp12, kFrozenApp12 + sizeof kFrozenApp12);
        b[15] = (uint8_t)bulk.Below(256);
      } else if (many_short) {
        static const uint8_t jfif[17] = {0xE0, 0, 16, 'J', 'F', 'I', 'F', 0, 1, 1, 0, 0, 1, 0, 1, 0, 0};
        b.assign(jfif, jfif + 17);
        b[9] = (uint8_t)(1 + bulk.Below(2));
        b[10] = (uint8_t)bulk.Below(2);
      } else {
        if (!com) b[0] = (uint8_t)(0xE0 + bulk.Below(16));
        for (uint32_t k = bulk.Below(3); k > 0; --k) b.push_back((uint8_t)bulk.Below(256)), ++b[2];
      }
      e.Segment(b);
    }
    if (n + (many_short ? others : 0) > limit) j->conforming = false;
  }
  misc(3);
  // DQT grouping.
  std::vector<size_t> qgroups;
  for (size_t i = 0; i < j->quants.size(); ++i) {
    j->quants[i].is_last = (i + 1 == j->quants.size()) || !s.Bool();
  }
  bool sof_first = s.Chance(1, 6);
  auto write_dqt = [&]() {
    for (size_t i = 0; i < j->quants.size();) {
      size_t k = i;
      while (!j->quants[k].is_last) ++k;
      e.Marker(0xDB);
      int len = 2;
      for (size_t t = i; t <= k; ++t) len += 1 + 64 * (1 + j->quants[t].precision);
      Put16(&e.o, len);
      for (size_t t = i; t <= k; ++t) {
        const QTable& qt = j->quants[t];
        e.o.push_back((uint8_t)(qt.precision << 4 | qt.index));
        for (int z = 0; z < 64; ++z) {
          int v = qt.v[kZigZag[z]];
          if (qt.precision) e.o.push_back((uint8_t)(v >> 8));
          e.o.push_back((uint8_t)v);
        }
      }
      i = k + 1;
      misc(12);
    }
  };
  auto write_sof = [&]() {
    j->sof_pos = e.o.size();
    e.Marker(j->sof);
    Put16(&e.o, 8 + 3 * (int)j->comps.size());
    e.o.push_back(8);
    Put16(&e.o, j->height);
    Put16(&e.o, j->width);
    e.o.push_back((uint8_t)j->comps.size());
    for (auto& c : j->comps) {
      e.o.push_back((uint8_t)c.id);
      e.o.push_back((uint8_t)(c.h << 4 | c.v));
      e.o.push_back((uint8_t)c.tq);
    }
    misc(12);
  };
  if (sof_first) write_sof();
  write_dqt();
  if (!sof_first) write_sof();
  std::array<CodeBook, 8> books;
  for (size_t i = 0; i < j->scans.size(); ++i) {
    auto& tabs = before[i];
    bool dri_now = dri_at == (int)i;
    bool dri_first = s.Bool();
    auto write_dri = [&]() {
      e.Marker(0xDD);
      Put16(&e.o, 4);
      Put16(&e.o, j->restart_interval);
    };
    if (dri_now && dri_first) write_dri();
    size_t t = 0;
    while (t < tabs.size()) {
      size_t k = t;
      while (k + 1 < tabs.size() && s.Bool()) ++k;
      e.Marker(0xC4);
      int len = 2;
      for (size_t a = t; a <= k; ++a) len += 17 + (int)tabs[a].vals.size();
      Put16(&e.o, len);
      for (size_t a = t; a <= k; ++a) {
        HTable& h = tabs[a];
        h.is_last = a == k;
        e.o.push_back((uint8_t)(h.cls << 4 | h.id));
        for (int l = 1; l <= 16; ++l) e.o.push_back((uint8_t)h.counts[l]);
        for (int v : h.vals) e.o.push_back((uint8_t)v);
        books[h.cls * 4 + h.id] = Build(h);
        j->huffs.push_back(h);
      }
      t = k + 1;
      misc(20);
    }
    if (dri_now && !dri_first) write_dri();
    misc(20);
    const Scan& sc = j->scans[i];
    if (i == 0) j->first_sos_pos = e.o.size();
    e.Marker(0xDA);
    Put16(&e.o, 6 + 2 * (int)sc.comps.size());
    e.o.push_back((uint8_t)sc.comps.size());
    for (auto& c : sc.comps) {
      e.o.push_back((uint8_t)j->comps[c.comp].id);
      e.o.push_back((uint8_t)(c.td << 4 | c.ta));
    }
    e.o.push_back((uint8_t)sc.Ss);
    e.o.push_back((uint8_t)sc.Se);
    e.o.push_back((uint8_t)(sc.Ah << 4 | sc.Al));
    BitOut bo{&e.o};
    int rst = 0;
    for (auto& y : streams[i]) {
      if (y.tbl == 254) {
        bo.Pad(pad_mode, bulk);
        e.o.push_back(0xFF);
        e.o.push_back((uint8_t)(0xD0 + rst));
        rst = (rst + 1) & 7;
        continue;
      }
      if (y.tbl < 8) bo.Put(books[y.tbl].len[y.sym], books[y.tbl].code[y.sym]);
      bo.Put(y.nbits, y.bits);
    }
    bo.Pad(pad_mode, bulk);
    if (i + 1 < j->scans.size()) misc(15);
  }
  misc(20);
  if (quirk && s.Chance(1, 20)) e.Raw(Bytes(1 + s.Below(3), 0xFF));
  j->eoi_pos = e.o.size();
  e.Marker(0xD9);
  if (j->near_limit == kLongTail || (metadata && s.Chance(1, 6))) {
    j->tail = RandomBytes(bulk, 1 + s.Size(500), s.Below(4));
    if (j->near_limit == kLongTail) {
      static const size_t around[] = {65533, 65536, 100000, 262144};
      j->tail = RandomBytes(bulk, around[s.Below(4)] - 3 + s.Below(7), s.Below(4));
    }
    e.o.insert(e.o.end(), j->tail.begin(), j->tail.end());
  }
  if (pad_mode) j->labels.push_back("padding:nonstandard");
  if (dri_at >= 0) j->labels.push_back("dri");
  if (q.extra_zrl) j->labels.push_back("extra-zrl");
  if (q.eob_split) j->labels.push_back("eob-split");
  if (!j->raw.empty()) j->labels.push_back("raw-between-markers");
  if (!j->tail.empty()) j->labels.push_back("tail");
  if (!j->app.empty() || !j->com.empty()) j->labels.push_back("metadata");
}

Jpeg Generate(Src& s, const Options& o) {
  Jpeg j;
  bool quirk = o.quirks && s.Chance(2, 3);
  j.conforming = !quirk;
  // Rarely: an image with more blocks than the longest EOB run has.
  bool huge = o.huge_one_in && s.Chance(1, o.huge_one_in);
  int kind = s.Weighted({5, 1, 5});
  if (huge && s.Chance(2, 3)) kind = 2;
  if (o.late_level) kind = 2;
  j.sof = kind == 0 ? 0xC0 : kind == 1 ? 0xC1 : 0xC2;
  static const int ncs[] = {1, 3, 4, 2};
  int nc = ncs[s.Weighted({4, 6, 1, 1})];
  if (huge && s.Chance(3, 4)) nc = 1;
  j.comps.resize(nc);
  int idmode = s.Weighted({6, 1, 1, 2, 1});
  Rng idr(s.Seed());
  for (int i = 0; i < nc; ++i) {
    if (idmode == 0) j.comps[i].id = i + 1;
    else if (idmode == 1) j.comps[i].id = i;
    else if (idmode == 2) j.comps[i].id = "RGBA"[i];
    else if (idmode == 4) {
      // One of the usual sets except for one component.
      const int set = (int)idr.Below(3);
      j.comps[i].id = set == 0 ? i + 1 : set == 1 ? i : "RGBA"[i];
      if (i + 1 < nc) continue;
      const int at = (int)idr.Below((uint32_t)nc);
      for (int k = 0; k < nc; ++k) {
        j.comps[k].id = set == 0 ? k + 1 : set == 1 ? k : "RGBA"[k];
      }
      j.comps[at].id = (j.comps[at].id + 64 + (int)idr.Below(50)) & 255;
      for (int k = 0; k < nc; ++k)
        if (k != at && j.comps[k].id == j.comps[at].id) j.comps[at].id = 200;
    } else {
      bool dup;
      do {
        j.comps[i].id = idr.Below(256);
        dup = false;
        for (int k = 0; k < i; ++k) dup |= j.comps[k].id == j.comps[i].id;
      } while (dup);
    }
  }
  ChooseSampling(s, &j, quirk);
  // Dimensions within the block budget.
  uint32_t budget = o.max_blocks;
  if (o.allow_large && s.Chance(1, 24)) budget = 6000;
  int hm = 1, vm = 1, units = 0;
  for (auto& c : j.comps) {
    hm = std::max(hm, c.h);
    vm = std::max(vm, c.v);
    units += c.h * c.v;
  }
  uint32_t mcus = std::max(1u, budget / units);
  int shape = s.Weighted({6, 1, 1});
  uint32_t mw, mh;
  if (huge) {
    mcus = std::max(1u, (33000 + s.Below(36000)) / units);
    mw = 60 + s.Below(300);
    mh = std::max(1u, mcus / mw);
  } else if (o.full) {
    mw = 1 + s.Below(std::min(mcus, 60u));
    mh = std::max(1u, mcus / mw);
  } else if (shape == 0) {
    uint32_t side = 1;
    while ((side + 1) * (side + 1) <= mcus) ++side;
    mw = 1 + s.Size(std::max(1u, side * 2) - 1);
    mh = 1 + s.Size(std::max(1u, mcus / mw) - 1);
  } else {
    mw = 1 + s.Size(mcus - 1);
    mh = 1;
    if (shape == 2) std::swap(mw, mh);
  }
  mw *= o.wider;
  mh *= o.higher;
  int fx = s.Below(8 * hm), fy = s.Below(8 * vm);
  if (o.full) fx = fy = 0;
  j.width = std::min(65535, std::max(1, (int)mw * 8 * hm - fx));
  j.height = std::min(65535, std::max(1, (int)mh * 8 * vm - fy));
  if (o.limits_one_in && !huge && s.Chance(1, o.limits_one_in)) {
    static const char* names[] = {"", "tables", "short markers", "APP markers", "comments", "tail", "width", "height"};
    j.near_limit = 1 + s.Below(7);
    j.labels.push_back(std::string("near a limit: ") + names[j.near_limit]);
    if (j.near_limit == kWide) j.width = 65535 - (s.Bool() ? 0 : s.Below(9)), j.height = 1 + s.Below(16);
    if (j.near_limit == kHigh) j.height = 65535 - (s.Bool() ? 0 : s.Below(9)), j.width = 1 + s.Below(16);
  }
  SetGeometry(&j);
  ChooseQuant(s, &j, quirk);
  if (j.sof == 0xC2) ProgressiveScript(s, &j, quirk, o.late_level);
  else BaselineScript(s, &j, quirk);
  if (huge) {
    j.labels.push_back("huge");
    Rng r(s.Seed());
    for (auto& c : j.comps) {
      // A few non-empty blocks far apart.
      uint32_t gap = s.Chance(1, 3) ? 40000 : 1 + s.Size(60000);
      int rows = s.Below(3);
      size_t nb = c.coef.size() / 64;
      for (size_t b = r.Below(gap); b < nb; b += 1 + r.Below(gap)) {
        int16_t* p = &c.coef[b * 64];
        p[0] = (int16_t)r.Range(-1023, 1023);
        for (int n = (int)r.Below(6); n > 0; --n) p[r.Below(64)] = (int16_t)r.Range(-40, 40);
        // Many refinement bits in one EOB run.
        if (rows && r.Chance(rows, 6))
          for (int k = 1; k < 64; ++k) p[k] = (int16_t)r.Range(-7, 7);
      }
      if (rows == 2)
        for (size_t b = 0; b < nb; ++b) c.coef[b * 64] = (int16_t)((int)(b * 7 % 300) - 150);
    }
  } else {
    FillCoefficients(s, &j, !quirk, o.natural_only);
  }
  if (quirk && s.Chance(1, 4)) {
    // DC values outside the 8-bit range, still representable.
    Rng r(s.Seed());
    for (auto& c : j.comps)
      for (size_t b = 0; b < c.coef.size(); b += 64)
        if (r.Chance(1, 3)) c.coef[b] = (int16_t)(c.coef[b] + r.Range(-600, 600));
    DcRange(&j, -1023, 1023);
  } else {
    DcRange(&j, -1024, 1023);
  }
  MaskByScript(&j);
  int huff_mode = s.Weighted({4, 5, 3, 4});
  Write(&j, s, quirk, o.metadata, huff_mode, 0);
  j.labels.push_back(j.sof == 0xC2 ? "progressive" : j.sof == 0xC1 ? "extended" : "baseline");
  j.labels.push_back(pbt::Fmt("components:%d", nc));
  j.labels.push_back(quirk ? "quirky" : "conforming");
  static const char* hn[] = {"huff:standard", "huff:optimized", "huff:global", "huff:random"};
  j.labels.push_back(hn[huff_mode]);
  if (j.scans.size() > 1) j.labels.push_back("multi-scan");
  if (hm * vm > 1) j.labels.push_back("subsampled");
  for (auto& c : j.comps)
    if ((size_t)c.bw * c.bh >= 1024) {
      j.labels.push_back("component>=1024 blocks");
      break;
    }
  return j;
}

Jpeg Photo(const PhotoParams& p) {
  Jpeg j;
  j.sof = p.progressive ? 0xC2 : 0xC0;
  j.width = p.width;
  j.height = p.height;
  int nc = p.sampling == 3 ? 1 : 3;
  j.comps.resize(nc);
  for (int i = 0; i < nc; ++i) {
    j.comps[i].id = i + 1;
    j.comps[i].tq = i > 0;
  }
  if (p.sampling == 1) j.comps[0].h = 2;
  if (p.sampling == 2) j.comps[0].h = j.comps[0].v = 2;
  SetGeometry(&j);
  for (int i = 0; i < (nc > 1 ? 2 : 1); ++i) {
    QTable q;
    q.index = i;
    StdQuant(p.quality, i > 0, &q.v);
    q.is_last = i == (nc > 1 ? 1 : 0);
    j.quants.push_back(q);
  }
  Rng r(p.seed);
  static double cosv[8][8];
  static bool init = false;
  if (!init) {
    for (int u = 0; u < 8; ++u)
      for (int x = 0; x < 8; ++x) cosv[u][x] = (u ? 0.5 : sqrt(0.125)) * cos((2 * x + 1) * u * M_PI / 16);
    init = true;
  }
  // Multi-octave value noise plus soft-edged shapes.
  for (int ci = 0; ci < nc; ++ci) {
    Comp& c = j.comps[ci];
    int W = c.bw * 8, H = c.bh * 8;
    std::vector<float> img((size_t)W * H, ci ? 0.f : 0.f);
    double amp = ci ? 22 : 55;
    for (int oct = 64; oct >= 2; oct /= 2) {
      int gw = W / oct + 2, gh = H / oct + 2;
      std::vector<float> g((size_t)gw * gh);
      for (auto& x : g) x = (float)(r.Gauss() * amp);
      for (int y = 0; y < H; ++y) {
        float fy = (float)y / oct;
        int iy = (int)fy;
        fy -= iy;
        fy = fy * fy * (3 - 2 * fy);
        for (int x = 0; x < W; ++x) {
          float fx = (float)x / oct;
          int ix = (int)fx;
          fx -= ix;
          fx = fx * fx * (3 - 2 * fx);
          float a = g[iy * gw + ix] * (1 - fx) + g[iy * gw + ix + 1] * fx;
          float b = g[(iy + 1) * gw + ix] * (1 - fx) + g[(iy + 1) * gw + ix + 1] * fx;
          img[(size_t)y * W + x] += a * (1 - fy) + b * fy;
        }
      }
      amp *= ci ? 0.42 : 0.55;
    }
    for (int k = 0; k < 12; ++k) {
      double nx = r.Gauss(), ny = r.Gauss();
      double d = r.Unit() * W * nx + r.Unit() * H * ny;
      double contrast = r.Gauss() * (ci ? 8 : 35);
      double rad = 1 + r.Unit() * std::min(W, H) / 3;
      double cx = r.Unit() * W, cy = r.Unit() * H;
      bool circle = r.Chance(1, 2);
      for (int y = 0; y < H; ++y)
        for (int x = 0; x < W; ++x) {
          bool in = circle ? (x - cx) * (x - cx) + (y - cy) * (y - cy) < rad * rad : x * nx + y * ny > d;
          if (in) img[(size_t)y * W + x] += (float)contrast;
        }
    }
    const QTable& q = j.quants[c.tq];
    for (int by = 0; by < c.bh; ++by)
      for (int bx = 0; bx < c.bw; ++bx) {
        double t[8][8], f[8][8];
        for (int y = 0; y < 8; ++y)
          for (int u = 0; u < 8; ++u) {
            double a = 0;
            for (int x = 0; x < 8; ++x) {
              double v = img[(size_t)(by * 8 + y) * W + bx * 8 + x];
              v = std::max(-128.0, std::min(127.0, v));
              a += v * cosv[u][x];
            }
            t[y][u] = a;
          }
        for (int v = 0; v < 8; ++v)
          for (int u = 0; u < 8; ++u) {
            double a = 0;
            for (int y = 0; y < 8; ++y) a += t[y][u] * cosv[v][y];
            f[v][u] = a;
          }
        int16_t* o = &c.coef[((size_t)by * c.bw + bx) * 64];
        for (int k = 0; k < 64; ++k) {
          int v = (int)lround(f[k / 8][k % 8] / q.v[k]);
          o[k] = (int16_t)std::max(-1023, std::min(1023, v));
        }
      }
  }
  std::vector<uint32_t> none;
  if (p.progressive) {
    auto dc = [&](int ah, int al) {
      Scan s;
      s.Ss = s.Se = 0;
      s.Ah = ah;
      s.Al = al;
      for (int i = 0; i < nc; ++i) s.comps.push_back({i, i > 0 ? 1 : 0, 0});
      j.scans.push_back(s);
    };
    auto ac = [&](int c, int lo, int hi, int ah, int al) {
      Scan s;
      s.Ss = lo;
      s.Se = hi;
      s.Ah = ah;
      s.Al = al;
      s.comps.push_back({c, 0, c > 0 ? 1 : 0});
      j.scans.push_back(s);
    };
    dc(0, 1);
    ac(0, 1, 5, 0, 2);
    for (int c = nc - 1; c >= 1; --c) ac(c, 1, 63, 0, 1);
    ac(0, 6, 63, 0, 2);
    ac(0, 1, 63, 2, 1);
    dc(1, 0);
    for (int c = nc - 1; c >= 1; --c) ac(c, 1, 63, 1, 0);
    ac(0, 1, 63, 1, 0);
  } else {
    Scan s;
    for (int i = 0; i < nc; ++i) s.comps.push_back({i, i > 0, i > 0});
    j.scans.push_back(s);
  }
  MaskByScript(&j);
  // A Src that always answers 0 gives the plain layout.
  static std::vector<uint32_t> zeros;
  uint32_t dummy[1];
  Src z(zeros, dummy, 0);
  Write(&j, z, false, false, p.optimized || p.progressive ? 1 : 0, 0);
  return j;
}

Bytes Mutate(Src& s, const Bytes& in, int max_edits) {
  Bytes b = in;
  int n = 1 + s.Below(max_edits);
  for (int i = 0; i < n && !b.empty(); ++i) {
    size_t p = s.Below((uint32_t)b.size());
    // Half of the edits hit the first part of the file.
    if (s.Bool()) p = s.Below((uint32_t)std::min<size_t>(b.size(), 700));
    switch (s.Below(8)) {
      case 0: b[p] ^= (uint8_t)(1 << s.Below(8)); break;
      case 1: b[p] = (uint8_t)s.Below(256); break;
      case 2: {
        static const uint8_t v[] = {0, 1, 0x7F, 0x80, 0xFF, 0xFE, 0x10, 0xD9};
        b[p] = v[s.Below(8)];
        break;
      }
      case 3: {
        size_t k = 1 + s.Size((uint32_t)std::min<size_t>(b.size() - p, 64) - 1);
        b.erase(b.begin() + p, b.begin() + p + k);
        break;
      }
      case 4: {
        Rng r(s.Seed());
        Bytes ins = RandomBytes(r, 1 + s.Below(16), s.Below(4));
        b.insert(b.begin() + p, ins.begin(), ins.end());
        break;
      }
      case 5: {
        size_t k = 1 + s.Size((uint32_t)std::min<size_t>(b.size() - p, 200) - 1);
        Bytes cp(b.begin() + p, b.begin() + p + k);
        size_t d = s.Below((uint32_t)b.size() + 1);
        b.insert(b.begin() + d, cp.begin(), cp.end());
        break;
      }
      case 6: {
        if (p + 1 < b.size()) {
          int v = (b[p] << 8 | b[p + 1]) + s.Range(-3, 3);
          b[p] = (uint8_t)(v >> 8);
          b[p + 1] = (uint8_t)v;
        }
        break;
      }
      default: {
        Rng r(s.Seed());
        size_t k = std::min<size_t>(b.size() - p, 1 + s.Below(32));
        for (size_t t = 0; t < k; ++t) b[p + t] = (uint8_t)r.Next();
      }
    }
  }
  return b;
}

}  // namespace jg
