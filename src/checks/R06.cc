// R06: invalid or unsupported JPEGs are refused with an error.
#include <algorithm>

#include "biglimit.h"
#include "codec.h"

using namespace codec;

namespace {

size_t SegLen(const Bytes& b, size_t pos) { return 2 + (b[pos + 2] << 8 | b[pos + 3]); }

void Put16(Bytes* b, size_t pos, size_t v) {
  (*b)[pos] = (uint8_t)(v >> 8);
  (*b)[pos + 1] = (uint8_t)v;
}

// Segments with the given marker code.
std::vector<size_t> Find(const jg::Jpeg& j, int lo, int hi) {
  std::vector<size_t> r;
  for (size_t i = 0; i < j.markers.size(); ++i)
    if (j.markers[i] >= lo && j.markers[i] <= hi) r.push_back(j.segment_pos[i]);
  return r;
}

struct Bits {
  Bytes* o;
  uint32_t acc = 0;
  int n = 0;
  void Put(int len, uint32_t v) {
    for (int i = len - 1; i >= 0; --i) {
      acc = acc << 1 | (v >> i & 1);
      if (++n == 8) {
        o->push_back((uint8_t)acc);
        if ((acc & 255) == 255) o->push_back(0);
        acc = n = 0;
      }
    }
  }
  void Flush() {
    while (n) Put(1, 1);
  }
};

void Add(Bytes* o, std::initializer_list<int> v) {
  for (int x : v) o->push_back((uint8_t)x);
}

// One-component image of nb x 1 blocks. DC code of category s is the 4-bit
// number s, AC code of symbol s (0..254) is the 8-bit number s.
void Prologue(Bytes* o, int nb, int sof, int dri) {
  Add(o, {0xFF, 0xD8, 0xFF, 0xDB, 0, 67, 0});
  for (int i = 0; i < 64; ++i) o->push_back(16);
  Add(o, {0xFF, sof, 0, 11, 8, 0, 8, nb * 8 >> 8, nb * 8 & 255, 1, 1, 0x11, 0});
  Add(o, {0xFF, 0xC4, 0, 19 + 12, 0x00, 0, 0, 0, 12, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0});
  for (int i = 0; i < 12; ++i) o->push_back((uint8_t)i);
  Add(o, {0xFF, 0xC4, (19 + 255) >> 8, (19 + 255) & 255, 0x10, 0, 0, 0, 0, 0, 0, 0, 255, 0, 0, 0, 0, 0, 0, 0, 0});
  for (int i = 0; i < 255; ++i) o->push_back((uint8_t)i);
  if (dri) Add(o, {0xFF, 0xDD, 0, 4, 0, dri});
}
void Sos(Bytes* o, int ss, int se, int a) {
  Add(o, {0xFF, 0xDA, 0, 8, 1, 1, 0x00, ss, se, a});
}

void DcDiff(Bits* b, int v) {
  int m = v < 0 ? -v : v, s = 0;
  while (m >> s) ++s;
  b->Put(4, s);
  if (s) b->Put(s, v < 0 ? v + (1 << s) - 1 : v);
}

// A random valid baseline block.
void GoodBlock(Bits* b, Src& s, bool with_dc = true) {
  if (with_dc) DcDiff(b, s.Range(-3, 3));
  int k = 1;
  for (int n = s.Below(4); n > 0; --n) {
    int run = s.Below(6), cat = 1 + s.Below(10);
    b->Put(8, run << 4 | cat);
    b->Put(cat, s.Below(1u << cat));
    k += run + 1;
  }
  if (k < 64) b->Put(8, 0);
}

// A Huffman code that leaves room for the reserved codeword.
struct RandomCode {
  int counts[17] = {};
  std::vector<int> vals;
  std::vector<int> len, code;  // per symbol
  uint32_t end = 0;            // first 16-bit prefix that no codeword has
};

// Symbol 0 and, for an AC code, symbol 1 are among the symbols. Long codes get
// second-level lookup tables.
RandomCode DrawCode(Src& s, bool ac) {
  RandomCode r;
  std::vector<int> pool;
  for (int v = ac ? 2 : 1; v < (ac ? 256 : 12); ++v)
    if (!ac || ((v & 15) < 11 && ((v & 15) || v == 0xF0))) pool.push_back(v);
  int want = ac ? 2 : 1;
  want += s.Bool() ? s.Below(6) : s.Below((uint32_t)pool.size());
  int lo = 1 + s.Below(s.Bool() ? 2 : 9), hi = lo + s.Below(17 - lo);
  if (s.Chance(1, 3)) hi = 16;
  std::vector<int> lens;
  for (int i = 0; i < want; ++i) lens.push_back(lo + s.Below(hi - lo + 1));
  if (s.Chance(1, 3)) for (int i = 1; i < want; ++i) lens[i] = hi;  // one short code, many long ones
  std::sort(lens.begin(), lens.end());
  uint32_t used = 0;
  std::vector<int> kept;
  for (int l : lens) {
    if (used + 2 * (1u << (16 - l)) > 65536u) continue;
    used += 1u << (16 - l);
    kept.push_back(l);
  }
  while ((int)kept.size() < (ac ? 2 : 1)) {
    // Not enough room for the symbols in use.
    kept = ac ? std::vector<int>{1, 2} : std::vector<int>{1};
  }
  Rng rng(s.Seed());
  for (size_t i = pool.size(); i > 1; --i) std::swap(pool[i - 1], pool[rng.Below((uint32_t)i)]);
  std::vector<int> syms = {0};
  if (ac) syms.push_back(1);
  for (size_t i = 0; syms.size() < kept.size(); ++i) syms.push_back(pool[i]);
  for (size_t i = syms.size(); i > 1; --i) std::swap(syms[i - 1], syms[rng.Below((uint32_t)i)]);
  r.vals = syms;
  r.len.assign(256, 0);
  r.code.assign(256, 0);
  uint32_t c = 0;
  for (size_t i = 0; i < kept.size(); ++i) {
    ++r.counts[kept[i]];
    r.len[syms[i]] = kept[i];
    r.code[syms[i]] = (int)(c >> (16 - kept[i]));
    c += 1u << (16 - kept[i]);
  }
  r.end = c;
  return r;
}

void PutTable(Bytes* o, const RandomCode& r, int slot) {
  size_t n = 19 + r.vals.size();
  Add(o, {0xFF, 0xC4, (int)(n >> 8), (int)(n & 255), slot});
  for (int i = 1; i <= 16; ++i) o->push_back((uint8_t)r.counts[i]);
  for (int v : r.vals) o->push_back((uint8_t)v);
}

// A slot is defined several times; the scan uses the last code, which does not
// use all codewords. With bad, one of the unused ones occurs.
void Redefined(Src& s, bool bad, Bytes* o, int nb, int at) {
  const bool ac = s.Chance(3, 4);
  RandomCode r;
  for (int n = 1 + s.Below(4); n > 0; --n) {
    r = DrawCode(s, ac);
    PutTable(o, r, ac ? 0x10 : 0x00);
    if (s.Chance(1, 3)) PutTable(o, DrawCode(s, ac), ac ? 0x11 : 0x01);
  }
  Sos(o, 0, 63, 0);
  Bits b{o};
  auto put = [&](int sym) { b.Put(r.len[sym], (uint32_t)r.code[sym]); };
  auto unused = [&]() {
    // Often in the same second-level table as the last codeword.
    uint32_t stop = s.Bool() ? 65536u : std::min(65536u, (r.end | 255u) + 1);
    return r.end + s.Below(stop - r.end);
  };
  for (int i = 0; i < nb; ++i) {
    if (ac) {
      DcDiff(&b, s.Range(-3, 3));
      for (int k = s.Below(4); k > 0; --k) {
        put(1);
        b.Put(1, s.Below(2));
      }
      if (bad && i == at) b.Put(16, unused());
      put(0);
    } else {
      if (bad && i == at) b.Put(16, unused());
      put(0);
      b.Put(8, 0);
    }
  }
  if (bad) for (int i = 0; i < 40; ++i) b.Put(8, s.Below(255));
  b.Flush();
}

// Hand-made image with one violation in the entropy-coded data; with
// violation = -1 the image is valid.
std::string Entropy(Src& s, int v, Bytes* o) {
  int nb = 1 + s.Below(12);
  int at = s.Below(nb);
  static const char* names[] = {"undefined DC code", "AC category > 11", "run past the band",
                                "EOB run in sequential scan", "reserved all-ones code",
                                "DC out of 16-bit range", "EOB run past the scan",
                                "refinement category > 1", "EOB run across restart",
                                "missing entropy data", "missing restart marker",
                                "wrong restart marker", "undefined code after redefinition", "valid"};
  bool prog = v == 6 || v == 7 || v == 8;
  int dri = 0;
  if (v == 8 || v == 10 || v == 11) {
    nb = 4 + s.Below(12);
    dri = 1 + s.Below(nb - 2);
    at = nb;
  }
  if (v == 5) {
    nb = 18 + s.Below(5);
    at = nb;
  }
  if (v == 9) {
    nb = 6 + s.Below(20);
    at = nb;
  }
  Prologue(o, nb, prog ? 0xC2 : 0xC0, dri);
  Bits b{o};
  if (v == 12 || v == 13) {
    Redefined(s, v == 12, o, nb, at);
  } else if (!prog) {
    Sos(o, 0, 63, 0);
    int rst = 0;
    for (int i = 0; i < nb; ++i) {
      if (dri && i > 0 && i % dri == 0) {
        b.Flush();
        bool hit = i / dri == 1 + (int)((at + v) % std::max(1, (nb - 1) / dri));
        if (v == 10 && hit) {
        } else {
          Add(o, {0xFF, 0xD0 + (v == 11 && hit ? (rst + 1 + (int)s.Below(7)) % 8 : rst)});
        }
        rst = (rst + 1) & 7;
      }
      if (v == 5) {
        DcDiff(&b, 2047);
        b.Put(8, 0);
        continue;
      }
      if (i != at) {
        GoodBlock(&b, s);
        continue;
      }
      switch (v) {
        case 0:
          b.Put(4, 12 + s.Below(3));
          b.Put(8, 0);
          break;
        case 1: {
          DcDiff(&b, 0);
          int cat = 12 + s.Below(4), run = s.Below(15);
          b.Put(8, run << 4 | cat);
          b.Put(cat, s.Below(1u << cat));
          b.Put(8, 0);
          break;
        }
        case 2: {
          DcDiff(&b, 1);
          int n = 1 + s.Below(3);  // coefficients before the violation
          for (int k = 0; k < n; ++k) {
            b.Put(8, 0x01);
            b.Put(1, 1);
          }
          for (int z = 0; z < 3; ++z) b.Put(8, 0xF0);
          // Position is now n + 48; overflow with any run >= 15 - n.
          int run = 15 - n + (int)s.Below(n);
          b.Put(8, run << 4 | 1);
          b.Put(1, 0);
          break;
        }
        case 3:
          DcDiff(&b, 1);
          b.Put(8, (1 + s.Below(14)) << 4);
          b.Put(14, 0);
          break;
        case 4:
          DcDiff(&b, 1);
          b.Put(8, 255);
          b.Put(8, 0);
          break;
        default:
          GoodBlock(&b, s);
          break;
      }
    }
    b.Flush();
    if (v == 9) {
      // The scan loses at least three blocks' worth of data: no block is
      // shorter than 12 bits.
      size_t cut = 5 + s.Below(3);
      for (size_t i = 0; i < cut; ++i) o->pop_back();
      while (o->back() == 0xFF) o->pop_back();
    }
  } else {
    Sos(o, 0, 0, 0);
    int rst = 0;
    auto restart = [&](int i) {
      if (dri && i > 0 && i % dri == 0) {
        b.Flush();
        Add(o, {0xFF, 0xD0 + rst});
        rst = (rst + 1) & 7;
      }
    };
    for (int i = 0; i < nb; ++i) {
      restart(i);
      DcDiff(&b, s.Range(-3, 3));
    }
    b.Flush();
    rst = 0;
    int al = v == 7 ? 1 : 0;
    Sos(o, 1, 63, al);
    if (v == 6) {
      int before = s.Below(nb);
      for (int i = 0; i < before; ++i) GoodBlock(&b, s, false);
      int left = nb - before;  // 1..12
      int r = 0;
      while ((1 << r) <= left) ++r;  // 2^r > left
      r += s.Below(10);
      r = std::min(r, 14);
      b.Put(8, r << 4);
      b.Put(r, s.Below(1u << r));
      b.Flush();
    } else if (v == 7) {
      for (int i = 0; i < nb; ++i) GoodBlock(&b, s, false);
      b.Flush();
      // Wait: category + Al may reach 11 only, GoodBlock uses at most 10.
      Sos(o, 1, 63, 0x10);
      b.Put(8, 2 + s.Below(14));
      for (int i = 0; i < 12; ++i) b.Put(8, 0x2A);
      b.Flush();
    } else {  // 8
      int i = 0;
      while (i + 1 < dri) {
        GoodBlock(&b, s, false);
        ++i;
      }
      // One block left before the restart; the run covers at least two.
      int r = 1 + s.Below(4);
      b.Put(8, r << 4);
      b.Put(r, s.Below(1u << r));
      ++i;
      for (; i < nb; ++i) {
        restart(i);
        b.Put(8, 0);
      }
      b.Flush();
    }
  }
  Add(o, {0xFF, 0xD9});
  return v < 0 ? "valid" : names[v];
}

// Applies one violation to a conforming file. Returns its name, "" if it is
// not applicable.
std::string Inject(Src& s, const jg::Jpeg& j, Bytes* b) {
  std::vector<size_t> sofs = Find(j, 0xC0, 0xC2), dhts = Find(j, 0xC4, 0xC4), dqts = Find(j, 0xDB, 0xDB),
                      soss = Find(j, 0xDA, 0xDA), dris = Find(j, 0xDD, 0xDD);
  if (sofs.size() != 1 || soss.empty() || dhts.empty() || dqts.empty()) return "";
  size_t sof = sofs[0];
  size_t sos = soss[s.Below((uint32_t)soss.size())];
  size_t dht = dhts[s.Below((uint32_t)dhts.size())];
  size_t dqt = dqts[s.Below((uint32_t)dqts.size())];
  int nc = (int)j.comps.size();
  int pick = s.Below(nc);
  int snc = (*b)[sos + 4];
  int spick = s.Below(snc);
  auto erase = [&](size_t pos) { b->erase(b->begin() + pos, b->begin() + pos + SegLen(*b, pos)); };
  auto dup = [&](size_t pos) {
    Bytes seg(b->begin() + pos, b->begin() + pos + SegLen(*b, pos));
    b->insert(b->begin() + pos, seg.begin(), seg.end());
  };
  switch (s.Below(46)) {
    case 0:
      (*b)[s.Below(2)] ^= 1 + s.Below(255);
      return "bad start marker";
    case 1:
    case 2:
    case 3: {
      size_t cut = s.Below((uint32_t)j.eoi_pos + 2);
      b->resize(cut);
      return "truncated";
    }
    case 4:
      erase(sof);
      return "no frame header";
    case 5:
      dup(sof);
      return "duplicate frame header";
    case 6: {
      int p;
      do p = s.Below(256); while (p == 8);
      (*b)[sof + 4] = (uint8_t)p;
      return "sample precision";
    }
    case 7:
      Put16(b, sof + 5, 0);
      return "zero height";
    case 8:
      Put16(b, sof + 7, 0);
      return "zero width";
    case 9: {
      static const int bad[] = {0, 5, 6, 255};
      (*b)[sof + 9] = (uint8_t)bad[s.Below(4)];
      return "component count";
    }
    case 10:
      if (s.Bool()) (*b)[sof + 10 + 3 * pick + 1] &= 0x0F;
      else (*b)[sof + 10 + 3 * pick + 1] &= 0xF0;
      return "zero sampling factor";
    case 11:
      if (nc < 2) return "";
      (*b)[sof + 10 + 3 * pick] = (*b)[sof + 10 + 3 * ((pick + 1) % nc)];
      return "duplicate component id";
    case 12:
      (*b)[sof + 10 + 3 * pick + 2] = (uint8_t)(4 + s.Below(252));
      return "quantization table selector";
    case 13: {
      bool used[4] = {};
      for (auto& q : j.quants) used[q.index] = true;
      int k = s.Below(4);
      if (used[k]) return "";
      (*b)[sof + 10 + 3 * pick + 2] = (uint8_t)k;
      return "undefined quantization table";
    }
    case 14: {
      int l = (int)SegLen(*b, sof) - 2;
      int d = 1 + s.Below(6);
      Put16(b, sof + 2, s.Bool() ? l + d : std::max(0, l - d));
      return "frame header length";
    }
    case 15: {
      static const int t[] = {0xC3, 0xC5, 0xC6, 0xC7, 0xC8, 0xC9, 0xCA, 0xCB, 0xCD, 0xCE, 0xCF};
      (*b)[sof + 1] = (uint8_t)t[s.Below(11)];
      return "unsupported coding process";
    }
    case 16:
      if (nc < 2) return "";
      // 2:3 ratio.
      for (int i = 0; i < nc; ++i) (*b)[sof + 10 + 3 * i + 1] = 0x22;
      (*b)[sof + 10 + 3 * pick + 1] = s.Bool() ? 0x32 : 0x23;
      return "fractional subsampling";
    case 17:
      // Blocks exceed the supported maximum.
      if (s.Bool()) {
        std::string what;
        *b = big::Jpeg(s, true, &what);
        return "image a little too large";
      }
      Put16(b, sof + 5, 65535);
      Put16(b, sof + 7, 65535);
      return "image too large";
    case 18:
      (*b)[dht + 4] = (uint8_t)((*b)[dht + 4] | (0x20 << s.Below(3)));
      return "Huffman table class";
    case 19:
      (*b)[dht + 4] = (uint8_t)((*b)[dht + 4] | (4 << s.Below(2)));
      return "Huffman table id";
    case 20:
      (*b)[dht + 5] = (uint8_t)(3 + s.Below(253));
      return "oversubscribed Huffman code";
    case 21: {
      int n = 0;
      for (int l = 0; l < 16; ++l) n += (*b)[dht + 5 + l];
      if (n < 2) return "";
      int a = s.Below(n - 1);
      (*b)[dht + 21 + a + 1] = (*b)[dht + 21 + a];
      return "repeated Huffman symbol";
    }
    case 22: {
      if ((*b)[dht + 4] & 0x10) return "";
      int n = 0;
      for (int l = 0; l < 16; ++l) n += (*b)[dht + 5 + l];
      if (n < 1) return "";
      (*b)[dht + 21 + s.Below(n)] = (uint8_t)(17 + s.Below(239));
      return "DC category out of range";
    }
    case 23: {
      int l = (int)SegLen(*b, dht) - 2;
      Put16(b, dht + 2, l - 1 - s.Below(std::min(l - 2, 8)));
      return "DHT length too short";
    }
    case 24:
      b->insert(b->begin() + dht, {0xFF, 0xC4, 0, 2});
      return "empty DHT";
    case 25:
      for (size_t i = dhts.size(); i-- > 0;) erase(dhts[i]);
      return "no Huffman tables";
    case 26:
      (*b)[dqt + 4] = (uint8_t)(((*b)[dqt + 4] & 0xF0) | (4 + s.Below(12)));
      return "quantization table id";
    case 27:
      (*b)[dqt + 4] = (uint8_t)(((*b)[dqt + 4] & 0x0F) | (2 + s.Below(14)) << 4);
      return "quantization precision";
    case 28: {
      bool wide = ((*b)[dqt + 4] >> 4) != 0;
      int k = s.Below(64);
      if (wide) Put16(b, dqt + 5 + 2 * k, 0);
      else (*b)[dqt + 5 + k] = 0;
      return "zero quantizer";
    }
    case 29: {
      int l = (int)SegLen(*b, dqt) - 2;
      Put16(b, dqt + 2, l - 1 - s.Below(std::min(l - 2, 60)));
      return "DQT length too short";
    }
    case 30:
      b->insert(b->begin() + dqt, {0xFF, 0xDB, 0, 2});
      return "empty DQT";
    case 31:
      for (size_t i = dqts.size(); i-- > 0;) erase(dqts[i]);
      return "no quantization tables";
    case 32:
      if (dris.empty()) {
        b->insert(b->begin() + sof, {0xFF, 0xDD, 0, 4, 0, 0});
        dup(sof);
      } else {
        dup(dris[0]);
      }
      return "duplicate restart interval";
    case 33: {
      if (dris.empty()) return "";
      static const int bad[] = {0, 1, 2, 3, 5, 6, 255};
      Put16(b, dris[0] + 2, bad[s.Below(7)]);
      return "DRI length";
    }
    case 34: {
      static const int bad[] = {0, 5, 6, 255};
      (*b)[sos + 4] = (uint8_t)bad[s.Below(4)];
      return "scan component count";
    }
    case 35: {
      int id;
      bool known;
      Rng r(s.Seed());
      do {
        id = r.Below(256);
        known = false;
        for (auto& c : j.comps) known |= c.id == id;
      } while (known);
      (*b)[sos + 5 + 2 * spick] = (uint8_t)id;
      return "unknown scan component";
    }
    case 36:
      if (snc < 2) return "";
      (*b)[sos + 5 + 2 * spick] = (*b)[sos + 5 + 2 * ((spick + 1) % snc)];
      return "repeated scan component";
    case 37:
      (*b)[sos + 6 + 2 * spick] |= s.Bool() ? 0x40 << s.Below(2) : 4 << s.Below(2);
      return "scan table selector";
    case 38: {
      // A table that has not been defined yet (full tables are defined before).
      int used[8] = {};
      for (auto& h : j.huffs) used[h.cls * 4 + h.id] = 1;
      int ss = (*b)[sos + 5 + 2 * snc], se = (*b)[sos + 6 + 2 * snc];
      int k = s.Below(4);
      uint8_t& t = (*b)[sos + 6 + 2 * spick];
      if (ss == 0 && !used[k]) t = (uint8_t)((t & 0x0F) | k << 4);
      else if (se > 0 && !used[4 + k]) t = (uint8_t)((t & 0xF0) | k);
      else return "";
      return "undefined Huffman table";
    }
    case 39:
      (*b)[sos + 5 + 2 * snc] = (uint8_t)(64 + s.Below(192));
      return "start of band";
    case 40:
      (*b)[sos + 6 + 2 * snc] = (uint8_t)(64 + s.Below(192));
      return "end of band";
    case 41:
      if (j.sof != 0xC2) return "";
      (*b)[sos + 5 + 2 * snc] = 2 + s.Below(62);
      (*b)[sos + 6 + 2 * snc] = s.Below((*b)[sos + 5 + 2 * snc]);
      return "band reversed";
    case 42: {
      int l = (int)SegLen(*b, sos) - 2;
      int d = 1 + s.Below(4);
      Put16(b, sos + 2, s.Bool() ? l + d : std::max(0, l - d));
      return "scan header length";
    }
    case 43: {
      // Repeat the first scan (its tables are still in force if the repetition
      // follows immediately).
      size_t first = soss[0];
      size_t end = first + SegLen(*b, first);
      while (end + 1 < b->size() &&
             !((*b)[end] == 0xFF && (*b)[end + 1] != 0 && ((*b)[end + 1] & 0xF8) != 0xD0))
        ++end;
      Bytes seg(b->begin() + first, b->begin() + end);
      b->insert(b->begin() + end, seg.begin(), seg.end());
      return "overlapping scans";
    }
    case 44: {
      std::vector<size_t> a = Find(j, 0xE0, 0xEF);
      std::vector<size_t> cm = Find(j, 0xFE, 0xFE);
      a.insert(a.end(), cm.begin(), cm.end());
      if (a.empty()) return "";
      Put16(b, a[s.Below((uint32_t)a.size())] + 2, s.Below(2));
      return "metadata segment length";
    }
    default: {
      // End marker missing altogether.
      b->resize(j.eoi_pos);
      for (int n = s.Below(20); n > 0; --n) b->push_back((uint8_t)s.Below(0xBF));
      return "no end marker";
    }
  }
}

size_t CountSink(void* data, const uint8_t*, size_t n) {
  *static_cast<size_t*>(data) += n;
  return n;
}

void Prop(Src& s, Case& c) {
  Bytes b;
  std::string what;
  if (s.Chance(1, 3)) {
    int v = (int)s.Below(16) - 1;
    if (v == 14) v = 12;
    what = Entropy(s, v, &b);
    if (v < 0 || v == 13) {
      // The hand-made images are accepted when nothing is wrong with them.
      c.Label("valid hand-made image");
      c.Attach("input.jpg", b);
      brunsli::JPEGData jpg;
      c.Check(Read(b, &jpg), "valid-refused", pbt::Fmt("valid image refused, error %d", (int)jpg.error));
      return;
    }
  } else {
    jg::Options o;
    o.quirks = false;
    o.max_blocks = 80;
    o.allow_large = false;
    o.late_level = s.Chance(1, 30);
    jg::Jpeg j = jg::Generate(s, o);
    b = j.bytes;
    if (o.late_level) what = j.late_level ? "refinement after a finer one" : "";
    else what = Inject(s, j, &b);
    if (what.empty()) {
      c.Label("not applicable");
      return;
    }
  }
  c.Label("violation: " + what);
  c.Attach("input.jpg", b);
  c.Sample(pbt::Fmt("%zu bytes, ", b.size()) + what);
  c.NonTrivial();
  c.Key(pbt::Hash(b));
  brunsli::JPEGData jpg;
  bool ok = Read(b, &jpg);
  c.Check(!ok, "invalid-accepted", "accepted a JPEG with: " + what);
  c.Check(jpg.error != brunsli::JPEGReadError::OK, "no-error-recorded",
          "refused without an error reason: " + what);
  size_t produced = 0;
  Exact e(b);
  int r = EncodeBrunsli(e.n, e.p.get(), &produced, CountSink);
  c.Check(r == 0 && produced == 0, "encoder-output",
          "EncodeBrunsli produced output for a JPEG with: " + what);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "R06";
  p.rule =
      "A case is a conforming generated JPEG with one injected violation of a known class (47 "
      "classes), or a hand-made image with one violation inside the entropy-coded data (13 "
      "classes); non-trivial = the violation was applicable";
  p.quick_cases = 100000;
  p.thorough_cases = 2000000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
