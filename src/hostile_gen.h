// Generators of hostile Brunsli streams and JPEG files.
#ifndef VERIF_HOSTILE_GEN_H_
#define VERIF_HOSTILE_GEN_H_

#include <brotli/decode.h>
#include <brotli/encode.h>

#include "stream.h"

namespace hostile {

using namespace pbt;
using strm::Sect;

inline void EditBits(Src& s, Bytes* b) {
  if (b->empty()) return;
  int n = 1 + s.Below(4);
  for (int i = 0; i < n; ++i) {
    size_t p = s.Below((uint32_t)b->size());
    // The beginning of a section holds its parameters.
    if (s.Bool()) p = s.Below((uint32_t)std::min<size_t>(b->size(), 24));
    if (s.Bool()) (*b)[p] ^= (uint8_t)(1 << s.Below(8));
    else (*b)[p] = (uint8_t)s.Below(256);
  }
}

// Decompressed metadata, or false.
inline bool UnpackMeta(const Bytes& body, Bytes* raw) {
  if (body.size() < 2) return false;
  size_t p = 0;
  uint64_t n;
  if (!strm::GetVar(body, &p, &n) || n > (1 << 22)) return false;
  raw->resize(n);
  size_t len = n;
  return BrotliDecoderDecompress(body.size() - p, body.data() + p, &len, raw->data()) == BROTLI_DECODER_RESULT_SUCCESS &&
         len == n;
}
inline Bytes PackMeta(const Bytes& raw) {
  Bytes b;
  strm::PutVar(&b, raw.size());
  size_t len = BrotliEncoderMaxCompressedSize(raw.size()) + 16;
  Bytes c(len);
  BrotliEncoderCompress(1, 18, BROTLI_MODE_GENERIC, raw.size(), raw.data(), &len, c.data());
  b.insert(b.end(), c.begin(), c.begin() + len);
  return b;
}

inline Bytes RandomMeta(Src& s) {
  Rng r(s.Seed());
  Bytes m;
  int n = 1 + s.Below(6);
  for (int i = 0; i < n; ++i) {
    switch (s.Below(6)) {
      case 0: m.push_back(s.Below(256)); break;
      case 1: {
        static const uint8_t t[] = {0x80, 0x81, 0xC0, 0xC1, 0xC2, 0xBF, 0xE2, 0xE0, 0xEF, 0xFE, 0xD9, 0xDA};
        m.push_back(t[s.Below(12)]);
        break;
      }
      case 2: {
        Bytes t = jg::RandomBytes(r, s.Size(200), s.Below(4));
        m.insert(m.end(), t.begin(), t.end());
        break;
      }
      case 3: {  // consistent segment
        m.push_back(s.Bool() ? 0xE0 + s.Below(16) : 0xFE);
        uint32_t len = 2 + s.Size(s.Chance(1, 10) ? 65533 : 300);
        m.push_back(len >> 8);
        m.push_back(len);
        Bytes t = jg::RandomBytes(r, len - 2, s.Below(4));
        m.insert(m.end(), t.begin(), t.end());
        break;
      }
      case 4: {  // inconsistent segment
        m.push_back(0xE0 + s.Below(32));
        m.push_back(s.Below(256));
        m.push_back(s.Below(256));
        break;
      }
      default: {  // tail
        m.push_back(0xD9);
        Bytes t = jg::RandomBytes(r, s.Size(100), s.Below(4));
        m.insert(m.end(), t.begin(), t.end());
      }
    }
  }
  return m;
}

// A hostile stream derived from a valid one. `what` names the operator.
inline Bytes MutateStream(Src& s, const Bytes& brn, const Bytes* other, std::string* what) {
  std::vector<Sect> v, w;
  int kind = s.Weighted({2, 8, 3, 3, 2, 3, 2, 1});
  if (kind == 0 || !strm::ParseContainer(brn, &v) || v.empty()) {
    *what = "bytes";
    return jg::Mutate(s, brn, 6);
  }
  switch (kind) {
    case 1: {  // bits within a section
      *what = "section bits";
      int n = 1 + s.Below(3);
      for (int i = 0; i < n; ++i) {
        Sect& x = v[s.Below((uint32_t)v.size())];
        if (x.wire == 2) EditBits(s, &x.body);
      }
      break;
    }
    case 2: {  // section of another length
      *what = "section edits";
      Sect& x = v[s.Below((uint32_t)v.size())];
      if (x.body.empty()) x.body.push_back(0);
      x.body = jg::Mutate(s, x.body, 4);
      if (s.Chance(1, 3)) x.body.resize(s.Below((uint32_t)x.body.size() + 1));
      if ((x.tag == 7 || x.tag == 8) && (x.body.size() & 1)) x.body.push_back(s.Below(256));
      break;
    }
    case 3: {  // header fields
      *what = "header";
      std::vector<Sect> f;
      for (Sect& x : v) {
        if (x.tag != 2) continue;
        if (!strm::ParseItems(x.body, 0, x.body.size(), &f) || f.empty()) break;
        int n = 1 + s.Below(2);
        for (int i = 0; i < n; ++i) {
          Sect& y = f[s.Below((uint32_t)f.size())];
          y.wire = 0;
          switch (s.Below(4)) {
            case 0: y.value += (uint64_t)s.Range(-9, 9); break;
            case 1: y.value = s.Size(0xFFFFFFFF); break;
            case 2: y.value ^= 1ull << s.Below(20); break;
            default: y.value = s.Size(300);
          }
        }
        x.body = strm::BuildItems(f);
      }
      break;
    }
    case 4: {  // random section
      *what = "random section";
      Sect& x = v[s.Below((uint32_t)v.size())];
      Rng r(s.Seed());
      x.body = jg::RandomBytes(r, s.Size(600), s.Below(4));
      if ((x.tag == 7 || x.tag == 8) && (x.body.size() & 1)) x.body.push_back(0);
      break;
    }
    case 5: {  // decompressed metadata
      *what = "metadata";
      for (Sect& x : v) {
        if (x.tag != 3) continue;
        Bytes raw;
        if (s.Bool() && UnpackMeta(x.body, &raw) && !raw.empty()) {
          raw = jg::Mutate(s, raw, 3);
        } else {
          raw = RandomMeta(s);
        }
        x.body = PackMeta(raw);
        if (s.Chance(1, 8)) EditBits(s, &x.body);
      }
      break;
    }
    case 6:  // sections of another stream
      *what = "crossed";
      if (other && strm::ParseContainer(*other, &w)) {
        for (Sect& x : v)
          for (Sect& y : w)
            if (x.tag == y.tag && s.Bool()) x.body = y.body;
      }
      break;
    default: {  // order, presence
      *what = "structure";
      size_t a = s.Below((uint32_t)v.size()), b = s.Below((uint32_t)v.size());
      switch (s.Below(4)) {
        case 0: std::swap(v[a], v[b]); break;
        case 1: v.erase(v.begin() + a); break;
        case 2: v.insert(v.begin() + b, Sect(v[a])); break;
        default: v[a].tag = s.Below(16);
      }
    }
  }
  Bytes b = strm::Build(v);
  if (s.Chance(1, 12)) b = jg::Mutate(s, b, 2);
  if (s.Chance(1, 12) && !b.empty()) b.resize(s.Below((uint32_t)b.size()) + 1);
  return b;
}

// Overwrites parameters of marker segments with extreme values.
inline Bytes ExtremeJpeg(Src& s, const jg::Jpeg& j) {
  Bytes b = j.bytes;
  int n = 1 + s.Below(3);
  for (int i = 0; i < n && !j.segment_pos.empty(); ++i) {
    size_t p = j.segment_pos[s.Below((uint32_t)j.segment_pos.size())];
    if (s.Chance(1, 3)) p = j.sof_pos;
    p += s.Below(24);
    if (p + 1 >= b.size()) continue;
    static const uint8_t v[] = {0, 1, 2, 3, 4, 5, 15, 16, 0x11, 0x22, 0x40, 0x41, 0x44, 0x7F, 0x80, 0xFE, 0xFF};
    b[p] = s.Bool() ? v[s.Below(17)] : (uint8_t)s.Below(256);
    if (s.Chance(1, 4)) b[p + 1] = v[s.Below(17)];
  }
  return b;
}

}  // namespace hostile

#endif
