// Exercises of the parsers on arbitrary bytes, shared by the property checks
// (S01, S02), the coverage-guided fuzz targets and the MemorySanitizer runs.
#ifndef VERIF_HOSTILE_H_
#define VERIF_HOSTILE_H_

#include <brunsli/brunsli_decode.h>
#include <brunsli/brunsli_encode.h>
#include <brunsli/decode.h>
#include <brunsli/encode.h>
#include <brunsli/jpeg_data.h>
#include <brunsli/jpeg_data_reader.h>
#include <brunsli/jpeg_data_writer.h>
#include <string.h>

#include <memory>
#include <vector>

namespace hostile {

// What happened, for the statistics.
struct Facts {
  int status = -1;
  bool accepted = false, encoded = false, written = false;
  size_t out = 0;
};

struct Counter {
  size_t n = 0, limit;
  uint64_t sum = 0;
  explicit Counter(size_t l) : limit(l) {}
};
inline size_t CountHook(void* data, const uint8_t* buf, size_t count) {
  Counter* c = static_cast<Counter*>(data);
  if (c->n + count > c->limit) return 0;
  for (size_t i = 0; i < count; ++i) c->sum = c->sum * 31 + buf[i];  // reads every byte
  c->n += count;
  return count;
}

// Exactly sized heap copy.
struct Copy {
  std::unique_ptr<uint8_t[]> p;
  size_t n;
  Copy(const uint8_t* d, size_t size) : p(new uint8_t[size]), n(size) {
    if (n) memcpy(p.get(), d, n);
  }
};

// Number of 8x8 blocks the header of a Brunsli stream claims (0 if none).
inline uint64_t ClaimedBlocks(const uint8_t* d, size_t n) {
  size_t p = 6;
  auto var = [&](uint64_t* v) {
    *v = 0;
    for (int i = 0; i < 9 && p < n; ++i) {
      uint8_t x = d[p++];
      *v |= (uint64_t)(x & 127) << (7 * i);
      if (x < 128) return true;
    }
    return false;
  };
  if (n < 9 || d[p++] != 0x12) return 0;
  uint64_t len, v, w = 0, h = 0, vc = 0;
  if (!var(&len)) return 0;
  size_t end = p + len < n ? p + (size_t)len : n;
  while (p < end) {
    int m = d[p++];
    if (!var(&v)) return 0;
    if ((m & 7) == 2) p = v > n - p ? n : p + (size_t)v;
    if (m == 0x08) w = v;
    if (m == 0x10) h = v;
    if (m == 0x18) vc = v;
  }
  if (w > 65535 || h > 65535) return 0;
  // Subsampled components are padded: allow for the worst padding.
  return ((w + 127) / 8) * ((h + 127) / 8) * ((vc & 3) + 1);
}

// Number of blocks the frame header of a JPEG claims (largest of all frame
// headers, wherever they are).
inline uint64_t ClaimedJpegBlocks(const uint8_t* d, size_t n) {
  uint64_t best = 0;
  for (size_t i = 0; i + 10 < n; ++i) {
    if (d[i] != 0xFF || d[i + 1] < 0xC0 || d[i + 1] > 0xC2) continue;
    uint64_t h = d[i + 5] << 8 | d[i + 6], w = d[i + 7] << 8 | d[i + 8];
    uint64_t b = ((w + 127) / 8) * ((h + 127) / 8) * (d[i + 9] & 7);
    if (b > best) best = b;
  }
  return best;
}

inline void DecodeOneShot(const uint8_t* d, size_t n, Facts* f) {
  Copy e(d, n);
  brunsli::JPEGData jpg;
  f->status = brunsli::BrunsliDecodeJpeg(e.p.get(), n, &jpg);
  if (f->status == brunsli::BRUNSLI_OK) {
    f->accepted = true;
    Counter c(64u << 20);
    brunsli::JPEGOutput o(CountHook, &c);
    f->written = brunsli::WriteJpeg(jpg, o);
    f->out = c.n;
  }
}

inline void DecodeC(const uint8_t* d, size_t n) {
  Copy e(d, n);
  Counter c(64u << 20);
  DecodeBrunsli(n, e.p.get(), &c, CountHook);
}

// Streams the data; chunk sizes are derived from `seed`.
inline void DecodeStreaming(const uint8_t* d, size_t n, uint64_t seed, bool abandon) {
  brunsli::BrunsliDecoder dec;
  uint64_t x = seed * 0x9E3779B97F4A7C15ull + 1;
  auto rnd = [&](uint32_t m) {
    x ^= x << 13, x ^= x >> 7, x ^= x << 17;
    return (uint32_t)((x >> 33) % m);
  };
  uint32_t in_max = 1 + rnd(4) * rnd(4) * 100 + rnd(200), out_max = 1 + rnd(5) * rnd(5) * 200 + rnd(300);
  if (n > 20000) in_max += 500;
  size_t pos = 0, made = 0;
  // Small outputs make many calls: keep the number of calls in check.
  for (uint64_t call = 0; call < 2000000; ++call) {
    if (call > 3000) out_max = 65536;
    size_t offer = rnd(in_max) + 1;
    if (offer > n - pos) offer = n - pos;
    Copy in(d + pos, offer);
    size_t room = rnd(out_max) + (call & 1);
    std::unique_ptr<uint8_t[]> ob(new uint8_t[room]);
    size_t ai = offer, ao = room;
    const uint8_t* ni = in.p.get();
    uint8_t* no = ob.get();
    brunsli::BrunsliDecoder::Status st = dec.Decode(&ai, &ni, &ao, &no);
    pos += offer - ai;
    made += room - ao;
    if (made > (64u << 20)) return;
    if (st == brunsli::BrunsliDecoder::ERROR || st == brunsli::BrunsliDecoder::DONE) {
      if (pos == n || st == brunsli::BrunsliDecoder::ERROR) return;
    }
    if (st == brunsli::BrunsliDecoder::NEEDS_MORE_INPUT && pos == n) return;
    if (abandon && call > 2 && rnd(40) == 0) return;
  }
}

inline void Estimate(const uint8_t* d, size_t n) {
  Copy e(d, n);
  brunsli::BrunsliEstimateDecoderPeakMemoryUsage(e.p.get(), n);
}

// Everything that may be done with alleged Brunsli data.
inline Facts AsBrunsli(const uint8_t* d, size_t n, uint64_t seed) {
  Facts f;
  {
    Copy e(d, n);
    brunsli::IsBrunsli(e.p.get(), n);
  }
  Estimate(d, n);
  DecodeOneShot(d, n, &f);
  DecodeStreaming(d, n, seed, (seed >> 20) % 8 == 0);
  if (seed % 4 == 0) DecodeC(d, n);
  return f;
}

// Everything that may be done with an alleged JPEG.
inline Facts AsJpeg(const uint8_t* d, size_t n, uint64_t seed) {
  Facts f;
  for (int mode = 0; mode < 2; ++mode) {
    Copy e(d, n);
    brunsli::JPEGData jpg;
    brunsli::ReadJpeg(e.p.get(), n, mode ? brunsli::JPEG_READ_TABLES : brunsli::JPEG_READ_HEADER, &jpg);
  }
  {
    Copy e(d, n);
    brunsli::JPEGData jpg;
    f.accepted = brunsli::ReadJpeg(e.p.get(), n, brunsli::JPEG_READ_ALL, &jpg);
    f.status = (int)jpg.error;
    if (f.accepted) {
      size_t len = brunsli::GetMaximumBrunsliEncodedSize(jpg);
      std::unique_ptr<uint8_t[]> buf(new uint8_t[len]);
      f.encoded = brunsli::BrunsliEncodeJpeg(jpg, buf.get(), &len);
      f.out = len;
      if (seed % 4 == 0) {
        jpg.version = 2;  // the new context model
        len = brunsli::GetMaximumBrunsliEncodedSize(jpg);
        std::unique_ptr<uint8_t[]> buf2(new uint8_t[len]);
        brunsli::BrunsliEncodeJpeg(jpg, buf2.get(), &len);
      }
      if (seed % 4 == 1) {
        Counter c(64u << 20);
        brunsli::JPEGOutput o(CountHook, &c);
        f.written = brunsli::WriteJpeg(jpg, o);
      }
    }
  }
  if (seed % 4 == 2) {
    Copy e(d, n);
    Counter c(64u << 20);
    EncodeBrunsli(n, e.p.get(), &c, CountHook);
  }
  return f;
}

}  // namespace hostile

#endif
