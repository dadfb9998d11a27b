// Thin helpers over the public API shared by the checks.
#ifndef VERIF_CODEC_H_
#define VERIF_CODEC_H_

#include <brunsli/brunsli_decode.h>
#include <brunsli/brunsli_encode.h>
#include <brunsli/decode.h>
#include <brunsli/encode.h>
#include <brunsli/jpeg_data.h>
#include <brunsli/jpeg_data_reader.h>
#include <brunsli/jpeg_data_writer.h>
#include <brunsli/status.h>

#include <memory>
#include <string>

#include "jpeggen.h"
#include "pbt.h"

namespace codec {

using pbt::Bytes;
using pbt::Case;
using pbt::Rng;
using pbt::Src;

// Exactly sized heap copy, so that any over-read is visible to ASan.
struct Exact {
  std::unique_ptr<uint8_t[]> p;
  size_t n;
  explicit Exact(const Bytes& b) : p(new uint8_t[b.size()]), n(b.size()) {
    if (n) memcpy(p.get(), b.data(), n);
  }
  explicit Exact(size_t size) : p(new uint8_t[size]), n(size) {}
};

inline bool Read(const Bytes& in, brunsli::JPEGData* jpg,
                 brunsli::JpegReadMode mode = brunsli::JPEG_READ_ALL) {
  Exact e(in);
  return brunsli::ReadJpeg(e.p.get(), e.n, mode, jpg);
}

// Encodes into a buffer of the advertised maximal size.
inline bool Encode(const brunsli::JPEGData& jpg, Bytes* out) {
  size_t len = brunsli::GetMaximumBrunsliEncodedSize(jpg);
  Bytes buf(len);
  if (!brunsli::BrunsliEncodeJpeg(jpg, buf.data(), &len)) return false;
  if (len > buf.size()) throw pbt::Failure{"encoded-size", "reported size exceeds buffer"};
  buf.resize(len);
  *out = Bytes(buf);
  return true;
}

inline bool EncodeBypass(const Bytes& in, Bytes* out) {
  size_t len = brunsli::GetBrunsliBypassSize(in.size());
  Bytes buf(len);
  Exact e(in);
  if (!brunsli::BrunsliEncodeJpegBypass(e.p.get(), e.n, buf.data(), &len)) return false;
  if (len > buf.size()) throw pbt::Failure{"bypass-size", "reported size exceeds buffer"};
  buf.resize(len);
  *out = Bytes(buf);
  return true;
}

struct OutSink {
  Bytes out;
  size_t limit = (size_t)1 << 31;
};
inline size_t OutHook(void* data, const uint8_t* buf, size_t count) {
  OutSink* s = static_cast<OutSink*>(data);
  if (s->out.size() + count > s->limit) return 0;
  s->out.insert(s->out.end(), buf, buf + count);
  return count;
}

inline bool Write(const brunsli::JPEGData& jpg, Bytes* out) {
  OutSink sink;
  brunsli::JPEGOutput o(OutHook, &sink);
  bool ok = brunsli::WriteJpeg(jpg, o);
  out->swap(sink.out);
  return ok;
}

// Full decode. Input stays alive until serialization is over (the library may
// keep pointers into it).
inline brunsli::BrunsliStatus Decode(const Bytes& in, Bytes* out, bool* written) {
  Exact e(in);
  brunsli::JPEGData jpg;
  brunsli::BrunsliStatus st = brunsli::BrunsliDecodeJpeg(e.p.get(), e.n, &jpg);
  *written = false;
  out->clear();
  if (st == brunsli::BRUNSLI_OK) *written = Write(jpg, out);
  return st;
}

// Position of the first difference, for messages.
inline std::string Diff(const Bytes& a, const Bytes& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  return pbt::Fmt("sizes %zu vs %zu, first difference at %zu", a.size(), b.size(), i);
}

inline void Labels(Case& c, const jg::Jpeg& j) {
  for (const std::string& l : j.labels) c.Label(l);
}

// The standard pads with 1-bits. Other padding is stored bit by bit, up to a
// documented safety limit that does not grow with the number of scans.
inline bool TooMuchPadding(const jg::Jpeg& j) {
  bool odd = false;
  for (const std::string& l : j.labels) odd |= l == "padding:nonstandard";
  if (!odd) return false;
  uint64_t intervals = j.scans.size();
  for (size_t i = 0; i + 1 < j.bytes.size(); ++i) {
    if (j.bytes[i] == 0xFF && (j.bytes[i + 1] & 0xF8) == 0xD0) ++intervals;
  }
  uint64_t blocks = (uint64_t)((j.width + 15) >> 3) * ((j.height + 15) >> 3);
  return 7 * intervals > 7 * blocks * j.comps.size() + 256;
}

}  // namespace codec

#endif
