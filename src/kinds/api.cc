// Compiled once per build kind, with -DKIND=name.
#include "kinds/api.h"

#include <brunsli/brunsli_decode.h>
#include <brunsli/brunsli_encode.h>
#include <brunsli/decode.h>
#include <brunsli/encode.h>
#include <brunsli/jpeg_data.h>
#include <brunsli/jpeg_data_reader.h>
#include <brunsli/jpeg_data_writer.h>

#include <algorithm>
#include <vector>

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define STR2(a) #a
#define STR(a) STR2(a)
#define NS CAT(kinds_, KIND)

namespace NS {

using kinds::Put;

struct To {
  void* to;
  Put put;
};
static size_t Sink(void* data, const uint8_t* buf, size_t n) {
  To* t = static_cast<To*>(data);
  t->put(t->to, buf, n);
  return n;
}

static int Encode(const uint8_t* d, size_t n, int version, void* to, Put put) {
  brunsli::JPEGData jpg;
  if (!brunsli::ReadJpeg(d, n, brunsli::JPEG_READ_ALL, &jpg)) return 1000 + static_cast<int>(jpg.error);
  jpg.version = version;
  size_t len = brunsli::GetMaximumBrunsliEncodedSize(jpg);
  std::vector<uint8_t> o(len);
  if (!brunsli::BrunsliEncodeJpeg(jpg, o.data(), &len)) return 2;
  put(to, o.data(), len);
  return 0;
}

static bool Bypass(const uint8_t* d, size_t n, void* to, Put put) {
  size_t len = brunsli::GetBrunsliBypassSize(n);
  std::vector<uint8_t> o(len);
  if (!brunsli::BrunsliEncodeJpegBypass(d, n, o.data(), &len)) return false;
  put(to, o.data(), len);
  return true;
}

static bool Rewrite(const uint8_t* d, size_t n, void* to, Put put) {
  brunsli::JPEGData jpg;
  if (!brunsli::ReadJpeg(d, n, brunsli::JPEG_READ_ALL, &jpg)) return false;
  To t = {to, put};
  return brunsli::WriteJpeg(jpg, brunsli::JPEGOutput(Sink, &t));
}

static int Decode(const uint8_t* d, size_t n, void* to, Put put) {
  brunsli::JPEGData jpg;
  int st = static_cast<int>(brunsli::BrunsliDecodeJpeg(d, n, &jpg));
  if (st != static_cast<int>(brunsli::BRUNSLI_OK)) return st;
  To t = {to, put};
  if (!brunsli::WriteJpeg(jpg, brunsli::JPEGOutput(Sink, &t))) st += 100;
  return st;
}

static int Stream(const uint8_t* d, size_t n, size_t in, size_t out, void* to, Put put) {
  brunsli::BrunsliDecoder dec;
  std::vector<uint8_t> buf(out);
  size_t pos = 0;
  while (true) {
    size_t ai = std::min(in, n - pos), ao = buf.size();
    const uint8_t* ni = d + pos;
    uint8_t* no = buf.data();
    size_t offered = ai;
    brunsli::BrunsliDecoder::Status st = dec.Decode(&ai, &ni, &ao, &no);
    pos += offered - ai;
    size_t made = no - buf.data();
    put(to, buf.data(), made);
    if (st == brunsli::BrunsliDecoder::NEEDS_MORE_OUTPUT) continue;
    if (st == brunsli::BrunsliDecoder::NEEDS_MORE_INPUT && pos < n) continue;
    return static_cast<int>(st);
  }
}

static int CEncode(const uint8_t* d, size_t n, void* to, Put put) {
  To t = {to, put};
  return EncodeBrunsli(n, d, &t, Sink);
}

static int CDecode(const uint8_t* d, size_t n, void* to, Put put) {
  To t = {to, put};
  return DecodeBrunsli(n, d, &t, Sink);
}

static size_t Memory(const uint8_t* d, size_t n) { return brunsli::BrunsliEstimateDecoderPeakMemoryUsage(d, n); }

}  // namespace NS

extern const kinds::Api CAT(kind_, KIND);
const kinds::Api CAT(kind_, KIND) = {STR(KIND),   NS::Encode, NS::Bypass,  NS::Rewrite, NS::Decode,
                                     NS::Stream, NS::CEncode, NS::CDecode, NS::Memory};
