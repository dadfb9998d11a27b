// Compiled against ref/ with -Dbrunsli=brunsli_ref.
#include "ref_api.h"

#include "c/enc/wild.h"

#include <brunsli/brunsli_decode.h>
#include <brunsli/brunsli_encode.h>
#include <brunsli/jpeg_data.h>
#include <brunsli/jpeg_data_reader.h>
#include <brunsli/jpeg_data_writer.h>

namespace ref {

typedef std::vector<uint8_t> Bytes;

static size_t Sink(void* data, const uint8_t* buf, size_t n) {
  Bytes* o = static_cast<Bytes*>(data);
  o->insert(o->end(), buf, buf + n);
  return n;
}

bool Encode(const Bytes& jpeg, int version, Bytes* brn) {
  brunsli::JPEGData jpg;
  if (!brunsli::ReadJpeg(jpeg.data(), jpeg.size(), brunsli::JPEG_READ_ALL, &jpg)) return false;
  jpg.version = version;
  // Generous: the advertised bound of the released encoder is too small for
  // extreme images.
  size_t len = brunsli::GetMaximumBrunsliEncodedSize(jpg);
  for (const auto& c : jpg.components) len += c.num_blocks * 100;
  brn->assign(len, 0);
  if (!brunsli::BrunsliEncodeJpeg(jpg, brn->data(), &len)) return false;
  brn->resize(len);
  return true;
}

bool EncodeWild(const Bytes& jpeg, int version, uint64_t seed, Bytes* brn) {
  brunsli::JPEGData jpg;
  if (!brunsli::ReadJpeg(jpeg.data(), jpeg.size(), brunsli::JPEG_READ_ALL, &jpg)) return false;
  jpg.version = version;
  size_t len = brunsli::GetMaximumBrunsliEncodedSize(jpg) + jpeg.size();
  for (const auto& c : jpg.components) len += c.num_blocks * 300;
  brn->assign(len, 0);
  brunsli::wild.Start(seed);
  bool ok = brunsli::BrunsliEncodeJpeg(jpg, brn->data(), &len);
  brunsli::wild.Stop();
  if (!ok) return false;
  brn->resize(len);
  return true;
}

bool EncodeBypass(const Bytes& bytes, Bytes* brn) {
  size_t len = brunsli::GetBrunsliBypassSize(bytes.size());
  brn->assign(len, 0);
  if (!brunsli::BrunsliEncodeJpegBypass(bytes.data(), bytes.size(), brn->data(), &len)) return false;
  brn->resize(len);
  return true;
}

bool Decode(const Bytes& brn, Bytes* jpeg) {
  brunsli::JPEGData jpg;
  jpeg->clear();
  if (brunsli::BrunsliDecodeJpeg(brn.data(), brn.size(), &jpg) != brunsli::BRUNSLI_OK) return false;
  brunsli::JPEGOutput out(Sink, jpeg);
  return brunsli::WriteJpeg(jpg, out);
}

bool DecodeStreaming(const Bytes& brn, size_t chunk, Bytes* jpeg) {
  brunsli::BrunsliDecoder d;
  jpeg->clear();
  size_t pos = 0;
  Bytes buf(4096);
  size_t avail = 0;
  const uint8_t* next = brn.data();
  while (true) {
    if (avail == 0 && pos < brn.size()) {
      avail = chunk < brn.size() - pos ? chunk : brn.size() - pos;
      next = brn.data() + pos;
      pos += avail;
    }
    size_t ao = buf.size();
    uint8_t* no = buf.data();
    size_t before = avail;
    brunsli::BrunsliDecoder::Status st = d.Decode(&avail, &next, &ao, &no);
    jpeg->insert(jpeg->end(), buf.data(), no);
    if (st == brunsli::BrunsliDecoder::DONE) return true;
    if (st == brunsli::BrunsliDecoder::ERROR) return false;
    if (st == brunsli::BrunsliDecoder::NEEDS_MORE_INPUT && avail == before && pos >= brn.size() &&
        no == buf.data())
      return false;
  }
}

bool Progress(const Bytes& brn, const std::vector<size_t>& cuts, std::vector<size_t>* delivered) {
  brunsli::BrunsliDecoder d;
  Bytes buf(1 << 16);
  size_t pos = 0, made = 0;
  delivered->clear();
  for (size_t cut : cuts) {
    size_t avail = cut - pos;
    const uint8_t* next = brn.data() + pos;
    pos = cut;
    brunsli::BrunsliDecoder::Status st;
    size_t ao;
    do {
      ao = buf.size();
      uint8_t* no = buf.data();
      st = d.Decode(&avail, &next, &ao, &no);
      made += no - buf.data();
      if (st == brunsli::BrunsliDecoder::ERROR) return false;
    } while (st == brunsli::BrunsliDecoder::NEEDS_MORE_OUTPUT || avail > 0 || ao == 0);
    delivered->push_back(made);
  }
  return true;
}

}  // namespace ref
