// L01: every call gives back the memory it took.
#include "alloc.h"
#include "experimental/groups.h"
#include "hostile.h"
#include "hostile_gen.h"

using namespace codec;

// A sink that gives up after some bytes.
struct Quitter {
  size_t left;
  bool closed = false;
};
static size_t QuitHook(void* data, const uint8_t*, size_t n) {
  Quitter* q = static_cast<Quitter*>(data);
  if (q->closed || n > q->left) {
    q->closed = true;
    return 0;
  }
  q->left -= n;
  return n;
}

// What is done, and how far it gets.
struct Plan {
  int op;
  int mode;
  size_t capacity_percent;
  size_t sink;
  uint64_t seed;
  int steps;
};

enum { kRead, kEncode, kEncodeC, kBypass, kDecode, kDecodeC, kStream, kEstimate, kEncodeGroups, kDecodeGroups, kNumOps };
static const char* const kNames[kNumOps] = {"ReadJpeg",     "BrunsliEncodeJpeg",  "EncodeBrunsli", "BrunsliEncodeJpegBypass",
                                            "BrunsliDecodeJpeg and WriteJpeg", "DecodeBrunsli", "BrunsliDecoder",
                                            "BrunsliEstimateDecoderPeakMemoryUsage", "EncodeGroups", "DecodeGroups"};

// Returns a code of the outcome. Everything it owns is released at its end.
static int Do(const Plan& p, const Bytes& b) {
  switch (p.op) {
    case kRead: {
      brunsli::JPEGData d;
      return brunsli::ReadJpeg(b.data(), b.size(), (brunsli::JpegReadMode)p.mode, &d);
    }
    case kEncode: {
      brunsli::JPEGData d;
      if (!brunsli::ReadJpeg(b.data(), b.size(), brunsli::JPEG_READ_ALL, &d)) return 0;
      if (p.mode == 0) d.version = 0;
      size_t len = brunsli::GetMaximumBrunsliEncodedSize(d);
      len = std::min<size_t>(len, (uint64_t)b.size() * p.capacity_percent / 50 + p.sink % 32);
      std::unique_ptr<uint8_t[]> o(new uint8_t[len]);
      return 1 + brunsli::BrunsliEncodeJpeg(d, o.get(), &len);
    }
    case kEncodeC: {
      Quitter q{p.sink};
      return EncodeBrunsli(b.size(), b.data(), &q, QuitHook);
    }
    case kBypass: {
      size_t len = brunsli::GetBrunsliBypassSize(b.size());
      len = len * std::min<size_t>(p.capacity_percent, 100) / 100;
      std::unique_ptr<uint8_t[]> o(new uint8_t[len]);
      return brunsli::BrunsliEncodeJpegBypass(b.data(), b.size(), o.get(), &len);
    }
    case kDecode: {
      brunsli::JPEGData d;
      if (brunsli::BrunsliDecodeJpeg(b.data(), b.size(), &d) != brunsli::BRUNSLI_OK) return 0;
      Quitter q{p.sink};
      brunsli::JPEGOutput o(QuitHook, &q);
      return 1 + brunsli::WriteJpeg(d, o);
    }
    case kDecodeC: {
      Quitter q{p.sink};
      return DecodeBrunsli(b.size(), b.data(), &q, QuitHook);
    }
    case kStream: {
      Rng r(p.seed);
      brunsli::BrunsliDecoder dec;
      size_t pos = 0;
      int st = -1;
      std::unique_ptr<uint8_t[]> ob(new uint8_t[4096]);
      // Ends when the client loses interest.
      for (int i = 0; i < p.steps; ++i) {
        size_t n = std::min<size_t>(b.size() - pos, r.Chance(1, 3) ? r.Below(4) : r.Below(1 + (uint32_t)b.size() / 4));
        std::unique_ptr<uint8_t[]> ib(new uint8_t[n]);
        if (n) memcpy(ib.get(), b.data() + pos, n);
        size_t ai = n, ao = r.Below(4097);
        const uint8_t* ni = ib.get();
        uint8_t* no = ob.get();
        st = (int)dec.Decode(&ai, &ni, &ao, &no);
        pos += n - ai;
        if (st == (int)brunsli::BrunsliDecoder::ERROR || st == (int)brunsli::BrunsliDecoder::DONE) break;
      }
      return 1 + st;
    }
    case kEstimate:
      return brunsli::BrunsliEstimateDecoderPeakMemoryUsage(b.data(), b.size()) != 0;
    case kEncodeGroups: {
      brunsli::JPEGData d;
      if (!brunsli::ReadJpeg(b.data(), b.size(), brunsli::JPEG_READ_ALL, &d)) return 0;
      size_t len = std::min<size_t>(brunsli::GetMaximumBrunsliEncodedSize(d) * 2 + 4096, b.size() * p.capacity_percent / 25);
      std::unique_ptr<uint8_t[]> o(new uint8_t[len]);
      brunsli::Executor ex = brunsli::SequentialExecutor;
      return 1 + brunsli::EncodeGroups(d, o.get(), &len, 32, 128, &ex);
    }
    default: {
      brunsli::JPEGData d;
      brunsli::Executor ex = brunsli::SequentialExecutor;
      return brunsli::DecodeGroups(b.data(), b.size(), &d, 32, 128, &ex);
    }
  }
}

static void Judge(Case& c, const Plan& p, const Bytes& b, const std::string& what) {
  // What is set up once and for all does not count: a leak is seen each time.
  int64_t grown = 0;
  int code = 0;
  for (int i = 0; i < 4; ++i) {
    int64_t before = (int64_t)alloc::now;
    code = Do(p, b);
    grown = (int64_t)alloc::now - before;
    c.Evals(1);
    if (grown == 0) {
      c.Label(std::string(kNames[p.op]) + pbt::Fmt(": outcome %d", code));
      return;
    }
  }
  c.Attach("input", b);
  c.Fail("leak", pbt::Fmt("%s (outcome %d) on %s keeps %lld bytes each time", kNames[p.op], code, what.c_str(), (long long)grown));
}

static void Prop(Src& s, Case& c) {
  jg::Options o;
  o.max_blocks = s.Chance(1, 10) ? 400 : 50;
  jg::Jpeg j = jg::Generate(s, o);
  c.Sample(j.Describe());
  Bytes in = j.bytes;
  Bytes brn, grp;
  brunsli::JPEGData d;
  if (Read(in, &d)) {
    if (s.Bool()) d.version = 0;
    if (!Encode(d, &brn)) brn.clear();
    size_t len = 2 * brunsli::GetMaximumBrunsliEncodedSize(d) + 4096;
    Bytes g(len);
    brunsli::Executor ex = brunsli::SequentialExecutor;
    if (brunsli::EncodeGroups(d, g.data(), &len, 32, 128, &ex)) {
      g.resize(len);
      grp = g;
    }
  }
  if (brn.empty() || s.Chance(1, 8)) EncodeBypass(in, &brn);
  if (s.Chance(1, 10)) {
    // Metadata in any form.
    std::vector<strm::Sect> v;
    if (strm::ParseContainer(brn, &v))
      for (strm::Sect& x : v)
        if (x.tag == 3) x.body = hostile::PackMeta(hostile::RandomMeta(s));
    brn = strm::Build(v);
    c.Label("other metadata");
  }
  int ops = 3 + s.Below(5);
  for (int i = 0; i < ops; ++i) {
    Plan p;
    p.op = s.Below(kNumOps);
    p.mode = s.Below(3);
    p.capacity_percent = s.Chance(1, 2) ? 1000 : s.Below(130);
    p.sink = s.Chance(1, 2) ? (size_t)1 << 40 : s.Size(20000);
    p.seed = s.Seed();
    p.steps = s.Chance(1, 3) ? 1 + s.Below(8) : 100000;
    bool jpeg = p.op == kRead || p.op == kEncode || p.op == kEncodeC || p.op == kBypass || p.op == kEncodeGroups;
    Bytes b = jpeg ? in : p.op == kDecodeGroups ? grp : brn;
    if (b.empty()) continue;
    std::string what = "valid data";
    int damage = s.Weighted({4, 4, 2});
    if (damage == 1) {
      if (jpeg) {
        b = jg::Mutate(s, b, 4);
        what = "damaged JPEG";
      } else if (p.op == kDecodeGroups) {
        b = jg::Mutate(s, b, 2);
        what = "damaged groups";
      } else {
        b = hostile::MutateStream(s, b, nullptr, &what);
      }
    } else if (damage == 2) {
      b.resize(s.Below((uint32_t)b.size() + 1));
      what = "truncated data";
    }
    if (b.empty()) b.push_back(0);
    // Sizes from nowhere take a lot of memory, which is another matter.
    if ((jpeg ? hostile::ClaimedJpegBlocks(b.data(), b.size()) : hostile::ClaimedBlocks(b.data(), b.size())) > 20000) continue;
    // Group files of other layouts are G01's.
    Judge(c, p, b, what);
    c.NonTrivial();
  }
  c.Key(pbt::Hash(in));
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "L01";
  p.rule =
      "A case is a generated JPEG with its Brunsli forms, and 3-7 operations on them (valid, damaged or "
      "truncated; buffers too small, sinks that stop, streams abandoned at any call); non-trivial = the "
      "memory in use before and after an operation was compared";
  p.quick_cases = 30000;
  p.thorough_cases = 800000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
