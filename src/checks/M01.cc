// M01: the decoder memory estimate covers the memory really used.
#include "alloc.h"
#include "hostile_gen.h"

using namespace codec;

static size_t Estimate(const Bytes& b) {
  Exact e(b);
  return brunsli::BrunsliEstimateDecoderPeakMemoryUsage(e.p.get(), e.n);
}

// Application data of any volume and compressibility.
static Bytes WithMetadata(Src& s, const Bytes& in) {
  Bytes out(in.begin(), in.begin() + 2);
  int n = 1 + s.Size(60);
  Rng r(s.Seed());
  int style = s.Below(4);
  for (int i = 0; i < n; ++i) {
    Bytes p = jg::RandomBytes(r, r.Chance(1, 2) ? 65533 : r.Below(65534), style);
    out.push_back(0xFF);
    out.push_back(r.Chance(1, 4) ? 0xFE : (uint8_t)(0xE1 + r.Below(14)));
    out.push_back((uint8_t)((p.size() + 2) >> 8));
    out.push_back((uint8_t)(p.size() + 2));
    out.insert(out.end(), p.begin(), p.end());
  }
  out.insert(out.end(), in.begin() + 2, in.end());
  return out;
}

// Where the histograms end: nothing before can be judged.
static size_t HeaderEnd(const Bytes& brn) {
  size_t p = 0;
  while (p < brn.size()) {
    int tag = brn[p++] >> 3;
    uint64_t n = 0;
    for (int shift = 0; p < brn.size(); shift += 7) {
      n |= (uint64_t)(brn[p] & 127) << shift;
      if (!(brn[p++] & 128)) break;
    }
    p += n;
    if (tag == 6) return p;
  }
  return brn.size();
}

static void Prop(Src& s, Case& c) {
  int mode = s.Weighted({6, 3, 2, 1});
  Bytes in;
  if (mode == 1) {
    jg::PhotoParams p;
    p.sampling = s.Below(4);
    p.progressive = s.Bool();
    p.optimized = true;
    p.quality = 20 + s.Below(79);
    p.width = 16 + s.Size(1000);
    p.height = 16 + s.Size(1000);
    p.seed = s.Seed();
    in = jg::Photo(p).bytes;
    c.Label("photo");
  } else {
    jg::Options o;
    o.max_blocks = s.Chance(1, 5) ? 8000 : 400;
    o.huge_one_in = 12;
    jg::Jpeg j = jg::Generate(s, o);
    in = j.bytes;
    c.Sample(j.Describe());
    c.Label("any");
  }
  if (mode == 2) {
    in = WithMetadata(s, in);
    c.Label("heavy-metadata");
  }
  c.Attach("input.jpg", in);
  c.Key(pbt::Hash(in));
  Bytes brn;
  brunsli::JPEGData d;
  if (!Read(in, &d) || !Encode(d, &brn)) {
    // Also: bypass streams.
    c.Label("bypass");
    if (!EncodeBypass(in, &brn)) return;
    d = brunsli::JPEGData();
  }
  c.Attach("stream.brn", brn);
  size_t estimate = 0;
  // Own copies are made before measuring.
  Exact e(brn);
  size_t effort = alloc::Peak([&] { estimate = brunsli::BrunsliEstimateDecoderPeakMemoryUsage(e.p.get(), e.n); });
  c.Check(estimate != 0, "no-estimate", "estimate of a valid file is zero");
  c.Check(effort <= 65536, "estimation-cost", pbt::Fmt("the estimation itself takes %zu bytes", effort));
  // The decoder's results are part of what it needs.
  bool ok = false;
  size_t real;
  {
    std::unique_ptr<brunsli::JPEGData> out;
    real = alloc::Peak([&] {
      out.reset(new brunsli::JPEGData);
      ok = brunsli::BrunsliDecodeJpeg(e.p.get(), e.n, out.get()) == brunsli::BRUNSLI_OK;
    });
  }
  c.Check(ok, "decode", "valid file not decoded");
  // Not accounted for: everything but pixels.
  size_t segments = 0, bytes = d.tail_data.size(), points = 0;
  for (const auto* v : {&d.app_data, &d.com_data, &d.inter_marker_data})
    for (const auto& x : *v) {
      bytes += x.size();
      ++segments;
    }
  for (const auto& x : d.scan_info) points += 8 + x.reset_points.size() + x.extra_zero_runs.size();
  size_t other = 2 * bytes + 128 * segments + 12 * d.padding_bits.size() + 32 * points;
  size_t allowed = estimate + estimate / 50 + other + 24576;
  c.Check(real <= allowed, "underestimated",
          pbt::Fmt("estimated %zu bytes, used %zu (%zu bytes of metadata)", estimate, real, bytes));
  // Making the JPEG, without collecting it.
  {
    brunsli::JPEGData out;
    size_t writing = alloc::Peak([&] {
      if (brunsli::BrunsliDecodeJpeg(e.p.get(), e.n, &out) != brunsli::BRUNSLI_OK) return;
      brunsli::JPEGOutput sink([](void*, const uint8_t*, size_t n) { return n; }, nullptr);
      brunsli::WriteJpeg(out, sink);
    });
    // The estimate takes the JPEG to be at most twice as big as its Brunsli file; the writer holds a whole scan, and
    // wasteful Huffman codes make it bigger than that.
    size_t wasted = in.size() > 2 * brn.size() ? in.size() - 2 * brn.size() : 0;
    c.Check(writing <= allowed + wasted + wasted / 16, "underestimated-with-output",
            pbt::Fmt("estimated %zu bytes, used %zu until the JPEG was written (%zu bytes of metadata)", estimate, writing, bytes));
  }
  // The incremental decoder, given all the input and little room for output.
  {
    static const int kRoom[] = {1, 100, 5000, 100000};
    size_t room = kRoom[s.Below(4)];
    Bytes out(room);
    bool done = false;
    size_t made = 0;
    size_t streaming = alloc::Peak([&] {
      brunsli::BrunsliDecoder dec;
      size_t ai = e.n;
      const uint8_t* ni = e.p.get();
      // Long outputs need not be fetched to the end.
      for (int i = 0; i < 3000 && !done; ++i) {
        size_t ao = room;
        uint8_t* no = out.data();
        auto st = dec.Decode(&ai, &ni, &ao, &no);
        made += room - ao;
        done = st != brunsli::BrunsliDecoder::NEEDS_MORE_OUTPUT;
      }
    });
    size_t wasted = in.size() > 2 * brn.size() ? in.size() - 2 * brn.size() : 0;
    c.Check(streaming <= allowed + wasted + wasted / 16, "underestimated-streaming",
            pbt::Fmt("estimated %zu bytes, streaming with room for %zu used %zu (%zu bytes of metadata)", estimate, room, streaming, bytes));
    if (done) c.Check(made == in.size(), "streaming", "streaming does not restore the file");
  }
  c.Check(estimate <= real + real / 20 + 2 * brn.size() + 450000, "overestimated",
          pbt::Fmt("estimated %zu bytes, used %zu", estimate, real));
  c.NonTrivial();
  // Without complete headers there is nothing to tell.
  size_t end = HeaderEnd(brn);
  for (int i = 0; i < 4; ++i) {
    Bytes cut(brn.begin(), brn.begin() + s.Below((uint32_t)end));
    c.Check(Estimate(cut) == 0, "estimate-of-truncated",
            pbt::Fmt("the first %zu of %zu bytes get an estimate, headers take %zu", cut.size(), brn.size(), end));
  }
  Bytes junk = brn;
  junk[s.Below(6)] ^= 1 << s.Below(8);
  c.Check(Estimate(junk) == 0, "estimate-of-junk", "data without signature get an estimate");
  if (!d.components.empty()) c.Check(Estimate(in) == 0, "estimate-of-junk", "a JPEG file gets an estimate");
  c.Check(brunsli::BrunsliEstimateDecoderPeakMemoryUsage(nullptr, s.Size(100)) == 0, "estimate-of-nothing",
          "no data get an estimate");
  c.Evals(7);
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "M01";
  p.rule =
      "A case is one generated JPEG (any construct, photo, heavy metadata, or not encodable and bypassed) whose "
      "estimate is compared with the measured allocation peak, and damaged versions of its file; non-trivial = both "
      "numbers were compared";
  p.quick_cases = 10000;
  p.thorough_cases = 200000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
