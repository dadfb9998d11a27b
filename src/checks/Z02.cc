// Z02: encoding into a too small buffer fails cleanly.
#include "model.h"

using namespace codec;

// Sizes of interest around 0, the true size n and the maximum.
static size_t PickSize(Src& s, size_t n, size_t max) {
  switch (s.Weighted({3, 4, 4, 3, 2, 2, 2})) {
    case 0: return s.Below(12);
    case 1: return s.Below((uint32_t)n + 1);
    case 2: return n - std::min<size_t>(n, s.Below(24));
    case 3: return n + s.Below(24);
    case 4: return std::min<size_t>(max, n + s.Size((uint32_t)(max - n)));
    case 5: return max - 1 - std::min<size_t>(max - 1, s.Below(8));
    default: return s.Below(300);
  }
}

static void Prop(Src& s, Case& c) {
  jg::Options o;
  o.max_blocks = s.Chance(1, 4) ? 300 : 40;
  jg::Jpeg j = jg::Generate(s, o);
  Labels(c, j);
  bool bypass = s.Chance(1, 3);
  Bytes in = j.bytes;
  Bytes want;
  brunsli::JPEGData m;
  size_t max;
  if (bypass) {
    if (s.Bool()) {
      Rng r(s.Seed());
      in = jg::RandomBytes(r, 1 + s.Size(3000), s.Below(4));
    }
    c.Label("bypass");
    if (!EncodeBypass(in, &want)) return;
    max = brunsli::GetBrunsliBypassSize(in.size());
  } else {
    if (s.Chance(1, 2)) {
      model::FromTruth(j, &m);
      model::Exaggerate(s, c, &m);
      c.Label("model");
    } else if (!Read(in, &m)) {
      return;
    }
    if (!Encode(m, &want)) return;
    max = brunsli::GetMaximumBrunsliEncodedSize(m);
  }
  c.Attach("input.jpg", in);
  c.Sample(j.Describe() + pbt::Fmt(" encoded %zu", want.size()));
  c.NonTrivial();
  c.Key(pbt::Hash(in));
  c.Key(want.size());
  Exact e(in);
  int tries = 6;
  for (int t = 0; t < tries; ++t) {
    size_t size = PickSize(s, want.size(), max);
    if (size > (1u << 20) && t > 0) continue;
    Exact b(size);
    size_t len = size;
    bool ok = bypass ? brunsli::BrunsliEncodeJpegBypass(e.p.get(), e.n, b.p.get(), &len)
                     : brunsli::BrunsliEncodeJpeg(m, b.p.get(), &len);
    c.Evals(1);
    c.Label(size < want.size() ? (ok ? "small:ok" : "small:refused") : (ok ? "enough:ok" : "enough:refused"));
    if (!ok) continue;
    c.Check(len <= size, "size-overrun", pbt::Fmt("reported %zu bytes in a buffer of %zu", len, size));
    Bytes got(b.p.get(), b.p.get() + len);
    if (got == want) continue;
    c.Label("different-bytes");
    Exact g(got);
    brunsli::JPEGData d;
    brunsli::BrunsliStatus st = brunsli::BrunsliDecodeJpeg(g.p.get(), g.n, &d);
    c.Check(st == brunsli::BRUNSLI_OK, "incomplete-output",
            pbt::Fmt("success reported for buffer size %zu (complete file: %zu), but the output of %zu bytes does not decode: %d", size,
                     want.size(), len, (int)st));
    if (bypass) {
      Bytes out;
      c.Check(Write(d, &out) && out == in, "wrong-output", "bypass output decodes to other bytes");
    } else {
      std::string diff = truth::Same(d, m);
      c.Check(diff.empty(), "wrong-output", "output decodes to another model: " + diff);
    }
  }
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "Z02";
  p.rule =
      "A case is a JPEG, image model or bypass payload that encodes, tried with six output buffers "
      "of adversarial sizes (0, a few bytes, below, at and above the true size, around the maximum) "
      "allocated exactly, under AddressSanitizer; non-trivial = the encoder accepts the input with "
      "the maximal buffer";
  p.quick_cases = 12000;
  p.thorough_cases = 200000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
