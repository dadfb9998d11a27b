// S02: decoding is memory-safe and terminates on arbitrary input.
#include "dense.h"
#include "hostile.h"
#include "hostile_gen.h"
#include "model.h"

using namespace codec;

static void Prop(Src& s, Case& c) {
  Bytes b;
  std::string what;
  int kind = s.Chance(1, 300) ? 3 : s.Weighted({1, 10, 4});
  if (kind == 0) {
    Rng r(s.Seed());
    b = jg::RandomBytes(r, s.Size(400), s.Below(4));
    if (s.Chance(3, 4)) {
      static const uint8_t kSig[6] = {0x0A, 0x04, 0x42, 0xD2, 0xD5, 0x4E};
      b.insert(b.begin(), kSig, kSig + 6);
    }
    what = "random";
  } else if (kind == 3) {
    brunsli::JPEGData m;
    if (!Read(dense::Jpeg(s), &m) || !Encode(m, &b)) return;
    what = "mostly 0xFF bytes";
    c.Label(what);
  } else {
    Bytes brn, other;
    if (kind == 1) {
      strm::Valid v;
      if (!strm::MakeValid(s, c, &v, s.Chance(1, 8) ? 300 : 40)) return;
      brn = v.brn;
      what = v.what;
      if (s.Chance(1, 6)) {
        strm::Valid w;
        if (strm::MakeValid(s, c, &w, 40)) other = w.brn;
      }
    } else {
      jg::Options o;
      o.max_blocks = 60;
      jg::Jpeg j = jg::Generate(s, o);
      brunsli::JPEGData m;
      model::FromTruth(j, &m);
      model::Exaggerate(s, c, &m);
      if (!Encode(m, &brn)) return;
      what = "model";
    }
    std::string op;
    int rounds = s.Chance(1, 5) ? 2 : 1;
    b = brn;
    for (int i = 0; i < rounds; ++i) b = hostile::MutateStream(s, b, other.empty() ? nullptr : &other, &op);
    c.Label("mutated: " + op);
    what = op + " of " + what;
  }
  uint64_t seed = s.Seed();
  uint64_t blocks = hostile::ClaimedBlocks(b.data(), b.size());
  // Huge images take seconds each under the sanitizers: try only a few.
  if (blocks > 40000 && pbt::Hash(b) % (blocks > 400000 ? 200 : 20)) {
    c.Label("too large");
    return;
  }
  if (blocks > 40000) c.Label("large");
  c.Attach("stream.brn", b);
  c.Attach("dump", b);
  c.Sample(what + pbt::Fmt(" %zu bytes", b.size()));
  c.Key(pbt::Hash(b));
  hostile::Facts f = hostile::AsBrunsli(b.data(), b.size(), seed);
  c.Label(pbt::Fmt("status %d%s", f.status, f.accepted ? (f.written ? " written" : " unwritten") : ""));
  // The data got past the signature.
  if (b.size() > 6 && b[0] == 0x0A && b[5] == 0x4E) c.NonTrivial();
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "S02";
  p.rule =
      "A case is a Brunsli stream damaged by container-aware operators (bits or bytes of one section "
      "with framing kept consistent, header fields, recompressed metadata, crossed or reordered "
      "sections) or random bytes, given to one-shot, streaming and C decoding, serialization and "
      "memory estimation under address and undefined-behaviour sanitizers; non-trivial = the "
      "signature is intact";
  p.quick_cases = 40000;
  p.thorough_cases = 1500000;
  p.hang_cpu_s = 100;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
