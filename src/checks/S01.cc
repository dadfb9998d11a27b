// S01: JPEG parsing and encoding are memory-safe on arbitrary input.
#include "hostile.h"
#include "hostile_gen.h"

using namespace codec;

static void Prop(Src& s, Case& c) {
  Bytes b;
  std::string what;
  int kind = s.Weighted({1, 5, 5, 2});
  if (kind == 0) {
    Rng r(s.Seed());
    b = jg::RandomBytes(r, s.Size(400), s.Below(4));
    if (s.Chance(3, 4)) {
      b.insert(b.begin(), {0xFF, 0xD8, 0xFF});
      if (s.Bool()) {
        // A chain of marker segments of random content.
        int n = 1 + s.Below(8);
        for (int i = 0; i < n; ++i) {
          static const uint8_t m[] = {0xC0, 0xC1, 0xC2, 0xC4, 0xDA, 0xDB, 0xDD, 0xE0, 0xFE, 0xD0, 0xD9};
          b.push_back(0xFF);
          b.push_back(s.Chance(1, 6) ? s.Below(256) : m[s.Below(11)]);
          uint32_t len = s.Below(60);
          b.push_back(0);
          b.push_back(len);
          Bytes t = jg::RandomBytes(r, len > 2 ? len - 2 : 0, s.Below(4));
          b.insert(b.end(), t.begin(), t.end());
        }
      }
    }
    what = "random";
  } else {
    jg::Options o;
    o.max_blocks = s.Chance(1, 8) ? 300 : 40;
    jg::Jpeg j = jg::Generate(s, o);
    Labels(c, j);
    what = j.Describe();
    if (kind == 1) {
      b = jg::Mutate(s, j.bytes, 5);
      c.Label("mutated");
    } else if (kind == 2) {
      b = hostile::ExtremeJpeg(s, j);
      c.Label("extreme parameters");
      if (s.Chance(1, 4)) b = jg::Mutate(s, b, 2);
    } else {
      b = j.bytes;
      if (s.Bool()) b.resize(s.Below((uint32_t)b.size()));
      c.Label("plain or cut");
    }
  }
  uint64_t seed = s.Seed();
  uint64_t blocks = hostile::ClaimedJpegBlocks(b.data(), b.size());
  if (blocks > 40000 && pbt::Hash(b) % (blocks > 400000 ? 200 : 20)) {
    c.Label("too large");
    return;
  }
  if (blocks > 40000) c.Label("large");
  c.Attach("input.jpg", b);
  c.Attach("dump", b);
  c.Sample(what + pbt::Fmt(" %zu bytes", b.size()));
  c.Key(pbt::Hash(b));
  hostile::Facts f = hostile::AsJpeg(b.data(), b.size(), seed);
  c.Label(pbt::Fmt("error %d%s", f.status, f.accepted ? (f.encoded ? " encoded" : " unencoded") : ""));
  if (b.size() > 4 && b[0] == 0xFF && b[1] == 0xD8) c.NonTrivial();
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "S01";
  p.rule =
      "A case is a generated JPEG with random edits, extreme parameter values or a cut, or random "
      "bytes and marker chains, parsed in all three modes and, when accepted, encoded with both "
      "context models and serialized, under address and undefined-behaviour sanitizers; "
      "non-trivial = it starts like a JPEG";
  p.quick_cases = 40000;
  p.thorough_cases = 1500000;
  p.hang_cpu_s = 100;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
