// R01: whatever the encoder accepts is restored byte for byte.
#include "biglimit.h"
#include "codec.h"
#include "dense.h"

using namespace codec;

static void Prop(Src& s, Case& c) {
  jg::Options o;
  o.huge_one_in = 300;
  o.limits_one_in = 80;
  o.max_blocks = c.thorough ? 700 : 300;
  Bytes in;
  std::string what;
  if (s.Chance(1, 400)) {
    in = dense::Jpeg(s);
    what = "mostly 0xFF bytes";
    c.Label(what);
  } else if (s.Chance(1, 6000)) {
    in = big::Jpeg(s, false, &what);
    c.Label("as many blocks as supported");
  } else {
    jg::Jpeg j = jg::Generate(s, o);
    Labels(c, j);
    in = j.bytes;
    what = j.Describe();
  }
  bool mutated = s.Chance(3, 10);
  if (mutated) {
    in = jg::Mutate(s, in, 6);
    c.Label("mutated");
  }
  c.Attach("input.jpg", in);
  c.Sample(what + (mutated ? " [mutated]" : ""));
  brunsli::JPEGData jpg;
  if (!Read(in, &jpg)) {
    c.Label("parser-refused");
    return;
  }
  Bytes brn;
  if (!Encode(jpg, &brn)) {
    c.Label("encoder-refused");
    return;
  }
  if (mutated) c.Label("mutated-accepted");
  c.NonTrivial();
  c.Key(pbt::Hash(in));
  Bytes out;
  bool written;
  brunsli::BrunsliStatus st = Decode(brn, &out, &written);
  c.Check(st == brunsli::BRUNSLI_OK, "decode-failed",
          pbt::Fmt("encoder accepted %zu bytes, decoder status %d", in.size(), (int)st));
  c.Check(written, "write-failed", "decoded model cannot be serialized");
  c.Check(out == in, "not-lossless", Diff(in, out));
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "R01";
  p.rule =
      "A case is a structurally generated JPEG (any mix of features, legal or quirky), in 30% of "
      "the cases damaged by random edits; non-trivial = parser and encoder accepted it and the "
      "decoded output was compared with the original bytes";
  p.quick_cases = 6000 * 4;
  p.thorough_cases = 120000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
