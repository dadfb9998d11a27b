// R04: parsing then serializing is the identity on accepted bytes.
#include "biglimit.h"
#include "codec.h"
#include "dense.h"

using namespace codec;

static void Same(const Bytes& in, brunsli::JPEGData* jpg, Case& c) {
  c.NonTrivial();
  c.Key(pbt::Hash(in));
  Bytes out;
  c.Check(Write(*jpg, &out), "write-failed", "accepted JPEG cannot be serialized");
  c.Check(out == in, "not-identity", Diff(in, out));
}

static void Prop(Src& s, Case& c) {
  if (s.Chance(1, 250)) {
    Bytes in = dense::Jpeg(s);
    c.Label("mostly 0xFF bytes");
    c.Attach("input.jpg", in);
    c.Sample(pbt::Fmt("%zu bytes, mostly 0xFF", in.size()));
    brunsli::JPEGData jpg;
    c.Check(Read(in, &jpg), "valid-refused", pbt::Fmt("parser error %d", (int)jpg.error));
    Same(in, &jpg, c);
    return;
  }
  jg::Options o;
  o.huge_one_in = 300;
  o.limits_one_in = 80;
  o.max_blocks = c.thorough ? 900 : 350;
  o.late_level = s.Chance(1, 40);
  jg::Jpeg j = jg::Generate(s, o);
  Labels(c, j);
  Bytes in = j.bytes;
  bool mutated = s.Chance(4, 10);
  if (mutated) {
    in = jg::Mutate(s, in, 6);
    c.Label("mutated");
  }
  c.Attach("input.jpg", in);
  c.Sample(j.Describe() + (mutated ? " [mutated]" : ""));
  brunsli::JPEGData jpg;
  if (!Read(in, &jpg)) {
    c.Label("parser-refused");
    return;
  }
  if (mutated) c.Label("mutated-accepted");
  Same(in, &jpg, c);
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "R04";
  p.rule =
      "A case is a structurally generated JPEG, in 40% of the cases damaged by random edits; "
      "non-trivial = the parser accepted it and the serialized bytes were compared";
  p.quick_cases = 12000 * 4;
  p.thorough_cases = 250000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
