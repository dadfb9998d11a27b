// R05: decoding recovers the encoder's image model exactly.
#include "model.h"

using namespace codec;

static void Prop(Src& s, Case& c) {
  jg::Options o;
  o.huge_one_in = 300;
  o.quirks = s.Bool();
  o.max_blocks = c.thorough ? 900 : 300;
  jg::Jpeg j = jg::Generate(s, o);
  Labels(c, j);
  brunsli::JPEGData m;
  model::FromTruth(j, &m);
  int dc_max = model::Exaggerate(s, c, &m);
  c.Sample(j.Describe() + pbt::Fmt(" version=%d", m.version));
  Bytes brn;
  bool ok = Encode(m, &brn);
  if (!ok && dc_max > 1023) {
    c.Label("dc-not-representable");
    return;
  }
  c.Check(ok, "encoder-refused", "encoder refused a representable model");
  c.NonTrivial();
  c.Key(pbt::Hash(brn));
  c.Attach("stream.brn", brn);
  Exact e(brn);
  brunsli::JPEGData d;
  brunsli::BrunsliStatus st = brunsli::BrunsliDecodeJpeg(e.p.get(), e.n, &d);
  c.Check(st == brunsli::BRUNSLI_OK, "decode-failed", pbt::Fmt("decoder status %d", (int)st));
  std::string diff = truth::Same(d, m);
  c.Check(diff.empty(), "model-differs", "decoded model differs from the encoded one: " + diff);
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "R05";
  p.rule =
      "A case is a JPEGData built directly (not parsed): a generated image plus content no JPEG "
      "file can carry (coefficients of padding blocks up to +-2054, arbitrary scan annotations, "
      "padding bits, markers, tables), in both context-model versions; non-trivial = the encoder "
      "accepted it and every field of the decoded model was compared";
  p.quick_cases = 6000 * 4;
  p.thorough_cases = 120000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
