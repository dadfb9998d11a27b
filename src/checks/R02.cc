// R02: every conforming JPEG of the supported class is parsed and encoded.
#include "biglimit.h"
#include "codec.h"

using namespace codec;

static void Prop(Src& s, Case& c) {
  if (s.Chance(1, 8000)) {
    std::string what;
    Bytes in = big::Jpeg(s, false, &what);
    c.Label("as many blocks as supported");
    c.Attach("input.jpg", in);
    c.Sample(what);
    c.NonTrivial();
    c.Key(pbt::Hash(in));
    brunsli::JPEGData jpg;
    c.Check(Read(in, &jpg), "parser-refused", pbt::Fmt("%s refused, error %d", what.c_str(), (int)jpg.error));
    Bytes brn;
    c.Check(Encode(jpg, &brn), "encoder-refused", "encoder refused " + what);
    return;
  }
  jg::Options o;
  o.huge_one_in = 300;
  o.limits_one_in = 60;
  o.quirks = false;
  o.max_blocks = c.thorough ? 900 : 400;
  jg::Jpeg j = jg::Generate(s, o);
  Labels(c, j);
  c.Attach("input.jpg", j.bytes);
  c.Sample(j.Describe());
  if (!j.conforming) {
    c.Label("not-conforming");
    return;
  }
  if (TooMuchPadding(j)) {
    c.Label("too-much-padding");
    return;
  }
  c.NonTrivial();
  c.Key(pbt::Hash(j.bytes));
  brunsli::JPEGData jpg;
  bool ok = Read(j.bytes, &jpg);
  c.Check(ok, "parser-refused",
          pbt::Fmt("conforming JPEG refused, error %d", (int)jpg.error));
  c.Check(jpg.error == brunsli::JPEGReadError::OK, "error-set",
          pbt::Fmt("parse succeeded with error %d", (int)jpg.error));
  Bytes brn;
  c.Check(Encode(jpg, &brn), "encoder-refused", "encoder refused a conforming JPEG");
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "R02";
  p.rule =
      "A case is a generated JPEG; non-trivial = the generator marks it as conforming "
      "(only legal syntax, in-range coefficients, complete scan script)";
  p.quick_cases = 8000 * 4;
  p.thorough_cases = 150000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
