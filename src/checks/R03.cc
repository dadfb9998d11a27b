// R03: parsing recovers exactly what the file encodes, in all read modes.
#include "truth.h"

using namespace codec;

static void Prop(Src& s, Case& c) {
  jg::Options o;
  o.huge_one_in = 300;
  o.quirks = s.Chance(1, 3);
  o.max_blocks = c.thorough ? 1200 : 400;
  jg::Jpeg j = jg::Generate(s, o);
  Labels(c, j);
  c.Attach("input.jpg", j.bytes);
  c.Sample(j.Describe());
  brunsli::JPEGData full;
  if (!Read(j.bytes, &full)) {
    // Acceptance is another property.
    c.Label("parser-refused");
    return;
  }
  c.NonTrivial();
  c.Key(pbt::Hash(j.bytes));
  std::string e = truth::All(full, j);
  c.Check(e.empty(), "wrong-content", "full parse differs from the file: " + e);

  brunsli::JPEGData head;
  c.Check(Read(j.bytes, &head, brunsli::JPEG_READ_HEADER), "header-mode-refused",
          pbt::Fmt("header-only parse refused a file full parsing accepts, error %d", (int)head.error));
  c.Check(head.width == j.width && head.height == j.height, "header-mode-size",
          pbt::Fmt("header-only parse says %dx%d, file is %dx%d", head.width, head.height, j.width, j.height));
  if (!j.conforming) return;  // bytes between markers are only meaningful to a full parse

  brunsli::JPEGData tab;
  c.Check(Read(j.bytes, &tab, brunsli::JPEG_READ_TABLES), "tables-mode-refused",
          pbt::Fmt("tables-only parse refused a conforming file, error %d", (int)tab.error));
  c.Label("tables-mode");
  e = truth::Geometry(tab, j);
  c.Check(e.empty(), "tables-mode-geometry", "tables-only parse: " + e);
  e = truth::Quants(tab, j);
  c.Check(e.empty(), "tables-mode-quant", "tables-only parse: " + e);
  e = truth::Huffs(tab, j);
  c.Check(e.empty(), "tables-mode-huffman", "tables-only parse: " + e);
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "R03";
  p.rule =
      "A case is a generated JPEG with known content; non-trivial = full parsing accepted it and "
      "every field and coefficient was compared with the generator's truth (conforming files also "
      "in tables-only mode)";
  p.quick_cases = 10000 * 4;
  p.thorough_cases = 200000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
