// F01: format compatibility with the released codec, in both directions.
#include "codec.h"
#include "dense.h"
#include "ref_api.h"

using namespace codec;

static void Prop(Src& s, Case& c) {
  // Streams of big dense images use contexts that others do not.
  bool big = s.Chance(1, 300), huge = big && c.thorough && s.Chance(1, 10);
  int kind = s.Weighted({12, 2, 1});
  Bytes in;
  if (kind == 2) {
    // Bypass files.
    Rng r(s.Seed());
    if (s.Bool()) {
      in = jg::RandomBytes(r, 1 + s.Size(20000), s.Below(4));
    } else {
      jg::Options o;
      o.max_blocks = 100;
      in = jg::Generate(s, o).bytes;
    }
    c.Label("bypass");
    c.Attach("input", in);
    c.Key(pbt::Hash(in));
    c.NonTrivial();
    c.Sample(pbt::Fmt("bypass of %zu bytes", in.size()));
    Bytes a, b, out;
    c.Check(EncodeBypass(in, &a) && ref::EncodeBypass(in, &b), "bypass-encode", "bypass encoding failed");
    c.Check(ref::Decode(a, &out) && out == in, "new-bypass-old-decoder",
            "released decoder does not restore a bypass file of the current encoder");
    bool w;
    c.Check(Decode(b, &out, &w) == brunsli::BRUNSLI_OK && w && out == in, "old-bypass-new-decoder",
            "current decoder does not restore a bypass file of the released encoder");
    return;
  }
  if (big) {
    Rng r(s.Seed());
    in = dense::BigDense(r, huge ? 20000000 : 1100000);
    c.Label("big dense image");
    c.Sample(pbt::Fmt("dense image, %zu bytes", in.size()));
  } else if (kind == 1) {
    jg::PhotoParams p;
    p.width = 8 + s.Below(c.thorough ? 700 : 400);
    p.height = 8 + s.Below(c.thorough ? 700 : 400);
    p.quality = 20 + s.Below(80);
    p.sampling = s.Below(4);
    p.progressive = s.Bool();
    p.optimized = s.Bool();
    p.seed = s.Seed();
    jg::Jpeg j = jg::Photo(p);
    Labels(c, j);
    in = j.bytes;
    c.Label("photo");
    c.Sample("photo " + j.Describe());
  } else {
    jg::Options o;
    o.max_blocks = c.thorough ? 900 : 350;
    jg::Jpeg j = jg::Generate(s, o);
    Labels(c, j);
    in = j.bytes;
    c.Sample(j.Describe());
  }
  c.Attach("input.jpg", in);
  int version = s.Chance(1, 3) ? 0 : 2;
  c.Label(version ? "context-model:new" : "context-model:legacy");

  Bytes old_brn, out;
  bool done = false;
  if (ref::Encode(in, version, &old_brn)) {
    done = true;
    bool w;
    brunsli::BrunsliStatus st = Decode(old_brn, &out, &w);
    c.Check(st == brunsli::BRUNSLI_OK && w, "old-file-refused",
            pbt::Fmt("current decoder refuses a file of the released encoder, status %d", (int)st));
    c.Check(out == in, "old-file-differs",
            "current decoder restores other bytes from a file of the released encoder: " + Diff(in, out));
  }
  brunsli::JPEGData jpg;
  Bytes brn;
  if (Read(in, &jpg)) {
    jpg.version = version;
    if (Encode(jpg, &brn)) {
      done = true;
      c.Check(ref::Decode(brn, &out), "new-file-refused",
              "released decoder refuses a file of the current encoder");
      c.Check(out == in, "new-file-differs",
              "released decoder restores other bytes from a file of the current encoder: " + Diff(in, out));
      c.Label(brn == old_brn ? "same file" : "different file");
    }
  }
  // Streams of the format that the released encoder would not choose.
  Bytes wild;
  int n_wild = big ? 1 : s.Below(4);
  for (int i = 0; i < n_wild; ++i) {
    uint64_t seed = s.Seed();
    if (!ref::EncodeWild(in, version, seed, &wild)) continue;
    if (!ref::Decode(wild, &out)) {
      c.Label("wild:refused by the released decoder");
      continue;
    }
    c.Attach("wild.brn", wild);
    done = true;
    c.Label("wild stream");
    c.Check(out == in, "wild-oracle", "the released decoder restores other bytes from a wild stream: " + Diff(in, out));
    bool w;
    Bytes now;
    brunsli::BrunsliStatus st = Decode(wild, &now, &w);
    c.Check(st == brunsli::BRUNSLI_OK && w, "wild-file-refused",
            pbt::Fmt("current decoder refuses a valid stream, status %d", (int)st));
    c.Check(now == in, "wild-file-differs", "current decoder restores other bytes from a valid stream: " + Diff(in, now));
  }
  if (done) {
    c.NonTrivial();
    c.Key(pbt::Hash(in, version));
  }
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "F01";
  p.rule =
      "A case is a generated JPEG (structural or photo-like) in one context-model version, or a "
      "bypass payload, exchanged between the current codec and a frozen copy of the released one "
      "in both directions; non-trivial = at least one direction was exercised";
  p.quick_cases = 6000;
  p.thorough_cases = 120000;
  p.fn = Prop;
  p.assumptions = {"/verif/ref is the released codec"};
  return pbt::Main(argc, argv, p);
}
