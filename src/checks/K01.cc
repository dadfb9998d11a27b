// K01: builds of the codec for other platforms and purposes behave the same.
#include "codec.h"
#include "hostile.h"
#include "hostile_gen.h"
#include "kinds/api.h"
#include "ref_api.h"

#include <iostream>

using namespace codec;
using kinds::Api;

extern const Api kind_plain, kind_portable, kind_debug, kind_x87;
static const Api* const kAll[] = {&kind_plain, &kind_portable, &kind_debug, &kind_x87};
// Floating point arithmetic may guide what the encoder chooses.
static bool SameChoices(const Api* a) { return a != &kind_x87; }

static void Put(void* to, const uint8_t* d, size_t n) {
  Bytes* b = static_cast<Bytes*>(to);
  b->insert(b->end(), d, d + n);
}

struct Cuts {
  size_t in, out;
};
static Cuts RandomCuts(Src& s, size_t n) {
  Cuts c;
  c.in = s.Chance(1, 3) ? 1 + s.Below(8) : 1 + s.Below((uint32_t)std::min<size_t>(n + 1, 5000));
  c.out = s.Chance(1, 3) ? 1 + s.Below(8) : 1 + s.Below(70000);
  if (n > 20000) c.in = std::max<size_t>(c.in, 50), c.out = std::max<size_t>(c.out, 50);
  return c;
}

// Damaged or foreign data: everything must agree.
static void Agree(Src& s, Case& c, const Bytes& b, const std::string& what) {
  Exact e(b);
  Cuts cut = RandomCuts(s, b.size());
  struct Seen {
    int st, sst, cst;
    size_t mem;
    Bytes o, so, co;
  } first;
  for (const Api* k : kAll) {
    Seen n;
    n.st = k->decode(e.p.get(), e.n, &n.o, Put);
    n.sst = k->stream(e.p.get(), e.n, cut.in, cut.out, &n.so, Put);
    n.cst = k->c_decode(e.p.get(), e.n, &n.co, Put);
    n.mem = k->memory(e.p.get(), e.n);
    if (k == kAll[0]) {
      first = n;
      c.Label(pbt::Fmt("%s:status %d", what.c_str(), n.st));
      continue;
    }
    c.Check(n.st == first.st && n.o == first.o, "decode",
            pbt::Fmt("one-shot decoding of a damaged stream (%s) differs in the %s build: status %d, else %d; %s",
                     what.c_str(), k->name, n.st, first.st, Diff(first.o, n.o).c_str()));
    c.Check(n.sst == first.sst && n.so == first.so, "stream",
            pbt::Fmt("streaming a damaged stream (%s) differs in the %s build: status %d, else %d; %s", what.c_str(), k->name,
                     n.sst, first.sst, Diff(first.so, n.so).c_str()));
    c.Check(n.cst == first.cst && n.co == first.co, "c-decode",
            pbt::Fmt("the C interface decodes a damaged stream (%s) differently in the %s build", what.c_str(), k->name));
    c.Check(n.mem == first.mem, "estimate", pbt::Fmt("the memory estimate differs in the %s build", k->name));
  }
}

static void Restores(Src& s, Case& c, const Bytes& in, const Bytes& brn, const std::string& who) {
  Exact e(brn);
  Cuts cut = RandomCuts(s, brn.size());
  for (const Api* k : kAll) {
    Bytes o;
    int st = k->decode(e.p.get(), e.n, &o, Put);
    c.Check(st == (int)brunsli::BRUNSLI_OK && o == in, "restore",
            pbt::Fmt("a file of %s is not restored by the %s build, status %d: %s", who.c_str(), k->name, st,
                     Diff(in, o).c_str()));
    o.clear();
    st = k->stream(e.p.get(), e.n, cut.in, cut.out, &o, Put);
    c.Check(st == (int)brunsli::BrunsliDecoder::DONE && o == in, "restore-streaming",
            pbt::Fmt("a file of %s is not restored by streaming in the %s build, status %d: %s", who.c_str(), k->name, st,
                     Diff(in, o).c_str()));
  }
}

static void Prop(Src& s, Case& c) {
  Bytes in;
  int kind = s.Weighted({8, 1, 1, 2});
  if (kind == 1) {
    jg::PhotoParams p;
    p.width = 8 + s.Below(250);
    p.height = 8 + s.Below(250);
    p.quality = 20 + s.Below(80);
    p.sampling = s.Below(4);
    p.progressive = s.Bool();
    p.optimized = s.Bool();
    p.seed = s.Seed();
    jg::Jpeg j = jg::Photo(p);
    Labels(c, j);
    in = j.bytes;
    c.Sample("photo " + j.Describe());
  } else if (kind == 2) {
    Rng r(s.Seed());
    in = jg::RandomBytes(r, 1 + s.Size(3000), s.Below(4));
    c.Label("bytes");
  } else {
    jg::Options o;
    o.max_blocks = c.thorough ? 400 : 150;
    jg::Jpeg j = jg::Generate(s, o);
    Labels(c, j);
    in = j.bytes;
    if (kind == 3) in = jg::Mutate(s, in, 3), c.Label("damaged jpeg");
    c.Sample(j.Describe());
  }
  c.Attach("input.jpg", in);
  if (hostile::ClaimedJpegBlocks(in.data(), in.size()) > 100000) return;
  Exact e(in);
  const int version = s.Chance(1, 3) ? 0 : 2;
  c.Label(version ? "context-model:new" : "context-model:legacy");

  Bytes made[4], again;
  int st[4];
  bool rewritten0 = false;
  Bytes text0;
  for (int i = 0; i < 4; ++i) {
    const Api* k = kAll[i];
    st[i] = k->encode(e.p.get(), e.n, version, &made[i], Put);
    c.Check(st[i] == st[0], "encode-verdict",
            pbt::Fmt("encoding ends with %d in the %s build, else with %d", st[i], k->name, st[0]));
    if (SameChoices(k))
      c.Check(made[i] == made[0], "encode-bytes",
              pbt::Fmt("the %s build makes another file: %s", k->name, Diff(made[0], made[i]).c_str()));
    Bytes text;
    bool rewritten = k->rewrite(e.p.get(), e.n, &text, Put);
    if (i == 0) rewritten0 = rewritten, text0 = text;
    c.Check(rewritten == rewritten0 && text == text0, "rewrite",
            pbt::Fmt("parsing and serializing differs in the %s build", k->name));
    Bytes viac;
    int cst = k->c_encode(e.p.get(), e.n, &viac, Put);
    if (version == 0) {
      c.Check((cst == 1) == (st[i] == 0), "c-encode", pbt::Fmt("the C interface disagrees in the %s build", k->name));
    }
  }
  c.Key(pbt::Hash(in, version));
  if (st[0] == 0) {
    c.Label("encoded");
    c.NonTrivial();
    c.Attach("plain.brn", made[0]);
    Restores(s, c, in, made[0], "the plain build");
    if (made[3] != made[0]) {
      c.Label("x87 chose otherwise");
      Restores(s, c, in, made[3], "the x87 build");
    }
    Bytes wild, o;
    if (s.Chance(1, 3) && ref::EncodeWild(in, version, s.Seed(), &wild) && ref::Decode(wild, &o) && o == in) {
      c.Label("wild stream");
      c.Attach("wild.brn", wild);
      Restores(s, c, in, wild, "a free encoder");
    }
    int n = s.Below(4);
    for (int i = 0; i < n; ++i) {
      std::string what;
      Bytes bad = hostile::MutateStream(s, made[0], nullptr, &what);
      if (hostile::ClaimedBlocks(bad.data(), bad.size()) > 100000) continue;
      c.Attach("damaged.brn", bad);
      Agree(s, c, bad, what);
    }
  } else {
    c.Label("refused");
  }
  if (s.Chance(1, 4) && !in.empty()) {
    Bytes first;
    for (const Api* k : kAll) {
      Bytes b;
      c.Check(k->bypass(e.p.get(), e.n, &b, Put), "bypass", "bypass encoding failed");
      if (k == kAll[0]) first = b;
      c.Check(b == first, "bypass-bytes", pbt::Fmt("the %s build makes another bypass file", k->name));
    }
    c.Label("bypass");
    c.NonTrivial();
    Restores(s, c, in, first, "bypass");
  }
}

struct Null : std::streambuf {
  int overflow(int ch) override { return ch; }
};

int main(int argc, char** argv) {
  static Null null;
  std::cerr.rdbuf(&null);  // The debug build logs.
  pbt::Property p;
  p.id = "K01";
  p.rule =
      "A case is a generated JPEG, damaged JPEG or other data, encoded by every build of the codec, with "
      "every product decoded by every build, and damaged streams decoded by all; non-trivial = a Brunsli file was made";
  p.quick_cases = 5000;
  p.thorough_cases = 60000;
  p.fn = Prop;
  p.assumptions = {"The plain build is the one the other checks use",
                   "Big-endian processors and 32-bit address spaces are not available here"};
  return pbt::Main(argc, argv, p);
}
