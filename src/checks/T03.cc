// T03: streaming decoding equals one-shot decoding for every chunking.
#include "stream.h"

using namespace codec;
using strm::Dec;

static void Prop(Src& s, Case& c) {
  strm::Valid v;
  uint32_t blocks = s.Chance(1, 12) ? (c.thorough ? 1500 : 900) : s.Chance(1, 3) ? 200 : 40;
  if (!strm::MakeValid(s, c, &v, blocks)) {
    c.Label("not encodable");
    return;
  }
  Bytes in = v.brn;
  int kind = s.Weighted({6, 3, 1, 2});
  if (kind == 1) {
    in = jg::Mutate(s, in, 4);
    c.Label("stream:mutated");
  } else if (kind == 2) {
    Rng r(s.Seed());
    int n = 1 + s.Below(3000);
    Bytes t = jg::RandomBytes(r, n, s.Below(4));
    in.insert(in.end(), t.begin(), t.end());
    c.Label("stream:trailing");
  } else if (kind == 3) {
    // Sections in another order, some left out, some unknown ones added.
    std::vector<strm::Sect> t;
    strm::ParseContainer(in, &t);
    if (!t.empty() && t[0].tag == 2 && s.Chance(9, 10)) {
      for (int n = 1 + s.Below(2); n > 0 && t.size() > 2; --n) {
        size_t a = 1 + s.Below((uint32_t)t.size() - 1), b = 1 + s.Below((uint32_t)t.size() - 1);
        strm::Sect x = t[a];
        t.erase(t.begin() + a);
        if (!s.Chance(1, 12)) t.insert(t.begin() + b, x);
      }
    }
    if (s.Chance(1, 3)) {
      strm::Sect u;
      u.tag = 10 + s.Below(6);
      Rng r(s.Seed());
      u.body = jg::RandomBytes(r, s.Size(2000), s.Below(4));
      t.insert(t.begin() + s.Below((uint32_t)t.size() + 1), u);
    }
    in = strm::Build(t);
    c.Label("stream:rearranged");
  } else {
    c.Label("stream:valid");
  }
  c.Attach("stream.brn", in);
  c.Sample(v.what);
  Bytes one;
  bool written;
  brunsli::BrunsliStatus st = Decode(in, &one, &written);
  bool accept = st == brunsli::BRUNSLI_OK && written;
  if (kind == 0) c.Check(accept && one == v.jpeg, "one-shot", "one-shot decoding does not restore the JPEG");
  int plans = 1 + s.Below(3);
  for (int i = 0; i < plans; ++i) {
    strm::Plan p = strm::RandomPlan(s, in);
    strm::Result r = strm::Run(in, p, [&](const strm::Result& r) {
      if (accept && (r.out.size() > one.size() ||
                     (r.out.size() && memcmp(r.out.data(), one.data(), r.out.size()))))
        throw pbt::Failure{"output-differs", pbt::Fmt("output is no prefix of the JPEG after %zu bytes of input, plan %s",
                                                      r.consumed, p.Describe().c_str())};
    });
    std::string desc = pbt::Fmt("one-shot status %d written %d, streaming %s after %zu of %zu bytes, plan %s", (int)st,
                                (int)written, strm::Name(r.verdict), r.consumed, in.size(), p.Describe().c_str());
    c.Check((r.verdict == Dec::DONE) == accept, "verdict-differs", desc);
    if (st != brunsli::BRUNSLI_OK && st != brunsli::BRUNSLI_NOT_ENOUGH_DATA)
      c.Check(r.verdict == Dec::ERROR, "verdict-differs", desc);
    if (st == brunsli::BRUNSLI_OK && !written) c.Check(r.verdict == Dec::ERROR, "verdict-differs", desc);
    if (accept) c.Check(r.out == one, "output-differs", desc);
    c.Sum("calls", (double)r.calls);
  }
  c.Evals(plans - 1);
  c.Label(accept ? "accepted" : st == brunsli::BRUNSLI_NOT_ENOUGH_DATA ? "one-shot:not-enough" : "one-shot:error");
  c.NonTrivial();
  c.Key(pbt::Hash(in));
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "T03";
  p.rule =
      "A case is a Brunsli stream (valid, damaged, or followed by garbage) decoded in one shot and "
      "by 1-3 random feeding plans (input cut anywhere, output space of any size, buffers freed "
      "after each call); non-trivial = verdicts and outputs were compared";
  p.quick_cases = 30000;
  p.thorough_cases = 400000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
