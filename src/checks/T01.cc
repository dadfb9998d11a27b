// T01: a truncated Brunsli file is never accepted.
#include "stream.h"

using namespace codec;
using strm::Dec;

static size_t CountHook(void* data, const uint8_t*, size_t n) {
  *static_cast<size_t*>(data) += n;
  return n;
}

static void Prop(Src& s, Case& c) {
  strm::Valid v;
  if (!strm::MakeValid(s, c, &v, s.Chance(1, 10) ? 400 : s.Chance(1, 3) ? 100 : 20)) {
    c.Label("not encodable");
    return;
  }
  const Bytes& full = v.brn;
  c.Attach("stream.brn", full);
  c.Sample(v.what + pbt::Fmt(", stream of %zu bytes", full.size()));
  // Cut points: all of a small stream; else everything around section limits
  // and at the end, plus random ones.
  std::vector<size_t> cuts;
  size_t every = c.thorough ? 3000 : 700;
  if (full.size() <= every) {
    for (size_t i = 0; i < full.size(); ++i) cuts.push_back(i);
    c.Label("all prefixes");
  } else {
    std::vector<strm::Sect> all;
    strm::ParseContainer(full, &all);
    auto near = [&](size_t at) {
      for (size_t i = at < 4 ? 0 : at - 4; i < at + 5 && i < full.size(); ++i) cuts.push_back(i);
    };
    near(0);
    near(full.size());
    for (auto& t : all) {
      near(t.begin);
      near(t.end);
      if (t.wire == 2) near(t.body_at);
    }
    for (int i = 0; i < 150; ++i) cuts.push_back(s.Below((uint32_t)full.size()));
    std::sort(cuts.begin(), cuts.end());
    cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    c.Label("sampled prefixes");
  }
  for (size_t n : cuts) {
    Bytes in(full.begin(), full.begin() + n);
    Exact e(in);
    brunsli::JPEGData jpg;
    brunsli::BrunsliStatus st = brunsli::BrunsliDecodeJpeg(e.p.get(), e.n, &jpg);
    if (st != brunsli::BRUNSLI_NOT_ENOUGH_DATA) {
      c.Attach("prefix.brn", in);
      c.Fail("one-shot", pbt::Fmt("prefix of %zu of %zu bytes: status %d instead of missing data", n, full.size(), (int)st));
    }
    size_t got = 0;
    if (DecodeBrunsli(e.n, e.p.get(), &got, CountHook) != 0) {
      c.Attach("prefix.brn", in);
      c.Fail("c-api", pbt::Fmt("C interface accepts a prefix of %zu of %zu bytes", n, full.size()));
    }
  }
  // Streaming: a few prefixes with random plans, and one bytewise walk that
  // sees every prefix.
  auto stream = [&](size_t n, const strm::Plan& p) {
    Bytes in(full.begin(), full.begin() + n);
    strm::Result r = strm::Run(in, p, [&](const strm::Result& r) {
      if (r.verdict == Dec::DONE || r.verdict == Dec::ERROR)
        throw pbt::Failure{"streaming-verdict",
                           pbt::Fmt("%s after %zu of %zu bytes, plan %s", strm::Name(r.verdict), r.consumed, full.size(),
                                    p.Describe().c_str())};
      if (r.out.size() > v.jpeg.size() ||
          (r.out.size() && memcmp(r.out.data(), v.jpeg.data(), r.out.size())))
        throw pbt::Failure{"streaming-output", pbt::Fmt("wrong output after %zu bytes", r.consumed)};
    });
    if (!r.starved) c.Fail("streaming-verdict", "prefix did not end in a request for input");
  };
  for (int i = 0; i < 4; ++i) {
    size_t n = s.Chance(1, 3) ? cuts[s.Below((uint32_t)cuts.size())] : s.Below((uint32_t)full.size());
    if (i == 0) n = full.size() - 1;
    stream(n, strm::RandomPlan(s, n));
  }
  strm::Plan walk;
  walk.in_style = 1;
  walk.in_param = full.size() > 4000 ? 1 + (uint32_t)full.size() / 2000 : 1;
  stream(full.size() - 1, walk);
  c.Evals(cuts.size() + 4);
  c.NonTrivial();
  c.Key(pbt::Hash(full));
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "T01";
  p.rule =
      "A case is a valid stream with all its strict prefixes (for larger streams those around every "
      "section limit and 150 random ones): one-shot and C decoding of each, bytewise streaming over "
      "all, random plans over some; evaluations count prefixes; non-trivial = a valid stream was cut";
  p.quick_cases = 6000;
  p.thorough_cases = 60000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
