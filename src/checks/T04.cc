// T04: the streaming protocol is sound at every call, for any stream.
#include "stream.h"

using namespace codec;
using strm::Dec;

static Bytes Edit(Src& s, Case& c, const strm::Valid& v) {
  int kind = s.Weighted({4, 3, 3, 2, 1});
  Bytes in = v.brn;
  switch (kind) {
    case 1:
      c.Label("stream:mutated");
      return jg::Mutate(s, in, 6);
    case 2: {
      // Damage inside one section, keeping the container intact.
      std::vector<strm::Sect> all;
      if (!strm::ParseContainer(in, &all) || all.empty()) return in;
      c.Label("stream:section-damage");
      strm::Sect& t = all[s.Below((uint32_t)all.size())];
      if (!t.body.empty()) t.body = jg::Mutate(s, t.body, 3);
      return strm::Build(all);
    }
    case 3:
      c.Label("stream:truncated");
      in.resize(s.Below((uint32_t)in.size() + 1));
      return in;
    case 4: {
      c.Label("stream:noise");
      Rng r(s.Seed());
      Bytes t = jg::RandomBytes(r, s.Size(2000), s.Below(4));
      if (s.Bool()) t.insert(t.begin(), in.begin(), in.begin() + std::min<size_t>(in.size(), s.Below(40)));
      return t;
    }
  }
  c.Label("stream:valid");
  return in;
}

static void Prop(Src& s, Case& c) {
  strm::Valid v;
  if (!strm::MakeValid(s, c, &v, s.Chance(1, 10) ? 500 : s.Chance(1, 3) ? 120 : 30)) {
    c.Label("not encodable");
    return;
  }
  Bytes in = Edit(s, c, v);
  c.Attach("stream.brn", in);
  c.Sample(v.what);
  int plans = 1 + s.Below(3);
  Bytes first;
  Dec::Status verdict = Dec::ERROR;
  for (int i = 0; i < plans; ++i) {
    strm::Plan p = strm::RandomPlan(s, in);
    strm::Result r = strm::Run(in, p);
    c.Sum("calls", (double)r.calls);
    // The stream, not its cutting, decides the verdict and all output.
    if (i == 0) {
      first = r.out;
      verdict = r.verdict;
    } else {
      c.Check(r.verdict == verdict, "verdict-depends-on-cutting",
              pbt::Fmt("%s, then %s with plan %s", strm::Name(verdict), strm::Name(r.verdict), p.Describe().c_str()));
      if (verdict != Dec::ERROR) {
        c.Check(r.out == first, "output-depends-on-cutting", Diff(r.out, first));
      } else {
        size_t n = std::min(r.out.size(), first.size());
        c.Check(n == 0 || memcmp(r.out.data(), first.data(), n) == 0, "output-depends-on-cutting", Diff(r.out, first));
      }
    }
  }
  c.Evals(plans - 1);
  c.Label(std::string("verdict:") + strm::Name(verdict));
  c.NonTrivial();
  c.Key(pbt::Hash(in));
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "T04";
  p.rule =
      "A case is a stream (valid, damaged anywhere or inside one section, truncated, noise) fed by "
      "1-3 random plans; every call's cursors, demands, progress and finality are monitored, and "
      "each call uses fresh buffers that are overwritten and freed afterwards; non-trivial = the "
      "stream was fed to the end or to a final verdict";
  p.quick_cases = 40000;
  p.thorough_cases = 500000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
