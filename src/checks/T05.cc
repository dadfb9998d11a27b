// T05: the incremental decoder delivers the JPEG as it becomes known.
#include "ref_api.h"
#include "stream.h"

using namespace strm;

static void Prop(Src& s, Case& c) {
  Bytes in;
  int kind = s.Weighted({6, 8, 1, 1});
  std::string what;
  if (kind == 1 || kind == 3) {
    jg::PhotoParams p;
    p.sampling = s.Below(4);
    p.progressive = s.Chance(2, 3);
    p.optimized = s.Bool();
    p.quality = 30 + s.Below(69);
    p.width = 48 + s.Below(250);
    p.height = 64 + s.Below(600);
    if (kind == 3) {
      c.Label("large");
      p.quality = 80 + s.Below(19);
      p.width = 200 + s.Below(600);
      p.height = 200 + s.Below(1000);
    }
    p.seed = s.Seed();
    jg::Jpeg j = jg::Photo(p);
    in = j.bytes;
    what = "photo " + j.Describe();
    c.Label(p.progressive ? "progressive photo" : "baseline photo");
  } else {
    jg::Options o;
    o.max_blocks = s.Chance(1, 3) ? 4000 : 500;
    o.full = s.Bool();
    jg::Jpeg j = jg::Generate(s, o);
    in = j.bytes;
    what = j.Describe();
    c.Label(j.sof == 0xC2 ? "progressive" : "sequential");
  }
  Bytes brn;
  bool bypass = kind == 2;
  int version = s.Chance(1, 3) ? 0 : 2;
  bool wild = s.Chance(1, 6);
  if (bypass) {
    c.Label("bypass");
    if (!ref::EncodeBypass(in, &brn)) return;
  } else if (wild) {
    c.Label("wild");
    if (!ref::EncodeWild(in, version, s.Seed(), &brn)) return;
  } else {
    if (!ref::Encode(in, version, &brn)) return;
  }
  c.Attach("input.jpg", in);
  c.Attach("stream.brn", brn);
  c.Sample(what);
  c.Key(pbt::Hash(brn));
  // Where to look.
  std::vector<size_t> cuts;
  int n = 2 + s.Below(40);
  for (int i = 0; i < n; ++i) {
    // Mostly where the image is.
    size_t from = s.Bool() ? brn.size() / 2 : 0;
    cuts.push_back(from + s.Below((uint32_t)(brn.size() - from)));
  }
  cuts.push_back(brn.size());
  std::sort(cuts.begin(), cuts.end());
  std::vector<size_t> want;
  if (!ref::Progress(brn, cuts, &want)) {
    c.Label("reference-refuses");
    return;
  }
  Dec dec;
  const size_t room = 1 + s.Size(1 << 16);
  // Coefficients are delivered by blocks of 16 KB.
  auto slack = [&](size_t due) { return due > 16384 ? 16384 + 4096 : (size_t)64; };
  size_t pos = 0, made = 0;
  bool early = false, rows = false;
  uint64_t calls = 0;
  Dec::Status st = Dec::NEEDS_MORE_INPUT;
  for (size_t i = 0; i < cuts.size(); ++i) {
    codec::Exact piece(Bytes(brn.begin() + pos, brn.begin() + cuts[i]));
    size_t avail = piece.n;
    const uint8_t* next = piece.p.get();
    size_t got;
    do {
      Bytes out(room);
      size_t ao = room;
      uint8_t* no = out.data();
      st = dec.Decode(&avail, &next, &ao, &no);
      got = no - out.data();
      c.Check(made + got <= in.size() && std::equal(out.data(), no, in.data() + made), "wrong-output",
              pbt::Fmt("bytes %zu to %zu differ", made, made + got));
      made += got;
      c.Check(st != Dec::ERROR, "refused", "valid stream refused");
      c.Check(++calls < 2 * in.size() / room + cuts.size() * 4 + 1000, "no-progress", "too many calls");
    } while (got == room);  // "More input" is said while output waits for room, too
    c.Check(avail == 0, "not-consumed", "input is not consumed");
    pos = cuts[i];
    early |= pos < brn.size() && want[i] > 256;
    rows |= pos < brn.size() && want[i] > 3 * 16384;
    c.Check(made + slack(want[i]) >= want[i], "late",
            pbt::Fmt("given %zu of %zu bytes, %zu of %zu have been delivered, %zu should", pos, brn.size(), made, in.size(), want[i]));
  }
  c.Check(st == Dec::DONE && made == in.size(), "incomplete", "the file is not delivered completely");
  if (rows) c.Label("48 KB early");
  if (early) c.NonTrivial();
  c.Evals(cuts.size());
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "T05";
  // The released decoder delivers the headers once the coded coefficients begin, scans of DC coefficients once these
  // are complete, and the rest at the end.
  p.rule =
      "A case is a valid stream fed up to some tens of random positions; evaluations count the positions; non-trivial "
      "= before the end of the stream more than 256 bytes were due";
  p.quick_cases = 8000;
  p.thorough_cases = 200000;
  p.fn = Prop;
  p.assumptions = {"What is due is what the released incremental decoder delivers, less 64 bytes"};
  return pbt::Main(argc, argv, p);
}
