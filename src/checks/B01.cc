// B01: bypass mode carries any bytes unchanged.
#include "stream.h"

using namespace codec;
using strm::Dec;

static void Prop(Src& s, Case& c) {
  Bytes in;
  Rng r(s.Seed());
  int kind = s.Weighted({3, 3, 2, 2, 1, 1});
  switch (kind) {
    case 0: in = jg::RandomBytes(r, 1 + s.Size(4000), s.Below(4)); break;
    case 1: {
      jg::Options o;
      o.max_blocks = 60;
      in = jg::Generate(s, o).bytes;
      c.Label("jpeg");
      break;
    }
    case 2: {
      jg::Options o;
      o.max_blocks = 40;
      in = jg::Mutate(s, jg::Generate(s, o).bytes, 8);
      if (in.empty()) in.push_back(0);
      c.Label("damaged jpeg");
      break;
    }
    case 3: {
      // Prefix of a JPEG, cut near the frame header.
      jg::Options o;
      o.max_blocks = 20;
      jg::Jpeg j = jg::Generate(s, o);
      in = j.bytes;
      size_t n = s.Bool() ? 1 + s.Below((uint32_t)in.size()) : std::min(in.size(), j.sof_pos + s.Below(30));
      in.resize(std::max<size_t>(1, n));
      c.Label("cut jpeg");
      break;
    }
    case 4: {
      // Varint boundaries of the payload size.
      static const size_t kEdge[] = {1, 2, 127, 128, 129, 16383, 16384, 16385};
      in = jg::RandomBytes(r, kEdge[s.Below(8)], s.Below(4));
      c.Label("size edge");
      break;
    }
    default:
      in = jg::RandomBytes(r, s.Chance(1, c.thorough ? 10 : 40) ? 2097150 + s.Below(5) : 1 + s.Size(300000), s.Below(4));
      c.Label("large");
  }
  c.Attach("payload", in);
  c.Sample(pbt::Fmt("%zu bytes %s", in.size(), pbt::Hex(in, 16).c_str()));
  const size_t max = brunsli::GetBrunsliBypassSize(in.size());
  // A buffer of exactly the advertised size, without spare bytes.
  std::unique_ptr<uint8_t[]> buf(new uint8_t[max]);
  size_t len = max;
  Exact e(in);
  c.Check(brunsli::BrunsliEncodeJpegBypass(e.p.get(), e.n, buf.get(), &len), "encode-failed", "bypass encoding failed");
  c.Check(len <= max, "size", pbt::Fmt("%zu bytes written, %zu advertised", len, max));
  Bytes brn(buf.get(), buf.get() + len);
  buf.reset();
  c.Attach("stream.brn", brn);
  c.Check(brunsli::IsBrunsli(brn.data(), brn.size()), "signature", "not recognized as Brunsli");
  // One-shot.
  Bytes out;
  bool written;
  brunsli::BrunsliStatus st = Decode(brn, &out, &written);
  c.Check(st == brunsli::BRUNSLI_OK && written, "one-shot", pbt::Fmt("status %d written %d", (int)st, (int)written));
  c.Check(out == in, "one-shot-bytes", Diff(out, in));
  // C interface.
  OutSink sink;
  Exact b(brn);
  c.Check(DecodeBrunsli(b.n, b.p.get(), &sink, OutHook) == 1, "c-api", "C decoder failed");
  c.Check(sink.out == in, "c-api-bytes", Diff(sink.out, in));
  // Streaming.
  for (int i = 0; i < 2; ++i) {
    strm::Plan p = strm::RandomPlan(s, brn);
    if (brn.size() > 20000) {
      p.in_param += 200;
      p.out_param += 200;
      if (p.in_style == 3) p.in_style = 0;
      if (p.out_style == 3) p.out_style = 0;
    }
    strm::Result r2 = strm::Run(brn, p);
    c.Check(r2.verdict == Dec::DONE, "streaming", strm::Name(r2.verdict));
    c.Check(r2.out == in, "streaming-bytes", Diff(r2.out, in) + " plan " + p.Describe());
  }
  c.Key(pbt::Hash(in));
  c.NonTrivial();
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "B01";
  p.rule =
      "A case is a non-empty payload (noise, whole, damaged or cut JPEG, size at a varint limit) "
      "bypass-encoded into a buffer of exactly the advertised size and restored by one-shot, C and "
      "two random streaming plans; every completed case is non-trivial";
  p.quick_cases = 30000;
  p.thorough_cases = 300000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
