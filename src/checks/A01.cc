// A01: the C interface agrees with the C++ interface and honours its sinks.
#include "stream.h"

using namespace codec;

// A sink with its own idea of how much to consume.
struct Sink {
  Bytes out;
  std::vector<size_t> sizes;
  int fail_at = -1;  // call that misbehaves
  int how = 0;       // 0 zero, 1 one less, 2 one more, 3 half, 4 huge
  int calls = 0, calls_after_failure = 0;
  bool failed = false;
  int user_space[3] = {1, 2, 3};
  static size_t Fn(void* data, const uint8_t* buf, size_t n) {
    Sink* s = static_cast<Sink*>(data);
    if (s->failed) ++s->calls_after_failure;
    int k = s->calls++;
    s->sizes.push_back(n);
    if (k == s->fail_at && n > 0) {
      s->failed = true;
      size_t r = 0;
      switch (s->how) {
        case 1: r = n - 1; break;
        case 2: r = n + 1; break;
        case 3: r = n / 2; break;
        case 4: r = (size_t)-1; break;
      }
      return r;
    }
    s->out.insert(s->out.end(), buf, buf + n);
    return n;
  }
};

static void Prop(Src& s, Case& c) {
  jg::Options o;
  o.max_blocks = s.Chance(1, 4) ? 600 : 60;
  jg::Jpeg j = jg::Generate(s, o);
  Labels(c, j);
  Bytes in = j.bytes;
  int damage = s.Weighted({6, 3, 1});
  if (damage == 1) in = jg::Mutate(s, in, 5);
  if (damage == 2) in.resize(s.Below((uint32_t)in.size() + 1));
  c.Attach("input.jpg", in);
  c.Sample(j.Describe());
  Exact e(in);
  // --- encoding
  Bytes want;
  bool ok;
  {
    brunsli::JPEGData d;
    ok = Read(in, &d) && Encode(d, &want);
  }
  {
    Sink k;
    int r = EncodeBrunsli(e.n, e.p.get(), &k, Sink::Fn);
    c.Check(r == (ok ? 1 : 0), "encode-verdict", pbt::Fmt("C encoder returns %d, C++ %s", r, ok ? "accepts" : "refuses"));
    if (ok) c.Check(k.out == want, "encode-bytes", Diff(k.out, want));
    if (!ok) c.Check(k.calls == 0, "encode-output-on-failure", "sink called for a refused input");
    if (ok && k.calls > 0) {
      Sink f;
      f.fail_at = s.Below(k.calls);
      f.how = s.Below(5);
      r = EncodeBrunsli(e.n, e.p.get(), &f, Sink::Fn);
      if (f.failed) {
        c.Label(pbt::Fmt("encode sink fault %d", f.how));
        c.Check(r == 0, "encode-sink-ignored",
                pbt::Fmt("sink consumed another number of bytes (mode %d), encoder returned %d", f.how, r));
        c.Check(f.calls_after_failure == 0, "encode-sink-recalled", "sink called again after its failure");
      }
    }
  }
  // --- decoding
  Bytes brn = want;
  if (!ok) {
    c.Label("refused");
    c.NonTrivial();
    c.Key(pbt::Hash(in));
    if (!EncodeBypass(in.empty() ? Bytes(1, 7) : in, &brn)) return;
  }
  int kind = s.Weighted({6, 3, 1});
  if (kind == 1) brn = jg::Mutate(s, brn, 4);
  if (kind == 2) brn.resize(s.Below((uint32_t)brn.size() + 1));
  c.Attach("stream.brn", brn);
  Bytes jpg;
  bool written;
  brunsli::BrunsliStatus st = Decode(brn, &jpg, &written);
  bool good = st == brunsli::BRUNSLI_OK && written;
  Exact b(brn);
  Sink k;
  int r = DecodeBrunsli(b.n, b.p.get(), &k, Sink::Fn);
  c.Check(r == (good ? 1 : 0), "decode-verdict",
          pbt::Fmt("C decoder returns %d, C++ status %d written %d", r, (int)st, (int)written));
  if (good) c.Check(k.out == jpg, "decode-bytes", Diff(k.out, jpg));
  if (good && kind == 0 && ok) c.Check(jpg == in, "decode-bytes", Diff(jpg, in));
  if (st != brunsli::BRUNSLI_OK) c.Check(k.calls == 0, "decode-output-on-failure", "sink called for a refused stream");
  if (good && k.calls > 0) {
    c.Label(k.calls > 1 ? "several sink calls" : "one sink call");
    int tries = 1 + s.Below(3);
    for (int i = 0; i < tries; ++i) {
      Sink f;
      f.fail_at = s.Below(k.calls);
      f.how = s.Below(5);
      r = DecodeBrunsli(b.n, b.p.get(), &f, Sink::Fn);
      if (!f.failed) continue;
      c.Label(pbt::Fmt("decode sink fault %d", f.how));
      c.Check(r == 0, "decode-sink-ignored",
              pbt::Fmt("sink consumed another number of bytes at call %d of %d (mode %d), decoder returned %d", f.fail_at,
                       k.calls, f.how, r));
      c.Check(f.calls_after_failure == 0, "decode-sink-recalled", "sink called again after its failure");
    }
  }
  c.NonTrivial();
  c.Key(pbt::Hash(in));
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "A01";
  p.rule =
      "A case is a JPEG (possibly damaged) through EncodeBrunsli and a stream (possibly damaged) "
      "through DecodeBrunsli, compared with the C++ interface, and repeated with sinks that "
      "consume too few or too many bytes at a random call; every completed case is non-trivial";
  p.quick_cases = 8000;
  p.thorough_cases = 120000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
