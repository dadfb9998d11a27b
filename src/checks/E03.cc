// E03: permutation codes, bit input/output, the adaptive binary coder and the
// prediction of quantization matrices are exact inverses.
#include "endtoend.h"

#ifndef NO_INTERNALS
#include "common/constants.h"
#include "common/distributions.h"
#include "common/lehmer_code.h"
#include "common/quant_matrix.h"
#include "dec/arith_decode.h"
#include "dec/bit_reader.h"
#include "dec/brunsli_input.h"
#include "enc/write_bits.h"
#endif

using namespace codec;

#ifndef NO_INTERNALS

using namespace brunsli;

typedef std::vector<uint32_t> U32;

static void Lehmer(Src& s, Case& c) {
  size_t n = s.Chance(1, 3) ? 64 : 1 + s.Size(300);
  pbt::Rng r(s.Seed());
  U32 p(n);
  for (size_t i = 0; i < n; ++i) p[i] = (uint32_t)i;
  int kind = s.Below(4);
  if (kind == 1)
    for (size_t i = n; i-- > 1;) std::swap(p[i], p[r.Below((uint32_t)i + 1)]);
  if (kind == 2) std::reverse(p.begin(), p.end());
  if (kind == 3)
    for (int k = s.Below(8); k-- > 0;) std::swap(p[s.Below((uint32_t)n)], p[s.Below((uint32_t)n)]);
  c.Label("lehmer");
  c.Key(pbt::Hash(p.data(), 4 * n));
  c.Sample(pbt::Fmt("permutation of %zu", n));
  U32 code(n, 0xFFFFFFFF), back(n, 0xFFFFFFFF);
  ComputeLehmerCode(p.data(), n, code.data());
  for (size_t i = 0; i < n; ++i) {
    // Number of later values that are smaller.
    uint32_t smaller = 0;
    for (size_t k = i + 1; k < n; ++k) smaller += p[k] < p[i];
    c.Check(code[i] == smaller, "lehmer-code", pbt::Fmt("position %zu: %u instead of %u", i, code[i], smaller));
  }
  c.Check(DecodeLehmerCode(code.data(), n, back.data()), "lehmer-refused", "");
  c.Check(back == p, "lehmer-differs", "");
  // Any code is either refused or one permutation that codes to it.
  U32 any(n);
  bool legal = true;
  for (size_t i = 0; i < n; ++i) {
    any[i] = r.Chance(1, 3) ? 0 : r.Below((uint32_t)(n - i));
    if (r.Chance(1, 500)) any[i] = (uint32_t)(n - i) + r.Below(3);
    if (r.Chance(1, 3000)) any[i] = 0xFFFFFFFFu - r.Below(2);
    legal = legal && any[i] < n - i;
  }
  bool ok = DecodeLehmerCode(any.data(), n, back.data());
  c.Check(ok == legal, legal ? "lehmer-refused" : "lehmer-illegal-accepted", "");
  if (ok) {
    ComputeLehmerCode(back.data(), n, code.data());
    c.Check(code == any, "lehmer-not-bijective", "");
  }
  c.NonTrivial();
  c.Evals(1);
}

static void Permutations(Src& s, Case& c) {
  c.Label("permutation-coder");
  pbt::Rng r(s.Seed());
  int n = 1 + s.Below(256);
  std::vector<uint8_t> values(256);
  for (int i = 0; i < 256; ++i) values[i] = (uint8_t)i;
  for (int i = 255; i > 0; --i) std::swap(values[i], values[r.Below(i + 1)]);
  values.resize(n);
  c.Key(pbt::Hash(values));
  c.Sample(pbt::Fmt("coder over %d values", n));
  PermutationCoder a, b;
  a.Init(values);
  b.Init(values);
  std::vector<uint8_t> left = values;
  int steps = s.Below(n + 1);
  for (int k = 0; k < steps; ++k) {
    int want_bits = 0;
    while ((1 << want_bits) < (int)left.size()) ++want_bits;
    c.Check(a.num_bits() == want_bits && b.num_bits() == want_bits, "code-width",
            pbt::Fmt("%d and %d bits for %zu values", a.num_bits(), b.num_bits(), left.size()));
    if (r.Chance(1, 10)) {
      uint8_t v = (uint8_t)r.Below(256);
      int code, bits;
      if (std::find(left.begin(), left.end(), v) == left.end())
        c.Check(!a.RemoveValue(v, &code, &bits), "absent-value-coded", pbt::Fmt("%d", v));
      uint8_t got;
      c.Check(!b.Remove(left.size() + r.Below(5), &got), "illegal-code-accepted", "");
    }
    uint8_t v = left[r.Chance(1, 3) ? 0 : r.Chance(1, 2) ? left.size() - 1 : r.Below((uint32_t)left.size())];
    int code = -1, bits = -1;
    c.Check(a.RemoveValue(v, &code, &bits), "value-refused", pbt::Fmt("%d", v));
    c.Check(bits == want_bits && code >= 0 && code < (int)left.size() && code < (1 << bits), "code-range",
            pbt::Fmt("code %d in %d bits", code, bits));
    uint8_t got = (uint8_t)~v;
    c.Check(b.Remove((size_t)code, &got) && got == v, "value-differs", pbt::Fmt("%d instead of %d", got, v));
    left.erase(std::find(left.begin(), left.end(), v));
  }
  if (left.empty()) {
    uint8_t got;
    c.Check(!b.Remove(0, &got), "illegal-code-accepted", "");
  }
  c.NonTrivial();
}

// Bits written are the bits read, for any widths on both sides and any
// partition of the data.
static void BitIo(Src& s, Case& c) {
  c.Label("bits");
  pbt::Rng r(s.Seed());
  int n = 1 + s.Size(400);
  std::vector<uint8_t> model;  // One bit each.
  Bytes buf((size_t)n * 8 + 64);
  pbt::Rng fill(7);
  for (auto& v : buf) v = (uint8_t)fill.Next();
  int style = s.Below(4);
  size_t bytes;
  {
    Storage st(buf.data(), buf.size());
    for (int i = 0; i < n; ++i) {
      int w = style == 0 ? r.Range(0, 8) : style == 1 ? 1 : style == 2 ? r.Range(0, 56) : r.Chance(1, 2) ? 56 : r.Range(0, 3);
      uint64_t v = r.Next();
      if (r.Chance(1, 4)) v = ~0ull;
      if (r.Chance(1, 8)) v = 0;
      v &= w == 0 ? 0 : ~0ull >> (64 - w);
      WriteBits(w, v, &st);
      for (int k = 0; k < w; ++k) model.push_back(v >> k & 1);
      c.Check(st.pos == model.size(), "write-position", pbt::Fmt("%zu instead of %zu", st.pos, model.size()));
      if (r.Chance(1, 12)) {
        // Padding and whole bytes.
        while (model.size() & 7) {
          WriteBits(1, 0, &st);
          model.push_back(0);
        }
        Bytes raw(r.Below(6));
        if (st.GetBytesUsed() + raw.size() + 16 > buf.size()) continue;
        for (auto& x : raw) {
          x = (uint8_t)r.Next();
          for (int k = 0; k < 8; ++k) model.push_back(x >> k & 1);
        }
        st.AppendBytes(raw.data(), raw.size());
        // The next writes combine with the byte at the end.
        if (st.GetBytesUsed() < buf.size()) buf[st.GetBytesUsed()] = 0;
      }
      if (model.size() / 8 + 24 > buf.size()) break;
    }
    bytes = st.GetBytesUsed();
    c.Check(bytes == (model.size() + 7) / 8, "bytes-used", pbt::Fmt("%zu", bytes));
  }
  buf.resize(bytes);
  buf.shrink_to_fit();
  bool dirty_padding = false;
  if ((model.size() & 7) && s.Chance(1, 4)) {
    buf.back() |= 0x80;
    dirty_padding = true;
  }
  c.Key(pbt::Hash(buf, n));
  c.Sample(pbt::Fmt("%zu bits in %d writes", model.size(), n));
  for (size_t i = 0; i < model.size(); ++i)
    c.Check((buf[i / 8] >> (i & 7) & 1) == model[i], "written-bit", pbt::Fmt("bit %zu", i));
  // Read in pieces.
  BrunsliBitReader br;
  BrunsliBitReaderInit(&br);
  size_t given = 0, pos = 0;  // Bytes given so far / bits read.
  bool whole = s.Chance(1, 3), optimistic = false;
  std::unique_ptr<Exact> piece;
  auto resume = [&](size_t from, size_t to) {
    piece.reset(new Exact(Bytes(buf.begin() + from, buf.begin() + to)));
    BrunsliBitReaderResume(&br, piece->p.get(), to - from);
    given = to;
  };
  resume(0, whole ? bytes : r.Below((uint32_t)bytes + 1));
  bool overrun_tried = false;
  while (pos < model.size()) {
    int w = r.Range(0, 24);
    if (r.Chance(1, 3)) w = 1;
    if (pos + w > model.size()) w = (int)(model.size() - pos);
    bool enough = pos + w <= 8 * given;
    if (!optimistic)
      c.Check(BrunsliBitReaderCanRead(&br, w) == enough, "can-read",
              pbt::Fmt("%d bits at %zu, %zu bytes given: expected %d", w, pos, given, enough));
    if (!enough || r.Chance(1, 10)) {
      size_t unused = BrunsliBitReaderSuspend(&br);
      c.Check(unused == given - (pos + 7) / 8, "unused-bytes",
              pbt::Fmt("%zu instead of %zu", unused, given - (pos + 7) / 8));
      c.Check(BrunsliBitReaderIsHealthy(&br), "unhealthy", "before the end");
      size_t from = (pos + 7) / 8;
      size_t to = std::min<size_t>(bytes, std::max(given, from) + r.Below(8));
      if (r.Chance(1, 4)) to = bytes;
      resume(from, to);
      continue;
    }
    // Peeking more than is used is allowed.
    if (r.Chance(1, 6)) {
      uint32_t wide = std::min(24, w + r.Range(0, 8));
      uint32_t got = BrunsliBitReaderGet(&br, wide);
      for (int k = 0; k < w; ++k)
        c.Check((got >> k & 1) == model[pos + k], "peeked-bit", pbt::Fmt("bit %zu", pos + k));
      BrunsliBitReaderDrop(&br, w);
      if (pos + w <= 8 * given) c.Check(BrunsliBitReaderIsHealthy(&br), "unhealthy", "after peeking");
      pos += w;
      continue;
    }
    uint32_t got = BrunsliBitReaderRead(&br, w);
    for (int k = 0; k < w; ++k)
      c.Check((got >> k & 1) == model[pos + k], "read-bit", pbt::Fmt("bit %zu of a read of %d at %zu", pos + k, w, pos));
    c.Check(w == 24 || (got >> w) == 0, "read-too-much", "");
    pos += w;
  }
  c.NonTrivial();
  if (given == bytes && s.Chance(1, 3)) {
    // Past the end, one bit more than there is.
    overrun_tried = true;
    size_t rest = 8 * bytes - pos;
    BrunsliBitReaderIsHealthy(&br);
    c.Check(BrunsliBitReaderCanRead(&br, rest), "can-read", "remaining padding");
    c.Check(!BrunsliBitReaderCanRead(&br, rest + 1), "can-read", "past the end");
    uint32_t got = BrunsliBitReaderRead(&br, (uint32_t)rest);
    c.Check(got == (dirty_padding ? 0x80u >> (8 - rest) : 0), "padding-bits", "");
    c.Check(BrunsliBitReaderIsHealthy(&br), "unhealthy", "at the very end");
    uint32_t extra = 1 + s.Below(24);
    c.Check(BrunsliBitReaderRead(&br, extra) == 0, "bits-past-the-end", "");
    c.Check(!BrunsliBitReaderIsHealthy(&br), "overrun-not-flagged", pbt::Fmt("%u bits", extra));
    for (int k = s.Below(6); k-- > 0;) BrunsliBitReaderRead(&br, s.Below(25));
    c.Check(!BrunsliBitReaderIsHealthy(&br), "overrun-forgotten", "");
    c.Label("overrun");
    return;
  }
  size_t unused = BrunsliBitReaderSuspend(&br);
  c.Check(unused == given - (pos + 7) / 8, "unused-bytes", "at the end");
  BrunsliBitReaderFinish(&br);
  c.Check(BrunsliBitReaderIsHealthy(&br) == !dirty_padding, "padding-verdict", dirty_padding ? "accepted" : "refused");
  if (dirty_padding) c.Label("dirty-padding");
  (void)overrun_tried;
}

// 16-bit word streams.
static void Words(Src& s, Case& c) {
  c.Label("words");
  pbt::Rng r(s.Seed());
  size_t n = s.Size(300);
  Bytes b(n);
  for (auto& v : b) v = (uint8_t)r.Next();
  b.shrink_to_fit();
  c.Key(pbt::Hash(b));
  c.Sample(pbt::Fmt("%zu bytes as words", n));
  Exact e(b);
  size_t words = n / 2;
  WordSource in(e.p.get(), n, false);
  size_t lead = s.Below(4);
  size_t taken = 0;
  for (size_t i = 0; i < lead; ++i, ++taken) {
    uint16_t w = in.GetNextWord();
    c.Check(w == (taken < words ? (b[2 * taken] | b[2 * taken + 1] << 8) : 0), "word", pbt::Fmt("word %zu", taken));
  }
  BitSource bs;
  bs.Init(&in);
  ++taken;
  size_t base = taken - 1, pos = 0;
  auto bit = [&](size_t k) -> uint32_t {
    size_t w = base + k / 16;
    return w < words ? (b[2 * w + (k & 15) / 8] >> (k & 7)) & 1 : 0;
  };
  int reads = s.Below(80);
  for (int i = 0; i < reads; ++i) {
    int w = r.Range(0, 16);
    size_t need = pos + w > 16 * (taken - base) ? 1 : 0;
    c.Check(in.CanRead(1) == (taken + 1 <= words), "can-read-word", pbt::Fmt("%zu of %zu", taken, words));
    uint32_t got = bs.ReadBits(w, &in);
    taken += need;
    for (int k = 0; k < w; ++k) c.Check((got >> k & 1) == bit(pos + k), "word-bit", pbt::Fmt("bit %zu", pos + k));
    c.Check((got >> w) == 0, "word-bits-extra", "");
    pos += w;
    c.Check(in.pos_ == 2 * taken, "word-position", pbt::Fmt("%zu instead of %zu", in.pos_, 2 * taken));
    c.Check(in.error_ == (taken > words), "word-overrun", pbt::Fmt("%zu of %zu", taken, words));
  }
  bool clean = true;
  for (size_t k = pos; k < 16 * (taken - base); ++k) clean = clean && !bit(k);
  c.Check(bs.Finish() == clean, "word-padding", "");
  c.NonTrivial();
}

// A range coder built from the definition of the format: bits coded with the
// adaptive model come back.
static void Adaptive(Src& s, Case& c) {
  c.Label("adaptive");
  pbt::Rng r(s.Seed());
  int m = 1 + s.Below(40);
  int n = (int)s.Size(6000);
  std::vector<int> init(m), bias(m);
  for (int i = 0; i < m; ++i) {
    init[i] = r.Chance(1, 3) ? -1 : r.Range(1, 255);
    bias[i] = r.Chance(1, 3) ? 0 : r.Chance(1, 2) ? r.Range(0, 1000) : r.Chance(1, 2) ? 1 : 999;
  }
  std::vector<Prob> p(m);
  auto reset = [&]() {
    for (int i = 0; i < m; ++i) {
      p[i] = Prob();
      if (init[i] >= 0) p[i].Init((uint8_t)init[i]);
    }
  };
  reset();
  std::vector<std::pair<int, int>> ops;
  for (int i = 0; i < n; ++i) {
    int k = r.Below(m);
    ops.push_back({k, (int)r.Below(1000) < bias[k]});
  }
  if (s.Chance(1, 6))
    for (int i = 1; i < n; ++i) ops[i].second = ops[0].second;
  c.Key(pbt::Hash(ops.data(), ops.size() * sizeof(ops[0]), m));
  c.Sample(pbt::Fmt("%d bits with %d models", n, m));
  // Model of one probability: fraction of zeros seen, never certain.
  std::vector<std::pair<double, double>> seen(m, {0, 0});
  uint32_t low = 0, high = ~0u;
  Bytes out;
  auto put = [&](uint32_t w) {
    out.push_back((uint8_t)w);
    out.push_back((uint8_t)(w >> 8));
  };
  for (auto& o : ops) {
    int pr = p[o.first].get_proba();
    uint32_t split = low + (uint32_t)(((uint64_t)(high - low) * pr) >> 8);
    c.Check(split >= low && split < high, "empty-interval",
            pbt::Fmt("probability %d in [%u, %u]", pr, low, high));
    if (o.second) low = split + 1;
    else high = split;
    p[o.first].Add(o.second);
    if ((low ^ high) >> 16 == 0) {
      put(high >> 16);
      low <<= 16;
      high = high << 16 | 0xFFFF;
    }
  }
  put(high >> 16);
  put(high & 0xFFFF);
  std::vector<int> final_p(m);
  for (int i = 0; i < m; ++i) final_p[i] = p[i].get_proba();
  reset();
  WordSource in(out.data(), out.size(), true);
  BinaryArithmeticDecoder d;
  d.Init(&in);
  for (size_t i = 0; i < ops.size(); ++i) {
    int got = d.ReadBit(p[ops[i].first].get_proba(), &in);
    c.Check(got == ops[i].second, "wrong-bit", pbt::Fmt("bit %zu of %d", i, n));
    p[ops[i].first].Add(got);
  }
  c.Check(!in.error_ && in.pos_ == out.size(), "wrong-amount", pbt::Fmt("%zu of %zu", in.pos_, out.size()));
  for (int i = 0; i < m; ++i) c.Check(p[i].get_proba() == final_p[i], "model-differs", "");
  // The model follows what it sees.
  for (int v = 0; v < 2; ++v) {
    Prob q;
    int last = q.get_proba();
    for (int i = 0; i < 2000; ++i) {
      q.Add(v);
      int now = q.get_proba();
      c.Check(v ? now <= last + 1 : now >= last - 1, "model-direction", pbt::Fmt("%d to %d after %d", last, now, v));
      last = now;
    }
    c.Check(v ? last < 8 : last > 248, "model-does-not-adapt", pbt::Fmt("%d after 2000 times %d", last, v));
  }
  c.Sum("bits_coded", n);
  c.NonTrivial();
}

static void Matrices(Src& s, Case& c) {
  c.Label("quant");
  bool chroma = s.Bool();
  uint32_t q = s.Below(kQFactorLimit);
  pbt::Rng r(s.Seed());
  uint8_t a[kDCTBlockSize], b[kDCTBlockSize];
  FillQuantMatrix(chroma, q, a);
  memset(b, 0xA5, sizeof(b));
  FillQuantMatrix(chroma, q, b);
  c.Check(!memcmp(a, b, sizeof(a)), "matrix-not-repeatable", "");
  for (int i = 0; i < kDCTBlockSize; ++i) {
    c.Check(a[i] >= 1, "matrix-zero", pbt::Fmt("q %u, position %d", q, i));
    if (q + 1 < kQFactorLimit) {
      FillQuantMatrix(chroma, q + 1, b);
      c.Check(b[i] >= a[i], "matrix-not-monotonic", pbt::Fmt("q %u, position %d", q, i));
    }
  }
  int src[kDCTBlockSize];
  int kind = s.Below(5);
  for (int i = 0; i < kDCTBlockSize; ++i) {
    src[i] = kind == 0 ? a[i]
             : kind == 1 ? std::max(1, a[i] + r.Range(-2, 2))
             : kind == 2 ? r.Range(1, 255)
             : kind == 3 ? r.Range(1, 65535)
                         : (r.Chance(1, 2) ? 65535 : 1);
  }
  c.Key(pbt::Hash(src, sizeof(src), chroma));
  c.Sample(pbt::Fmt("matrix %d, chroma %d, quality factor %u", kind, chroma, q));
  memset(b, 0x5A, sizeof(b));
  uint32_t best = FindBestMatrix(src, chroma, b);
  c.Check(best < kQFactorLimit, "factor-range", pbt::Fmt("%u", best));
  uint8_t want[kDCTBlockSize];
  FillQuantMatrix(chroma, best, want);
  c.Check(!memcmp(b, want, sizeof(b)), "prediction-differs", pbt::Fmt("factor %u", best));
  if (kind == 0) c.Check(!memcmp(b, a, sizeof(b)), "exact-matrix-not-found", pbt::Fmt("factor %u for %u", best, q));
  c.NonTrivial();
}

static void Prop(Src& s, Case& c) {
  switch (s.Below(8)) {
    case 0: return Lehmer(s, c);
    case 1: return Permutations(s, c);
    case 2:
    case 3: return BitIo(s, c);
    case 4: return Words(s, c);
    case 5:
    case 6: return Adaptive(s, c);
    default: return Matrices(s, c);
  }
}

#else
static void Prop(Src& s, Case& c) { EndToEnd(s, c); }
#endif

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "E03";
  p.rule =
      "A case is one permutation, one series of bit writes read back in pieces, one word stream, one history of "
      "adaptive bits, or one quantization matrix; non-trivial = written data was read back and compared with a "
      "bit-exact model to its end";
  p.quick_cases = 90000;
  p.thorough_cases = 4000000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
