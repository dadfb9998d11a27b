// E01: entropy-code tables survive transmission, and what is coded with them
// is decoded to the same symbols.
#include "endtoend.h"

#ifndef NO_INTERNALS
#include "common/ans_params.h"
#include "common/context.h"
#include "common/distributions.h"
#include "dec/ans_decode.h"
#include "dec/arith_decode.h"
#include "dec/bit_reader.h"
#include "dec/brunsli_input.h"
#include "dec/context_map_decode.h"
#include "dec/histogram_decode.h"
#include "dec/huffman_decode.h"
#include "enc/ans_encode.h"
#include "enc/state.h"
#include "enc/write_bits.h"
#endif

using namespace codec;

#ifndef NO_INTERNALS

using namespace brunsli;

static const int kN = BRUNSLI_ANS_MAX_SYMBOLS;
static const uint32_t kSum = 1u << BRUNSLI_ANS_LOG_TAB_SIZE;

typedef std::vector<int> Counts;

// Statistics of every shape.
static Counts Statistics(Src& s, std::string* shape) {
  Counts h(kN, 0);
  pbt::Rng r(s.Seed());
  int kind = s.Below(10);
  auto big = [&]() { return (int)(1 + r.Below(1u << r.Range(0, 26))); };
  switch (kind) {
    case 0: {  // Few symbols.
      *shape = "few";
      int n = s.Below(4);
      for (int i = 0; i < n; ++i) h[s.Below(kN)] += 1 + (int)s.Size(100000);
      break;
    }
    case 1:
      *shape = "uniform";
      for (int i = 0; i < kN; ++i) h[i] = big();
      break;
    case 2: {  // One dominates everything else.
      *shape = "dominated";
      int n = r.Range(1, kN);
      for (int i = 0; i < n; ++i) h[r.Below(kN)] = 1 + (int)r.Below(3);
      h[r.Below(kN)] = big();
      break;
    }
    case 3: {  // Geometric.
      *shape = "geometric";
      double f = 0.05 + 0.95 * r.Unit(), v = 1e7;
      bool up = r.Chance(1, 2);
      for (int i = 0; i < kN; ++i, v *= f) h[up ? kN - 1 - i : i] = (int)v;
      break;
    }
    case 4: {  // Shares of 1024 near the values between which counts are rounded.
      *shape = "rounding-edge";
      double scale = 1 << r.Range(0, 15);
      for (int i = 0; i < kN; ++i) {
        if (r.Chance(1, 5)) continue;
        int bits = r.Range(0, 9);
        int inc = 1 << (bits - ((bits + 1) >> 1));
        double v = (1 << bits) + inc * (double)r.Below(1 << ((bits + 1) >> 1)) + inc * 0.5 * r.Below(2);
        h[i] = std::max(1, (int)((v + (r.Unit() - 0.5) * 0.1) * scale));
      }
      break;
    }
    case 5: {  // All round the same way, so that the rest takes the whole error.
      *shape = "biased-rounding";
      int k = r.Range(2, kN);
      int bits = r.Range(0, 9);
      int inc = 1 << (bits - ((bits + 1) >> 1));
      bool up = r.Chance(1, 2);
      double scale = 1 << r.Range(0, 15);
      for (int i = 0; i < k; ++i) {
        double v = (1 << bits) + inc * (double)r.Below(1 << ((bits + 1) >> 1)) + inc * (up ? 0.51 : 0.49);
        h[i] = std::max(1, (int)(v * scale));
      }
      for (int i = kN - 1; i > 0; --i) std::swap(h[i], h[r.Below(i + 1)]);
      break;
    }
    case 6: {  // Two levels.
      *shape = "two-level";
      int a = big(), b = big();
      for (int i = 0; i < kN; ++i) h[i] = r.Chance(1, 4) ? 0 : r.Chance(1, 2) ? a : b;
      break;
    }
    case 7:  // Ones.
      *shape = "ones";
      for (int i = 0; i < kN; ++i) h[i] = r.Chance(3, 4);
      break;
    case 8: {  // The first or the last symbols only.
      *shape = "range";
      int lo = r.Below(kN), hi = r.Range(lo, kN - 1);
      for (int i = lo; i <= hi; ++i) h[i] = big();
      break;
    }
    default:
      *shape = "explicit";
      for (int i = 0; i < kN; ++i) h[i] = (int)s.Size(5000);
      break;
  }
  return h;
}

static std::string Show(const Counts& h) {
  std::string o;
  for (int v : h) o += pbt::Fmt("%d ", v);
  return o;
}

struct Reader {
  BrunsliBitReader br;
  Reader(const uint8_t* p, size_t n) {
    BrunsliBitReaderInit(&br);
    BrunsliBitReaderResume(&br, p, n);
  }
};

// Checks the table the encoder uses against what was read.
static void SameTable(Case& c, const Counts& h, const ANSTable& t, const std::vector<uint32_t>& got) {
  uint32_t sum = 0, start = 0;
  bool empty = true;
  for (int v : h) empty = empty && v == 0;
  for (int i = 0; i < kN; ++i) {
    sum += got[i];
    if (h[i] > 0) c.Check(got[i] > 0, "lost-symbol", pbt::Fmt("symbol %d has no share: %s", i, Show(h).c_str()));
    if (empty) continue;
    if (h[i] == 0) c.Check(got[i] == 0, "share-of-nothing", pbt::Fmt("symbol %d: %s", i, Show(h).c_str()));
    c.Check(got[i] == t.info_[i].freq_, "different-share",
            pbt::Fmt("symbol %d: encoder %d, decoder %u: %s", i, t.info_[i].freq_, got[i], Show(h).c_str()));
    if (got[i])
      c.Check(t.info_[i].start_ == start, "different-start", pbt::Fmt("symbol %d: %s", i, Show(h).c_str()));
    start += got[i];
  }
  c.Check(sum == kSum, "wrong-total", pbt::Fmt("%u: %s", sum, Show(h).c_str()));
}

static void Tables(Src& s, Case& c) {
  int n = 1 + s.Below(12);
  std::vector<Counts> hs;
  std::vector<ANSTable> ts(n);
  Bytes buf(64 + n * 64);
  size_t bits;
  uint32_t lead = s.Below(8);
  {
    Storage st(buf.data(), buf.size());
    if (lead) WriteBits(lead, 0, &st);
    for (int i = 0; i < n; ++i) {
      std::string shape;
      hs.push_back(Statistics(s, &shape));
      c.Label(shape);
      BuildAndStoreANSEncodingData(hs[i].data(), &ts[i], &st);
    }
    bits = st.pos;
  }
  c.NonTrivial();
  c.Evals(n - 1);
  for (auto& h : hs) c.Key(pbt::Hash(h.data(), h.size() * sizeof(int)));
  c.Sample(pbt::Fmt("%d tables, first: ", n) + Show(hs[0]));
  buf.resize((bits + 7) / 8);
  buf.shrink_to_fit();
  Reader r(buf.data(), buf.size());
  if (lead) BrunsliBitReaderRead(&r.br, lead);
  for (int i = 0; i < n; ++i) {
    std::vector<uint32_t> got(kN);
    c.Check(ReadHistogram(BRUNSLI_ANS_LOG_TAB_SIZE, &got, &r.br), "table-refused", Show(hs[i]));
    SameTable(c, hs[i], ts[i], got);
    // Code a sequence with it.
    ANSDecodingData d;
    c.Check(d.Init(got), "table-not-usable", Show(hs[i]));
    std::vector<int> alphabet;
    for (int k = 0; k < kN; ++k)
      if (hs[i][k]) alphabet.push_back(k);
    if (alphabet.empty()) continue;
    pbt::Rng rr(s.Seed());
    int len = (int)s.Size(3000);
    std::vector<int> seq(len);
    int style = rr.Below(3);
    for (int& v : seq) {
      if (style == 0) {
        v = alphabet[rr.Below(alphabet.size())];
      } else if (style == 1) {  // As likely as the table says.
        uint32_t x = rr.Below(kSum);
        int k = 0;
        while (x >= got[k]) x -= got[k++];
        v = hs[i][k] ? k : alphabet[0];
      } else {  // The least likely ones.
        v = alphabet[0];
        for (int a : alphabet)
          if (got[a] < got[v]) v = a;
      }
    }
    ANSCoder enc;
    std::vector<uint16_t> words;
    for (int k = len; k--;) {
      uint8_t nb;
      uint32_t w = enc.PutSymbol(ts[i].info_[seq[k]], &nb);
      c.Check(nb == 0 || nb == 16, "odd-word", pbt::Fmt("%d bits", nb));
      if (nb) words.push_back((uint16_t)w);
    }
    words.push_back((uint16_t)enc.GetState());
    words.push_back((uint16_t)(enc.GetState() >> 16));
    std::reverse(words.begin(), words.end());
    Bytes data;
    for (uint16_t w : words) {
      data.push_back((uint8_t)w);
      data.push_back((uint8_t)(w >> 8));
    }
    WordSource in(data.data(), data.size(), true);
    ANSDecoder dec;
    dec.Init(&in);
    for (int k = 0; k < len; ++k) {
      int v = dec.ReadSymbol(d, &in);
      c.Check(v == seq[k], "wrong-symbol",
              pbt::Fmt("symbol %d of %d: %d instead of %d; %s", k, len, v, seq[k], Show(hs[i]).c_str()));
    }
    c.Check(dec.CheckCRC(), "wrong-final-state", Show(hs[i]));
    c.Check(!in.error_ && in.pos_ == data.size(), "wrong-amount",
            pbt::Fmt("%zu of %zu bytes used", in.pos_, data.size()));
    c.Sum("symbols_coded", len);
  }
  BrunsliBitReaderSuspend(&r.br);
  BrunsliBitReaderFinish(&r.br);
  c.Check(BrunsliBitReaderIsHealthy(&r.br), "reader-unhealthy", "after reading all tables");
}

// Tables from arbitrary bits: refused, or usable.
static void Garbage(Src& s, Case& c) {
  c.Label("garbage");
  pbt::Rng r(s.Seed());
  int len = (int)s.Size(60);
  Bytes b(len);
  int bias = s.Below(4);
  for (auto& v : b) {
    v = (uint8_t)r.Next();
    if (bias == 1) v |= (uint8_t)r.Next();
    if (bias == 2) v &= (uint8_t)r.Next();
    if (bias == 3) v = (uint8_t)(v & (uint8_t)r.Next() & (uint8_t)r.Next());
  }
  if (len && s.Bool()) b[0] &= 0xFE;
  b.shrink_to_fit();
  c.Attach("bits", b);
  c.Key(pbt::Hash(b));
  Reader rd(b.data(), b.size());
  int got_tables = 0;
  for (int i = 0; i < 8; ++i) {
    std::vector<uint32_t> got(kN);
    if (!ReadHistogram(BRUNSLI_ANS_LOG_TAB_SIZE, &got, &rd.br)) break;
    uint32_t sum = 0;
    for (uint32_t v : got) {
      c.Check(v <= kSum, "share-too-large", pbt::Fmt("%u", v));
      sum += v;
    }
    c.Check(sum == kSum, "wrong-total", pbt::Fmt("%u", sum));
    ANSDecodingData d;
    c.Check(d.Init(got), "table-not-usable", "");
    std::vector<uint32_t> seen(kN, 0);
    for (uint32_t k = 0; k < kSum; ++k) {
      c.Check(d.map_[k].symbol_ < kN && d.map_[k].freq_ == got[d.map_[k].symbol_], "bad-decoding-entry", "");
      seen[d.map_[k].symbol_]++;
    }
    c.Check(seen == got, "bad-decoding-table", "");
    ++got_tables;
  }
  if (got_tables) {
    c.NonTrivial();
    c.Label("garbage-accepted");
  }
  c.Sample(pbt::Fmt("%d random bytes, %d tables read", len, got_tables));
}

// What the encoder multiplexes into one stream is what the decoder takes out.
static void Stream(Src& s, Case& c) {
  using namespace internal::enc;
  c.Label("stream");
  pbt::Rng r(s.Seed());
  int bands = 1 + s.Below(s.Chance(1, 4) ? 40 : 4);
  int len = (int)s.Size(6000);
  struct Op {
    int kind, a, b, x;
  };
  std::vector<Op> ops;
  int style = s.Below(4);
  int alphabet = 1 + s.Below(kN);
  std::vector<int> mode(bands * kNumAvrgContexts);
  for (int& m : mode) m = r.Below(alphabet);
  int contexts_used = s.Chance(1, 3) ? 1 : kNumAvrgContexts;
  int num_probs = 1 + s.Below(20);
  std::vector<int> init(num_probs);
  for (int& v : init) v = r.Chance(1, 2) ? -1 : r.Range(1, 255);
  for (int i = 0; i < len; ++i) {
    Op o;
    o.kind = style == 0 ? 0 : style == 1 ? 1 + (int)r.Below(2) : (int)r.Below(3);
    if (o.kind == 0) {
      o.a = r.Below(bands);
      o.b = r.Below(contexts_used);
      o.x = r.Chance(1, 3) ? mode[o.a * kNumAvrgContexts + o.b] : (int)r.Below(alphabet);
    } else if (o.kind == 1) {
      o.a = r.Range(style == 3 ? 14 : 0, 16);
      if (o.a > 15) o.a = 16;
      o.b = 0;
      o.x = r.Below(1u << o.a);
    } else {
      o.a = r.Below(num_probs);
      o.b = 0;
      o.x = (o.a & 1) ? r.Chance(1, 50) : (o.a & 2) ? r.Chance(49, 50) : r.Chance(1, 2);
    }
    ops.push_back(o);
  }
  c.NonTrivial();
  c.Key(pbt::Hash(ops.data(), ops.size() * sizeof(Op)));
  c.Sample(pbt::Fmt("stream of %d operations, %d bands, alphabet %d", len, bands, alphabet));
  EntropySource source;
  source.Resize(bands);
  DataStream ds;
  ds.Resize(3 * (size_t)len + 1024);
  std::vector<Prob> probs(num_probs);
  for (int i = 0; i < num_probs; ++i)
    if (init[i] >= 0) probs[i].Init((uint8_t)init[i]);
  for (auto& o : ops) {
    if (o.kind == 0) ds.AddCode(o.x, o.a, o.b, &source);
    if (o.kind == 1) ds.AddBits(o.a, o.x);
    if (o.kind == 2) ds.AddBit(&probs[o.a], o.x);
  }
  std::vector<size_t> offsets(1, 0);
  if (bands > 1 && s.Bool()) offsets.push_back(1 + s.Below(bands - 1));
  std::unique_ptr<EntropyCodes> codes = source.Finish(offsets);
  Bytes tab(1 << 16), data(8 * (size_t)len + 4096);
  {
    Storage st(tab.data(), tab.size());
    codes->EncodeContextMap(&st);
    codes->BuildAndStoreEntropyCodes(&st);
    tab.resize(st.GetBytesUsed());
    Storage sd(data.data(), data.size());
    ds.EncodeCodeWords(codes.get(), &sd);
    data.resize(sd.GetBytesUsed());
  }
  tab.shrink_to_fit();
  data.shrink_to_fit();
  // The other side.
  Reader rd(tab.data(), tab.size());
  BrunsliBitReaderSetOptimistic(&rd.br);
  size_t clusters = 1;
  if (BrunsliBitReaderRead(&rd.br, 1)) {
    uint32_t nb = BrunsliBitReaderRead(&rd.br, 3);
    clusters = 1 + (1u << nb) + BrunsliBitReaderRead(&rd.br, nb);
  }
  c.Check(clusters <= 256, "too-many-clusters", pbt::Fmt("%zu", clusters));
  if (clusters > 1) c.Label("clustered");
  std::vector<uint8_t> map(bands * kNumAvrgContexts, 0);
  if (clusters > 1) {
    size_t rle = 0, index = 0;
    if (BrunsliBitReaderRead(&rd.br, 1)) rle = BrunsliBitReaderRead(&rd.br, 4) + 1;
    HuffmanDecodingData hd;
    c.Check(hd.ReadFromBitStream(clusters + rle, &rd.br), "map-code-refused", "");
    c.Check(DecodeContextMap(hd, rle, &index, &map, &rd.br) == BRUNSLI_OK, "map-refused", "");
  }
  std::vector<ANSDecodingData> ans(clusters);
  for (size_t i = 0; i < clusters; ++i) {
    std::vector<uint32_t> got(kN);
    c.Check(ReadHistogram(BRUNSLI_ANS_LOG_TAB_SIZE, &got, &rd.br) && ans[i].Init(got), "table-refused",
            pbt::Fmt("%zu of %zu", i, clusters));
  }
  BrunsliBitReaderSuspend(&rd.br);
  BrunsliBitReaderFinish(&rd.br);
  c.Check(BrunsliBitReaderIsHealthy(&rd.br), "reader-unhealthy", "");
  for (uint8_t m : map) c.Check(m < clusters, "map-out-of-range", pbt::Fmt("%d of %zu", m, clusters));
  for (int i = 0; i < num_probs; ++i) {
    probs[i] = Prob();
    if (init[i] >= 0) probs[i].Init((uint8_t)init[i]);
  }
  WordSource in(data.data(), data.size(), true);
  ANSDecoder ad;
  BitSource bs;
  BinaryArithmeticDecoder bad;
  ad.Init(&in);
  bs.Init(&in);
  bad.Init(&in);
  int k = 0;
  for (auto& o : ops) {
    int got;
    if (o.kind == 0) {
      got = ad.ReadSymbol(ans[map[o.a * kNumAvrgContexts + o.b]], &in);
    } else if (o.kind == 1) {
      got = (int)bs.ReadBits(o.a, &in);
    } else {
      got = bad.ReadBit(probs[o.a].get_proba(), &in);
      probs[o.a].Add(got);
    }
    c.Check(got == o.x, "stream-differs",
            pbt::Fmt("operation %d of %d (kind %d): %d instead of %d", k, len, o.kind, got, o.x));
    ++k;
  }
  c.Check(ad.CheckCRC(), "stream-final-state", "");
  c.Check(bs.Finish(), "stream-padding", "");
  c.Check(!in.error_ && in.pos_ == data.size(), "stream-size", pbt::Fmt("%zu of %zu", in.pos_, data.size()));
  c.Sum("stream_operations", len);
}

static void Prop(Src& s, Case& c) {
  int k = s.Below(10);
  if (k < 6) Tables(s, c);
  else if (k < 8) Garbage(s, c);
  else Stream(s, c);
}

#else
static void Prop(Src& s, Case& c) { EndToEnd(s, c); }
#endif

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "E01";
  p.rule =
      "A case is a series of statistics of one shape (sparse, skewed, dominated, near rounding "
      "boundaries, huge, ...) stored and read back with a symbol sequence coded by each, or a whole "
      "multiplexed stream of symbols, raw bits and adaptive bits, or random bits read as tables; "
      "non-trivial = tables were stored and compared, or random bits were accepted as a table and verified";
  p.quick_cases = 24000;
  p.thorough_cases = 1500000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
