// E02: prefix codes and context maps round-trip; code descriptions are
// understood as specified, malformed ones are refused.
#include "endtoend.h"

#ifndef NO_INTERNALS
#include "common/constants.h"
#include "dec/bit_reader.h"
#include "dec/context_map_decode.h"
#include "dec/huffman_decode.h"
#include "dec/huffman_table.h"
#include "enc/context_map_encode.h"
#include "enc/huffman_encode.h"
#include "enc/huffman_tree.h"
#include "enc/write_bits.h"
#endif

using namespace codec;

#ifndef NO_INTERNALS

using namespace brunsli;

typedef std::vector<uint32_t> U32;

struct Reader {
  BrunsliBitReader br;
  Reader(const uint8_t* p, size_t n) {
    BrunsliBitReaderInit(&br);
    BrunsliBitReaderResume(&br, p, n);
    BrunsliBitReaderSetOptimistic(&br);
  }
  uint32_t operator()(uint32_t n) { return BrunsliBitReaderRead(&br, n); }
  bool Finish(size_t* unused) {
    *unused = BrunsliBitReaderSuspend(&br);
    BrunsliBitReaderFinish(&br);
    return BrunsliBitReaderIsHealthy(&br);
  }
};

// ---------------------------------------------------------------------------
// Reference: code descriptions as in RFC 7932, sections 3.2 to 3.5.
struct Bits {
  const Bytes& b;
  size_t pos = 0;
  explicit Bits(const Bytes& v) : b(v) {}
  uint32_t Get(int n) {
    uint32_t v = 0;
    for (int i = 0; i < n; ++i, ++pos) v |= (uint32_t)(pos / 8 < b.size() ? b[pos / 8] >> (pos & 7) & 1 : 0) << i;
    return v;
  }
  bool Overrun() const { return pos > 8 * b.size(); }
};

struct RefCode {
  std::vector<int> len;     // 0: not in the code
  std::vector<uint32_t> code;  // canonical, most significant bit first
  int single = -1;
  // Assigns canonical codes.
  void Canonical() {
    code.assign(len.size(), 0);
    uint32_t next = 0;
    int used = 0;
    for (int l = 1; l <= 15; ++l) {
      for (size_t i = 0; i < len.size(); ++i) {
        if (len[i] != l) continue;
        code[i] = next++;
        ++used;
        single = (int)i;
      }
      next <<= 1;
    }
    if (used != 1) single = -1;
  }
  double Kraft() const {
    double k = 0;
    for (int l : len)
      if (l) k += 1.0 / (1 << l);
    return k;
  }
  int Decode(Bits* b) const {
    if (single >= 0) return single;
    uint32_t v = 0;
    for (int l = 1; l <= 15; ++l) {
      v = v * 2 + b->Get(1);
      for (size_t i = 0; i < len.size(); ++i)
        if (len[i] == l && code[i] == v) return (int)i;
    }
    return -1;
  }
};

static bool RefRead(Bits* b, size_t alphabet, RefCode* out) {
  out->len.assign(alphabet, 0);
  uint32_t hskip = b->Get(2);
  if (hskip == 1) {
    int n = (int)b->Get(2) + 1;
    int width = 0;
    while (((size_t)1 << width) < alphabet) ++width;
    std::vector<uint32_t> sym;
    for (int i = 0; i < n; ++i) {
      sym.push_back(b->Get(width));
      if (sym.back() >= alphabet) return false;
    }
    for (int i = 0; i < n; ++i)
      for (int k = 0; k < i; ++k)
        if (sym[i] == sym[k]) return false;
    static const int kLens[5][4] = {{1}, {1, 1}, {1, 2, 2}, {2, 2, 2, 2}, {1, 2, 3, 3}};
    int form = n - 1 + (n == 4 ? (int)b->Get(1) : 0);
    for (int i = 0; i < n; ++i) out->len[sym[i]] = kLens[form][i];
    if (b->Overrun()) return false;
    out->Canonical();
    return true;
  }
  static const int kOrder[18] = {1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15};
  RefCode cl;
  cl.len.assign(18, 0);
  int space = 32, num = 0;
  for (int i = hskip; i < 18 && space > 0; ++i) {
    // 00: 0, 1110: 1, 110: 2, 01: 3, 10: 4, 1111: 5 - parsed right to left.
    int v;
    uint32_t x = b->Get(2);
    if (x == 0) v = 0;
    else if (x == 1) v = 4;
    else if (x == 2) v = 3;
    else if (!b->Get(1)) v = 2;
    else v = b->Get(1) ? 5 : 1;
    cl.len[kOrder[i]] = v;
    if (v) {
      space -= 32 >> v;
      ++num;
    }
  }
  if (num != 1 && space != 0) return false;
  cl.Canonical();
  int left = 32768, prev = 8, repeat = 0, repeat_len = -1;
  size_t i = 0;
  while (i < alphabet && left > 0) {
    int s = cl.Decode(b);
    if (s < 0) return false;
    if (s < 16) {
      repeat = 0;
      out->len[i++] = s;
      if (s) {
        prev = s;
        left -= 32768 >> s;
      }
      continue;
    }
    int value = s == 16 ? prev : 0, extra = s == 16 ? 2 : 3;
    if (repeat_len != value) repeat = 0;
    repeat_len = value;
    int before = repeat;
    if (repeat > 0) repeat = (repeat - 2) << extra;
    repeat += (int)b->Get(extra) + 3;
    int delta = repeat - before;
    if (i + delta > alphabet) return false;
    for (int k = 0; k < delta; ++k) {
      out->len[i++] = value;
      if (value) left -= 32768 >> value;
    }
  }
  if (left != 0 || b->Overrun()) return false;
  out->Canonical();
  return true;
}

// ---------------------------------------------------------------------------

static U32 Frequencies(Src& s, size_t n, std::string* shape) {
  U32 f(n, 0);
  pbt::Rng r(s.Seed());
  switch (s.Below(8)) {
    case 0: {
      *shape = "few";
      int k = s.Below(6);
      for (int i = 0; i < k; ++i) f[s.Below((uint32_t)n)] = 1 + s.Size(1000000);
      break;
    }
    case 1:
      *shape = "uniform";
      for (auto& v : f) v = 1 + r.Below(1000);
      break;
    case 2: {  // Deep tree.
      *shape = "fibonacci";
      uint32_t a = 1, b = 1;
      for (size_t i = 0; i < n && b < 300000000u; ++i) {
        f[i] = a;
        uint32_t t = a + b;
        a = b;
        b = t;
      }
      for (size_t i = n; i-- > 1;) std::swap(f[i], f[r.Below((uint32_t)i + 1)]);
      break;
    }
    case 3: {  // Powers of two.
      *shape = "powers";
      for (size_t i = 0; i < n; ++i) f[i] = i < 40 && r.Chance(3, 4) ? 1u << std::min<size_t>(i, 20) : 0;
      for (size_t i = n; i-- > 1;) std::swap(f[i], f[r.Below((uint32_t)i + 1)]);
      break;
    }
    case 4: {  // Runs of equal values and gaps.
      *shape = "runs";
      for (size_t i = 0; i < n;) {
        size_t len = 1 + r.Below(1u << r.Range(0, 6));
        uint32_t v = r.Chance(1, 2) ? 0 : 1u << r.Range(0, 12);
        for (; len-- && i < n; ++i) f[i] = v;
      }
      break;
    }
    case 5:
      *shape = "equal";
      for (auto& v : f) v = 7;
      break;
    case 6:
      *shape = "sparse";
      for (auto& v : f) v = r.Chance(1, 12) ? 1 + r.Below(100) : 0;
      break;
    default:
      *shape = "exponential";
      for (auto& v : f) v = r.Chance(1, 6) ? 0 : 1u << r.Range(0, 18);
      break;
  }
  return f;
}

static size_t AlphabetSize(Src& s) {
  switch (s.Below(4)) {
    case 0: return 1 + s.Below(18);
    case 1: return 1 + s.Below(60);
    case 2: return 1 + s.Below(272);
    default: return 1 + s.Below(1500);
  }
}

static void Trees(Src& s, Case& c) {
  size_t n = AlphabetSize(s);
  int limit = 15;
  std::string shape;
  U32 f = Frequencies(s, n, &shape);
  c.Label("tree-" + shape);
  c.Key(pbt::Hash(f.data(), f.size() * 4));
  size_t used = 0;
  uint64_t total = 0;
  for (uint32_t v : f) {
    used += v != 0;
    total += v;
  }
  c.Sample(pbt::Fmt("prefix code for %zu of %zu symbols, %s", used, n, shape.c_str()));
  if (used >= 2) {
    // The tree on its own, for any feasible limit.
    int feasible = 1;
    while ((1u << feasible) < used) ++feasible;
    limit = feasible + 1 + s.Below(8);
    if (limit > 15) limit = std::max(15, feasible + 1);
    std::vector<uint8_t> d(n, 0);
    CreateHuffmanTree(f.data(), n, limit, d.data());
    uint64_t kraft = 0;
    for (size_t i = 0; i < n; ++i) {
      c.Check((d[i] != 0) == (f[i] != 0), "wrong-membership", pbt::Fmt("symbol %zu", i));
      c.Check(d[i] <= limit, "too-deep", pbt::Fmt("depth %d, limit %d", d[i], limit));
      if (d[i]) kraft += (uint64_t)1 << (32 - d[i]);
    }
    c.Check(kraft == (uint64_t)1 << 32, "incomplete", pbt::Fmt("kraft sum %llu", (unsigned long long)kraft));
    int deepest = *std::max_element(d.begin(), d.end());
    if (deepest == limit) c.Label("limit-reached");
    // Without a need for a limit, no symbol is worse off than a rarer one.
    std::vector<uint8_t> free_depth(n, 0);
    CreateHuffmanTree(f.data(), n, 60, free_depth.data());
    for (size_t i = 0; i + 1 < n; ++i)
      for (size_t k = i + 1; k < n && k < i + 40; ++k)
        if (f[i] && f[k] && f[i] != f[k])
          c.Check((f[i] > f[k]) ? free_depth[i] <= free_depth[k] : free_depth[i] >= free_depth[k], "not-optimal", "");
  }
  // Stored, read and used.
  std::vector<uint8_t> depth(n, 0);
  std::vector<uint16_t> bits(n, 0);
  pbt::Rng r(s.Seed());
  size_t len = s.Size(2000);
  U32 alphabet;
  for (size_t i = 0; i < n; ++i)
    if (f[i]) alphabet.push_back((uint32_t)i);
  Bytes buf(4096 + 4 * n + 2 * len + 16);
  U32 seq;
  size_t table_bits;
  uint32_t lead = s.Below(8);
  {
    Storage st(buf.data(), buf.size());
    if (lead) WriteBits(lead, 0, &st);
    BuildAndStoreHuffmanTree(f.data(), n, depth.data(), bits.data(), &st);
    table_bits = st.pos - lead;
    for (size_t k = 0; k < len && !alphabet.empty(); ++k) {
      uint32_t v = alphabet[r.Below((uint32_t)alphabet.size())];
      if (alphabet.size() == 1) c.Check(depth[v] == 0, "single-symbol-costs", "");
      WriteBits(depth[v], bits[v], &st);
      seq.push_back(v);
    }
    buf.resize(st.GetBytesUsed());
    // Contract for callers: enough slack must exist, sizes are modest.
    c.Check(table_bits <= 8 * (256 + 2 * n), "table-too-big", pbt::Fmt("%zu bits", table_bits));
  }
  buf.shrink_to_fit();
  c.NonTrivial();
  Reader rd(buf.data(), buf.size());
  if (lead) rd(lead);
  HuffmanDecodingData h;
  c.Check(h.ReadFromBitStream(n, &rd.br), "code-refused", shape);
  Bits rb(buf);
  rb.Get(lead);
  RefCode ref;
  c.Check(RefRead(&rb, n, &ref), "code-malformed", shape);
  c.Check(rb.pos == lead + table_bits, "code-size", pbt::Fmt("%zu of %zu bits", rb.pos - lead, table_bits));
  if (used >= 2) {
    for (size_t i = 0; i < n; ++i)
      c.Check(ref.len[i] == depth[i], "code-lengths-differ", pbt::Fmt("symbol %zu: stored %d, used %d", i, ref.len[i], depth[i]));
  }
  for (size_t k = 0; k < seq.size(); ++k) {
    uint32_t v = h.ReadSymbol(&rd.br);
    c.Check(v == seq[k], "wrong-symbol", pbt::Fmt("symbol %zu: %u instead of %u", k, v, seq[k]));
  }
  size_t unused;
  c.Check(rd.Finish(&unused) && unused == 0, "wrong-amount", pbt::Fmt("%zu bytes unused", unused));
  c.Sum("symbols_coded", seq.size());
}

static U32 ContextMap(Src& s, size_t n, uint32_t clusters) {
  pbt::Rng r(s.Seed());
  U32 m(n, 0);
  int kind = s.Below(6);
  uint32_t next = 0;
  for (size_t i = 0; i < n;) {
    size_t len = kind == 0 ? 1 : kind == 1 ? 1 + r.Below(300) : 1 + r.Below(1u << r.Range(0, 9));
    uint32_t v;
    if (kind == 2) v = r.Chance(3, 4) ? 0 : r.Below(clusters);
    else if (kind == 3) v = next < clusters ? next++ : r.Below(clusters);  // First use in order.
    else if (kind == 4) v = i == 0 ? clusters - 1 : (m[i - 1] + clusters - 1) % clusters;
    else v = r.Below(clusters);
    for (; len-- && i < n; ++i) m[i] = v;
  }
  return m;
}

static void Maps(Src& s, Case& c) {
  uint32_t clusters = s.Chance(1, 3) ? 1 + s.Below(256) : 1 + s.Below(12);
  if (s.Chance(1, 12)) clusters = 256;
  size_t n = 1 + s.Size(4000);
  U32 m = ContextMap(s, n, clusters);
  c.Label(clusters == 1 ? "map-single" : clusters > 250 ? "map-many" : "map");
  c.Key(pbt::Hash(m.data(), m.size() * 4, clusters));
  c.Sample(pbt::Fmt("context map of %zu entries, %u clusters", n, clusters));
  Bytes buf(8192 + 4 * n);
  {
    Storage st(buf.data(), buf.size());
    EncodeContextMap(m, clusters, &st);
    buf.resize(st.GetBytesUsed());
  }
  buf.shrink_to_fit();
  c.NonTrivial();
  Reader rd(buf.data(), buf.size());
  uint32_t got = 1;
  if (rd(1)) {
    uint32_t nb = rd(3);
    got = 1 + (1u << nb) + rd(nb);
  }
  c.Check(got == clusters, "cluster-count", pbt::Fmt("%u instead of %u", got, clusters));
  std::vector<uint8_t> out(n, 0);
  if (clusters > 1) {
    uint32_t rle = rd(1) ? rd(4) + 1 : 0;
    if (rle) c.Label("map-rle");
    HuffmanDecodingData h;
    c.Check(h.ReadFromBitStream(clusters + rle, &rd.br), "map-code-refused", "");
    size_t index = 0;
    c.Check(DecodeContextMap(h, rle, &index, &out, &rd.br) == BRUNSLI_OK, "map-refused", "");
    c.Check(index == n, "map-size", "");
  }
  for (size_t i = 0; i < n; ++i)
    c.Check(out[i] == m[i], "map-differs", pbt::Fmt("entry %zu of %zu: %u instead of %u", i, n, out[i], m[i]));
  size_t unused;
  c.Check(rd.Finish(&unused) && unused == 0, "wrong-amount", pbt::Fmt("%zu bytes unused", unused));
}

// Writes a description that is right or nearly right.
struct BitWriter {
  Bytes b;
  size_t pos = 0;
  void Put(uint32_t v, int n) {
    for (int i = 0; i < n; ++i, ++pos) {
      if (pos / 8 >= b.size()) b.push_back(0);
      b[pos / 8] |= (uint8_t)((v >> i & 1) << (pos & 7));
    }
  }
};

static Bytes Description(Src& s, pbt::Rng& r, size_t n, std::string* how) {
  BitWriter w;
  int kind = s.Below(4);
  if (kind == 0) {
    *how = "random";
    size_t len = s.Size(80);
    for (size_t i = 0; i < len; ++i) w.Put((uint32_t)r.Next() & 255, 8);
    return w.b;
  }
  if (kind == 1) {
    *how = "simple";
    int width = 0;
    while (((size_t)1 << width) < n) ++width;
    w.Put(1, 2);
    int k = r.Range(1, 4);
    w.Put(k - 1, 2);
    for (int i = 0; i < k; ++i) w.Put(r.Chance(9, 10) ? r.Below((uint32_t)n) : r.Below(1u << width), width);
    if (k == 4) w.Put(r.Below(2), 1);
    w.Put((uint32_t)r.Next() & 0xFFFFFF, 24);
    return w.b;
  }
  // Complex: all code length codes of some random complete code, then random
  // code length symbols biased towards completing the code.
  *how = "complex";
  std::vector<int> cl(18, 0);
  {
    // Random complete code of depth at most 5.
    int want = r.Range(1, 12);
    std::vector<int> leaves(1, 0);
    while ((int)leaves.size() < want) {
      int i = r.Below((uint32_t)leaves.size());
      if (leaves[i] >= 5) {
        if (std::all_of(leaves.begin(), leaves.end(), [](int l) { return l >= 5; })) break;
        continue;
      }
      leaves[i]++;
      leaves.push_back(leaves[i]);
    }
    std::vector<int> order(18);
    for (int i = 0; i < 18; ++i) order[i] = i;
    for (int i = 17; i > 0; --i) std::swap(order[i], order[r.Below(i + 1)]);
    if (r.Chance(3, 4)) {
      // Prefer short lengths, repeats, so that alphabets fill up.
      std::stable_sort(order.begin(), order.end(), [](int a, int b) { return (a == 16 || a == 17) > (b == 16 || b == 17); });
    }
    for (size_t i = 0; i < leaves.size(); ++i) cl[order[i]] = leaves.size() == 1 ? 1 + (int)r.Below(5) : leaves[i];
    if (r.Chance(1, 12)) cl[r.Below(18)] ^= 1;
  }
  static const int kOrder[18] = {1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15};
  static const int kSym[6] = {0, 7, 3, 2, 1, 15}, kLen[6] = {2, 4, 3, 2, 2, 4};
  int skip = 0;
  if (!cl[1] && !cl[2]) skip = !cl[3] && r.Chance(1, 2) ? 3 : r.Chance(1, 2) ? 2 : 0;
  w.Put(skip, 2);
  int space = 32;
  for (int i = skip; i < 18 && space > 0; ++i) {
    int v = cl[kOrder[i]];
    w.Put(kSym[v], kLen[v]);
    if (v) space -= 32 >> v;
  }
  RefCode code;
  code.len = cl;
  code.Canonical();
  std::vector<int> have;
  for (int i = 0; i < 18; ++i)
    if (cl[i]) have.push_back(i);
  if (have.empty()) return w.b;
  int left = 32768;
  size_t count = 0;
  for (int k = 0; k < 400 && count < n + 3 && left > 0; ++k) {
    int v = have[r.Below((uint32_t)have.size())];
    // Do not overshoot, most of the time.
    if (v < 16 && v && (32768 >> v) > left && r.Chance(9, 10)) continue;
    for (int b = cl[v] - 1; b >= 0 && code.single < 0; --b) w.Put(code.code[v] >> b & 1, 1);
    if (v == 16) w.Put((uint32_t)r.Below(4), 2);
    if (v == 17) w.Put((uint32_t)r.Below(8), 3);
    count += v >= 16 ? 3 : 1;
    if (v && v < 16) left -= 32768 >> v;
  }
  w.Put((uint32_t)r.Next() & 0xFFFFFF, r.Chance(3, 4) ? 24 : 0);
  return w.b;
}

static void Garbage(Src& s, Case& c) {
  pbt::Rng r(s.Seed());
  size_t n = AlphabetSize(s);
  if (s.Chance(1, 3)) n = 1 + s.Below(40);
  std::string how;
  Bytes b = Description(s, r, n, &how);
  if (s.Chance(1, 6) && b.size()) b.resize(s.Below((uint32_t)b.size()));
  b.shrink_to_fit();
  c.Attach("bits", b);
  c.Key(pbt::Hash(b, n));
  c.Label("description-" + how);
  Bits rb(b);
  RefCode ref;
  bool want = RefRead(&rb, n, &ref);
  Reader rd(b.data(), b.size());
  HuffmanDecodingData h;
  bool got = h.ReadFromBitStream(n, &rd.br);
  c.Check(got == want, want ? "valid-code-refused" : "malformed-code-accepted",
          pbt::Fmt("alphabet %zu, %zu bytes", n, b.size()));
  c.Sample(pbt::Fmt("%s description, alphabet %zu: %s", how.c_str(), n, got ? "accepted" : "refused"));
  c.NonTrivial();
  if (!got) return;
  c.Label("description-accepted");
  if (ref.single < 0) c.Check(ref.Kraft() == 1.0, "incomplete-code-accepted", "");
  // Rest of the bits, decoded by both.
  size_t left = 8 * b.size() - rb.pos;
  for (int k = 0; k < 200; ++k) {
    size_t before = rb.pos;
    int v = ref.Decode(&rb);
    if (rb.Overrun() || v < 0) break;
    int g = h.ReadSymbol(&rd.br);
    c.Check(g == v, "wrong-symbol", pbt::Fmt("symbol %d: %d instead of %d", k, g, v));
    if (rb.pos == before && k > 4) break;
  }
  // All symbols of the code.
  for (size_t i = 0; i < n; ++i) {
    if (!ref.len[i] || ref.single >= 0) continue;
    BitWriter w;
    for (int x = ref.len[i] - 1; x >= 0; --x) w.Put(ref.code[i] >> x & 1, 1);
    w.Put((uint32_t)r.Next() & 0xFFFF, 16);
    Reader one(w.b.data(), w.b.size());
    int g = h.ReadSymbol(&one.br);
    c.Check(g == (int)i, "wrong-symbol", pbt::Fmt("code of %zu read as %d", i, g));
    BrunsliBitReaderIsHealthy(&one.br);
    uint32_t consumed = (uint32_t)(8 * (one.br.next_ - w.b.data()) - one.br.num_bits_);
    c.Check((int)consumed == ref.len[i], "wrong-length", pbt::Fmt("%u bits instead of %d", consumed, ref.len[i]));
  }
  (void)left;
}

// Context map data from arbitrary bits.
static void GarbageMap(Src& s, Case& c) {
  c.Label("map-garbage");
  pbt::Rng r(s.Seed());
  uint32_t clusters = 2 + (s.Chance(1, 2) ? s.Below(255) : s.Below(10));
  uint32_t rle = s.Below(3) ? s.Below(17) : 0;
  std::string how;
  Bytes b = Description(s, r, clusters + rle, &how);
  size_t extra = s.Size(400);
  for (size_t i = 0; i < extra; ++i) b.push_back((uint8_t)r.Next());
  b.shrink_to_fit();
  c.Attach("bits", b);
  c.Key(pbt::Hash(b, clusters * 32 + rle));
  Bits rb(b);
  RefCode ref;
  if (!RefRead(&rb, clusters + rle, &ref)) return;
  size_t n = 1 + s.Size(1500);
  Reader rd(b.data(), b.size());
  HuffmanDecodingData h;
  c.Check(h.ReadFromBitStream(clusters + rle, &rd.br), "valid-code-refused", "");
  c.NonTrivial();
  // Reference.
  std::vector<uint8_t> want;
  bool ok = true;
  while (want.size() < n && ok) {
    int v = ref.Decode(&rb);
    if (v == 0) {
      want.push_back(0);
    } else if (v <= (int)rle) {
      size_t reps = (1u << v) + rb.Get(v);
      if (want.size() + reps > n) ok = false;
      else want.resize(want.size() + reps, 0);
    } else {
      want.push_back((uint8_t)(v - rle));
    }
  }
  if (ok && rb.Get(1)) {
    std::vector<uint8_t> mtf(256);
    for (int i = 0; i < 256; ++i) mtf[i] = (uint8_t)i;
    for (auto& v : want) {
      uint8_t x = mtf[v];
      mtf.erase(mtf.begin() + v);
      mtf.insert(mtf.begin(), x);
      v = x;
    }
  }
  if (rb.Overrun()) ok = false;
  std::vector<uint8_t> map(n, 0xEE);
  size_t index = 0;
  BrunsliStatus st = DecodeContextMap(h, rle, &index, &map, &rd.br);
  c.Check((st == BRUNSLI_OK) == ok, ok ? "valid-map-refused" : "malformed-map-accepted", pbt::Fmt("status %d", st));
  c.Check(st == BRUNSLI_OK || st == BRUNSLI_INVALID_BRN, "odd-status", pbt::Fmt("%d", st));
  c.Sample(pbt::Fmt("map bits, %u clusters, rle %u, %zu entries: %s", clusters, rle, n, ok ? "valid" : "refused"));
  if (!ok) return;
  c.Label("map-garbage-accepted");
  c.Check(map == want, "map-differs", "");
}

static void Prop(Src& s, Case& c) {
  int k = s.Below(10);
  if (k < 3) Trees(s, c);
  else if (k < 6) Maps(s, c);
  else if (k < 9) Garbage(s, c);
  else GarbageMap(s, c);
}

#else
static void Prop(Src& s, Case& c) { EndToEnd(s, c); }
#endif

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "E02";
  p.rule =
      "A case is a symbol frequency table (few, deep, runs, sparse, ...) turned into a prefix code and used, a "
      "context map of some run structure stored and read, or bits read as a code description or context map "
      "next to a reference reader; non-trivial = something was stored and compared, or both readers gave a verdict";
  p.quick_cases = 160000;
  p.thorough_cases = 4000000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
