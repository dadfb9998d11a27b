// S03: the work of every operation grows in proportion to its data.
#include "codec.h"
#include "stream.h"
#include "work.h"

using namespace codec;

static const int kScale = 8;
// Most work of a repeated call that brings nothing.
static const uint64_t kIdle = 5000;

// What is repeated n times.
enum Kind {
  APP, COM, GARBAGE, RST, DHT, WIDTH, HEIGHT, RESTARTS, TAIL, BIG_APP, PADDING, RESETS, ZERO_RUNS, SCANS, IMAGE, kKinds
};
static const char* kKind[] = {"app-segments", "comments", "bytes-between-markers", "restart-markers", "huffman-tables",
                              "width", "height", "restart-intervals", "tail", "size-of-segment", "padding-bits",
                              "block-runs", "zero-runs", "scans", "image"};

struct Family {
  Kind kind;
  int place;        // where segments stand: before the frame, before the scan, after the scan
  uint32_t length;  // of segments
  int n;            // smaller number
  uint64_t seed;
  int other;        // number of other segments present
  bool dense;       // coefficients
};

static void Put(Bytes* j, std::initializer_list<int> v) {
  for (int x : v) j->push_back((uint8_t)x);
}

static void Segment(Bytes* j, Rng& r, int marker, uint32_t length, int style) {
  Bytes b = jg::RandomBytes(r, length, style);
  Put(j, {0xFF, marker, (int)((length + 2) >> 8), (int)((length + 2) & 255)});
  j->insert(j->end(), b.begin(), b.end());
}

static void Table(Bytes* j, int slot, int length, std::vector<int> symbols) {
  Put(j, {0xFF, 0xC4, 0, 19 + (int)symbols.size(), slot});
  for (int i = 1; i <= 16; ++i) j->push_back(i == length ? (uint8_t)symbols.size() : 0);
  for (int s : symbols) j->push_back((uint8_t)s);
}

// Any image, n / f.n times as wide or high as the smallest.
static Bytes Image(const Family& f, int n) {
  jg::Options o;
  o.full = true;
  o.allow_large = false;
  o.max_blocks = f.n * 4;
  if (n != f.n) (f.place ? o.higher : o.wider) = n / f.n;
  std::vector<uint32_t> rec(1 << 16);
  pbt::Src src(f.seed, rec.data(), rec.size());
  return jg::Generate(src, o).bytes;
}

static Bytes Make(const Family& f, int n) {
  if (f.kind == IMAGE) return Image(f, n);
  Rng r(f.seed);
  Bytes j;
  Put(&j, {0xFF, 0xD8, 0xFF, 0xDB, 0, 67, 0});
  for (int i = 0; i < 64; ++i) j.push_back((uint8_t)(1 + i));
  auto units = [&](int place) {
    for (int i = 0; i < f.other && place == 1; ++i) Segment(&j, r, 0xE3, 20, 3);
    if (place != f.place) return;
    for (int i = 0; i < n; ++i) {
      if (f.kind == APP) Segment(&j, r, 0xE0 + (f.seed % 16), f.length, 3);
      if (f.kind == COM) Segment(&j, r, 0xFE, f.length, 3);
      if (f.kind == RST) Put(&j, {0xFF, 0xD0 + i % 8});
      if (f.kind == DHT) Table(&j, 0x01, 1 + i % 7, {0});
      if (f.kind == GARBAGE) {
        for (uint32_t k = 0; k < f.length; ++k) j.push_back((uint8_t)r.Below(255));
        if (f.seed & 1) Put(&j, {0xFF, 0xFE, 0, 2});
      }
    }
    if (f.kind == BIG_APP) Segment(&j, r, 0xE5, (uint32_t)(f.length * n), (int)(f.seed % 4));
  };
  units(0);
  const bool progressive = f.kind == RESETS || f.kind == SCANS || f.kind == ZERO_RUNS;
  int bw = 3, bh = 3;
  if (f.kind == WIDTH) bw = n;
  if (f.kind == HEIGHT || f.kind == RESTARTS || f.kind == PADDING || f.kind == RESETS) bh = n;
  if (f.kind == ZERO_RUNS) bh = n;
  const int nb = bw * bh;
  Put(&j, {0xFF, progressive ? 0xC2 : 0xC0, 0, 11, 8, bh * 8 >> 8, bh * 8 & 255, bw * 8 >> 8, bw * 8 & 255, 1, 1, 0x11, 0});
  const bool dri = f.kind == RESTARTS || f.kind == PADDING;
  if (dri) Put(&j, {0xFF, 0xDD, 0, 4, 0, 1});
  Table(&j, 0x00, 2, {0, 3});
  // EOB, (0,2), ZRL
  Table(&j, 0x10, 2, {0, 2, 0xF0});
  units(1);
  dense::Bits b{&j};
  auto scan = [&](int ss, int se) {
    Put(&j, {0xFF, 0xDA, 0, 8, 1, 1, 0, ss, se, 0});
    for (int i = 0; i < nb; ++i) {
      if (dri && i) {
        while (b.n) b.Put(1, f.kind == PADDING ? r.Below(2) : 1);
        Put(&j, {0xFF, 0xD0 + (i - 1) % 8});
      }
      if (ss == 0) {
        if (f.dense) b.Put(2, 1), b.Put(3, r.Below(8)); else b.Put(2, 0);
      }
      if (se == 0) continue;
      int k = std::max(ss, 1);
      if (f.dense) {
        int m = (int)r.Below((uint32_t)(se - k + 2));
        for (int q = 0; q < m; ++q, ++k) b.Put(2, 1), b.Put(2, r.Below(4));
      }
      if (f.kind == ZERO_RUNS && !f.dense) {
        // Zero runs that end in the end of the block.
        for (int q = (int)r.Below(3); q > 0 && k + 16 <= se + 1; --q, k += 16) b.Put(2, 2);
      }
      if (k <= se) b.Put(2, 0);
    }
    b.Flush();
  };
  if (!progressive) {
    scan(0, 63);
  } else {
    scan(0, 0);
    if (f.kind == SCANS) {
      for (int i = 0; i < n; ++i) scan(1 + i, 1 + i);
    } else {
      scan(1, 63);
    }
  }
  units(2);
  Put(&j, {0xFF, 0xD9});
  if (f.kind == TAIL) {
    Bytes t = jg::RandomBytes(r, (size_t)n * f.length, (int)(f.seed % 4));
    j.insert(j.end(), t.begin(), t.end());
  }
  return j;
}

static Family RandomFamily(Src& s, bool thorough) {
  Family f;
  f.kind = s.Chance(1, 4) ? IMAGE : (Kind)s.Below(kKinds);
  f.place = s.Below(3);
  f.length = s.Below(40);
  f.n = 60 + s.Below(thorough ? 900 : 250);
  f.seed = s.Seed();
  f.other = s.Chance(1, 3) ? s.Below(40) : 0;
  f.dense = s.Bool();
  if (f.kind == DHT) f.n = 5 + s.Below(55), f.place = 1;
  if (f.kind == SCANS) f.n = 1 + s.Below(7);
  // The format takes at most 1024 markers of a kind.
  if (f.kind == APP || f.kind == COM || (f.kind == GARBAGE && (f.seed & 1))) f.n = 40 + s.Below(80);
  if (f.kind == GARBAGE || f.kind == TAIL) f.length = 1 + s.Below(60);
  if (f.kind == BIG_APP) f.length = 1 + s.Below(60000 / (kScale * f.n));
  return f;
}

static size_t Nothing(void*, const uint8_t*, size_t n) { return n; }

struct Costs {
  std::vector<std::pair<std::string, uint64_t>> v;
  Bytes brn;
};

static bool Measure(Case& c, const Bytes& in, int chunk, int room, int version, int extra, Costs* o) {
  auto add = [&](const char* what, uint64_t w) { o->v.push_back({what, w}); };
  Exact e(in);
  brunsli::JPEGData jpg, header, tables;
  bool ok = false;
  add("parsing", work::Of([&] { ok = brunsli::ReadJpeg(e.p.get(), e.n, brunsli::JPEG_READ_ALL, &jpg); }));
  if (!ok) return false;
  add("parsing of the header", work::Of([&] { brunsli::ReadJpeg(e.p.get(), e.n, brunsli::JPEG_READ_HEADER, &header); }));
  add("parsing of tables", work::Of([&] { brunsli::ReadJpeg(e.p.get(), e.n, brunsli::JPEG_READ_TABLES, &tables); }));
  add("serialization", work::Of([&] { brunsli::WriteJpeg(jpg, brunsli::JPEGOutput(Nothing, nullptr)); }));
  jpg.version = version;
  size_t len = 0;
  add("size bound", work::Of([&] { len = brunsli::GetMaximumBrunsliEncodedSize(jpg); }));
  Bytes brn(len);
  add("encoding", work::Of([&] { ok = brunsli::BrunsliEncodeJpeg(jpg, brn.data(), &len); }));
  if (!ok) return false;
  brn.resize(len);
  if (extra) {
    // A section that nobody knows.
    std::vector<strm::Sect> v;
    if (strm::ParseContainer(brn, &v)) {
      strm::Sect x;
      x.tag = 11;
      x.wire = 2;
      x.body.assign((size_t)extra * 30, 7);
      v.insert(v.begin() + std::min<size_t>(2, v.size()), x);
      brn = strm::Build(v);
    }
  }
  o->brn = brn;
  Exact b(brn);
  add("estimation", work::Of([&] { brunsli::BrunsliEstimateDecoderPeakMemoryUsage(b.p.get(), b.n); }));
  add("decoding", work::Of([&] {
        brunsli::JPEGData d;
        ok = brunsli::BrunsliDecodeJpeg(b.p.get(), b.n, &d) == brunsli::BRUNSLI_OK;
      }));
  if (!ok) return false;
  brunsli::BrunsliDecoder dec;
  Bytes out(room);
  size_t pos = 0, made = 0;
  brunsli::BrunsliDecoder::Status st;
  add("streaming", work::Of([&] {
        do {
          size_t ai = std::min<size_t>(chunk, b.n - pos), ao = out.size(), offered = ai;
          const uint8_t* ni = b.p.get() + pos;
          uint8_t* no = out.data();
          st = dec.Decode(&ai, &ni, &ao, &no);
          pos += offered - ai;
          made += no - out.data();
        } while (st == brunsli::BrunsliDecoder::NEEDS_MORE_OUTPUT ||
                 (st == brunsli::BrunsliDecoder::NEEDS_MORE_INPUT && pos < b.n));
      }));
  c.Check(st == brunsli::BrunsliDecoder::DONE && made == in.size(), "streaming-failed", "streaming does not restore the file");
  size_t bl = brunsli::GetBrunsliBypassSize(in.size());
  Bytes by(bl);
  add("bypass encoding", work::Of([&] { brunsli::BrunsliEncodeJpegBypass(e.p.get(), e.n, by.data(), &bl); }));
  by.resize(bl);
  Exact y(by);
  add("bypass decoding", work::Of([&] {
        brunsli::JPEGData d;
        brunsli::BrunsliDecodeJpeg(y.p.get(), y.n, &d);
      }));
  return true;
}

static void Prop(Src& s, Case& c) {
  Family f = RandomFamily(s, c.thorough);
  static const int kChunk[] = {1, 2, 7, 64, 700, 1 << 30};
  static const int kRoom[] = {1, 16, 300, 5000, 1 << 20};
  int chunk = kChunk[s.Below(6)], room = kRoom[s.Below(5)];
  int version = s.Chance(1, 3) ? 0 : 2;
  bool sections = s.Chance(1, 6);
  int n = f.n, big = kScale * n;
  c.Label(kKind[f.kind]);
  Bytes small = Make(f, n), large = Make(f, big);
  c.Attach("small.jpg", small);
  c.Attach("large.jpg", large);
  c.Sample(pbt::Fmt("%s %d and %d, %zu and %zu bytes, chunks of %d, room of %d", kKind[f.kind], n, big, small.size(),
                    large.size(), chunk, room));
  Costs a, b;
  if (!Measure(c, small, chunk, room, version, sections ? n : 0, &a) || !Measure(c, large, chunk, room, version, sections ? big : 0, &b)) {
    c.Label(std::string("refused:") + kKind[f.kind]);
    return;
  }
  c.NonTrivial();
  c.Key(pbt::Hash(large));
  if (sections) c.Label("unknown section");
  // Refusing less data takes no more work, and neither does asking again.
  {
    Bytes cut(b.brn.begin(), b.brn.begin() + s.Below((uint32_t)b.brn.size()));
    Bytes part(large.begin(), large.begin() + s.Below((uint32_t)large.size()));
    auto find = [&](const char* what) {
      for (auto& x : b.v) {
        if (x.first == what) return x.second;
      }
      return (uint64_t)0;
    };
    auto less = [&](const char* what, uint64_t w) {
      uint64_t whole = find(what);
      c.Check(w <= whole * 5 / 4 + 20000, "refusal-superlinear",
              pbt::Fmt("%s of a part (%s) takes %llu, of the whole %llu", what, kKind[f.kind], (unsigned long long)w,
                       (unsigned long long)whole));
    };
    Exact ec(cut), ep(part);
    less("parsing", work::Of([&] { brunsli::JPEGData d; brunsli::ReadJpeg(ep.p.get(), ep.n, brunsli::JPEG_READ_ALL, &d); }));
    less("decoding", work::Of([&] { brunsli::JPEGData d; (void)brunsli::BrunsliDecodeJpeg(ec.p.get(), ec.n, &d); }));
    brunsli::BrunsliDecoder dec;
    Bytes out(room);
    uint64_t last = 0;
    less("streaming", work::Of([&] {
           size_t pos = 0;
           brunsli::BrunsliDecoder::Status st;
           do {
             size_t ai = std::min<size_t>(chunk, ec.n - pos), ao = out.size(), offered = ai;
             const uint8_t* ni = ec.p.get() + pos;
             uint8_t* no = out.data();
             st = dec.Decode(&ai, &ni, &ao, &no);
             pos += offered - ai;
             // Fetching what output is left is not part of refusing.
           } while (pos < ec.n && (st == brunsli::BrunsliDecoder::NEEDS_MORE_OUTPUT ||
                                   st == brunsli::BrunsliDecoder::NEEDS_MORE_INPUT));
         }));
    out.resize(1 << 16);
    for (size_t got = out.size(); got == out.size();) {
      size_t ai = 0, ao = out.size();
      const uint8_t* ni = ec.p.get();
      uint8_t* no = out.data();
      (void)dec.Decode(&ai, &ni, &ao, &no);
      got -= ao;
    }
    for (int i = 0; i < 3; ++i) {
      last = work::Of([&] {
                        size_t ai = 0, ao = out.size();
                        const uint8_t* ni = ec.p.get();
                        uint8_t* no = out.data();
                        (void)dec.Decode(&ai, &ni, &ao, &no);
                      });
    }
    c.Check(last <= kIdle, "idle-work", pbt::Fmt("a call without input takes %llu after %zu bytes", (unsigned long long)last, ec.n));
  }
  // Blocks differ in size: bytes may grow more than blocks.
  const double scale = std::max<double>(kScale, (double)large.size() / small.size());
  for (size_t i = 0; i < a.v.size(); ++i) {
    uint64_t x = a.v[i].second, y = b.v[i].second;
    double ratio = (double)y / (double)(x + 1);
    c.Check(y <= x * scale * 5 / 4 + 20000, "superlinear",
            pbt::Fmt("%s of %.1f times as much data (%s) takes %.1f times the work: %llu, %llu", a.v[i].first.c_str(), scale,
                     kKind[f.kind], ratio, (unsigned long long)x, (unsigned long long)y));
  }
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "S03";
  p.rule =
      "A case is two JPEG files of the same make, one with eight times as much of something (segments, bytes, "
      "tables, blocks, intervals, scans), on which, and on parts of the larger, the work of every operation is counted; non-trivial = both are accepted";
  p.quick_cases = 6000;
  p.thorough_cases = 60000;
  p.fn = Prop;
  p.assumptions = {"Work is counted as basic blocks executed, bytes copied and memory requested by the codec, without the Brotli library"};
  return pbt::Main(argc, argv, p);
}
