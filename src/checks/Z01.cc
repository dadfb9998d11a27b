// Z01: the advertised maximum size is never exceeded.
#include "guard.h"
#include "model.h"

using namespace codec;

static void CheckFits(Case& c, const brunsli::JPEGData& m, bool must_accept, const char* what) {
  size_t max = brunsli::GetMaximumBrunsliEncodedSize(m);
  guard::Buffer b(max);
  size_t len = max;
  bool ok = brunsli::BrunsliEncodeJpeg(m, b.data(), &len);
  c.Check(b.LeadIntact(), "wrote-before-buffer", what);
  if (!ok) {
    c.Check(!must_accept, "refused-at-maximum-size",
            pbt::Fmt("%s: encoder refused a buffer of the advertised maximum size %zu", what, max));
    c.Label("refused");
    return;
  }
  c.Check(len <= max, "larger-than-maximum", pbt::Fmt("%s: reported size %zu, maximum %zu", what, len, max));
  c.NonTrivial();
  c.Key(pbt::Hash(b.data(), std::min<size_t>(len, 1 << 20)));
  c.Key(len);
  c.Sum("bytes", len);
  double use = (double)len / max;
  c.Label(use > 0.99 ? "fill>99%" : use > 0.9 ? "fill>90%" : use > 0.5 ? "fill>50%" : use > 0.1 ? "fill>10%" : "fill<10%");
}

// A bare model of a w x h blocks image.
static brunsli::JPEGData Bare(Src& s, int total_blocks, int ncomp) {
  brunsli::JPEGData m;
  int per = std::max(1, total_blocks / ncomp);
  int w = 1 + s.Below(400);
  if (per > 50000) w = 200 + s.Below(200);
  int h = std::max(1, per / w);
  m.width = w * 8 - s.Below(8);
  m.height = h * 8 - s.Below(8);
  m.MCU_cols = w;
  m.MCU_rows = h;
  m.version = s.Bool() ? 2 : 0;
  for (int i = 0; i < ncomp; ++i) {
    brunsli::JPEGComponent c;
    c.id = i + 1;
    c.quant_idx = 0;
    c.width_in_blocks = w;
    c.height_in_blocks = h;
    c.num_blocks = w * h;
    c.coeffs.resize((size_t)64 * w * h);
    m.components.push_back(c);
  }
  brunsli::JPEGQuantTable q;
  for (auto& v : q.values) v = 1;
  q.is_last = true;
  m.quant.push_back(q);
  m.marker_order = {0xD9};
  return m;
}

static void Noise(Src& s, Case& c, brunsli::JPEGData* m) {
  Rng r(s.Seed());
  int mode = s.Below(6);
  int dist = m->components[0].coeffs.size() > ((size_t)1 << 21) ? 1 + s.Below(2) : s.Below(4);
  int max = dist == 0 ? 1023 : dist == 1 ? 2047 : dist == 2 ? 2054 : 1 << s.Below(11);
  int zero = s.Below(3);  // one zero in 64, 16, none
  int dcm = s.Chance(1, 4) ? 100 : 1023;
  c.Label(pbt::Fmt("noise:%d max %d", mode, max));
  for (auto& k : m->components) {
    size_t n = k.coeffs.size();
    int sign = 1;
    for (size_t b = 0; b < n; ++b) {
      if (b % 64 == 0) {
        k.coeffs[b] = (int16_t)r.Range(-dcm, dcm);
        continue;
      }
      int v;
      switch (mode) {
        case 0: v = r.Range(-max, max); break;
        case 1:  // never zero
          v = 1 + r.Below(max);
          if (r.Below(2)) v = -v;
          break;
        case 2:  // large only
          v = max / 2 + 1 + r.Below(max - max / 2);
          if (r.Below(2)) v = -v;
          break;
        case 3:  // log-uniform
          v = 1 + r.Below(1u << r.Below(11));
          if (r.Below(2)) v = -v;
          break;
        case 4:  // alternating signs, uniform
          v = 1 + r.Below(max);
          sign = -sign;
          v *= sign;
          break;
        default:  // blocks of different character
          v = (b >> 6) & 1 ? r.Range(-max, max) : r.Range(-(max >> 3), max >> 3);
      }
      if (zero == 0 && r.Below(64) == 0) v = 0;
      if (zero == 1 && r.Below(16) == 0) v = 0;
      if (v > 2054) v = 2054;
      k.coeffs[b] = (int16_t)v;
    }
  }
}

static Bytes Segment(Rng& r, uint8_t marker, size_t payload) {
  Bytes b(3 + payload);
  b[0] = marker;
  b[1] = (uint8_t)((payload + 2) >> 8);
  b[2] = (uint8_t)(payload + 2);
  for (size_t i = 0; i < payload; ++i) b[3 + i] = (uint8_t)r.Next();
  return b;
}

static void Prop(Src& s, Case& c) {
  int kind = s.Weighted({60, 20, 1, 3, 4});
  if (kind == 0) {  // a JPEG file
    c.Label("kind:file");
    jg::Options o;
    o.max_blocks = 500;
    jg::Jpeg j = jg::Generate(s, o);
    Labels(c, j);
    Bytes in = j.bytes;
    bool damaged = s.Chance(1, 4);
    if (damaged) in = jg::Mutate(s, in, 5);
    c.Attach("input.jpg", in);
    c.Sample(j.Describe());
    brunsli::JPEGData m;
    if (!Read(in, &m)) return;
    brunsli::JPEGData& mm = m;
    // Encodability is only certain for conforming files.
    CheckFits(c, mm, j.conforming && !damaged && !TooMuchPadding(j), "file");
    return;
  }
  if (kind == 1) {  // bypass
    c.Label("kind:bypass");
    Rng r(s.Seed());
    Bytes in = jg::RandomBytes(r, 1 + s.Size(1 << 17), s.Below(4));
    if (s.Bool()) {
      jg::Options o;
      o.max_blocks = 100;
      jg::Jpeg j = jg::Generate(s, o);
      in = j.bytes;
    }
    c.Attach("input.bin", in);
    size_t max = brunsli::GetBrunsliBypassSize(in.size());
    guard::Buffer b(max);
    size_t len = max;
    bool ok = brunsli::BrunsliEncodeJpegBypass(in.data(), in.size(), b.data(), &len);
    c.Check(ok, "bypass-refused", "bypass encoder refused a buffer of the advertised size");
    c.Check(b.LeadIntact(), "wrote-before-buffer", "bypass");
    c.Check(len <= max, "bypass-larger", pbt::Fmt("bypass size %zu, advertised %zu", len, max));
    c.NonTrivial();
    c.Key(pbt::Hash(in));
    c.Sample(pbt::Fmt("bypass of %zu bytes, used %zu of %zu", in.size(), len, max));
    return;
  }
  if (kind == 2) {  // entropy coded data close to the bound
    c.Label("kind:noise-large");
    int ncomp = s.Bool() ? 1 : s.Bool() ? 3 : 4;
    int n = 87000 + s.Below(c.thorough ? 400000 : 60000);
    brunsli::JPEGData m = Bare(s, n, ncomp);
    Noise(s, c, &m);
    c.Sample(pbt::Fmt("noise image, %d blocks in %d components", n, ncomp));
    CheckFits(c, m, true, "noise");
    return;
  }
  if (kind == 3) {  // other large parts
    Rng r(s.Seed());
    brunsli::JPEGData m = Bare(s, 1 + s.Below(64), s.Bool() ? 1 : 3);
    int what = s.Below(6);
    size_t total = (1u << 20) + (200u << 10) + s.Below(2u << 20);
    static const char* kNames[] = {"app", "com", "tail", "inter-marker", "huffman", "scans"};
    c.Label(std::string("kind:large-") + kNames[what]);
    c.Sample(pbt::Fmt("model with %zu bytes of %s", total, kNames[what]));
    m.marker_order.clear();
    size_t sum = 0;
    switch (what) {
      case 0:
      case 1:
        while (sum < total) {
          size_t n = s.Chance(1, 4) ? 20000 + r.Below(45000) : 65533;
          if (what == 0) {
            uint8_t mk = (uint8_t)(0xE0 + r.Below(16));
            m.app_data.push_back(Segment(r, mk, n));
            m.marker_order.push_back(mk);
          } else {
            m.com_data.push_back(Segment(r, 0xFE, n));
            m.marker_order.push_back(0xFE);
          }
          sum += n;
        }
        break;
      case 2:
        m.tail_data.resize(total);
        for (auto& x : m.tail_data) x = (uint8_t)r.Next();
        break;
      case 3: {
        int n = 1 + s.Below(200);
        for (int i = 0; i < n; ++i) {
          Bytes b(total / n);
          for (auto& x : b) x = (uint8_t)r.Next();
          m.inter_marker_data.push_back(b);
          m.marker_order.push_back(0xFF);
        }
        break;
      }
      case 4: {  // 511 tables in as many segments
        int n = 300 + s.Below(211);
        for (int i = 0; i < n; ++i) {
          brunsli::JPEGHuffmanCode t;
          t.slot_id = 0x10 + r.Below(4);
          t.is_last = true;
          for (int k = 0; k < 256; ++k) t.values[k] = 255 - k;
          for (int k = 255; k > 0; --k) std::swap(t.values[k], t.values[r.Below(k + 1)]);
          t.values[256] = 256;
          t.counts[8] = 254;
          t.counts[9] = 3;
          m.huffman_code.push_back(t);
          m.marker_order.push_back(0xC4);
        }
        break;
      }
      default: {  // scans with many annotations
        int n = 1 + s.Below(20);
        for (int i = 0; i < n; ++i) {
          brunsli::JPEGScanInfo sc;
          sc.num_components = 1;
          sc.components[0].comp_idx = 0;
          int pos = -1;
          int per = (int)(total / 6 / n);
          for (int k = 0; k < per; ++k) {
            pos += 1 + (int)r.Below(12);
            if (pos >= (1 << 21)) break;
            if (r.Below(2)) {
              sc.reset_points.push_back(pos);
            } else {
              brunsli::JPEGScanInfo::ExtraZeroRunInfo z;
              z.block_idx = pos;
              z.num_extra_zero_runs = 1 + (int)r.Below(3);
              sc.extra_zero_runs.push_back(z);
            }
          }
          m.scan_info.push_back(sc);
          m.marker_order.push_back(0xDA);
        }
      }
    }
    m.marker_order.push_back(0xD9);
    CheckFits(c, m, true, kNames[what]);
    return;
  }
  // Small and medium noise: many distributions.
  c.Label("kind:noise-small");
  int ncomp = s.Bool() ? 1 : s.Bool() ? 3 : 4;
  brunsli::JPEGData m = Bare(s, 1 + s.Below(6000), ncomp);
  Noise(s, c, &m);
  size_t n = m.components[0].num_blocks * (size_t)ncomp;
  c.Sample(pbt::Fmt("noise image, %zu blocks", n));
  CheckFits(c, m, true, "noise");
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "Z01";
  p.rule =
      "A case is a generated JPEG file, a bypass payload, or a model that drives one term of the "
      "size to its worst case (full-range noise above 87000 blocks, megabytes of metadata, tables, "
      "scan annotations, bytes between markers); the output buffer has exactly the advertised size "
      "and ends at an inaccessible page; non-trivial = the encoder was run to success on it";
  p.quick_cases = 20000;
  p.thorough_cases = 60000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
