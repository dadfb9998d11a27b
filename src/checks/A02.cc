// A02: format recognition and status reporting are exact.
#include <set>

#include "stream.h"

using namespace codec;
using strm::Sect;

static const uint8_t kSig[6] = {0x0A, 0x04, 0x42, 0xD2, 0xD5, 0x4E};

static void Recognition(Src& s, Case& c) {
  c.Label("recognition");
  Bytes b;
  int kind = s.Below(5);
  Rng r(s.Seed());
  if (kind == 0) {
    b.assign(kSig, kSig + 6);
    b = jg::Mutate(s, b, 2);
  } else if (kind == 1) {
    b.assign(kSig, kSig + s.Below(7));
    Bytes t = jg::RandomBytes(r, s.Size(40), s.Below(4));
    b.insert(b.end(), t.begin(), t.end());
  } else if (kind == 2) {
    b.assign(kSig, kSig + 6);
    b[s.Below(6)] ^= (uint8_t)(1 << s.Below(8));
    Bytes t = jg::RandomBytes(r, s.Size(40), s.Below(4));
    b.insert(b.end(), t.begin(), t.end());
  } else if (kind == 3) {
    b = jg::RandomBytes(r, s.Size(64), s.Below(4));
  } else {  // signature later in the data
    b = jg::RandomBytes(r, 1 + s.Below(4), s.Below(4));
    b.insert(b.end(), kSig, kSig + 6);
  }
  c.Attach("data.bin", b);
  c.Sample("recognition of " + pbt::Hex(b, 16));
  bool want = b.size() >= 6 && memcmp(b.data(), kSig, 6) == 0;
  Exact e(b);
  bool got = brunsli::IsBrunsli(e.p.get(), e.n);
  c.Check(got == want, "recognition", pbt::Fmt("IsBrunsli says %d for %s", got, pbt::Hex(b, 16).c_str()));
  c.NonTrivial();
  c.Key(pbt::Hash(b));
  // Data that is not recognized is never decoded.
  brunsli::JPEGData d;
  brunsli::BrunsliStatus st = brunsli::BrunsliDecodeJpeg(e.p.get(), e.n, &d);
  c.Check(st != brunsli::BRUNSLI_OK, "decoded-garbage", "decoder accepts data without sections");
  // Fewer than six bytes may always be called too short.
  if (b.size() >= 6 && !want)
    c.Check(st != brunsli::BRUNSLI_NOT_ENOUGH_DATA, "missing-data-for-garbage",
            "decoder asks for more of data with a wrong signature");
}

// True if the stream ends inside or before a section it needs.
static bool Incomplete(const Bytes& b) {
  if (b.size() < 6) return true;
  std::vector<Sect> v;
  if (!strm::ParseContainer(b, &v)) return true;
  std::set<int> tags;
  for (auto& x : v) tags.insert(x.tag);
  if (tags.count(9)) return !tags.count(2);
  // The metadata section may be left out when there is no metadata.
  for (int t = 2; t <= 8; ++t)
    if (t != 3 && !tags.count(t)) return true;
  return false;
}

static void Status(Src& s, Case& c) {
  c.Label("status");
  strm::Valid v;
  if (!strm::MakeValid(s, c, &v, 60)) return;
  c.Sample(v.what);
  Bytes b = v.brn;
  int kind = s.Weighted({2, 3, 3, 6});
  if (kind == 1) b.resize(s.Below((uint32_t)b.size()));
  if (kind == 2) {
    Rng r(s.Seed());
    Bytes t = jg::RandomBytes(r, 1 + s.Below(12), s.Below(4));
    b.insert(b.end(), t.begin(), t.end());
  }
  if (kind == 3 && s.Chance(1, 8)) {
    // An unknown item of the header claims more than the header has.
    std::vector<Sect> top, f;
    strm::ParseContainer(b, &top);
    strm::ParseItems(top[0].body, 0, top[0].body.size(), &f);
    std::vector<Sect> head(f.begin(), f.begin() + s.Below((uint32_t)f.size() + 1));
    std::vector<Sect> rest(f.begin() + head.size(), f.end());
    Bytes h = strm::BuildItems(head), t = strm::BuildItems(rest);
    h.push_back((uint8_t)((5 + s.Below(11)) << 3 | 2));
    strm::PutVar(&h, t.size() + 1 + s.Size(s.Chance(1, 2) ? 2000 : 100000000));
    h.insert(h.end(), t.begin(), t.end());
    top[0].body = h;
    b = strm::Build(top);
    c.Label("header item too long");
  } else if (kind == 3) {
    b = jg::Mutate(s, b, 4);
  }
  c.Attach("stream.brn", b);
  c.Key(pbt::Hash(b));
  c.NonTrivial();
  Bytes out;
  bool written;
  brunsli::BrunsliStatus st = Decode(b, &out, &written);
  c.Label(pbt::Fmt("kind %d status %d%s", kind, (int)st, st == brunsli::BRUNSLI_OK ? (written ? " written" : " unwritten") : ""));
  switch (kind) {
    case 0:
      c.Check(st == brunsli::BRUNSLI_OK && written, "valid-refused", pbt::Fmt("valid stream: status %d", (int)st));
      c.Check(out == v.jpeg, "wrong-bytes", Diff(out, v.jpeg));
      break;
    case 1:
      c.Check(st == brunsli::BRUNSLI_NOT_ENOUGH_DATA, "prefix-status",
              pbt::Fmt("prefix of %zu of %zu bytes: status %d", b.size(), v.brn.size(), (int)st));
      break;
    case 2:
      c.Check(st != brunsli::BRUNSLI_OK, "trailing-accepted", "bytes after the last section are accepted");
      break;
    default: {
      static const std::set<int> known = {brunsli::BRUNSLI_OK,           brunsli::BRUNSLI_NON_REPRESENTABLE,
                                          brunsli::BRUNSLI_MEMORY_ERROR, brunsli::BRUNSLI_INVALID_PARAM,
                                          brunsli::BRUNSLI_COMPRESSION_ERROR, brunsli::BRUNSLI_INVALID_BRN,
                                          brunsli::BRUNSLI_DECOMPRESSION_ERROR, brunsli::BRUNSLI_NOT_ENOUGH_DATA};
      c.Check(known.count(st), "unknown-status", pbt::Fmt("status %d", (int)st));
      if (st == brunsli::BRUNSLI_OK)
        c.Check(!Incomplete(b), "incomplete-accepted", "stream with missing sections is reported OK");
      if (st == brunsli::BRUNSLI_NOT_ENOUGH_DATA)
        c.Check(Incomplete(b), "missing-data-for-complete",
                "a stream whose sections are all present and complete is reported as lacking data");
    }
  }
}

// The Huffman symbol the serializer needs first in scan 0 (class, id, symbol).
static bool FirstSymbols(const jg::Jpeg& j, const brunsli::JPEGData& d, int* dc_id, int* dc_sym, int* ac_id, int* ac_sym) {
  *dc_id = *ac_id = -1;
  if (j.scans.empty()) return false;
  const jg::Scan& sc = j.scans[0];
  const jg::Comp& k = j.comps[sc.comps[0].comp];
  bool prog = j.sof == 0xC2;
  int Ss = prog ? sc.Ss : 0, Ah = prog ? sc.Ah : 0, Al = prog ? sc.Al : 0;
  if (Ss == 0 && Ah == 0) {
    int v = k.coef[0] >> Al, n = 0;
    for (v = abs(v); v; v >>= 1) ++n;
    *dc_id = sc.comps[0].td;
    *dc_sym = n;
  }
  if (!prog) {
    int r = 0, i = 1;
    while (i < 64 && k.coef[jg::kZigZag[i]] == 0) ++i, ++r;
    *ac_id = sc.comps[0].ta;
    if (i == 64) {
      bool zrl = false;
      for (auto& z : d.scan_info[0].extra_zero_runs) zrl |= z.block_idx == 0;
      *ac_sym = zrl ? 0xF0 : 0;
    } else if (r > 15) {
      *ac_sym = 0xF0;
    } else {
      int v = k.coef[jg::kZigZag[i]], n = 0;
      for (v = abs(v); v; v >>= 1) ++n;
      *ac_sym = r << 4 | n;
    }
  }
  return true;
}

static bool DropSymbol(brunsli::JPEGData* d, int slot, int sym) {
  bool done = false;
  for (auto& h : d->huffman_code) {
    if (h.slot_id != slot) continue;
    std::set<int> used;
    int n = 0;
    for (int x : h.counts) n += x;
    for (int i = 0; i < n; ++i) used.insert(h.values[i]);
    if (!used.count(sym)) continue;
    int other = 255;
    while (used.count(other)) --other;
    if (other < 0) return false;
    for (int i = 0; i < n; ++i)
      if (h.values[i] == sym) h.values[i] = other;
    done = true;
  }
  return done;
}

// Makes the model unserializable. Returns false if the operator does not apply.
// *encode: the encoder must refuse it as well; *write: the serializer must.
static bool Break(Src& s, Case& c, const jg::Jpeg& j, brunsli::JPEGData* d, bool* encode, bool* write) {
  *encode = false;
  *write = true;
  int op = s.Below(28);
  static const char* kNames[] = {
      "missing app segment",   "missing comment",         "missing inter-marker data", "missing Huffman group",
      "unterminated Huffman",  "missing quant group",     "unterminated quant",        "quant index",
      "scan component index",  "no markers",              "unsupported marker",        "missing scan",
      "missing padding bits",  "symbol without DC code",  "symbol without AC code",    "Huffman slot",
      "table selector",        "missing coefficients",    "components in scan",        "no components",
      "empty Huffman code",    "oversized Huffman code",  "size beyond coefficients",  "version",
      "no coefficients",       "bypass without data",     "no quant tables",           "surplus scan"};
  c.Label(std::string("broken: ") + kNames[op]);
  auto pick_scan = [&]() -> brunsli::JPEGScanInfo* {
    if (d->scan_info.empty()) return nullptr;
    return &d->scan_info[s.Below((uint32_t)d->scan_info.size())];
  };
  switch (op) {
    case 0:
      if (d->app_data.empty()) return false;
      d->app_data.erase(d->app_data.begin() + s.Below((uint32_t)d->app_data.size()));
      return true;
    case 1:
      if (d->com_data.empty()) return false;
      d->com_data.erase(d->com_data.begin() + s.Below((uint32_t)d->com_data.size()));
      return true;
    case 2:
      if (d->inter_marker_data.empty()) return false;
      d->inter_marker_data.pop_back();
      return true;
    case 3: {
      if (d->huffman_code.empty()) return false;
      do d->huffman_code.pop_back();
      while (!d->huffman_code.empty() && !d->huffman_code.back().is_last);
      return true;
    }
    case 4:
      if (d->huffman_code.empty()) return false;
      d->huffman_code.back().is_last = false;
      *encode = true;
      return true;
    case 5: {
      if (d->quant.empty()) return false;
      do d->quant.pop_back();
      while (!d->quant.empty() && !d->quant.back().is_last);
      return true;
    }
    case 6:
      if (d->quant.empty()) return false;
      d->quant.back().is_last = false;
      *encode = true;
      return true;
    case 7:
      d->components[s.Below((uint32_t)d->components.size())].quant_idx = (uint8_t)(d->quant.size() + s.Below(200));
      *encode = true;
      return true;
    case 8: {
      auto* sc = pick_scan();
      if (!sc) return false;
      sc->components[s.Below((uint32_t)sc->num_components)].comp_idx = (uint8_t)(d->components.size() + s.Below(100));
      return true;
    }
    case 9:
      d->marker_order.clear();
      *encode = true;
      return true;
    case 10: {
      static const uint8_t bad[] = {0xC3, 0xC5, 0xC6, 0xC7, 0xC8, 0xCB, 0xCC, 0xCD, 0xCE, 0xCF, 0xD8, 0xDC,
                                    0xDE, 0xDF, 0xF0, 0xF5, 0xFB, 0xFD, 0xBF, 0x80, 0x01, 0x00, 0x7F};
      const uint8_t m = bad[s.Below(sizeof(bad))];
      d->marker_order.insert(d->marker_order.begin() + s.Below((uint32_t)d->marker_order.size()), m);
      *encode = m < 0xC0;
      return true;
    }
    case 11:
      if (d->scan_info.empty()) return false;
      d->scan_info.pop_back();
      *encode = true;
      return true;
    case 12:
      if (!d->has_zero_padding_bit || d->padding_bits.size() < 2) return false;
      d->padding_bits.resize(1 + s.Below((uint32_t)d->padding_bits.size() - 1));
      return true;
    case 13:
    case 14: {
      int dc, dcs = 0, ac, acs = 0;
      if (!FirstSymbols(j, *d, &dc, &dcs, &ac, &acs)) return false;
      if (op == 13) return dc >= 0 && DropSymbol(d, dc, dcs);
      return ac >= 0 && DropSymbol(d, 0x10 | ac, acs);
    }
    case 15: {
      if (d->huffman_code.empty()) return false;
      static const int bad[] = {4, 5, 0x14, 0x15, 0x20, 0x23, 0x100, 0x9};
      d->huffman_code[s.Below((uint32_t)d->huffman_code.size())].slot_id = bad[s.Below(8)];
      return true;
    }
    case 16: {
      auto* sc = pick_scan();
      if (!sc) return false;
      auto& k = sc->components[s.Below((uint32_t)sc->num_components)];
      (s.Bool() ? k.dc_tbl_idx : k.ac_tbl_idx) = (uint8_t)(4 + s.Below(200));
      return true;
    }
    case 17:
    case 24: {
      auto* sc = pick_scan();
      if (!sc) return false;
      auto& k = d->components[sc->components[s.Below((uint32_t)sc->num_components)].comp_idx];
      // Only the blocks of full MCUs may be missing without harm: drop more.
      size_t n = op == 24 ? 0 : s.Below((uint32_t)(k.coeffs.size() / 2) + 1);
      int used_rows = (int)((d->height * k.v_samp_factor + 8 * d->max_v_samp_factor - 1) / (8 * d->max_v_samp_factor));
      int used_cols = (int)((d->width * k.h_samp_factor + 8 * d->max_h_samp_factor - 1) / (8 * d->max_h_samp_factor));
      size_t last = ((size_t)(used_rows - 1) * k.width_in_blocks + used_cols) * 64;
      if (n >= last) return false;
      k.coeffs.resize(n);
      k.coeffs.shrink_to_fit();
      *encode = true;
      return true;
    }
    case 18: {
      auto* sc = pick_scan();
      if (!sc) return false;
      sc->num_components = s.Bool() ? 0 : 5 + s.Below(300);
      return true;
    }
    case 19:
      if (d->scan_info.empty()) return false;
      d->components.clear();
      *encode = true;
      return true;
    case 20: {
      if (d->huffman_code.empty()) return false;
      auto& h = d->huffman_code[s.Below((uint32_t)d->huffman_code.size())];
      std::fill(h.counts.begin(), h.counts.end(), 0);
      *encode = true;
      return true;
    }
    case 21: {
      if (d->huffman_code.empty()) return false;
      auto& h = d->huffman_code[s.Below((uint32_t)d->huffman_code.size())];
      h.counts[1 + s.Below(16)] += 300 + s.Below(1000);
      *encode = true;
      return true;
    }
    case 22: {
      if (d->scan_info.empty()) return false;
      // One more MCU column and row than there are coefficients for.
      bool w = s.Bool();
      if (w) d->width = d->MCU_cols * 8 * d->max_h_samp_factor + 1 + s.Below(5000);
      else d->height = d->MCU_rows * 8 * d->max_v_samp_factor + 1 + s.Below(5000);
      return true;
    }
    case 23: {
      static const int bad[] = {3, 5, 7, 9, 11};
      d->version = bad[s.Below(5)];
      *encode = true;
      return true;
    }
    case 25:
      d->version = 1;
      d->original_jpg = nullptr;
      return true;
    case 27: {
      auto* sc = pick_scan();
      if (!sc) return false;
      const brunsli::JPEGScanInfo copy = *sc;
      d->scan_info.insert(d->scan_info.begin() + s.Below((uint32_t)d->scan_info.size() + 1), copy);
      *encode = true;
      *write = false;
      return true;
    }
    default:
      d->quant.clear();
      *encode = true;
      return true;
  }
}

static void Inconsistent(Src& s, Case& c) {
  c.Label("inconsistent");
  jg::Options o;
  o.max_blocks = 60;
  jg::Jpeg j = jg::Generate(s, o);
  Labels(c, j);
  brunsli::JPEGData d;
  if (!Read(j.bytes, &d)) return;
  bool encode, write;
  if (!Break(s, c, j, &d, &encode, &write)) {
    c.Label("not applicable");
    return;
  }
  c.Attach("input.jpg", j.bytes);
  c.Sample(c.labels_.back() + " in " + j.Describe());
  c.NonTrivial();
  c.Key(pbt::Hash(j.bytes));
  c.Key(pbt::Hash(c.labels_.back().data(), c.labels_.back().size()));
  Bytes out;
  if (write)
    c.Check(!Write(d, &out), "inconsistent-serialized",
          "serialization of an inconsistent representation succeeds: " + c.labels_.back());
  if (encode) {
    c.Label("inconsistent:encode");
    Bytes brn;
    c.Check(!Encode(d, &brn), "inconsistent-encoded",
            "encoding of an inconsistent representation succeeds: " + c.labels_.back());
  }
}

static void Prop(Src& s, Case& c) {
  switch (s.Weighted({3, 4, 5})) {
    case 0: Recognition(s, c); break;
    case 1: Status(s, c); break;
    default: Inconsistent(s, c);
  }
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "A02";
  p.rule =
      "A case is (a) bytes near the signature with the exact recognition verdict, (b) a valid, "
      "truncated, extended or mutated stream whose status is judged by an independent container "
      "parser, or (c) a parsed JPEG with one of 28 inconsistencies, which must not serialize or encode; "
      "non-trivial = the verdict was checked (the inconsistency applied)";
  p.quick_cases = 40000;
  p.thorough_cases = 600000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
