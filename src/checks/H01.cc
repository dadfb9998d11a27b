// H01: headerless decoding.
#include "endtoend.h"
#include "stream.h"

#ifndef NO_INTERNALS
#include "common/constants.h"
#include "dec/state.h"
#include "enc/state.h"
#endif

using namespace codec;

#ifndef NO_INTERNALS

using brunsli::BrunsliStatus;
using brunsli::internal::dec::SerializationStatus;
using brunsli::internal::dec::Stage;
using brunsli::internal::dec::State;

// What a container of another kind tells about the image.
static void Describe(const brunsli::JPEGData& from, brunsli::JPEGData* to) {
  to->version = from.version;
  to->width = from.width;
  to->height = from.height;
  to->components.resize(from.components.size());
  for (size_t i = 0; i < from.components.size(); ++i) {
    to->components[i].h_samp_factor = from.components[i].h_samp_factor;
    to->components[i].v_samp_factor = from.components[i].v_samp_factor;
  }
}

static bool Start(const brunsli::JPEGData& about, State* st, brunsli::JPEGData* jpg) {
  Describe(about, jpg);
  if (!brunsli::internal::dec::UpdateSubsamplingDerivatives(jpg)) return false;
  st->use_legacy_context_model = !(about.version & 2);
  st->stage = Stage::SECTION;
  st->tags_met = (1u << brunsli::kBrunsliSignatureTag) | (1u << brunsli::kBrunsliHeaderTag) |
                 (1u << brunsli::kBrunsliOriginalJpgTag);
  brunsli::internal::dec::PrepareMeta(jpg, st);
  return true;
}

static std::string Same(const brunsli::JPEGData& a, const brunsli::JPEGData& b) {
  if (a.width != b.width || a.height != b.height || a.MCU_rows != b.MCU_rows || a.MCU_cols != b.MCU_cols) return "geometry";
  if (a.max_h_samp_factor != b.max_h_samp_factor || a.max_v_samp_factor != b.max_v_samp_factor) return "sampling";
  if (a.components.size() != b.components.size()) return "components";
  for (size_t i = 0; i < a.components.size(); ++i) {
    const auto &x = a.components[i], &y = b.components[i];
    if (x.id != y.id || x.quant_idx != y.quant_idx) return "component";
    if (x.width_in_blocks != y.width_in_blocks || x.height_in_blocks != y.height_in_blocks || x.num_blocks != y.num_blocks)
      return "component size";
    if (x.coeffs != y.coeffs) return "coefficients";
  }
  if (a.app_data != b.app_data || a.com_data != b.com_data || a.tail_data != b.tail_data) return "metadata";
  if (a.marker_order != b.marker_order || a.inter_marker_data != b.inter_marker_data) return "markers";
  if (a.restart_interval != b.restart_interval || a.padding_bits != b.padding_bits) return "restarts or padding";
  if (a.quant.size() != b.quant.size() || a.huffman_code.size() != b.huffman_code.size() ||
      a.scan_info.size() != b.scan_info.size())
    return "tables or scans";
  for (size_t i = 0; i < a.quant.size(); ++i)
    if (a.quant[i].values != b.quant[i].values || a.quant[i].index != b.quant[i].index) return "quantization";
  return "";
}

static size_t Chunk(Src& s, Rng& r, int style, size_t param, size_t left) {
  (void)s;
  switch (style) {
    case 0: return left;
    case 1: return std::min(left, param);
    case 2: return std::min<size_t>(left, r.Below(2 * (uint32_t)param + 1));
    default: return std::min<size_t>(left, r.Chance(1, 2) ? r.Below(3) : r.Below(900));
  }
}

// Feeds `in` piecewise; every piece lives only during its call, the state is
// moved now and then, and the JPEG is taken out as it becomes available.
static BrunsliStatus Feed(Src& s, Case& c, const brunsli::JPEGData& about, const Bytes& in, const Bytes& want, bool valid,
                          bool serialize, Bytes* out, bool* done, brunsli::JPEGData* jpg) {
  std::unique_ptr<State> st(new State);
  *done = false;
  c.Check(Start(about, st.get(), jpg), "setup", "sizes refused");
  int style = s.Below(4);
  size_t param = 1 + s.Size(1500);
  bool moves = s.Chance(1, 3);
  Rng r(s.Seed());
  if (in.size() > 20000 && param < 16) param = 16;
  size_t pos = 0;
  BrunsliStatus res = brunsli::BRUNSLI_NOT_ENOUGH_DATA;
  bool first = true;
  int stalls = 0;
  while (first || pos < in.size()) {
    first = false;
    size_t n = Chunk(s, r, style, param, in.size() - pos);
    // The caller may put its data anywhere in its buffer.
    size_t lead = r.Chance(1, 2) ? r.Below(40) : 0;
    Exact e(lead + n);
    if (lead) memset(e.p.get(), 0x5A, lead);
    if (n) memcpy(e.p.get() + lead, in.data() + pos, n);
    st->data = e.p.get();
    st->pos = lead;
    st->len = lead + n;
    res = brunsli::internal::dec::ProcessJpeg(st.get(), jpg);
    c.Check(st->pos >= lead && st->pos <= lead + n, "position", pbt::Fmt("%zu not in [%zu, %zu]", st->pos, lead, lead + n));
    if (res == brunsli::BRUNSLI_NOT_ENOUGH_DATA)
      c.Check(st->pos == lead + n, "not-consumed", "asks for data but leaves some");
    pos += st->pos - lead;
    st->data = nullptr;
    st->pos = st->len = 0;
    memset(e.p.get(), 0xA5, e.n);
    if (res != brunsli::BRUNSLI_OK && res != brunsli::BRUNSLI_NOT_ENOUGH_DATA) return res;
    if (serialize) {
      for (int k = 0; k < 1000000; ++k) {
        size_t room = r.Chance(1, 3) ? r.Below(20) : r.Below(5000);
        std::unique_ptr<uint8_t[]> ob(new uint8_t[room]);
        uint8_t* no = ob.get();
        size_t ao = room;
        SerializationStatus w = brunsli::internal::dec::SerializeJpeg(st.get(), *jpg, &ao, &no);
        c.Check(ao <= room && no == ob.get() + (room - ao), "output-cursor", "inconsistent");
        out->insert(out->end(), ob.get(), ob.get() + (room - ao));
        if (valid)
          c.Check(out->size() <= want.size() && std::equal(out->begin(), out->end(), want.begin()), "early-output",
                  pbt::Fmt("wrong JPEG data after %zu of %zu bytes: ", pos, in.size()) + Diff(*out, want));
        if (w == SerializationStatus::ERROR) {
          c.Check(!valid, "serializer-error", pbt::Fmt("after %zu of %zu bytes", pos, in.size()));
          return brunsli::BRUNSLI_INVALID_BRN;
        }
        *done = w == SerializationStatus::DONE;
        if (w == SerializationStatus::NEEDS_MORE_OUTPUT) {
          c.Check(ao == 0, "output-not-full", "asks for room but leaves some");
          continue;
        }
        if (w == SerializationStatus::NEEDS_MORE_INPUT)
          c.Check(res != brunsli::BRUNSLI_OK, "wants-input", "the whole stream is there");
        break;
      }
    }
    if (res == brunsli::BRUNSLI_OK && pos == in.size()) break;
    stalls = n ? 0 : stalls + 1;
    if (stalls > 200) break;
    if (moves && r.Chance(1, 4)) {
      std::unique_ptr<State> other(new State(std::move(*st)));
      st.swap(other);
    }
  }
  return res;
}

static void Prop(Src& s, Case& c) {
  strm::Valid v;
  if (!strm::MakeValid(s, c, &v, s.Chance(1, 10) ? 300 : 60, false)) {
    c.Label("not encodable");
    return;
  }
  brunsli::JPEGData full;
  Exact e(v.brn);
  c.Check(brunsli::BrunsliDecodeJpeg(e.p.get(), e.n, &full) == brunsli::BRUNSLI_OK, "one-shot", "valid stream");
  std::vector<strm::Sect> t;
  strm::ParseContainer(v.brn, &t);
  c.Check(!t.empty() && t[0].tag == 2, "container", "stream does not begin with a header");
  strm::Sect head = t[0];
  t.erase(t.begin());
  int kind = s.Weighted({8, 3, 2, 2, 2});
  // Sections of unknown kinds are skipped.
  if (kind == 0 && s.Chance(1, 3)) {
    strm::Sect u;
    u.tag = 10 + s.Below(6);
    if (s.Bool()) {
      Rng r(s.Seed());
      u.body = jg::RandomBytes(r, s.Size(3000), s.Below(4));
    } else {
      u.wire = 0;
      u.value = s.Size(0xFFFFFFFF);
    }
    t.insert(t.begin() + s.Below((uint32_t)t.size()), u);
    c.Label("unknown section");
  }
  Bytes in = strm::BuildItems(t);
  std::string what = "headerless";
  bool truncated = false;
  if (kind == 1) {
    size_t keep = s.Chance(1, 3) ? in.size() - 1 - s.Below(std::min<uint32_t>(4, (uint32_t)in.size())) : s.Below((uint32_t)in.size());
    in.resize(keep);
    truncated = true;
    what = pbt::Fmt("cut to %zu bytes", keep);
  } else if (kind == 2) {
    // The full stream, or its header: those parts came from elsewhere.
    Bytes pre;
    if (s.Bool()) pre.assign(v.brn.begin(), v.brn.begin() + 6);
    if (pre.empty() || s.Bool()) strm::PutItem(&pre, head);
    size_t at = s.Below((uint32_t)t.size());
    Bytes all;
    for (size_t i = 0; i < t.size(); ++i) {
      if (i == at) all.insert(all.end(), pre.begin(), pre.end());
      strm::PutItem(&all, t[i]);
    }
    in = all;
    what = "signature or header before section " + std::to_string(t[at].tag);
  } else if (kind == 3) {
    strm::Sect x;
    int n = s.Below(3);
    if (n == 0) {
      Rng r(s.Seed());
      Bytes tail = jg::RandomBytes(r, 1 + s.Size(700), s.Below(4));
      in.insert(in.end(), tail.begin(), tail.end());
      what = "bytes after the end";
    } else if (n == 1) {
      x = t[s.Below((uint32_t)t.size())];
      t.insert(t.begin() + s.Below((uint32_t)t.size()), x);
      in = strm::BuildItems(t);
      what = pbt::Fmt("section %d twice", x.tag);
    } else {
      x.tag = 9;
      x.body = v.jpeg;
      t.insert(t.begin() + s.Below((uint32_t)t.size()), x);
      in = strm::BuildItems(t);
      what = "original JPEG section";
    }
  } else if (kind == 4) {
    in = jg::Mutate(s, in, 3);
    what = "damaged";
  }
  c.Label("kind:" + (kind == 0 ? "valid" : kind == 1 ? "truncated" : kind == 2 ? "with-header" : kind == 3 ? "extra" : std::string("damaged")));
  c.Attach("stream.brn", v.brn);
  c.Attach("sections.bin", in);
  c.Sample(v.what + ", " + what);

  // In one piece.
  brunsli::JPEGData one;
  BrunsliStatus st1;
  Bytes out1;
  bool written = false;
  {
    Exact d(in);
    State st;
    c.Check(Start(full, &st, &one), "setup", "sizes refused");
    st.data = d.p.get();
    st.len = d.n;
    st1 = brunsli::internal::dec::ProcessJpeg(&st, &one);
    if (st1 == brunsli::BRUNSLI_OK) written = Write(one, &out1);
  }
  bool valid = kind <= 1;
  // In pieces.
  brunsli::JPEGData two;
  Bytes out2;
  bool done, serialize = s.Chance(2, 3);
  BrunsliStatus st2 = Feed(s, c, full, in, v.jpeg, valid, serialize, &out2, &done, &two);
  std::string got = pbt::Fmt("%s: status %d in one piece, %d in pieces", what.c_str(), (int)st1, (int)st2);
  if (kind == 0) {
    c.Check(st1 == brunsli::BRUNSLI_OK && st2 == brunsli::BRUNSLI_OK, "refused", got);
    c.Check(written && out1 == v.jpeg, "one-piece-differs", Diff(out1, v.jpeg));
    std::string d1 = Same(full, one), d2 = Same(full, two);
    c.Check(d1.empty() && d2.empty(), "image-differs", "from that of the full stream: " + d1 + " " + d2);
    if (serialize) c.Check(done && out2 == v.jpeg, "pieces-differ", Diff(out2, v.jpeg));
    Bytes out3;
    c.Check(Write(two, &out3) && out3 == v.jpeg, "pieces-differ", Diff(out3, v.jpeg));
  } else if (truncated) {
    c.Check(st1 == brunsli::BRUNSLI_NOT_ENOUGH_DATA && st2 == brunsli::BRUNSLI_NOT_ENOUGH_DATA, "truncated", got);
  } else if (kind < 4) {
    c.Check(st1 != brunsli::BRUNSLI_OK && st2 != brunsli::BRUNSLI_OK, "accepted", got);
    c.Check(kind == 1 || (st1 != brunsli::BRUNSLI_NOT_ENOUGH_DATA) == (st2 != brunsli::BRUNSLI_NOT_ENOUGH_DATA),
            "verdicts-differ", got);
  } else {
    // Damage: whatever is decided, it does not depend on the pieces.
    bool ok1 = st1 == brunsli::BRUNSLI_OK && (!serialize || written);
    c.Check(ok1 == (st2 == brunsli::BRUNSLI_OK && (!serialize || done)), "verdicts-differ", got);
    if (ok1 && written && serialize) c.Check(out1 == out2, "pieces-differ", Diff(out1, out2));
  }
  c.NonTrivial();
  c.Key(pbt::Hash(in));
}

#else
static void Prop(Src& s, Case& c) { EndToEnd(s, c); }
#endif

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "H01";
  p.rule =
      "A case is the sections of a generated stream without its signature and header, decoded with the "
      "image geometry given from outside, in one piece and in pieces of any size (pieces freed after each "
      "call, state moved between calls, JPEG taken out meanwhile), plain or truncated, damaged, with the "
      "header put back or with sections repeated; non-trivial = verdicts and images were compared";
  p.quick_cases = 25000;
  p.thorough_cases = 600000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
