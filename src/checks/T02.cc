// T02: the container structure is enforced; unknown parts are skipped.
#include "stream.h"

using namespace codec;
using strm::Dec;
using strm::Sect;

static size_t CountHook(void* data, const uint8_t*, size_t n) {
  *static_cast<size_t*>(data) += n;
  return n;
}

enum { kHeader = 2, kMeta = 3, kInternals = 4, kQuant = 5, kHist = 6, kDC = 7, kAC = 8, kOriginal = 9 };

// `end` > 0: where the stream proper ends.
static void MustReject(Src& s, Case& c, const Bytes& in, const std::string& what, size_t end = 0) {
  c.Attach("stream.brn", in);
  Exact e(in);
  brunsli::JPEGData jpg;
  brunsli::BrunsliStatus st = brunsli::BrunsliDecodeJpeg(e.p.get(), e.n, &jpg);
  c.Check(st != brunsli::BRUNSLI_OK, "accepted-one-shot", "one-shot decoder accepts: " + what);
  size_t got = 0;
  c.Check(DecodeBrunsli(e.n, e.p.get(), &got, CountHook) == 0, "accepted-c", "C decoder accepts: " + what);
  strm::Plan p = strm::RandomPlan(s, in);
  if (end && s.Bool()) {
    // The decoder looks ahead up to 600 bytes.
    p.in_style = 4;
    p.cuts.clear();
    int n = 1 + s.Below(4);
    for (int i = 0; i < n; ++i) {
      size_t away = s.Chance(1, 2) ? 600 : s.Chance(1, 2) ? s.Below(1300) : s.Below(20);
      if (away < end) p.cuts.push_back(end - away);
    }
    std::sort(p.cuts.begin(), p.cuts.end());
  }
  strm::Result r = strm::Run(in, p);
  c.Check(r.verdict != Dec::DONE, "accepted-streaming", "streaming decoder accepts: " + what + ", plan " + p.Describe());
  if (st != brunsli::BRUNSLI_NOT_ENOUGH_DATA)
    c.Check(r.verdict == Dec::ERROR, "accepted-streaming", "streaming decoder does not refuse: " + what);
}

static void MustAccept(Src& s, Case& c, const Bytes& in, const Bytes& jpeg, const std::string& what) {
  c.Attach("stream.brn", in);
  Bytes out;
  bool written;
  brunsli::BrunsliStatus st = Decode(in, &out, &written);
  c.Check(st == brunsli::BRUNSLI_OK && written, "refused-one-shot", pbt::Fmt("status %d for: ", (int)st) + what);
  c.Check(out == jpeg, "changed-one-shot", "decoded JPEG changed by: " + what);
  strm::Plan p = strm::RandomPlan(s, in);
  strm::Result r = strm::Run(in, p);
  c.Check(r.verdict == Dec::DONE && r.out == jpeg, "streaming",
          std::string("streaming: ") + strm::Name(r.verdict) + " for: " + what + ", plan " + p.Describe());
}

static Sect Unknown(Src& s, int tag) {
  Sect u;
  u.tag = tag;
  if (s.Bool()) {
    u.wire = 0;
    u.value = s.Size(0xFFFFFFFF);
    if (s.Chance(1, 6)) u.value = (u.value << 31) | s.Seed();
  } else {
    Rng r(s.Seed());
    u.body = jg::RandomBytes(r, s.Chance(1, 4) ? s.Size(5000) : s.Size(40), s.Below(4));
  }
  return u;
}

static int Find(const std::vector<Sect>& v, int tag) {
  for (size_t i = 0; i < v.size(); ++i)
    if (v[i].tag == tag) return (int)i;
  return -1;
}

static void Prop(Src& s, Case& c) {
  strm::Valid v;
  if (!strm::MakeValid(s, c, &v, s.Chance(1, 4) ? 100 : 16)) {
    c.Label("not encodable");
    return;
  }
  c.Sample(v.what);
  std::vector<Sect> base;
  c.Attach("stream.brn", v.brn);
  c.Check(strm::ParseContainer(v.brn, &base), "own-container", "encoder output is no well-formed container");
  int rounds = 4 + s.Below(5);
  for (int i = 0; i < rounds; ++i) {
    std::vector<Sect> t = base;
    Bytes raw;
    std::string what;
    bool accept = false;
    int kind = s.Weighted({3, 2, 3, 3, 3, 4, 2, 3, 4, 3, 3, 3, 2, 2, 3});
    switch (kind) {
      case 0: {  // signature
        raw = v.brn;
        size_t at = s.Below(6);
        raw[at] ^= 1 + s.Below(255);
        what = pbt::Fmt("signature byte %zu changed", at);
        break;
      }
      case 1: {  // bytes after the last section
        raw = v.brn;
        if (s.Bool()) {
          Rng r(s.Seed());
          Bytes x = jg::RandomBytes(r, 1 + s.Size(300), s.Below(4));
          raw.insert(raw.end(), x.begin(), x.end());
          what = "bytes after the end";
        } else {
          Bytes x;
          strm::PutItem(&x, Unknown(s, 10 + s.Below(6)));
          raw.insert(raw.end(), x.begin(), x.end());
          what = "well-formed section after the end";
        }
        break;
      }
      case 2: {  // duplicated section
        size_t a = s.Below((uint32_t)t.size());
        size_t b = s.Below((uint32_t)t.size() + 1);
        t.insert(t.begin() + b, base[a]);
        what = pbt::Fmt("section %d duplicated at %zu", base[a].tag, b);
        break;
      }
      case 3: {  // missing section
        size_t a = s.Below((uint32_t)t.size());
        if (t[a].tag == kMeta && t[a].body.empty()) continue;
        int tag = t[a].tag;
        bool has_meta_markers = tag == kMeta;
        t.erase(t.begin() + a);
        what = pbt::Fmt("section %d missing", tag);
        if (has_meta_markers) {
          // Metadata is used by the serializer only; tail data just vanishes.
          raw = strm::Build(t);
          Bytes out;
          bool w;
          brunsli::BrunsliStatus st = Decode(raw, &out, &w);
          c.Attach("stream.brn", raw);
          c.Check(!(st == brunsli::BRUNSLI_OK && w && out == v.jpeg), "missing-metadata",
                  "metadata dropped without consequence");
          continue;
        }
        break;
      }
      case 4: {  // order of dependent sections
        if (v.bypass) {
          std::swap(t[0], t[1]);
          what = "bypass sections swapped";
          break;
        }
        static const int kDeps[][2] = {{kInternals, kQuant}, {kInternals, kHist}, {kQuant, kDC}, {kHist, kDC},
                                       {kDC, kAC},           {kHeader, kInternals}, {kHeader, kMeta}, {kHeader, kQuant},
                                       {kMeta, kDC}};
        const int* d = kDeps[s.Below(9)];
        int a = Find(t, d[0]), b = Find(t, d[1]);
        if (a < 0 || b < 0) continue;
        Sect x = t[a];
        t.erase(t.begin() + a);
        t.insert(t.begin() + b, x);
        what = pbt::Fmt("section %d after %d", d[0], d[1]);
        break;
      }
      case 5: {  // wrong size
        size_t a = s.Below((uint32_t)t.size());
        if (v.bypass && t[a].tag == kOriginal) {
          // The payload may have any size; only a size that disagrees with the
          // file end is wrong.
          raw = v.brn;
          if (s.Bool()) {
            raw.push_back((uint8_t)s.Below(256));
            what = "bypass payload longer than declared";
          } else {
            raw.pop_back();
            what = "bypass payload shorter than declared";
          }
          break;
        }
        int mode = s.Below(3);
        // Most header fields are optional in a bypass stream.
        if (v.bypass && t[a].tag == kHeader && mode == 1) continue;
        if (mode == 0 && t[a].tag != kHeader) {
          int n = 1 + s.Below(4);
          for (int k = 0; k < n; ++k) t[a].body.push_back(s.Chance(1, 2) ? 0 : (uint8_t)s.Below(256));
          what = pbt::Fmt("section %d padded by %d bytes", t[a].tag, n);
        } else if (mode == 1 && !t[a].body.empty()) {
          size_t n = 1 + s.Below((uint32_t)std::min<size_t>(4, t[a].body.size()));
          t[a].body.resize(t[a].body.size() - n);
          if (t[a].tag == kMeta && t[a].body.empty()) continue;  // means "no metadata"
          what = pbt::Fmt("section %d cut by %zu bytes", t[a].tag, n);
        } else {
          // Declared size off, bytes unchanged.
          Bytes body = t[a].body;
          int64_t n = (int64_t)body.size() + (s.Bool() ? 1 + (int)s.Below(20) : -1 - (int)s.Below(20));
          if (n < 0) continue;
          std::vector<Sect> head(t.begin(), t.begin() + a), rest(t.begin() + a + 1, t.end());
          raw = strm::Build(head);
          raw.push_back((uint8_t)(t[a].tag << 3 | 2));
          strm::PutVar(&raw, (uint64_t)n);
          raw.insert(raw.end(), body.begin(), body.end());
          Bytes tail = strm::BuildItems(rest);
          raw.insert(raw.end(), tail.begin(), tail.end());
          what = pbt::Fmt("section %d of %zu bytes declared with %lld", t[a].tag, body.size(), (long long)n);
        }
        // A metadata section damaged at its end could still be a valid one only
        // if a byte was its own single-byte form.
        if (t[a].tag == kMeta && (t[a].body.size() <= 1 || base[a].body.size() <= 1)) continue;
        break;
      }
      case 6: {  // wrong wire type of a known section / illegal tags
        raw = v.brn;
        size_t a = s.Below((uint32_t)base.size());
        int wt;
        switch (s.Below(3)) {
          case 0:  // illegal wire types
            do wt = s.Below(8);
            while (wt == 0 || wt == 2);
            raw[base[a].begin] = (uint8_t)((raw[base[a].begin] & ~7) | wt);
            what = pbt::Fmt("wire type %d", wt);
            break;
          case 1:  // value instead of a section
            raw[base[a].begin] = (uint8_t)(raw[base[a].begin] & ~7);
            what = pbt::Fmt("section %d as value", base[a].tag);
            break;
          default:  // tag 0 or beyond 15
            raw[base[a].begin] = (uint8_t)((s.Bool() ? 0 : (16 + s.Below(16)) << 3) | 2);
            what = "illegal tag";
        }
        break;
      }
      case 7: {  // header: missing / duplicated fields
        std::vector<Sect> f;
        strm::ParseItems(t[0].body, 0, t[0].body.size(), &f);
        size_t a = s.Below((uint32_t)f.size());
        if (s.Bool()) {
          f.insert(f.begin() + s.Below((uint32_t)f.size() + 1), f[a]);
          what = pbt::Fmt("header field %d duplicated", f[a].tag);
        } else {
          what = pbt::Fmt("header field %d missing", f[a].tag);
          if (v.bypass && f[a].tag != 3) continue;
          f.erase(f.begin() + a);
        }
        t[0].body = strm::BuildItems(f);
        break;
      }
      case 8: {  // header: known value field as section
        std::vector<Sect> f;
        strm::ParseItems(t[0].body, 0, t[0].body.size(), &f);
        size_t a = s.Below((uint32_t)f.size());
        Sect x;
        x.tag = f[a].tag;
        Rng r(s.Seed());
        x.body = jg::RandomBytes(r, s.Below(6), 0);
        what = pbt::Fmt("header field %d as section", x.tag);
        if (s.Bool()) {
          f[a] = x;
        } else {
          // An extra one after a varint field would be a duplicate; before it, too.
          f.insert(f.begin() + s.Below((uint32_t)f.size() + 1), x);
        }
        t[0].body = strm::BuildItems(f);
        break;
      }
      case 9: {  // header: illegal values
        std::vector<Sect> f;
        strm::ParseItems(t[0].body, 0, t[0].body.size(), &f);
        for (auto& x : f) {
          if (x.tag != 3) continue;
          switch (s.Below(2)) {
            case 0: x.value |= 1u << 2 | (2u << 2); what = "bypass combined with other version bits"; break;
            default: x.value |= (uint64_t)8 << (2 + s.Below(20)); what = "undefined version bits";
          }
        }
        if (!v.bypass && s.Bool()) {
          strm::ParseItems(base[0].body, 0, base[0].body.size(), &(f = std::vector<Sect>()));
          for (auto& x : f) {
            if (x.tag == 1 + (int)s.Below(2)) {
              x.value = s.Bool() ? 0 : 65536 + s.Size(1u << 30);
              what = pbt::Fmt("header field %d has value %llu", x.tag, (unsigned long long)x.value);
            } else if (x.tag == 4 && s.Chance(1, 3)) {
              x.value |= (uint64_t)0xF << (4 * s.Below(2));
              what = "sampling factor 16";
            }
          }
        }
        Bytes nb = strm::BuildItems(f);
        if (nb == base[0].body) continue;
        t[0].body = nb;
        break;
      }
      case 10: {  // unknown sections: skipped
        if (v.bypass) continue;
        accept = true;
        int n = 1 + s.Below(4);
        std::vector<int> tags = {10, 11, 12, 13, 14, 15};
        for (int k = 0; k < n; ++k) {
          int x = s.Below((uint32_t)tags.size());
          // Anywhere after the header and before the last section.
          size_t at = 1 + s.Below((uint32_t)t.size() - 1);
          t.insert(t.begin() + at, Unknown(s, tags[x]));
          tags.erase(tags.begin() + x);
        }
        what = pbt::Fmt("%d unknown sections", n);
        break;
      }
      case 11: {  // unknown header fields: skipped
        accept = true;
        std::vector<Sect> f;
        strm::ParseItems(t[0].body, 0, t[0].body.size(), &f);
        int n = 1 + s.Below(4);
        std::vector<int> tags = {5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15};
        for (int k = 0; k < n; ++k) {
          int x = s.Below((uint32_t)tags.size());
          f.insert(f.begin() + s.Below((uint32_t)f.size() + 1), Unknown(s, tags[x]));
          tags.erase(tags.begin() + x);
        }
        if (s.Bool()) {  // field order is free
          size_t a = s.Below((uint32_t)f.size()), b = s.Below((uint32_t)f.size());
          std::swap(f[a], f[b]);
        }
        t[0].body = strm::BuildItems(f);
        what = pbt::Fmt("%d unknown header fields", n);
        break;
      }
      case 12: {  // unknown section twice
        if (v.bypass) continue;
        int tag = 10 + s.Below(6);
        for (int k = 0; k < 2; ++k) t.insert(t.begin() + 1 + s.Below((uint32_t)t.size() - 1), Unknown(s, tag));
        what = "unknown section duplicated";
        break;
      }
      case 14: {  // length of the metadata content
        int a = Find(t, kMeta);
        if (a < 0 || t[a].body.size() < 2) continue;
        size_t at = 0;
        uint64_t n = 0;
        c.Check(strm::GetVar(t[a].body, &at, &n), "own-metadata", "metadata section without length");
        uint64_t by = s.Chance(1, 2) ? 1 : 1 + s.Below(s.Bool() ? 20 : 100000);
        bool more = s.Chance(2, 3);
        if (!more && by > n) by = n;
        if (by == 0) continue;
        Bytes body;
        strm::PutVar(&body, more ? n + by : n - by);
        body.insert(body.end(), t[a].body.begin() + at, t[a].body.end());
        t[a].body = body;
        what = pbt::Fmt("metadata of %llu bytes declared with %llu", (unsigned long long)n,
                        (unsigned long long)(more ? n + by : n - by));
        break;
      }
      default: {  // the wrong family of sections
        if (v.bypass) {
          int tag = 3 + s.Below(6);
          Sect x;
          x.tag = tag;
          Rng r(s.Seed());
          x.body = jg::RandomBytes(r, s.Below(20), 0);
          t[1] = x;
          what = pbt::Fmt("section %d instead of the bypass payload", tag);
        } else {
          Sect x;
          x.tag = s.Bool() ? kOriginal : 1;
          Rng r(s.Seed());
          x.body = jg::RandomBytes(r, s.Below(20), 0);
          t.insert(t.begin() + 1 + s.Below((uint32_t)t.size()), x);
          what = pbt::Fmt("section %d inside a regular stream", x.tag);
        }
      }
    }
    if (raw.empty()) raw = strm::Build(t);
    if (raw == v.brn) continue;
    c.Label(pbt::Fmt("kind:%d%s", kind, v.bypass ? " bypass" : ""));
    c.Evals(1);
    c.Key(pbt::Hash(raw));
    c.NonTrivial();
    if (accept) {
      MustAccept(s, c, raw, v.jpeg, what);
    } else {
      MustReject(s, c, raw, what, kind == 1 ? v.brn.size() : 0);
    }
  }
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "T02";
  p.rule =
      "A case is a valid stream edited at container level 4-8 times: each edit either breaks one "
      "structural rule (must be refused by the one-shot, C and streaming decoders) or adds "
      "well-formed unknown parts (must decode to the same JPEG); evaluations count edits; "
      "non-trivial = at least one edit was decided";
  p.quick_cases = 15000;
  p.thorough_cases = 250000;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
