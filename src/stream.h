// Incremental decoding driver with a protocol monitor, and a Brunsli
// container parser/editor independent of the code under test.
#ifndef VERIF_STREAM_H_
#define VERIF_STREAM_H_

#include <functional>

#include "codec.h"
#include "dense.h"
#ifdef WITH_REF
#include "ref_api.h"
#endif

namespace strm {

using pbt::Bytes;
using pbt::Case;
using pbt::Fmt;
using pbt::Rng;
using pbt::Src;
typedef brunsli::BrunsliDecoder Dec;

// How the driver cuts input and offers output.
struct Plan {
  int in_style = 0, out_style = 0;
  uint32_t in_param = 1, out_param = 1;
  std::vector<size_t> cuts;  // explicit input cut points (sorted), optional
  uint64_t seed = 0;
  std::string Describe() const {
    return Fmt("in=%d/%u out=%d/%u cuts=%zu", in_style, in_param, out_style, out_param, cuts.size());
  }
};

inline Plan RandomPlan(Src& s, size_t in_len) {
  Plan p;
  p.in_style = s.Weighted({2, 3, 3, 3, 2});
  p.out_style = s.Weighted({3, 2, 2, 2});
  p.in_param = 1 + s.Size(2000);
  p.out_param = 1 + s.Size(3000);
  if (in_len > 30000 && p.in_style == 1 && p.in_param < 8) p.in_param = 8;
  p.seed = s.Seed();
  if (p.in_style == 4) {
    int n = 1 + s.Below(6);
    for (int i = 0; i < n; ++i) p.cuts.push_back(s.Below((uint32_t)in_len + 1));
    std::sort(p.cuts.begin(), p.cuts.end());
  }
  return p;
}

struct Result {
  Dec::Status verdict = Dec::NEEDS_MORE_INPUT;
  Bytes out;
  size_t consumed = 0;
  uint64_t calls = 0;
  bool starved = false;  // verdict is NEEDS_MORE_INPUT with all input consumed
};

inline const char* Name(Dec::Status s) {
  switch (s) {
    case Dec::NEEDS_MORE_INPUT: return "NEEDS_MORE_INPUT";
    case Dec::NEEDS_MORE_OUTPUT: return "NEEDS_MORE_OUTPUT";
    case Dec::ERROR: return "ERROR";
    default: return "DONE";
  }
}

// Runs the incremental decoder. Every call gets input in a fresh exactly sized
// heap buffer that is scrambled and freed right after the call, and output in a
// fresh exactly sized buffer. Violations of the protocol throw a Failure.
// `after_out(result)` is called after every call, e.g. for prefix checks.
inline Result Run(const Bytes& in, const Plan& plan,
                  const std::function<void(const Result&)>& after = nullptr,
                  size_t out_limit = (size_t)1 << 28) {
  Result r;
  std::unique_ptr<Dec> dec(new Dec);
  Rng rng(plan.seed);
  size_t pos = 0;
  size_t cut = 0;
  size_t offered = 0;  // input currently offered
  bool want_out = true;
  auto fail = [&](const char* sig, const std::string& m) {
    throw pbt::Failure{sig, m + Fmt(" [call %llu, input %zu/%zu, output %zu, plan %s]",
                                    (unsigned long long)r.calls, pos, in.size(), r.out.size(),
                                    plan.Describe().c_str())};
  };
  while (true) {
    // Next input chunk (only when the previous one is used up).
    if (offered == 0 && pos < in.size()) {
      size_t left = in.size() - pos;
      switch (plan.in_style) {
        case 0: offered = left; break;
        case 1: offered = std::min<size_t>(left, plan.in_param); break;
        case 2: offered = std::min<size_t>(left, rng.Below(2 * plan.in_param + 1)); break;
        case 3: offered = std::min<size_t>(left, rng.Chance(1, 2) ? rng.Below(3) : rng.Below(800)); break;
        default:
          while (cut < plan.cuts.size() && plan.cuts[cut] <= pos) ++cut;
          offered = (cut < plan.cuts.size() ? std::min(plan.cuts[cut], in.size()) : in.size()) - pos;
      }
    }
    size_t room;
    switch (plan.out_style) {
      case 0: room = 65536; break;
      case 1: room = plan.out_param; break;
      case 2: room = rng.Below(2 * plan.out_param + 1); break;
      default: room = want_out ? 1 + rng.Below(64) : 0;
    }
    std::unique_ptr<uint8_t[]> ib(new uint8_t[offered]);
    if (offered) memcpy(ib.get(), in.data() + pos, offered);
    std::unique_ptr<uint8_t[]> ob(new uint8_t[room]);
    size_t ai = offered, ao = room;
    const uint8_t* ni = ib.get();
    uint8_t* no = ob.get();
    Dec::Status st = dec->Decode(&ai, &ni, &ao, &no);
    ++r.calls;
    // Cursors only move forward within what was offered, and agree with the
    // counters.
    if (ai > offered || ni != ib.get() + (offered - ai)) fail("input-cursor", "input cursor is inconsistent");
    if (ao > room || no != ob.get() + (room - ao)) fail("output-cursor", "output cursor is inconsistent");
    size_t used = offered - ai, made = room - ao;
    r.out.insert(r.out.end(), ob.get(), ob.get() + made);
    pos += used;
    offered -= used;
    r.consumed = pos;
    r.verdict = st;
    if (r.out.size() > out_limit) fail("unbounded-output", "output keeps growing");
    // The caller may reuse its buffers.
    if (used + ai) memset(ib.get(), 0xA5, used + ai);
    ib.reset();
    ob.reset();
    if (after) after(r);
    switch (st) {
      case Dec::NEEDS_MORE_INPUT:
        if (offered != 0) fail("input-not-consumed", Fmt("asks for input but left %zu bytes", offered));
        want_out = true;
        break;
      case Dec::NEEDS_MORE_OUTPUT:
        if (ao != 0) fail("output-not-full", Fmt("asks for output but left %zu bytes of room", ao));
        want_out = true;
        break;
      case Dec::DONE:
      case Dec::ERROR:
        break;
      default: fail("bad-status", "unknown status");
    }
    if (st == Dec::ERROR || st == Dec::DONE) {
      if (st == Dec::DONE && offered != 0) fail("done-with-input", "DONE but input is left");
      if (st == Dec::DONE && pos < in.size()) {
        // The stream goes on after its end: the rest must be refused.
        offered = in.size() - pos;
        std::unique_ptr<uint8_t[]> ib2(new uint8_t[offered]);
        memcpy(ib2.get(), in.data() + pos, offered);
        ai = offered, ao = 0;
        ni = ib2.get();
        uint8_t dummy;
        no = &dummy;
        r.verdict = dec->Decode(&ai, &ni, &ao, &no);
        ++r.calls;
        if (r.verdict == Dec::DONE) fail("trailing-bytes", "bytes after the end are ignored");
        if (r.verdict != Dec::ERROR) fail("trailing-bytes", "bytes after the end are not an error");
      }
      // A final verdict is final.
      for (int k = 0; k < 2; ++k) {
        uint8_t tmp[16];
        ai = 0, ao = k ? sizeof(tmp) : 0;
        uint8_t none = 0;
        ni = &none;
        no = tmp;
        Dec::Status again = dec->Decode(&ai, &ni, &ao, &no);
        if (again != r.verdict) fail("verdict-not-final", Fmt("%s became %s", Name(r.verdict), Name(again)));
        if (no != tmp) fail("output-after-end", "output after the final verdict");
      }
      return r;
    }
    if (pos == in.size() && st == Dec::NEEDS_MORE_INPUT) {
      // Starved: asking again without input must not change anything (it may
      // only hand out more pending output).
      for (int k = 0; k < 3; ++k) {
        std::vector<uint8_t> tmp(70000);
        ai = 0, ao = tmp.size();
        uint8_t none = 0;
        ni = &none;
        no = tmp.data();
        Dec::Status again = dec->Decode(&ai, &ni, &ao, &no);
        ++r.calls;
        size_t m = tmp.size() - ao;
        r.out.insert(r.out.end(), tmp.begin(), tmp.begin() + m);
        if (after) after(r);
        if (again == Dec::NEEDS_MORE_OUTPUT) {
          k = -1;
          continue;
        }
        if (again != Dec::NEEDS_MORE_INPUT)
          fail("verdict-without-input", Fmt("NEEDS_MORE_INPUT became %s without input", Name(again)));
        if (m == 0) break;
        if (r.out.size() > out_limit) fail("unbounded-output", "output keeps growing");
        k = -1;
      }
      r.starved = true;
      return r;
    }
    // Progress: a call that was offered both input and room must use one of them.
    if (used == 0 && made == 0 && (used + ai) > 0 && room > 0) fail("no-progress", "call made no progress");
  }
}

// --- container ---------------------------------------------------------------
struct Sect {
  int tag = 0;
  int wire = 2;       // 0 value, 2 length delimited
  Bytes body;         // of a section
  uint64_t value = 0; // of a value
  size_t begin = 0, body_at = 0, end = 0;
};

inline bool GetVar(const Bytes& b, size_t* p, uint64_t* v) {
  *v = 0;
  for (int i = 0; i < 9; ++i) {
    if (*p >= b.size()) return false;
    uint8_t x = b[(*p)++];
    *v |= (uint64_t)(x & 0x7F) << (7 * i);
    if (!(x & 0x80)) return true;
  }
  return false;
}
inline void PutVar(Bytes* b, uint64_t v, int min_len = 1) {
  int n = 0;
  do {
    ++n;
    uint8_t x = v & 0x7F;
    v >>= 7;
    b->push_back(x | ((v || n < min_len) ? 0x80 : 0));
  } while (v || n < min_len);
}

inline bool ParseItems(const Bytes& b, size_t from, size_t to, std::vector<Sect>* out) {
  size_t p = from;
  while (p < to) {
    Sect s;
    s.begin = p;
    s.tag = b[p] >> 3;
    s.wire = b[p] & 7;
    ++p;
    uint64_t v;
    if (!GetVar(b, &p, &v)) return false;
    if (s.wire == 0) {
      s.value = v;
    } else {
      s.body_at = p;
      if (v > to - p) return false;
      s.body.assign(b.begin() + p, b.begin() + p + v);
      p += v;
    }
    s.end = p;
    out->push_back(s);
  }
  return true;
}
// Sections of a complete stream (without the signature).
inline bool ParseContainer(const Bytes& b, std::vector<Sect>* out) {
  return b.size() > 6 && ParseItems(b, 6, b.size(), out);
}
inline void PutItem(Bytes* b, const Sect& s, int min_len = 1) {
  b->push_back((uint8_t)(s.tag << 3 | s.wire));
  if (s.wire == 0) {
    PutVar(b, s.value, min_len);
  } else {
    PutVar(b, s.body.size(), min_len);
    b->insert(b->end(), s.body.begin(), s.body.end());
  }
}
inline Bytes Build(const std::vector<Sect>& v) {
  static const uint8_t kSig[6] = {0x0A, 0x04, 0x42, 0xD2, 0xD5, 0x4E};
  Bytes b(kSig, kSig + 6);
  for (const Sect& s : v) PutItem(&b, s);
  return b;
}
inline Bytes BuildItems(const std::vector<Sect>& v) {
  Bytes b;
  for (const Sect& s : v) PutItem(&b, s);
  return b;
}

// As above, with some cuts near the ends of sections, and a decoder's likely
// amount of lookahead before and after them.
inline Plan RandomPlan(Src& s, const Bytes& in) {
  Plan p = RandomPlan(s, in.size());
  if (p.in_style != 4 || s.Chance(1, 4)) return p;
  std::vector<Sect> v;
  if (in.size() > 6) ParseItems(in, 6, in.size(), &v);
  std::vector<size_t> marks = {in.size(), 6};
  for (const Sect& x : v) {
    marks.push_back(x.begin);
    marks.push_back(x.end);
  }
  int n = 1 + s.Below(3);
  for (int i = 0; i < n; ++i) {
    static const int kAway[] = {0, 600, -600, 1200, 512, 1024};
    int64_t at = (int64_t)marks[s.Below((uint32_t)marks.size())] - kAway[s.Weighted({4, 6, 2, 1, 1, 1})];
    at += s.Chance(1, 2) ? 0 : (int)s.Below(17) - 8;
    if (at > 0 && at < (int64_t)in.size()) p.cuts.push_back((size_t)at);
  }
  std::sort(p.cuts.begin(), p.cuts.end());
  return p;
}

// A valid stream and the JPEG it stands for.
struct Valid {
  Bytes jpeg, brn;
  bool bypass = false;
  std::string what;
};
// Returns false if the generated JPEG is not encodable.
inline bool MakeValid(Src& s, Case& c, Valid* v, uint32_t max_blocks, bool allow_bypass = true) {
  if (allow_bypass && s.Chance(1, 8)) {
    v->bypass = true;
    c.Label("bypass");
    Rng r(s.Seed());
    if (s.Bool()) {
      v->jpeg = jg::RandomBytes(r, 1 + s.Size(3000), s.Below(4));
    } else {
      jg::Options o;
      o.max_blocks = 30;
      v->jpeg = jg::Generate(s, o).bytes;
    }
    v->what = Fmt("bypass of %zu bytes", v->jpeg.size());
    return codec::EncodeBypass(v->jpeg, &v->brn);
  }
  if (max_blocks > 200 && s.Chance(1, 60)) {
    v->jpeg = dense::Jpeg(s);
    v->what = Fmt("%zu bytes, mostly 0xFF", v->jpeg.size());
    c.Label("mostly 0xFF bytes");
  } else {
    jg::Options o;
    o.max_blocks = max_blocks;
    o.allow_large = max_blocks > 200;
    jg::Jpeg j = jg::Generate(s, o);
    codec::Labels(c, j);
    v->jpeg = j.bytes;
    v->what = j.Describe();
  }
  brunsli::JPEGData d;
  if (!codec::Read(v->jpeg, &d)) return false;
  d.version = s.Chance(1, 4) ? 0 : 2;
  c.Label(d.version ? "context-model:new" : "context-model:legacy");
#ifdef WITH_REF
  // Streams the encoder would not choose.
  if (s.Chance(1, 4) && ref::EncodeWild(v->jpeg, d.version, s.Seed(), &v->brn)) {
    v->what += " (wild)";
    c.Label("wild stream");
    return true;
  }
#endif
  return codec::Encode(d, &v->brn);
}

}  // namespace strm

#endif
