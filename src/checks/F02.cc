// F02: encoding and decoding are pure functions of their input.
#include <malloc.h>

#include <cfenv>
#include <clocale>
#include <iostream>

#include <atomic>
#include <thread>

#include "hostile_gen.h"
#include "model.h"
#include "stream.h"

using namespace codec;

#if defined(__SANITIZE_THREAD__)
#define PERTURB(x) (void)(x)
#else
#define PERTURB(x) mallopt(M_PERTURB, x)
#endif

namespace {

// What a call delivers.
struct Result {
  int verdict = -1;
  Bytes out;
  bool operator==(const Result& o) const { return verdict == o.verdict && out == o.out; }
};

enum Kind { kEncode, kEncodeC, kEncodeModel, kBypass, kDecode, kDecodeC, kStream, kEstimate, kParse, kKinds };
const char* const kNames[] = {"encode", "C encode", "encode model", "bypass",  "decode",
                              "C decode", "streaming decode", "estimate", "parse"};

struct Input {
  Bytes jpeg, brn;
  std::shared_ptr<brunsli::JPEGData> model;
};

// The circumstances that must not matter.
struct Around {
  uint32_t shift = 0;     // input alignment
  uint32_t slack = 0;     // extra output capacity
  bool tight = false;     // exactly the needed capacity
  uint8_t fill = 0;       // initial content of output buffers
  strm::Plan plan;
  size_t need = 0;
};

Result Do(Kind k, const Input& in, const Around& a) {
  Result r;
  const Bytes& src = (k == kEncode || k == kEncodeC || k == kBypass || k == kParse) ? in.jpeg : in.brn;
  std::unique_ptr<uint8_t[]> hold(new uint8_t[src.size() + a.shift]);
  uint8_t* p = hold.get() + a.shift;
  if (!src.empty()) memcpy(p, src.data(), src.size());
  size_t n = src.size();
  switch (k) {
    case kEncode:
    case kEncodeModel: {
      brunsli::JPEGData own;
      const brunsli::JPEGData* j = in.model.get();
      if (k == kEncode) {
        if (!brunsli::ReadJpeg(p, n, brunsli::JPEG_READ_ALL, &own)) {
          r.verdict = 100 + (int)own.error;
          break;
        }
        j = &own;
      }
      size_t cap = brunsli::GetMaximumBrunsliEncodedSize(*j) + a.slack;
      if (a.tight) cap = a.need + a.slack % 64;
      Bytes out(cap, a.fill);
      size_t len = cap;
      r.verdict = brunsli::BrunsliEncodeJpeg(*j, out.data(), &len);
      if (r.verdict) {
        if (len > cap) throw pbt::Failure{"size", "reported size exceeds buffer"};
        out.resize(len);
        r.out = std::move(out);
      }
      break;
    }
    case kBypass: {
      size_t cap = a.tight ? a.need + a.slack % 64 : brunsli::GetBrunsliBypassSize(n) + a.slack;
      Bytes out(cap, a.fill);
      size_t len = cap;
      r.verdict = brunsli::BrunsliEncodeJpegBypass(p, n, out.data(), &len);
      if (r.verdict) {
        if (len > cap) throw pbt::Failure{"size", "reported size exceeds buffer"};
        out.resize(len);
        r.out = std::move(out);
      }
      break;
    }
    case kEncodeC:
    case kDecodeC: {
      OutSink sink;
      r.verdict = k == kEncodeC ? EncodeBrunsli(n, p, &sink, OutHook) : DecodeBrunsli(n, p, &sink, OutHook);
      r.out.swap(sink.out);
      break;
    }
    case kDecode: {
      brunsli::JPEGData j;
      r.verdict = brunsli::BrunsliDecodeJpeg(p, n, &j);
      if (r.verdict == brunsli::BRUNSLI_OK) r.verdict = Write(j, &r.out) ? 1 : 0;
      else r.verdict += 100;
      break;
    }
    case kStream: {
      strm::Result s = strm::Run(src, a.plan);
      r.verdict = s.verdict;
      // How much is delivered before an error depends on the chunks.
      if (s.verdict == strm::Dec::DONE) r.out.swap(s.out);
      break;
    }
    case kEstimate: {
      size_t e = brunsli::BrunsliEstimateDecoderPeakMemoryUsage(p, n);
      r.verdict = 1;
      for (int i = 0; i < 8; ++i) r.out.push_back((uint8_t)(e >> (8 * i)));
      break;
    }
    default: {
      brunsli::JPEGData j;
      r.verdict = brunsli::ReadJpeg(p, n, brunsli::JPEG_READ_ALL, &j);
      if (r.verdict) r.verdict = 1 + Write(j, &r.out);
      break;
    }
  }
  return r;
}

Around RandomAround(Src& s, const Input& in, const Result& first) {
  Around a;
  a.shift = s.Below(9);
  a.slack = s.Size(5000);
  a.tight = s.Bool();
  a.fill = s.Below(256);
  a.need = first.out.size();
  a.plan = strm::RandomPlan(s, in.brn);
  // Small outputs take many calls.
  if (a.plan.out_param < 20) a.plan.out_param = 20;
  return a;
}

// Leaves patterns in the memory later calls will get.
void DirtyHeap(Src& s) {
  PERTURB((int)s.Below(256));
  Rng r(s.Seed());
  std::vector<std::unique_ptr<uint8_t[]>> v;
  for (int i = 0; i < 60; ++i) {
    size_t n = (size_t)1 << r.Below(17);
    v.emplace_back(new uint8_t[n]);
    memset(v.back().get(), (int)r.Below(256), n);
  }
}

}  // namespace

// What all of a process shares, and a library leaves alone.
struct Shared {
  std::ios_base::fmtflags err = std::cerr.flags(), out = std::cout.flags();
  std::streamsize precision = std::cerr.precision(), width = std::cerr.width();
  char fill = std::cerr.fill();
  int rounding = fegetround();
  std::string locale = setlocale(LC_ALL, nullptr);
  std::string Same(const Shared& o) const {
    if (err != o.err || precision != o.precision || width != o.width || fill != o.fill) return "format of std::cerr";
    if (out != o.out) return "format of std::cout";
    if (rounding != o.rounding) return "rounding mode";
    if (locale != o.locale) return "locale";
    return "";
  }
};

static void Prop(Src& s, Case& c) {
  Shared before;
  int n = 1 + s.Below(3);
  std::vector<Input> in(n);
  for (int i = 0; i < n; ++i) {
    jg::Options o;
    o.max_blocks = s.Chance(1, 6) ? 250 : 40;
    // Sampling of statistics starts at 1024 blocks.
    o.allow_large = s.Chance(1, 3);
    jg::Jpeg j = jg::Generate(s, o);
    Labels(c, j);
    if (i == 0) c.Sample(j.Describe());
    in[i].jpeg = j.bytes;
    brunsli::JPEGData d;
    in[i].model.reset(new brunsli::JPEGData);
    model::FromTruth(j, in[i].model.get());
    model::Exaggerate(s, c, in[i].model.get());
    bool ok = Read(j.bytes, &d) && Encode(d, &in[i].brn);
    if (!ok) {
      c.Label("not encodable");
      EncodeBypass(j.bytes, &in[i].brn);
    }
    if (s.Chance(1, 5)) {
      std::string what;
      in[i].brn = hostile::MutateStream(s, in[i].brn, nullptr, &what);
      c.Label("damaged stream");
    }
    if (s.Chance(1, 8)) in[i].jpeg = jg::Mutate(s, in[i].jpeg, 2);
    c.Attach("input.jpg", in[i].jpeg);
    c.Attach("stream.brn", in[i].brn);
    c.Key(pbt::Hash(in[i].brn));
  }
  // First results.
  PERTURB(0);
  std::vector<std::vector<Result>> first(n, std::vector<Result>(kKinds));
  for (int i = 0; i < n; ++i)
    for (int k = 0; k < kKinds; ++k) first[i][k] = Do((Kind)k, in[i], Around());
  auto what = [&](int i, int k) { return pbt::Fmt("%s of input %d", kNames[k], i); };
  // A history of calls in other circumstances.
  int calls = 6 + s.Below(10);
  for (int t = 0; t < calls; ++t) {
    int i = s.Below(n), k = s.Below(kKinds);
    if (s.Bool()) DirtyHeap(s);
    Around a = RandomAround(s, in[i], first[i][k]);
    Result r = Do((Kind)k, in[i], a);
    c.Check(r == first[i][k], "result-varies",
            what(i, k) + " differs when repeated: " +
                pbt::Fmt("verdict %d vs %d, ", r.verdict, first[i][k].verdict) + Diff(r.out, first[i][k].out) +
                pbt::Fmt(" (capacity %s, fill %d)", a.tight ? "tight" : "ample", a.fill));
    c.Evals(1);
  }
  // Encoding what was restored.
  for (int i = 0; i < n; ++i) {
    const Result& e = first[i][kEncode];
    if (e.verdict != 1) continue;
    Input x;
    x.brn = e.out;
    Result d = Do(kDecode, x, Around());
    x.jpeg = d.out;
    c.Check(d.verdict == 1 && x.jpeg == in[i].jpeg, "not-restored", "decoded file differs from the original");
    Result again = Do(kEncode, x, Around());
    c.Check(again == e, "reencode-differs", "encoding the restored file gives another result: " + Diff(again.out, e.out));
    c.NonTrivial();
  }
  Shared after;
  if (!after.Same(before).empty()) {
    std::cerr.flags(before.err);
    c.Fail("process-state-changed", "calls change the " + after.Same(before) + " of the whole process");
  }
  // Concurrent callers.
  if (s.Chance(1, 3)) {
    c.Label("threads");
    int nt = 2 + s.Below(3);
    std::vector<std::thread> th;
    std::vector<std::vector<std::pair<int, int>>> todo(nt);
    std::vector<std::vector<Around>> around(nt);
    std::vector<std::string> bad(nt);
    for (int t = 0; t < nt; ++t) {
      int m = 2 + s.Below(4);
      // Sometimes all threads start with the same work.
      int ci = s.Below(n), ck = s.Below(kKinds);
      for (int q = 0; q < m; ++q) {
        int i = q ? s.Below(n) : ci, k = q ? s.Below(kKinds) : ck;
        todo[t].push_back({i, k});
        around[t].push_back(RandomAround(s, in[i], first[i][k]));
      }
    }
    std::atomic<int> ready{0};
    for (int t = 0; t < nt; ++t)
      th.emplace_back([&, t] {
        ++ready;
        while (ready < nt) std::this_thread::yield();
        for (size_t q = 0; q < todo[t].size(); ++q) {
          int i = todo[t][q].first, k = todo[t][q].second;
          try {
            if (!(Do((Kind)k, in[i], around[t][q]) == first[i][k])) bad[t] = what(i, k) + " differs in a thread";
          } catch (const pbt::Failure& f) {
            bad[t] = what(i, k) + ": " + f.msg;
          }
        }
      });
    for (auto& t : th) t.join();
    for (int t = 0; t < nt; ++t) {
      c.Check(bad[t].empty(), "thread-result-varies", bad[t]);
      c.Evals(todo[t].size());
    }
  }
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "F02";
  p.rule =
      "A case is one to three generated inputs (JPEG files, image models, valid or damaged streams) "
      "and a history of calls of nine kinds repeated with other heap contents, buffer capacities, "
      "alignments, chunkings and from concurrent threads, each compared with its first result; "
      "non-trivial = at least one input was encoded, restored and re-encoded";
#if defined(__SANITIZE_THREAD__)
  p.quick_cases = 700;
  p.thorough_cases = 30000;
#else
  p.quick_cases = 8000;
  p.thorough_cases = 150000;
#endif
  p.fn = Prop;
  p.schedules = true;
  return pbt::Main(argc, argv, p);
}
