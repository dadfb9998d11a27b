// W01: the functions exported for WebAssembly.
#include <sanitizer/allocator_interface.h>

#include <deque>

#include "hostile_gen.h"

using namespace codec;

extern "C" {
std::string* BrunsliToJpeg(const uint8_t* data, size_t length);
uintptr_t* BrunsliDecoderInit();
uintptr_t BrunsliDecoderProcess(uintptr_t* instance);
void BrunsliDecoderCleanup(uintptr_t* instance);
const char* GetJpegData(std::string* jpeg);
size_t GetJpegLength(std::string* jpeg);
void FreeJpeg(std::string* jpeg);
std::string* JpegToBrunsli(const uint8_t* data, size_t length);
const char* GetBrunsliData(std::string* brunsli);
size_t GetBrunsliLength(std::string* brunsli);
void FreeBrunsli(std::string* brunsli);
}

namespace {

size_t InUse() { return __sanitizer_get_current_allocated_bytes(); }

// One way of calling, as JavaScript does it.
bool ToBrunsli(const Bytes& in, Bytes* out) {
  Exact e(in);
  std::string* r = JpegToBrunsli(e.p.get(), e.n);
  out->clear();
  const char* p = GetBrunsliData(r);
  size_t n = GetBrunsliLength(r);
  if (!r) {
    if (p || n) throw pbt::Failure{"no-result", "data of a missing result"};
  } else {
    out->assign(p, p + n);
  }
  FreeBrunsli(r);
  return r != nullptr;
}

bool ToJpeg(const Bytes& in, Bytes* out) {
  Exact e(in);
  std::string* r = BrunsliToJpeg(e.p.get(), e.n);
  out->clear();
  const char* p = GetJpegData(r);
  size_t n = GetJpegLength(r);
  if (!r) {
    if (p || n) throw pbt::Failure{"no-result", "data of a missing result"};
  } else {
    out->assign(p, p + n);
  }
  FreeJpeg(r);
  return r != nullptr;
}

// A client of the incremental decoder.
struct Client {
  const Bytes& in;
  uintptr_t* self;
  size_t pos = 0;
  Bytes out;
  int verdict = -1;  // 1 done, 2 error, 0 wants more than there is
  explicit Client(const Bytes& b) : in(b) {
    self = BrunsliDecoderInit();
    if (self[1] == 0) throw pbt::Failure{"layout", "no input buffer"};
  }
  ~Client() { BrunsliDecoderCleanup(self); }
  void Step(size_t chunk) {
    if (verdict >= 0) return;
    chunk = std::min(std::min<size_t>(chunk, self[1]), in.size() - pos);
    if (chunk) memcpy(reinterpret_cast<uint8_t*>(self[2]), in.data() + pos, chunk);
    self[3] = chunk;
    pos += chunk;
    size_t status = BrunsliDecoderProcess(self);
    if (self[1] != 65536 || self[5] > 65536) throw pbt::Failure{"layout", "fields of the instance are off"};
    const uint8_t* p = reinterpret_cast<const uint8_t*>(self[4]);
    out.insert(out.end(), p, p + self[5]);
    if (status > 2) throw pbt::Failure{"status", "undefined status"};
    if (status) verdict = (int)status;
    // A client which sees that there is more takes the file for damaged.
    if (status == 1 && pos < in.size()) verdict = 2;
    else if (pos == in.size() && chunk == 0 && self[5] == 0) verdict = 0;
  }
};

void Incremental(Src& s, Case& c, const Bytes& brn, bool ok, const Bytes& jpeg) {
  size_t limit = brn.size() > 3000 ? 65536 : 1 + s.Size(65535);
  int style = s.Below(4);
  bool abandon = s.Chance(1, 12);
  size_t steps = 0, stop = abandon ? s.Below(8) : (size_t)-1;
  bool two = false;
  size_t before = InUse();
  {
    Client a(brn);
    std::unique_ptr<Client> other;
    if (s.Chance(1, 6)) other.reset(new Client(brn));
    Rng r(s.Seed());
    while (a.verdict < 0 && steps < stop) {
      size_t n = style == 0 ? 65536 : style == 1 ? limit : style == 2 ? r.Below((uint32_t)limit + 1) : r.Chance(1, 3) ? 0 : limit;
      // No input at the end, or with output pending.
      a.Step(n);
      if (other && r.Chance(2, 3)) other->Step(r.Below(65537));
      c.Check(++steps < 4000000, "endless", "incremental decoding makes no progress");
    }
    if (!abandon) {
      const Client* each[] = {&a, other.get()};
      if (other) {
        while (other->verdict < 0) other->Step(65536);
        two = true;
      }
      for (const Client* x : each) {
        if (!x) continue;
        if (ok) {
          c.Check(x->verdict == 1, "incremental", pbt::Fmt("incremental decoder ends with %d for a valid file", x->verdict));
          c.Check(x->out == jpeg, "incremental", "incremental decoder: " + Diff(jpeg, x->out));
          c.Check(x->pos == brn.size(), "incremental", "done before all input was seen");
        } else {
          c.Check(x->verdict != 1, "incremental", "incremental decoder accepts what is invalid");
        }
      }
    }
  }
  c.Check(InUse() == before, "leak", pbt::Fmt("%ld bytes remain after incremental decoding", (long)(InUse() - before)));
  if (two) c.Label("two-instances");
  if (abandon) c.Label("abandoned");
  c.Evals(1);
}

void Prop(Src& s, Case& c) {
  jg::Options o;
  o.max_blocks = s.Chance(1, 5) ? 6000 : 200;
  o.allow_large = s.Chance(1, 5);
  jg::Jpeg j = jg::Generate(s, o);
  Bytes in = j.bytes;
  if (s.Chance(1, 4)) in = jg::Mutate(s, in, 1 + s.Below(3));
  c.Attach("input.jpg", in);
  c.Key(pbt::Hash(in));
  c.Sample(j.Describe());
  Bytes lib, brn, back;
  bool can;
  {
    brunsli::JPEGData d;
    can = Read(in, &d) && Encode(d, &lib);
  }
  {
    Bytes got;
    ToBrunsli(in, &got);
  }
  size_t before = InUse();
  bool ok;
  {
    Bytes got;
    ok = ToBrunsli(in, &got);
    c.Check(ok == can, "verdict", pbt::Fmt("JpegToBrunsli says %d, library %d", ok, can));
    if (ok) c.Check(got == lib, "different", "JpegToBrunsli: " + Diff(lib, got));
  }
  c.Check(InUse() == before, "leak", pbt::Fmt("%ld bytes remain after JpegToBrunsli", (long)(InUse() - before)));
  if (ok) brn = lib;
  if (!ok || s.Chance(1, 6)) {
    EncodeBypass(in, &brn);
    c.Label("bypass");
  }
  int damage = s.Chance(1, 3) ? 1 + s.Below(3) : 0;
  if (damage == 1) brn.resize(s.Below((uint32_t)brn.size()));
  if (damage == 2) brn.push_back(s.Below(256));
  if (damage == 3) {
    std::string what;
    brn = hostile::MutateStream(s, brn, nullptr, &what);
  }
  c.Attach("stream.brn", brn);
  c.Key(pbt::Hash(brn));
  bool w = false;
  bool valid = Decode(brn, &lib, &w) == brunsli::BRUNSLI_OK && w;
  c.Check(damage || valid, "setup", "valid file not decodable");
  before = InUse();
  {
    Bytes got;
    bool d = ToJpeg(brn, &got);
    c.Check(d == valid, "verdict", pbt::Fmt("BrunsliToJpeg says %d, library %d", d, valid));
    if (d) c.Check(got == lib, "different", "BrunsliToJpeg: " + Diff(lib, got));
  }
  c.Check(InUse() == before, "leak", pbt::Fmt("%ld bytes remain after BrunsliToJpeg", (long)(InUse() - before)));
  c.Label(valid ? "decodable" : "not-decodable");
  if (!brn.empty()) Incremental(s, c, brn, valid, lib);
  FreeJpeg(nullptr);
  FreeBrunsli(nullptr);
  BrunsliDecoderCleanup(nullptr);
  c.Evals(2);
  c.NonTrivial();
}

}  // namespace

int main(int argc, char** argv) {
  // What the standard library allocates once is no leak.
  static char stdout_buffer[1 << 16];
  setvbuf(stdout, stdout_buffer, _IOLBF, sizeof(stdout_buffer));
  pbt::Property p;
  p.id = "W01";
  p.rule =
      "A case is one generated JPEG (or damaged one) and one Brunsli file (encoded, bypass, truncated or mutated) "
      "passed to the exported functions one-shot and incrementally; non-trivial = all verdicts, bytes and memory "
      "balances were compared with the library";
  p.quick_cases = 8000;
  p.thorough_cases = 200000;
  p.fn = Prop;
  p.hang_cpu_s = 300;
  return pbt::Main(argc, argv, p);
}
