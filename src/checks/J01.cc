// J01: the Java wrapper, in real virtual machines that live for many cases.
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/wait.h>
#include <unistd.h>

#include "hostile.h"
#include "hostile_gen.h"

using namespace codec;

namespace {

enum { kOk, kIo, kIllegal, kOther, kChanged };
const char* const kNames[] = {"success", "IOException", "IllegalArgumentException", "something else", "input changed"};

struct Request {
  int op, way;
  Bytes in;
  int status = 0;
  Bytes out;
};

class Jvm {
 public:
  ~Jvm() { Stop(); }
  void Ask(std::vector<Request>& r, int threads, int rounds) {
    if (pid_ < 0) Start();
    Bytes m;
    m.push_back(r.size());
    m.push_back(threads);
    m.push_back(rounds);
    for (Request& x : r) {
      m.push_back(x.op);
      m.push_back(x.way);
      for (int k = 24; k >= 0; k -= 8) m.push_back(x.in.size() >> k);
      m.insert(m.end(), x.in.begin(), x.in.end());
    }
    size_t n = 0;
    while (n < m.size()) {
      ssize_t k = write(to_, m.data() + n, m.size() - n);
      if (k <= 0) Dead();
      n += k;
    }
    for (Request& x : r) {
      uint8_t h[5];
      Get(h, 5);
      x.status = h[0];
      x.out.resize(h[1] << 24 | h[2] << 16 | h[3] << 8 | h[4]);
      Get(x.out.data(), x.out.size());
    }
  }

 private:
  void Start() {
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) abort();
    signal(SIGPIPE, SIG_IGN);
    pid_ = fork();
    if (pid_ == 0) {
      dup2(a[0], 0);
      dup2(b[1], 1);
      execl(getenv("J01_JAVA"), "java", "-Xcheck:jni", "-Xmx600m", "-Xss1m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1",
            "-XX:MaxDirectMemorySize=256m", "-XX:-UsePerfData", "-XX:-CreateCoredumpOnCrash", "-XX:ErrorFile=/dev/null",
            "-XX:+DisplayVMOutputToStderr", "-cp", getenv("J01_CLASSES"), "Driver", getenv("J01_LIBRARY"), (char*)nullptr);
      _exit(127);
    }
    if (pid_ < 0) abort();
    close(a[0]);
    close(b[1]);
    to_ = a[1];
    from_ = b[0];
  }
  void Stop() {
    if (pid_ < 0) return;
    close(to_);
    close(from_);
    kill(pid_, SIGKILL);
    waitpid(pid_, nullptr, 0);
    pid_ = -1;
  }
  [[noreturn]] void Dead() {
    int st = 0;
    waitpid(pid_, &st, 0);
    pid_ = -1;
    close(to_);
    close(from_);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) abort();  // from outside
    throw pbt::Failure{"jvm-died", pbt::Fmt("the virtual machine ended with status %d", st)};
  }
  void Get(uint8_t* p, size_t n) {
    while (n) {
      pollfd f = {from_, POLLIN, 0};
      if (poll(&f, 1, 300000) == 0) {
        Stop();
        throw pbt::Failure{"no-answer", "no answer within 300 s"};
      }
      ssize_t k = read(from_, p, n);
      if (k <= 0) Dead();
      p += k;
      n -= k;
    }
  }
  pid_t pid_ = -1;
  int to_ = -1, from_ = -1;
};

Jvm g_vm;

// What the native codec makes of it.
bool Native(int op, const Bytes& in, Bytes* out) {
  if (op == 0) {
    brunsli::JPEGData d;
    return Read(in, &d) && Encode(d, out);
  }
  bool w = false;
  return Decode(in, out, &w) == brunsli::BRUNSLI_OK && w;
}

void Prop(Src& s, Case& c) {
  std::vector<Request> r;
  Bytes pool[2];
  int count = 1 + s.Size(11);
  int threads = s.Chance(1, 3) ? 2 + s.Below(6) : 1;
  bool alike = threads > 1 && s.Bool();
  int rounds = threads > 1 && s.Chance(1, 8) ? 2 + s.Below(40) : 1;
  std::string sample;
  for (int i = 0; i < count; ++i) {
    if (i == 0 || (!alike && s.Chance(1, 3))) {
      jg::Options o;
      o.max_blocks = s.Chance(1, 12) ? 4000 : 150;
      o.allow_large = s.Chance(1, 12);
      jg::Jpeg j = jg::Generate(s, o);
      pool[0] = j.bytes;
      if (!Native(0, pool[0], &pool[1]) || s.Chance(1, 6)) EncodeBypass(pool[0], &pool[1]);
      sample = j.Describe();
    }
    Request q;
    q.op = s.Below(2);
    q.way = s.Weighted({4, 3, 2, 2, 1, 1});
    q.in = pool[q.op];
    switch (s.Weighted({8, 1, 1, 1, 1, 1, alike ? 8 : 1})) {
      case 1: q.in.resize(s.Below((uint32_t)q.in.size() + 1)); break;
      case 2: q.in.push_back(s.Below(256)); break;
      case 3: {
        std::string what;
        if (q.op == 0) q.in = jg::Mutate(s, q.in, 1 + s.Below(3));
        else q.in = hostile::MutateStream(s, q.in, nullptr, &what);
        break;
      }
      case 4: q.in = pool[!q.op]; break;
      case 6: {
        // Another content of the same size.
        Rng g(s.Seed());
        for (int k = 1 + g.Below(3); k > 0; --k) q.in[g.Below((uint32_t)q.in.size())] ^= (uint8_t)(1 << g.Below(8));
        break;
      }
      case 5: {
        Rng g(s.Seed());
        q.in = jg::RandomBytes(g, s.Size(40), s.Below(4));
        break;
      }
    }
    if (q.op == 0 && hostile::ClaimedJpegBlocks(q.in.data(), q.in.size()) > 50000) continue;
    if (q.op == 1 && hostile::ClaimedBlocks(q.in.data(), q.in.size()) > 50000) continue;
    c.Attach(pbt::Fmt("request%d.bin", i), q.in);
    c.Key(pbt::Hash(q.in, q.op * 8 + q.way));
    r.push_back(q);
  }
  if (r.empty()) return;
  c.Sample(pbt::Fmt("%zu requests, %d threads; ", r.size(), threads) + sample);
  g_vm.Ask(r, threads, rounds);
  for (size_t i = 0; i < r.size(); ++i) {
    Request& q = r[i];
    Bytes want;
    int st = Native(q.op, q.in, &want) ? kOk : kIo;
    c.Label(std::string(q.op ? "decode" : "encode") + (st == kOk ? ":ok" : ":fail"));
    if (q.way == 5) st = kIllegal;
    std::string got = q.status == kOk ? "" : ": " + std::string(q.out.begin(), q.out.end());
    c.Check(q.status == st, "verdict",
            pbt::Fmt("request %zu (%s, way %d, %zu bytes): expected %s, got %s%s", i, q.op ? "decode" : "encode", q.way,
                     q.in.size(), kNames[st], q.status < 5 ? kNames[q.status] : "?", got.c_str()));
    if (st == kOk)
      c.Check(q.out == want, "different", pbt::Fmt("request %zu: ", i) + Diff(want, q.out));
  }
  if (threads > 1) c.Label(rounds > 1 ? "concurrent-rounds" : "concurrent");
  c.Evals(r.size() - 1);
  c.NonTrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "J01";
  p.rule =
      "A case is a batch of up to 12 requests (encode or decode; array, direct buffer at start or end, slice, "
      "read-only or heap buffer; valid, truncated, extended, mutated, foreign or random data) served by one or several "
      "threads (in one or many rounds) of a long-lived virtual machine; non-trivial = every outcome was compared with the native codec";
  p.quick_cases = 30000;
  p.thorough_cases = 600000;
  p.schedules = true;
  p.fn = Prop;
  return pbt::Main(argc, argv, p);
}
