// G01: group-parallel coding is lossless under any schedule.
#include <signal.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <future>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

#include "experimental/groups.h"
#include "model.h"

using namespace codec;

namespace {

// A process that has work but spends no time on it for 20 s is stuck.
double CpuNow() {
  timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
double g_cpu;
int g_idle;
void OnAlarm(int) {
  double now = CpuNow();
  g_idle = now - g_cpu < 0.05 ? g_idle + 1 : 0;
  g_cpu = now;
  if (g_idle >= 4) {
    static const char kMsg[] = "deadlock: all threads wait forever\n";
    if (write(2, kMsg, sizeof(kMsg) - 1) < 0) {
    }
    abort();
  }
  alarm(5);
}
struct Watchdog {
  Watchdog() {
    g_idle = 0;
    g_cpu = CpuNow();
    signal(SIGALRM, OnAlarm);
    alarm(5);
  }
  ~Watchdog() { alarm(0); }
};

// Somewhere to run tasks.
struct Place {
  brunsli::Executor executor;
  std::unique_ptr<brunsli::ParallelExecutor> pool;
  std::string name;
  bool parallel = false;
};

void Jitter(uint64_t x) {
  for (volatile uint32_t i = 0, n = x % 3 ? x % 700 : 0; i < n; i = i + 1) {
  }
  if (x % 5 == 0) std::this_thread::yield();
}

Place RandomPlace(Src& s) {
  Place p;
  int kind = s.Weighted({1, 3, 3, 3});
  if (kind == 0) {
    p.name = "sequential";
    p.executor = brunsli::SequentialExecutor;
  } else if (kind == 1) {
    p.name = "permuted";
    std::shared_ptr<Rng> r(new Rng(s.Seed()));
    p.executor = [r](const brunsli::Runnable& run, size_t n) {
      std::vector<size_t> o(n);
      for (size_t i = 0; i < n; ++i) o[i] = i;
      for (size_t i = n; i > 1; --i) std::swap(o[i - 1], o[r->Below((uint32_t)i)]);
      for (size_t i : o) run(i);
    };
  } else if (kind == 2) {
    int threads = s.Range(2, 6);
    p.name = pbt::Fmt("%d threads", threads);
    p.parallel = true;
    uint64_t seed = s.Seed();
    p.executor = [threads, seed](const brunsli::Runnable& run, size_t n) {
      std::vector<size_t> o(n);
      Rng r(seed);
      for (size_t i = 0; i < n; ++i) o[i] = i;
      for (size_t i = n; i > 1; --i) std::swap(o[i - 1], o[r.Below((uint32_t)i)]);
      std::atomic<size_t> next{0};
      std::vector<std::thread> t;
      for (int k = 0; k < threads; ++k) {
        t.emplace_back([&, k] {
          Rng mine(seed * 31 + k);
          while (true) {
            Jitter(mine.Next());
            size_t i = next++;
            if (i >= n) break;
            run(o[i]);
          }
        });
      }
      for (auto& x : t) x.join();
    };
  } else {
    int threads = s.Range(1, 8);
    p.name = pbt::Fmt("pool of %d", threads);
    p.parallel = true;
    p.pool.reset(new brunsli::ParallelExecutor(threads));
    p.executor = p.pool->getExecutor();
  }
  return p;
}

// Drops, repeats, swaps, renames or empties whole sections.
Bytes EditSections(Src& s, const Bytes& in) {
  std::vector<Bytes> v;
  for (size_t p = 0; p < in.size();) {
    size_t q = p + 1;
    uint64_t n = 0;
    for (int shift = 0; q < in.size(); shift += 7) {
      uint8_t b = in[q++];
      n |= (uint64_t)(b & 127) << shift;
      if (!(b & 128) || shift > 50) break;
    }
    size_t e = n > in.size() - q ? in.size() : q + (size_t)n;
    v.emplace_back(in.begin() + p, in.begin() + e);
    p = e;
  }
  int n = 1 + s.Below(3);
  while (n-- && !v.empty()) {
    // Mostly the common sections.
    size_t i = s.Below((uint32_t)(s.Bool() ? std::min<size_t>(v.size(), 8) : v.size()));
    size_t k = s.Below((uint32_t)v.size());
    switch (s.Below(6)) {
      case 0: v.erase(v.begin() + i); break;
      case 1: v.insert(v.begin() + k, Bytes(v[i])); break;
      case 2: std::swap(v[i], v[k]); break;
      case 3: v[i][0] = (uint8_t)((1 + s.Below(15)) << 3 | 2); break;
      case 4: v[i] = Bytes{v[i][0], 0}; break;
      default: v[i] = Bytes{(uint8_t)((10 + s.Below(6)) << 3 | 2), 1, 7};
    }
  }
  Bytes out;
  for (auto& x : v) out.insert(out.end(), x.begin(), x.end());
  return out;
}

bool SameImage(const brunsli::JPEGData& a, const brunsli::JPEGData& b) { return truth::Same(a, b).empty(); }

// Several uses of one pool, of any number of tasks: each task once, all
// finished when the call returns.
void PoolItself(Src& s, Case& c) {
  Watchdog w;
  int threads = s.Range(1, 8);
  int rounds = 1 + s.Size(12);
  // Many short rounds: the workers come and go all the time.
  bool hectic = s.Chance(1, 6);
  if (hectic) {
    rounds = 3000;
    if (s.Bool()) threads = 8;
  }
  c.Label(hectic ? "pool-hectic" : "pool");
  c.Key(((uint64_t)threads << 32) + rounds + s.Seed());
  c.NonTrivial();
  c.Sample(pbt::Fmt("pool of %d threads, %d rounds", threads, rounds));
  brunsli::ParallelExecutor pool(threads);
  brunsli::Executor e = pool.getExecutor();
  for (int i = 0; i < rounds; ++i) {
    size_t n = hectic ? 1 + (i * 7 + i / 50) % 13 : s.Size(200);
    uint64_t seed = hectic ? 0 : s.Seed();
    // Only the calls order these accesses.
    std::vector<int> done(n, 0);
    e([&](size_t k) {
        if (!hectic) Jitter(pbt::Mix(seed + k));
        if (k < n) ++done[k];
      }, n);
    for (size_t k = 0; k < n; ++k)
      c.Check(done[k] == 1, "pool-task", pbt::Fmt("task %zu of %zu ran %d times in round %d", k, n, done[k], i));
  }
}

void Prop(Src& s, Case& c) {
  int mode = s.Weighted({8, 1, 3});
  if (mode == 1) return PoolItself(s, c);
  Watchdog watchdog;
  jg::Options o;
  o.max_blocks = s.Chance(1, 5) ? s.Range(1500, 9000) : 300;
  o.allow_large = false;
  jg::Jpeg j = jg::Generate(s, o);
  c.Attach("input.jpg", j.bytes);
  brunsli::JPEGData jpg;
  if (!Read(j.bytes, &jpg)) return c.Label("refused");
  Bytes plain;
  if (!Encode(jpg, &plain)) return c.Label("not-encodable");
  size_t ac = (size_t)1 << s.Below(7);
  size_t dc = ac << s.Below(5);
  size_t max_samp = std::max(jpg.max_h_samp_factor, jpg.max_v_samp_factor);
  bool legal = ac % jpg.max_h_samp_factor == 0 && ac % jpg.max_v_samp_factor == 0;
  if (!legal && !s.Chance(1, 8)) {
    while (ac < max_samp) ac *= 2;
    dc = std::max(dc, ac);
    legal = ac % jpg.max_h_samp_factor == 0 && ac % jpg.max_v_samp_factor == 0;
  } else if (s.Chance(1, 40)) {
    legal = false;
    switch (s.Below(4)) {
      case 0: ac = 0; break;
      case 1: dc = ac * 3; break;
      case 2: ac = dc * 2; break;
      default: ac = dc = 0;
    }
  }
  size_t wb = (size_t)jpg.MCU_cols * jpg.max_h_samp_factor, hb = (size_t)jpg.MCU_rows * jpg.max_v_samp_factor;
  auto count = [&](size_t d) { return d ? ((wb + d - 1) / d) * ((hb + d - 1) / d) : 1; };
  size_t groups = count(ac) + count(dc);
  std::string what = pbt::Fmt("%zux%zu blocks in groups of %zu and %zu", wb, hb, ac, dc);
  size_t cap = plain.size() * 2 + 4096 + groups * 4096;
  auto encode = [&](Place& p, size_t capacity, Bytes* out) {
    Exact e(capacity);
    size_t len = capacity;
    bool ok = brunsli::EncodeGroups(jpg, e.p.get(), &len, ac, dc, &p.executor);
    if (ok) c.Check(len <= capacity, "size", "reported size exceeds buffer");
    if (ok) out->assign(e.p.get(), e.p.get() + len);
    return ok;
  };
  Place first;
  first.executor = brunsli::SequentialExecutor;
  Bytes grp;
  c.Key(pbt::Hash(j.bytes));
  c.Key(ac * 1000003 + dc);
  if (!legal) {
    c.Label("illegal-groups");
    c.Check(!encode(first, cap, &grp), "illegal-accepted", what);
    brunsli::JPEGData d;
    Exact e(plain);
    if (ac == 0 || (ac & (ac - 1)) || (dc & (dc - 1)) || dc % ac)
      c.Check(!brunsli::DecodeGroups(e.p.get(), e.n, &d, ac, dc, &first.executor), "illegal-accepted", what);
    return;
  }
  bool ok = encode(first, cap, &grp);
  int extreme = 0;
  for (const auto& q : jpg.components)
    for (size_t b = 0; b < q.coeffs.size(); b += 64) extreme = std::max(extreme, std::abs((int)q.coeffs[b]));
  if (!ok && extreme > 1027) return c.Label("dc-out-of-range");
  c.Check(ok, "encode", what + ": refused");
  c.Label(groups == 2 ? "one-group" : count(ac) > 1 && count(dc) > 1 ? "many-dc-and-ac-groups" : "many-ac-groups");
  c.Sample(what + pbt::Fmt(", %zu to %zu bytes", j.bytes.size(), grp.size()));
  if (groups > 2) c.NonTrivial();
  if (groups == 2) {
    // Then it is an ordinary file.
    Bytes out;
    bool written;
    c.Check(Decode(grp, &out, &written) == brunsli::BRUNSLI_OK && written && out == j.bytes, "one-group",
            what + ": not decodable as ordinary file");
  }
  if (mode == 2) {
    // Damage and truncation: refused or at least harmless.
    int n = 12;
    c.Label("damaged");
    for (int i = 0; i < n; ++i) {
      Bytes bad = grp;
      size_t a2 = ac, d2 = dc;
      bool must_refuse = false;
      switch (s.Below(6)) {
        case 0:
          bad.resize(s.Below((uint32_t)grp.size()));
          must_refuse = true;
          break;
        case 1:
          bad.push_back(s.Below(256));
          must_refuse = true;
          break;
        case 2:
          a2 = (size_t)1 << s.Below(7);
          d2 = a2 << s.Below(5);
          break;
        case 3:
        case 4:
          bad = EditSections(s, grp);
          break;
        default:
          bad = jg::Mutate(s, grp, 1 + s.Below(4));
      }
      c.Attach("stream.brn", bad);
      Place p = RandomPlace(s);
      Exact e(bad);
      brunsli::JPEGData d;
      bool dec = brunsli::DecodeGroups(e.p.get(), e.n, &d, a2, d2, &p.executor);
      c.Check(!(dec && must_refuse), "damage-accepted", what + ": truncated or extended file is accepted");
      if (dec) {
        Bytes out;
        Write(d, &out);
      }
    }
    c.Evals(n);
    return;
  }
  int rounds = 2;
  for (int i = 0; i < rounds; ++i) {
    Place pe = RandomPlace(s), pd = RandomPlace(s);
    Bytes other;
    // Once with a buffer that has just the right size.
    size_t room = i == 0 ? grp.size() : cap;
    c.Check(encode(pe, room, &other), "encode", what + ": refused with " + pe.name);
    c.Check(other == grp, "encode-depends-on-schedule", what + ", " + pe.name + ": " + Diff(grp, other));
    Exact e(other);
    brunsli::JPEGData d;
    c.Check(brunsli::DecodeGroups(e.p.get(), e.n, &d, ac, dc, &pd.executor), "decode", what + ": refused with " + pd.name);
    Bytes out;
    c.Check(Write(d, &out), "write", what + ": decoded by " + pd.name + " but not serializable");
    c.Check(out == j.bytes, "different-jpeg", what + ", " + pd.name + ": " + Diff(j.bytes, out));
    c.Check(SameImage(jpg, d), "different-model", what + ", " + pd.name + ": " + truth::Same(jpg, d));
    c.Label("encode-" + pe.name.substr(0, 4));
    c.Label("decode-" + pd.name.substr(0, 4));
  }
  c.Evals(rounds);
  if (s.Chance(1, 4)) {
    Bytes none;
    c.Check(!encode(first, s.Below((uint32_t)grp.size()), &none), "overflow", what + ": too small a buffer is accepted");
    c.Label("small-buffer");
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "G01";
  p.rule =
      "A case is a generated JPEG, a pair of group sizes, and executors (sequential, permuted, threads in random "
      "order, the library's pool); or a damaged group file; or the pool alone; non-trivial = more than one group of "
      "a kind was coded, or pool rounds were run";
  p.quick_cases = 3000;
  p.thorough_cases = 60000;
  p.fn = Prop;
  p.schedules = true;
#if defined(__SANITIZE_THREAD__)
  p.quick_cases = 1000;
  p.thorough_cases = 15000;
#endif
  return pbt::Main(argc, argv, p);
}
