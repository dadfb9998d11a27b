// Small property-based-testing engine: recorded choice sequences, forked
// workers, crash containment, shrinking, replay files and evidence.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_

#include <stddef.h>
#include <stdint.h>
#include <string.h>

#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace pbt {

typedef std::vector<uint8_t> Bytes;

uint64_t Mix(uint64_t x);
uint64_t Hash(const void* p, size_t n, uint64_t seed = 0);
inline uint64_t Hash(const Bytes& b, uint64_t seed = 0) {
  return Hash(b.data(), b.size(), seed);
}

// Bulk generator: expands one recorded seed.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(Mix(seed ^ 0x9E3779B97F4A7C15ull)) {}
  uint64_t Next() {
    s += 0x9E3779B97F4A7C15ull;
    return Mix(s);
  }
  uint32_t Below(uint32_t n) { return n ? (uint32_t)((Next() >> 32) * n >> 32) : 0; }
  int Range(int lo, int hi) { return lo + (int)Below((uint32_t)(hi - lo + 1)); }
  bool Chance(int num, int den) { return (int)Below(den) < num; }
  double Unit() { return (Next() >> 11) * (1.0 / 9007199254740992.0); }
  double Gauss();
};

// Source of all random choices of a case. Every draw is recorded, so that a
// case is a pure function of its choice sequence (replay and shrinking).
// Smaller values should mean simpler cases: 0 is the simplest choice.
class Src {
 public:
  Src(uint64_t seed, uint32_t* rec, size_t rec_cap)
      : rng_(seed), rec_(rec), cap_(rec_cap) {}
  Src(const std::vector<uint32_t>& replay, uint32_t* rec, size_t rec_cap)
      : rng_(0), rec_(rec), cap_(rec_cap), replay_(&replay) {}

  // Uniform in [0, n).
  uint32_t Below(uint32_t n) {
    if (n <= 1) n = 1;
    uint32_t v;
    if (replay_) {
      v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
      if (v >= n) v = v % n;
    } else {
      v = rng_.Below(n);
    }
    if (pos_ < cap_) rec_[pos_] = v;
    ++pos_;
    if (count_) *count_ = pos_ < cap_ ? pos_ : cap_;
    return v;
  }
  int Range(int lo, int hi) { return hi <= lo ? lo : lo + (int)Below((uint32_t)(hi - lo + 1)); }
  // True with probability num/den; false is the simple outcome.
  bool Chance(uint32_t num, uint32_t den) { return Below(den) >= den - num; }
  bool Bool() { return Below(2) != 0; }
  uint32_t Seed() { return Below(0xFFFFFFFFu); }
  // Index drawn with given integer weights.
  int Weighted(const std::vector<int>& w) {
    int t = 0;
    for (int x : w) t += x;
    int r = (int)Below(t);
    for (size_t i = 0; i < w.size(); ++i) {
      if (r < w[i]) return (int)i;
      r -= w[i];
    }
    return 0;
  }
  // Log-uniform-ish size in [0, max].
  uint32_t Size(uint32_t max) {
    uint32_t bits = 0;
    while (bits < 32 && (max >> bits)) ++bits;
    uint32_t b = Below(bits + 1);
    if (b == 0) return 0;
    uint32_t lo = 1u << (b - 1);
    uint32_t hi = b == 32 ? max : (1u << b) - 1;
    if (hi > max) hi = max;
    if (lo > hi) lo = hi;
    return lo + Below(hi - lo + 1);
  }
  size_t used() const { return pos_ < cap_ ? pos_ : cap_; }
  bool overflow() const { return pos_ > cap_; }
  void set_count(volatile uint64_t* c) { count_ = c; }

 private:
  Rng rng_;
  uint32_t* rec_;
  size_t cap_;
  const std::vector<uint32_t>* replay_ = nullptr;
  size_t pos_ = 0;
  volatile uint64_t* count_ = nullptr;  // survives a crash of the process
};

struct Failure {
  std::string sig;  // Short stable class of the failure.
  std::string msg;
};

// Per-case context.
class Case {
 public:
  // Class counters.
  void Label(const std::string& s) { labels_.push_back(s); }
  // Marks the case as non-trivial by the property's rule.
  void NonTrivial() { nontrivial_ = true; }
  // Identity of the case for distinctness.
  void Key(uint64_t h) { key_ = Mix(key_ ^ h); }
  // Extra evaluations (e.g. number of cut points tried in this case).
  void Evals(uint64_t n) { evals_ += n; }
  void Sample(const std::string& s) { sample_ = s; }
  void Sum(const std::string& k, double v) { sums_[k] += v; }
  // Attach bytes to the replay.
  void Attach(const std::string& name, const Bytes& b) { attach_[name] = b; }
  [[noreturn]] void Fail(const std::string& sig, const std::string& msg) {
    throw Failure{sig, msg};
  }
  void Check(bool ok, const char* sig, const std::string& msg) {
    if (!ok) Fail(sig, msg);
  }

  bool thorough = false;

  std::vector<std::string> labels_;
  bool nontrivial_ = false;
  uint64_t key_ = 0;
  uint64_t evals_ = 1;
  std::string sample_;
  std::map<std::string, double> sums_;
  std::map<std::string, Bytes> attach_;
};

struct Property {
  const char* id;
  const char* rule;
  uint64_t quick_cases;
  uint64_t thorough_cases;
  void (*fn)(Src&, Case&);
  // CPU seconds after which one case counts as "does not terminate"
  // (0: a slow case is never a violation; it is only dropped).
  double hang_cpu_s = 0;
  // Verdict over the whole run (after all cases); returns failure text or "".
  std::string (*aggregate)(const std::map<std::string, double>& sums) = nullptr;
  std::vector<std::string> assumptions;
  int workers = 8;
  // Called once in each worker / replay child before any case.
  void (*init)() = nullptr;
  // Whether a case fails may depend on how its threads are scheduled: a
  // failure counts though it does not come back every time.
  bool schedules = false;
};

int Main(int argc, char** argv, const Property& p);

std::string Fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string Hex(const Bytes& b, size_t max = 64);

}  // namespace pbt

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define CHECK_TRUE(c, cond, sig) \
  (c).Check((cond), sig, std::string(sig) + ": " #cond " at " __FILE__ ":" PBT_STR(__LINE__))

#endif
