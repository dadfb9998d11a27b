#include "pbt.h"

#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <exception>
#include <fstream>
#include <sstream>

namespace pbt {

uint64_t Mix(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
uint64_t Hash(const void* p, size_t n, uint64_t seed) {
  const uint8_t* b = (const uint8_t*)p;
  uint64_t h = Mix(seed + n + 0x51ED27);
  while (n >= 8) {
    uint64_t v;
    memcpy(&v, b, 8);
    h = (h ^ v) * 0x9FB21C651E98DF25ull;
    h ^= h >> 32;
    b += 8;
    n -= 8;
  }
  uint64_t v = 0;
  if (n) memcpy(&v, b, n);
  return Mix(h ^ v);
}
double Rng::Gauss() {
  double u = Unit(), v = Unit();
  if (u < 1e-12) u = 1e-12;
  return sqrt(-2 * log(u)) * cos(6.283185307179586 * v);
}
std::string Fmt(const char* f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}
std::string Hex(const Bytes& b, size_t max) {
  std::string s;
  for (size_t i = 0; i < b.size() && i < max; ++i) s += Fmt("%02x", b[i]);
  if (b.size() > max) s += Fmt("...(%zu bytes)", b.size());
  return s;
}

namespace {

const size_t kRecCap = 1u << 22;  // 4M choices

double Now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
double CpuOf(pid_t pid) {
  clockid_t c;
  if (clock_getcpuclockid(pid, &c)) return 0;
  timespec t;
  if (clock_gettime(c, &t)) return 0;
  return t.tv_sec + t.tv_nsec * 1e-9;
}

// Takes more memory than any case may need. (Far below what would make the
// system end processes of its own choice.)
bool TooBig(pid_t pid) {
  char name[64];
  snprintf(name, sizeof name, "/proc/%d/statm", (int)pid);
  FILE* f = fopen(name, "r");
  if (!f) return false;
  unsigned long long size = 0, rss = 0;
  int n = fscanf(f, "%llu %llu", &size, &rss);
  fclose(f);
  return n == 2 && rss * 4096 > (6ull << 30);
}

enum { ST_IDLE = 0, ST_RUNNING = 1, ST_DONE = 2, ST_FAILED = 3 };

struct Slot {
  std::atomic<uint64_t> cur;  // current case index + 1
  std::atomic<int> state;
  std::atomic<double> case_cpu0;  // worker CPU at case start
  std::atomic<uint64_t> done;
  volatile uint64_t rec_n;
  char sig[256];
  char msg[4096];
};

struct Shared {
  std::atomic<uint64_t> next;
  std::atomic<int> stop;
  Slot slots[64];
};

Shared* sh;

std::string JsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 0x20 || c >= 0x7f) {
      o += Fmt("\\u%04x", c);
    } else {
      o += c;
    }
  }
  return o;
}

struct Outcome {
  bool failed = false;
  bool hang = false;
  std::string sig, msg;
  std::vector<uint32_t> choices;
};

// Runs one case in this process.
void RunCase(const Property& p, Src& src, Case& c) { p.fn(src, c); }

std::string g_tmp;

std::string ReadFile(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  return ss.str();
}

// Extracts a stable signature from a sanitizer log.
std::string CrashSig(const std::string& log, int status) {
  std::string s;
  size_t p = log.find("ERROR: AddressSanitizer:");
  if (p != std::string::npos) {
    size_t e = log.find_first_of(" \n", p + 25);
    s = "asan:" + log.substr(p + 25, e - p - 25);
  } else if ((p = log.find("runtime error:")) != std::string::npos) {
    size_t e = log.find('\n', p);
    s = "ubsan:" + log.substr(p + 15, std::min<size_t>(e - p - 15, 60));
  } else if (WIFSIGNALED(status)) {
    s = Fmt("signal:%d", WTERMSIG(status));
  } else {
    s = Fmt("exit:%d", WEXITSTATUS(status));
  }
  // First frame inside the code under test.
  size_t q = 0;
  while ((q = log.find("/repo/", q)) != std::string::npos) {
    size_t e = log.find_first_of(" \n)", q);
    std::string loc = log.substr(q, e - q);
    size_t c = loc.find(':');
    s += "@" + loc.substr(6, c == std::string::npos ? std::string::npos : c - 6);
    break;
  }
  return s;
}

// Runs a case in a forked child, with crash containment.
Outcome RunIsolated(const Property& p, const std::vector<uint32_t>* replay,
                    uint64_t seed, bool thorough, double cpu_limit,
                    const char* attach_dir) {
  static uint32_t* rec = nullptr;
  static Slot* slot = nullptr;
  if (!rec) {
    rec = (uint32_t*)mmap(nullptr, kRecCap * 4, PROT_READ | PROT_WRITE,
                          MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    slot = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  slot->state = ST_RUNNING;
  slot->rec_n = 0;
  slot->sig[0] = slot->msg[0] = 0;
  std::string log = g_tmp + "/iso.log";
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 1);
    dup2(fd, 2);
    if (p.init) p.init();
    Case c;
    c.thorough = thorough;
    Src* s = replay ? new Src(*replay, rec, kRecCap) : new Src(seed, rec, kRecCap);
    s->set_count(&slot->rec_n);
    int st = ST_DONE;
    try {
      RunCase(p, *s, c);
    } catch (const Failure& f) {
      snprintf(slot->sig, sizeof slot->sig, "%s", f.sig.c_str());
      snprintf(slot->msg, sizeof slot->msg, "%s", f.msg.c_str());
      st = ST_FAILED;
    } catch (const std::exception& e) {
      snprintf(slot->sig, sizeof slot->sig, "exception");
      snprintf(slot->msg, sizeof slot->msg, "exception: %s", e.what());
      st = ST_FAILED;
    }
    slot->rec_n = s->used();
    if (attach_dir) {
      for (auto& a : c.attach_) {
        std::ofstream o(std::string(attach_dir) + "/" + a.first, std::ios::binary);
        o.write((const char*)a.second.data(), a.second.size());
      }
    }
    slot->state = st;
    _exit(0);
  }
  int status = 0;
  bool hang = false, big = false;
  double t0 = Now();
  while (true) {
    pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) break;
    double cpu = CpuOf(pid);
    if (TooBig(pid)) {
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      big = true;
      break;
    }
    if ((cpu_limit > 0 && cpu > cpu_limit) || Now() - t0 > 400) {
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      hang = true;
      break;
    }
    usleep(Now() - t0 < 0.05 ? 300 : 3000);
  }
  Outcome o;
  o.hang = hang;
  if (big) {
    o.failed = true;
    o.sig = "memory";
    o.msg = "case took more than 6 GB of memory";
  } else if (hang) {
    o.failed = p.hang_cpu_s > 0 && Now() - t0 < 399;
    o.sig = "hang";
    o.msg = "case did not terminate within its CPU limit";
  } else if (slot->state == ST_FAILED) {
    o.failed = true;
    o.sig = slot->sig;
    o.msg = slot->msg;
  } else if (slot->state == ST_RUNNING) {
    // Crashed.
    std::string l = ReadFile(log);
    if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
      // Killed from outside (memory watchdog): no verdict.
      o.failed = false;
      o.sig = "killed";
      o.msg = "killed";
    } else {
      o.failed = true;
      o.sig = CrashSig(l, status);
      o.msg = "crash: " + o.sig + "\n" + l.substr(0, 3500);
    }
  }
  o.choices.assign(rec, rec + slot->rec_n);
  return o;
}

bool SameKind(const Outcome& a, const std::string& sig) {
  return a.failed && a.sig == sig;
}

Outcome Shrink(const Property& p, Outcome best, bool thorough, double budget_s,
               double cpu_limit, int* runs) {
  double end = Now() + budget_s;
  const std::string sig = best.sig;
  auto attempt = [&](const std::vector<uint32_t>& v) {
    if (Now() > end) return false;
    ++*runs;
    Outcome o = RunIsolated(p, &v, 0, thorough, cpu_limit, nullptr);
    if (SameKind(o, sig)) {
      // Accept if simpler: shorter, or lexicographically smaller.
      if (o.choices.size() < best.choices.size() ||
          (o.choices.size() == best.choices.size() && o.choices < best.choices)) {
        best = o;
        return true;
      }
    }
    return false;
  };
  bool improved = true;
  while (improved && Now() < end) {
    improved = false;
    // Delete blocks.
    for (size_t k = std::max<size_t>(1, best.choices.size() / 2); k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= best.choices.size() && Now() < end;) {
        if (best.choices.size() / k > 400 && k < 8) { i += k; if (i > 400 * k) break; }
        std::vector<uint32_t> v = best.choices;
        v.erase(v.begin() + i, v.begin() + i + k);
        if (attempt(v)) improved = true;
        else i += k;
      }
      if (k == 1) break;
    }
    // Zero / minimise values.
    for (size_t i = 0; i < best.choices.size() && i < 600 && Now() < end; ++i) {
      uint32_t cur = best.choices[i];
      if (cur == 0) continue;
      std::vector<uint32_t> v = best.choices;
      v[i] = 0;
      if (attempt(v)) { improved = true; continue; }
      // Binary descent.
      uint32_t lo = 0, hi = cur;
      while (hi - lo > 1 && Now() < end && i < best.choices.size()) {
        uint32_t mid = lo + (hi - lo) / 2;
        v = best.choices;
        if (i >= v.size()) break;
        v[i] = mid;
        if (attempt(v)) { improved = true; hi = mid; }
        else lo = mid;
      }
    }
  }
  return best;
}

bool WriteReplay(const std::string& path, const Property& p, bool thorough,
                 const Outcome& o) {
  std::ofstream f(path);
  f << "pbt-replay 1\nproperty " << p.id << "\nthorough " << thorough << "\nsig " << o.sig
    << "\nchoices " << o.choices.size() << "\n";
  for (size_t i = 0; i < o.choices.size(); ++i)
    f << o.choices[i] << ((i % 16 == 15) ? "\n" : " ");
  f << "\nmessage\n" << o.msg << "\n";
  return f.good();
}

bool ReadReplay(const std::string& path, std::vector<uint32_t>* v, bool* thorough) {
  std::ifstream f(path);
  std::string w;
  size_t n = 0;
  while (f >> w) {
    if (w == "thorough") f >> *thorough;
    if (w == "choices") {
      f >> n;
      break;
    }
  }
  if (!f) return false;
  v->resize(n);
  for (auto& x : *v) f >> x;
  return (bool)f;
}

struct Finding {
  std::string property, key, text;
};
// known_findings.txt: "finding: property=<id> key=<sig> <text>"
std::vector<Finding> LoadFindings(const std::string& file, const std::string& id) {
  std::vector<Finding> r;
  std::ifstream f(file);
  std::string line;
  while (std::getline(f, line)) {
    if (line.compare(0, 8, "finding:") != 0) continue;
    std::istringstream is(line.substr(8));
    std::string a, b, rest;
    is >> a >> b;
    std::getline(is, rest);
    if (a.compare(0, 9, "property=") || b.compare(0, 4, "key=")) continue;
    if (a.substr(9) == id) r.push_back({a.substr(9), b.substr(4), rest});
  }
  return r;
}

}  // namespace

int Main(int argc, char** argv, const Property& p) {
  uint64_t seed = 1;
  bool thorough = false;
  int64_t cases = -1;
  int workers = p.workers;
  double cap_s = 0;
  std::string evidence, replay, replay_dir = ".", findings_file, one, extra_json;
  bool print_labels = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--tier") thorough = val() == "thorough";
    else if (a == "--cases") cases = atoll(val().c_str());
    else if (a == "--workers") workers = atoi(val().c_str());
    else if (a == "--cap") cap_s = atof(val().c_str());
    else if (a == "--evidence") evidence = val();
    else if (a == "--replay") replay = val();
    else if (a == "--replay-dir") replay_dir = val();
    else if (a == "--findings") findings_file = val();
    else if (a == "--one") one = val();
    else if (a == "--labels") print_labels = true;
    else if (a == "--extra") extra_json = val();
  }
  if (workers < 1) workers = 1;
  if (workers > 64) workers = 64;
  char tmpl[] = "/tmp/pbtXXXXXX";
  g_tmp = mkdtemp(tmpl);
  struct Cleanup {
    pid_t owner = getpid();
    ~Cleanup() {
      if (getpid() != owner) return;
      for (int i = 0; i < 64; ++i) {
        unlink(Fmt("%s/w%d.log", g_tmp.c_str(), i).c_str());
        unlink(Fmt("%s/w%d.keys", g_tmp.c_str(), i).c_str());
        unlink(Fmt("%s/w%d.stats", g_tmp.c_str(), i).c_str());
      }
      unlink((g_tmp + "/iso.log").c_str());
      rmdir(g_tmp.c_str());
    }
  } cleanup;

  const double hang = p.hang_cpu_s > 0 ? p.hang_cpu_s : 300;

  if (!replay.empty()) {
    std::vector<uint32_t> v;
    bool th = thorough;
    if (!ReadReplay(replay, &v, &th)) {
      fprintf(stderr, "cannot read replay\n");
      return 2;
    }
    int bad = 0;
    Outcome o;
    const double until = Now() + 240;
    for (int i = 0; i < (p.schedules ? 60 : 3); ++i) {
      if (i > 2 && Now() > until) break;
      o = RunIsolated(p, &v, 0, th, hang, i == 0 ? getenv("PBT_ATTACH_DIR") : nullptr);
      bad += o.failed;
      if (p.schedules && o.failed) bad = 3;
      if (p.schedules && o.failed) break;
    }
    printf("%s\n", o.msg.c_str());
    if (bad == 3) {
      printf("VIOLATION property=%s replay=%s\n", p.id, replay.c_str());
      return 1;
    }
    printf("replay: %d/3 runs failed\n", bad);
    return 0;
  }
  if (!one.empty()) {
    // Run a single case in-process (debugging).
    static std::vector<uint32_t> rec(kRecCap);
    uint64_t idx = strtoull(one.c_str(), 0, 10);
    Src s(Mix(Mix(seed) + idx * 0x632BE59BD9B4E019ull + Hash(p.id, strlen(p.id))), rec.data(), kRecCap);
    Case c;
    c.thorough = thorough;
    if (p.init) p.init();
    try {
      RunCase(p, s, c);
    } catch (const Failure& f) {
      printf("FAILED %s: %s\n", f.sig.c_str(), f.msg.c_str());
      for (auto& a : c.attach_) {
        std::ofstream o("/tmp/one." + a.first, std::ios::binary);
        o.write((const char*)a.second.data(), a.second.size());
      }
      return 1;
    }
    for (auto& a : c.attach_) {
      std::ofstream o("/tmp/one." + a.first, std::ios::binary);
      o.write((const char*)a.second.data(), a.second.size());
    }
    for (auto& l : c.labels_) printf("label %s\n", l.c_str());
    printf("ok choices=%zu nontrivial=%d %s\n", s.used(), c.nontrivial_, c.sample_.c_str());
    return 0;
  }

  const uint64_t total = cases >= 0 ? (uint64_t)cases : (thorough ? p.thorough_cases : p.quick_cases);
  auto case_seed = [&](uint64_t idx) {
    return Mix(Mix(seed) + idx * 0x632BE59BD9B4E019ull + Hash(p.id, strlen(p.id)));
  };
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (sh) Shared();
  const double t0 = Now();
  std::vector<pid_t> pids(workers, -1);
  std::vector<uint64_t> retry_from(workers, 0);
  std::vector<Finding> known = LoadFindings(findings_file, p.id);
  std::set<std::string> known_hit;
  uint64_t known_cases = 0, inconclusive = 0, slow_cases = 0;

  // Inputs of the first cases, for other tools.
  const char* dump_dir = getenv("PBT_DUMP");
  const uint64_t dump_n = getenv("PBT_DUMP_N") ? strtoull(getenv("PBT_DUMP_N"), 0, 10) : 1000;
  auto start_worker = [&](int w) {
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid) {
      pids[w] = pid;
      return;
    }
    setpgid(0, 0);
    int fd = open(Fmt("%s/w%d.log", g_tmp.c_str(), w).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 1);
    dup2(fd, 2);
    FILE* keys = fopen(Fmt("%s/w%d.keys", g_tmp.c_str(), w).c_str(), "ab");
    std::vector<uint32_t> rec(1);
    std::map<std::string, uint64_t> labels;
    std::map<std::string, double> sums;
    std::vector<std::string> samples;
    uint64_t evals = 0, nt = 0, ncases = 0;
    Slot& slot = sh->slots[w];
    if (p.init) p.init();
    auto flush_stats = [&]() {
      std::ofstream f(Fmt("%s/w%d.stats", g_tmp.c_str(), w), std::ios::app);
      f << "evals " << evals << "\nnt " << nt << "\ncases " << ncases << "\n";
      for (auto& l : labels) f << "label " << l.second << " " << l.first << "\n";
      f.precision(17);
      for (auto& s : sums) f << "sum " << s.second << " " << s.first << "\n";
      for (auto& s : samples) {
        std::string t = s;
        std::replace(t.begin(), t.end(), '\n', ' ');
        f << "sample " << t << "\n";
      }
      f.flush();
      labels.clear();
      sums.clear();
      samples.clear();
      evals = nt = ncases = 0;
      fflush(keys);
    };
    double last = Now();
    while (!sh->stop) {
      uint64_t idx = sh->next.fetch_add(1);
      if (idx >= total) break;
      slot.cur = idx + 1;
      slot.case_cpu0 = CpuOf(getpid());
      slot.state = ST_RUNNING;
      Src s(case_seed(idx), rec.data(), 0);
      Case c;
      c.thorough = thorough;
      bool failed = false;
      try {
        RunCase(p, s, c);
      } catch (const Failure& f) {
        failed = true;
      } catch (const std::exception& e) {
        failed = true;
      }
      if (failed) {
        flush_stats();
        slot.state = ST_FAILED;
        _exit(0);
      }
      if (dump_dir && idx < dump_n && c.attach_.count("dump")) {
        const Bytes& b = c.attach_["dump"];
        std::ofstream o(Fmt("%s/%06llu", dump_dir, (unsigned long long)idx), std::ios::binary);
        o.write((const char*)b.data(), b.size());
      }
      slot.state = ST_DONE;
      slot.done++;
      ++ncases;
      evals += c.evals_;
      for (auto& l : c.labels_) labels[l]++;
      for (auto& q : c.sums_) sums[q.first] += q.second;
      if (c.nontrivial_) {
        ++nt;
        uint64_t k = c.key_;
        fwrite(&k, 8, 1, keys);
        if (!c.sample_.empty() && idx < 12) samples.push_back(Fmt("case %llu: ", (unsigned long long)idx) + c.sample_);
      }
      if (Now() - last > 0.5) {
        flush_stats();
        last = Now();
      }
    }
    slot.state = ST_IDLE;
    flush_stats();
    _exit(0);
  };
  for (int w = 0; w < workers; ++w) start_worker(w);

  Outcome violation;
  uint64_t violation_case = 0;
  bool have_violation = false, flaky = false;
  int live = workers;
  bool capped = false;
  while (live > 0 && !have_violation) {
    usleep(5000);
    if (cap_s > 0 && Now() - t0 > cap_s && !capped) {
      capped = true;
      sh->stop = 1;
    }
    for (int w = 0; w < workers && !have_violation; ++w) {
      if (pids[w] < 0) continue;
      Slot& slot = sh->slots[w];
      int status = 0;
      pid_t r = waitpid(pids[w], &status, WNOHANG);
      bool suspect = false, over = false;
      if (r == 0) {
        if (slot.state == ST_RUNNING) {
          double cpu = CpuOf(pids[w]) - slot.case_cpu0;
          if (TooBig(pids[w])) {
            kill(-pids[w], SIGKILL);
            kill(pids[w], SIGKILL);
            waitpid(pids[w], &status, 0);
            suspect = true;
          } else if (cpu > hang) {
            kill(-pids[w], SIGKILL);
            kill(pids[w], SIGKILL);
            waitpid(pids[w], &status, 0);
            suspect = true;
            over = true;
          } else if (capped && Now() - t0 > cap_s + 30) {
            // Time cap: give up on the running case without a verdict.
            kill(-pids[w], SIGKILL);
            kill(pids[w], SIGKILL);
            waitpid(pids[w], &status, 0);
            pids[w] = -1;
            --live;
            ++slow_cases;
            continue;
          }
        }
        if (!suspect) continue;
      } else {
        if (slot.state == ST_IDLE) {
          pids[w] = -1;
          --live;
          continue;
        }
        if (slot.state == ST_DONE && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
          pids[w] = -1;
          --live;
          continue;
        }
        suspect = true;
      }
      pids[w] = -1;
      // Examine the suspicious case in isolation.
      uint64_t idx = slot.cur - 1;
      if (over && p.hang_cpu_s <= 0) {
        ++slow_cases;
      } else {
        Outcome o = RunIsolated(p, nullptr, case_seed(idx), thorough, hang, nullptr);
        int bad = o.failed ? 1 : 0;
        for (int k = 0; k < 2 && bad == k + 1; ++k) {
          Outcome o2 = RunIsolated(p, nullptr, case_seed(idx), thorough, hang, nullptr);
          bad += o2.failed;
        }
        if (p.schedules && bad < 3 && !over) {
          // What was seen once did happen.
          std::string l = ReadFile(Fmt("%s/w%d.log", g_tmp.c_str(), w));
          Outcome seen;
          if (slot.state == ST_FAILED) {
            seen.sig = slot.sig;
            seen.msg = slot.msg;
            seen.failed = true;
          } else {
            seen.sig = CrashSig(l, status);
            seen.msg = "crash: " + seen.sig + "\n" + l.substr(0, 3500);
            seen.failed = l.find("deadlock: all threads wait forever") != std::string::npos ||
                          l.find("WARNING: ThreadSanitizer: data race") != std::string::npos ||
                          l.find("ERROR: AddressSanitizer: heap-") != std::string::npos;
          }
          int again = bad;
          const double until = Now() + 60;
          for (int k = 0; k < 10 && !seen.failed && again < 2 && Now() < until; ++k) {
            Outcome o2 = RunIsolated(p, nullptr, case_seed(idx), thorough, hang, nullptr);
            if (o2.failed) {
              o = o2;
              ++again;
            }
          }
          if (seen.failed) {
            seen.choices = o.choices;
            o = seen;
            bad = 3;
          } else if (again >= 2) {
            bad = 3;
          }
          flaky = bad == 3;
        }
        bool is_known = false;
        if (bad == 3) {
          for (auto& k : known)
            if (k.key == o.sig) {
              is_known = true;
              known_hit.insert(k.key);
              ++known_cases;
            }
          if (!is_known) {
            have_violation = true;
            violation = o;
            violation_case = idx;
          }
        } else {
          ++inconclusive;
          fprintf(stderr, "inconclusive: case %llu failed %d/3 isolated runs: %s\n",
                  (unsigned long long)idx, bad, o.sig.c_str());
          fprintf(stderr, "%s\n", ReadFile(Fmt("%s/w%d.log", g_tmp.c_str(), w)).substr(0, 2000).c_str());
        }
      }
      if (!have_violation) {
        slot.state = ST_IDLE;
        start_worker(w);
      }
    }
  }
  sh->stop = 1;
  for (int w = 0; w < workers; ++w)
    if (pids[w] > 0) {
      int status;
      if (have_violation) {
        kill(-pids[w], SIGKILL);
        kill(pids[w], SIGKILL);
      }
      waitpid(pids[w], &status, 0);
    }

  // Merge statistics.
  std::map<std::string, uint64_t> labels;
  std::map<std::string, double> sums;
  std::vector<std::string> samples;
  uint64_t evals = 0, nt = 0, ncases = 0;
  std::set<uint64_t> keyset;
  for (int w = 0; w < workers; ++w) {
    std::ifstream f(Fmt("%s/w%d.stats", g_tmp.c_str(), w));
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string k;
      is >> k;
      if (k == "evals" || k == "nt" || k == "cases") {
        uint64_t v;
        is >> v;
        (k == "evals" ? evals : k == "nt" ? nt : ncases) += v;
      } else if (k == "label") {
        uint64_t v;
        is >> v;
        std::string rest;
        std::getline(is, rest);
        labels[rest.substr(1)] += v;
      } else if (k == "sum") {
        double v;
        is >> v;
        std::string rest;
        std::getline(is, rest);
        sums[rest.substr(1)] += v;
      } else if (k == "sample") {
        samples.push_back(line.substr(7));
      }
    }
    std::ifstream kf(Fmt("%s/w%d.keys", g_tmp.c_str(), w), std::ios::binary);
    uint64_t h;
    while (kf.read((char*)&h, 8)) keyset.insert(h);
  }
  std::string agg;
  if (!have_violation && p.aggregate && !capped) agg = p.aggregate(sums);
  const double wall = Now() - t0;

  int rc = 0;
  std::string replay_path;
  if (have_violation) {
    fprintf(stderr, "case %llu fails: %s\n%s\n", (unsigned long long)violation_case,
            violation.sig.c_str(), violation.msg.substr(0, 3000).c_str());
    int runs = 0;
    Outcome best = violation;
    if (!violation.hang && !flaky) {
      best = Shrink(p, violation, thorough, thorough ? 120 : 45, hang, &runs);
      int bad = 0;
      for (int k = 0; k < 3; ++k) {
        Outcome o2 = RunIsolated(p, &best.choices, 0, thorough, hang, nullptr);
        if (o2.failed) { ++bad; if (!o2.msg.empty()) best.msg = o2.msg; }
      }
      if (bad < 3) best = violation;  // keep the original, which did replay 3x
    }
    mkdir(replay_dir.c_str(), 0755);
    replay_path = replay_dir + "/" + p.id + Fmt("-%016llx.replay", (unsigned long long)Hash(best.choices.data(), best.choices.size() * 4));
    WriteReplay(replay_path, p, thorough, best);
    fprintf(stderr, "shrunk to %zu choices in %d runs\n%s\n", best.choices.size(), runs, best.msg.substr(0, 3000).c_str());
    printf("VIOLATION property=%s replay=%s\n", p.id, replay_path.c_str());
    rc = 1;
  } else if (!agg.empty()) {
    mkdir(replay_dir.c_str(), 0755);
    replay_path = replay_dir + "/" + p.id + "-aggregate.txt";
    std::ofstream f(replay_path);
    f << "aggregate violation\nseed " << seed << "\ntier " << (thorough ? "thorough" : "quick")
      << "\ncases " << total << "\n" << agg << "\n";
    fprintf(stderr, "%s\n", agg.c_str());
    printf("VIOLATION property=%s replay=%s\n", p.id, replay_path.c_str());
    rc = 1;
  }
  for (auto& k : known) {
    if (known_hit.count(k.key))
      printf("KNOWN-FINDING: property=%s %s\n", p.id, (k.key + " " + k.text).c_str());
  }
  if (print_labels || getenv("PBT_LABELS")) {
    for (auto& l : labels) printf("%8llu  %s\n", (unsigned long long)l.second, l.first.c_str());
    for (auto& s : sums) printf("%g  sum %s\n", s.second, s.first.c_str());
  }
  printf("property=%s tier=%s seed=%llu cases=%llu/%llu evaluations=%llu nontrivial=%llu distinct=%zu inconclusive=%llu slow=%llu wall=%.1fs%s\n",
         p.id, thorough ? "thorough" : "quick", (unsigned long long)seed, (unsigned long long)ncases,
         (unsigned long long)total, (unsigned long long)evals, (unsigned long long)nt, keyset.size(),
         (unsigned long long)inconclusive, (unsigned long long)slow_cases, wall, capped ? " (time cap)" : "");
  if (!evidence.empty()) {
    std::ofstream f(evidence + ".tmp");
    f << "{\n \"property\": \"" << p.id << "\",\n \"tier\": \"" << (thorough ? "thorough" : "quick")
      << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
      << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << keyset.size()
      << ",\n  \"rule\": \"" << JsonEsc(p.rule) << "\",\n  \"samples\": [";
    std::sort(samples.begin(), samples.end());
    for (size_t i = 0; i < samples.size() && i < 12; ++i)
      f << (i ? ", " : "") << "\n   \"" << JsonEsc(samples[i].substr(0, 600)) << "\"";
    f << "],\n  \"cases\": " << ncases << ",\n  \"cases_planned\": " << total
      << ",\n  \"inconclusive_cases\": " << inconclusive << ",\n  \"dropped_slow_cases\": " << slow_cases
      << ",\n  \"known_finding_cases\": " << known_cases
      << ",\n  \"time_cap_hit\": " << (capped ? "true" : "false") << ",\n  \"classes\": {";
    bool first = true;
    for (auto& l : labels) {
      f << (first ? "" : ", ") << "\n   \"" << JsonEsc(l.first) << "\": " << l.second;
      first = false;
    }
    f << "},\n  \"measured\": {";
    first = true;
    for (auto& s : sums) {
      f << (first ? "" : ", ") << "\n   \"" << JsonEsc(s.first) << "\": " << Fmt("%.6g", s.second);
      first = false;
    }
    f << "}\n },\n \"assumptions\": [";
    for (size_t i = 0; i < p.assumptions.size(); ++i)
      f << (i ? ", " : "") << "\"" << JsonEsc(p.assumptions[i]) << "\"";
    f << "],\n \"wall_s\": " << Fmt("%.2f", wall) << ",\n \"violations\": " << rc << "\n}\n";
    f.close();
    rename((evidence + ".tmp").c_str(), evidence.c_str());
  }
  return rc;
}

}  // namespace pbt
