// C01: the command-line tools.
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "hostile_gen.h"

using namespace codec;

extern char** environ;

namespace {

// Everything happens in a directory of its own.
struct Scratch {
  std::string dir;
  Scratch() {
    char t[] = "/tmp/verif-C01-XXXXXX";
    if (!mkdtemp(t)) abort();
    dir = t;
  }
  ~Scratch() { Clear(dir); }
  static void Clear(const std::string& d) {
    if (DIR* p = opendir(d.c_str())) {
      while (dirent* e = readdir(p)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string f = d + "/" + n;
        struct stat st;
        if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) Clear(f);
        else unlink(f.c_str());
      }
      closedir(p);
    }
    rmdir(d.c_str());
  }
  std::string P(const std::string& n) const { return dir + "/" + n; }
};

void Put(const std::string& path, const Bytes& b) {
  int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  size_t n = 0;
  while (fd >= 0 && n < b.size()) {
    ssize_t k = write(fd, b.data() + n, b.size() - n);
    if (k <= 0) abort();
    n += k;
  }
  if (fd < 0) abort();
  close(fd);
}

bool Get(const std::string& path, Bytes* b) {
  struct stat st;
  if (stat(path.c_str(), &st) != 0 || !S_ISREG(st.st_mode)) return false;
  int fd = open(path.c_str(), O_RDONLY);
  if (fd < 0) return false;
  b->resize(st.st_size);
  size_t n = 0;
  while (n < b->size()) {
    ssize_t k = read(fd, b->data() + n, b->size() - n);
    if (k <= 0) break;
    n += k;
  }
  close(fd);
  return n == b->size();
}

bool Exists(const std::string& path) {
  struct stat st;
  return lstat(path.c_str(), &st) == 0;
}

// Exit code, or 1000 + signal, or 2000 for no end.
int Run(const std::string& cwd, std::vector<std::string> args, std::string* err, long max_file) {
  int fds[2];
  if (pipe(fds) != 0) abort();
  pid_t pid = fork();
  if (pid == 0) {
    if (chdir(cwd.c_str()) != 0) _exit(99);
    int null = open("/dev/null", O_RDWR);
    dup2(null, 0);
    dup2(null, 1);
    dup2(fds[1], 2);
    close(fds[0]);
    std::vector<char*> v;
    for (auto& a : args) v.push_back(&a[0]);
    v.push_back(nullptr);
    alarm(0);
    if (max_file >= 0) {
      // Stands for a disk that becomes full.
      signal(SIGXFSZ, SIG_IGN);
      rlimit r = {(rlim_t)max_file, (rlim_t)max_file};
      setrlimit(RLIMIT_FSIZE, &r);
    }
    execve(v[0], v.data(), environ);
    _exit(98);
  }
  close(fds[1]);
  err->clear();
  // A tool that needs minutes for a small file is stuck.
  fcntl(fds[0], F_SETFL, O_NONBLOCK);
  time_t start = time(nullptr);
  int status = 0;
  bool ended = false;
  while (true) {
    char buf[4096];
    ssize_t k;
    while ((k = read(fds[0], buf, sizeof(buf))) > 0) err->append(buf, k);
    if (ended) break;
    pid_t w = waitpid(pid, &status, WNOHANG);
    if (w == pid) {
      ended = true;
      continue;
    }
    if (time(nullptr) - start > 100) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      close(fds[0]);
      return 2000;
    }
    usleep(300);
  }
  close(fds[0]);
  return WIFSIGNALED(status) ? 1000 + WTERMSIG(status) : WEXITSTATUS(status);
}

struct Tool {
  std::string exe, ext;
};
Tool g_tools[4];  // compress, decompress; the same with groups

void Init() {
  const char* names[] = {"C01_CBRUNSLI", "C01_DBRUNSLI", "C01_CBRUNSLI_GROUPS", "C01_DBRUNSLI_GROUPS"};
  for (int i = 0; i < 4; ++i) {
    g_tools[i].exe = getenv(names[i]) ? getenv(names[i]) : "";
    g_tools[i].ext = i % 2 ? ".jpg" : ".brn";
  }
}

std::string RandomName(Src& s) {
  static const char* k[] = {"a",       "photo.jpg", "x.brn",    "with space", "per%scent%n", "-dash",
                            "a.b.c.d", "\xC3\xBC.jpg", "new\nline", "tab\t",      "q'uo\"te",    "..dots"};
  uint32_t i = s.Below(14);
  if (i < 12) return k[i];
  return std::string(i == 12 ? 100 : 200, 'n');
}

struct Ctx {
  Src& s;
  Case& c;
  Scratch dir;
  std::string err;

  std::string Text(int code) {
    if (code == 2000) return "does not end";
    std::string e = err.substr(0, 300);
    if (code >= 1000) return pbt::Fmt("killed by signal %d: ", code - 1000) + e;
    return pbt::Fmt("exit code %d: ", code) + e;
  }

  // Sanitizer reports and signals are never a proper end.
  int Start(const Tool& t, std::vector<std::string> args, const std::string& what, long max_file = -1) {
    args.insert(args.begin(), t.exe);
    int code = Run(dir.dir, args, &err, max_file);
    c.Check(code < 1000 && code != 98 && code != 99 && err.find("Sanitizer") == std::string::npos &&
                err.find("runtime error") == std::string::npos,
            "crash", what + ": " + Text(code));
    c.Evals(1);
    return code;
  }

  // Converts a file of the given content; returns whether the tool reported
  // success and what it wrote.
  bool Convert(int tool, const Bytes& in, Bytes* out, const std::string& what) {
    const Tool& t = g_tools[tool];
    std::string name = RandomName(s), target;
    bool absolute = s.Bool();
    std::string path = (absolute ? dir.dir + "/" : std::string()) + name;
    Put(dir.P(name), in);
    std::vector<std::string> args{path};
    int how = s.Below(4);
    bool old = s.Chance(1, 3);
    Bytes before;
    if (how == 0) {
      target = name + t.ext;
    } else if (how == 3) {
      target = name;
      args.push_back(path);
    } else {
      target = how == 1 ? "out" : "o " + RandomName(s);
      args.push_back((absolute ? dir.dir + "/" : "") + target);
    }
    if (target == name) {
      before = in;
      old = true;
    } else if (old) {
      before = Bytes(s.Size(200000), 'o');
      Put(dir.P(target), before);
    }
    int code = Start(t, args, what);
    Bytes got, left;
    bool exists = Get(dir.P(target), &got);
    if (code == 0) {
      c.Check(exists, "no-output", what + ": success without output file");
      *out = got;
      if (target != name) c.Check(Get(dir.P(name), &left) && left == in, "input-changed", what + ": input file is changed");
      if (how == 0) c.Label("default-name");
    } else {
      c.Check(code == 1, "exit-code", what + ": " + Text(code));
      c.Check(!exists || (old && got == before), "failure-with-output", what + ": failure leaves an output file");
      c.Check(!err.empty(), "silent-failure", what + ": fails silently");
    }
    // Nothing else appears.
    unlink(dir.P(name).c_str());
    unlink(dir.P(target).c_str());
    if (DIR* p = opendir(dir.dir.c_str())) {
      int n = 0;
      while (dirent* e = readdir(p)) n += e->d_name[0] != '.' || strlen(e->d_name) > 2;
      closedir(p);
      c.Check(n == 0, "stray-file", what + ": creates other files");
    }
    return code == 0;
  }
};

void Transcode(Ctx& x) {
  Src& s = x.s;
  Case& c = x.c;
  jg::Options o;
  o.max_blocks = s.Chance(1, 4) ? 5000 : 200;
  o.allow_large = s.Chance(1, 4);
  jg::Jpeg j = jg::Generate(s, o);
  Bytes in = j.bytes;
  if (s.Chance(1, 3)) in = jg::Mutate(s, in, 1 + s.Below(3));
  c.Attach("input.jpg", in);
  c.Key(pbt::Hash(in));
  c.Sample(j.Describe());
  bool groups = s.Chance(1, 4);
  brunsli::JPEGData d;
  Bytes brn, lib;
  bool can = !in.empty() && Read(in, &d) && Encode(d, &lib);
  bool ok = x.Convert(groups ? 2 : 0, in, &brn, groups ? "group compressor" : "compressor");
  if (!groups || !ok) {
    if (!groups || !can) c.Check(ok == can, "verdict", pbt::Fmt("compressor says %d, library %d: ", ok, can) + x.err);
  }
  if (groups && can && !ok) {
    // Prediction starts anew in each group, groups hold whole MCUs.
    int extreme = 0;
    for (const auto& q : d.components)
      for (size_t b = 0; b < q.coeffs.size(); b += 64) extreme = std::max(extreme, std::abs((int)q.coeffs[b]));
    c.Check(extreme > 1027 || 32 % d.max_h_samp_factor || 32 % d.max_v_samp_factor, "verdict", "group compressor refuses: " + x.err);
  }
  c.Label(ok ? groups ? "groups" : "transcoded" : "refused-jpeg");
  if (!ok) return;
  Bytes back;
  c.Check(x.Convert(groups ? 3 : 1, brn, &back, groups ? "group decompressor" : "decompressor"), "decompress",
          "compressed file is refused: " + x.err);
  c.Check(back == in, "different", Diff(in, back));
  if (!groups) {
    bool w;
    c.Check(Decode(brn, &back, &w) == brunsli::BRUNSLI_OK && w && back == in, "different", "library decodes otherwise");
  }
  c.NonTrivial();
}

void Damaged(Ctx& x) {
  Src& s = x.s;
  Case& c = x.c;
  jg::Options o;
  o.max_blocks = 100;
  o.allow_large = false;
  jg::Jpeg j = jg::Generate(s, o);
  brunsli::JPEGData d;
  Bytes brn;
  if (s.Chance(1, 4) || !Read(j.bytes, &d) || !Encode(d, &brn)) {
    EncodeBypass(j.bytes, &brn);
    c.Label("bypass");
  }
  int kind = s.Below(5);
  if (kind == 1) brn.resize(1 + s.Below((uint32_t)brn.size() - 1));
  if (kind == 2) brn.push_back(s.Below(256));
  if (kind >= 3) {
    std::string what;
    brn = hostile::MutateStream(s, brn, nullptr, &what);
  }
  c.Attach("stream.brn", brn);
  c.Key(pbt::Hash(brn));
  Bytes lib, out;
  bool w = false;
  bool can = !brn.empty() && Decode(brn, &lib, &w) == brunsli::BRUNSLI_OK && w;
  bool ok = x.Convert(1, brn, &out, "decompressor");
  c.Check(ok == can, "verdict", pbt::Fmt("decompressor says %d, library %d: ", ok, can) + x.err);
  if (ok) c.Check(out == lib, "different", Diff(lib, out));
  c.Label(ok ? "decodable" : "refused-brn");
  c.NonTrivial();
}

void Faults(Ctx& x) {
  Src& s = x.s;
  Case& c = x.c;
  int tool = s.Below(4);
  int kind = s.Below(12);
  if (kind > 9 && tool == 3) tool = 1;
  const Tool& t = g_tools[tool];
  jg::Options o;
  o.max_blocks = kind >= 9 && s.Bool() ? 1500 : 100;
  o.full = o.max_blocks > 100;
  o.allow_large = false;
  jg::Jpeg j = jg::Generate(s, o);
  Bytes content = j.bytes;
  brunsli::JPEGData d;
  Bytes brn;
  bool valid = Read(j.bytes, &d) && Encode(d, &brn);
  if (tool % 2 == 1) content = brn;
  if (tool == 3) valid = false;
  Put(x.dir.P("in"), content);
  std::vector<std::string> args;
  long limit = -1;
  static const char* kNames[] = {"no-arguments", "too-many-arguments", "missing-input",  "empty-name",   "empty-input",
                                 "directory-as-input", "pipe-as-input", "missing-folder", "folder-as-output", "full-disk",
                                 "disk-becomes-full", "disk-becomes-full"};
  switch (kind) {
    case 0: break;
    case 1: args = {"in", "out", "more"}; break;
    case 2: args = {"none", "out"}; break;
    case 3: args = {"", "out"}; break;
    case 4:
      Put(x.dir.P("in"), Bytes());
      args = {"in", "out"};
      break;
    case 5:
      mkdir(x.dir.P("folder").c_str(), 0755);
      args = {"folder", "out"};
      break;
    case 6: args = {"/dev/null", "out"}; break;
    case 7: args = {"in", "no/such/out"}; break;
    case 8:
      mkdir(x.dir.P("folder").c_str(), 0755);
      args = {"in", "folder"};
      break;
    case 9: args = {"in", "/dev/full"}; break;
    default: {
      args = {"in", "out"};
      const size_t size = tool == 1 ? j.bytes.size() : tool == 0 ? brn.size() : 20;
      limit = size < 2 ? 0 : s.Chance(1, 4) ? (long)(size - 1 - s.Below((uint32_t)std::min<size_t>(size, 20))) : (long)s.Below((uint32_t)size);
      if (s.Bool()) limit -= limit % 4096;
    }
  }
  c.Label(kNames[kind]);
  c.Key(pbt::Hash(content, kind * 4 + tool));
  c.Sample(pbt::Fmt("tool %d, %s", tool, kNames[kind]));
  int code = x.Start(t, args, kNames[kind], limit);
  c.Check(code == 1, "failure-not-reported", std::string(kNames[kind]) + ": " + x.Text(code));
  c.Check(!x.err.empty(), "silent-failure", std::string(kNames[kind]) + ": fails silently");
  // What was written until the disk was full may stay.
  if (kind < 10)
    c.Check(!Exists(x.dir.P("out")), "failure-with-output", std::string(kNames[kind]) + ": failure leaves an output file");
  Bytes left;
  c.Check(Get(x.dir.P("in"), &left) && (kind == 4 || left == content), "input-changed", "input file is changed");
  if (valid) c.NonTrivial();
}

void Prop(Src& s, Case& c) {
  Ctx x{s, c, {}, {}};
  switch (s.Weighted({5, 3, 2})) {
    case 0: return Transcode(x);
    case 1: return Damaged(x);
    default: return Faults(x);
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C01";
  p.rule =
      "A case runs the real tools on a generated JPEG or Brunsli file, whole or damaged, with generated file names, "
      "or provokes one of eleven faults; non-trivial = a file was transcoded in both directions, a damaged file judged, "
      "or a fault provoked with an otherwise valid input";
  p.quick_cases = 2500;
  p.thorough_cases = 40000;
  p.fn = Prop;
  p.init = Init;
  return pbt::Main(argc, argv, p);
}
