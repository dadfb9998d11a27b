#!/usr/bin/env python3
"""Builds a property's check from /repo's working tree and runs it.

  run.py ID [--tier quick|thorough] [--seed N] [binary options...]
  run.py --build ID...      build only
  run.py --setup            build everything that does not depend on /repo
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JAVA_HOME = "/usr/lib/jvm/java-17-openjdk-amd64"

# memcpy(p, NULL, 0) and shifts of negative values are harmless on every
# platform the library supports (the latter are defined in C++20).
UBSAN = ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,shift-base",
         "-fno-sanitize-recover=all"]
VARIANTS = {
    # Memory errors become crashes.
    "asan": ["clang++", "-std=c++17", "-O1", "-g", "-DNDEBUG", "-fno-omit-frame-pointer",
             "-fsanitize=address"],
    # Memory errors and undefined behaviour become crashes.
    "san": ["clang++", "-std=c++17", "-O1", "-g", "-DNDEBUG", "-fno-omit-frame-pointer"] + UBSAN,
    # What users run.
    "fast": ["g++", "-std=c++17", "-O2", "-g1", "-DNDEBUG"],
    # Coverage guided.
    "fuzz": ["clang++", "-std=c++17", "-O1", "-g", "-DNDEBUG", "-fno-omit-frame-pointer",
             "-fsanitize=fuzzer-no-link", "-DBRUNSLI_DISABLE_LOG"] + UBSAN,
    # Data races become failures.
    "tsan": ["clang++", "-std=c++17", "-O1", "-g", "-DNDEBUG", "-fno-omit-frame-pointer", "-fsanitize=thread",
             "-D__SANITIZE_THREAD__"],
    # Uses of uninitialized memory become crashes.
    "msan": ["clang++", "-std=c++17", "-O1", "-g", "-DNDEBUG", "-fno-omit-frame-pointer", "-DBRUNSLI_DISABLE_LOG", "-fsanitize=memory",
             "-fsanitize-ignorelist=" + os.path.join(VERIF, "src/fuzz/msan_ignore.txt")],
    # For valgrind.
    "plain": ["clang++", "-std=c++17", "-O1", "-g", "-DNDEBUG", "-fno-omit-frame-pointer"],
}
BROTLI = ["-lbrotlienc", "-lbrotlidec", "-lbrotlicommon"]
EXTRA_API = []
DOMAINS = ["common", "dec", "enc"]

# id -> how to build. Default: one binary, asan variant, whole library.
SPECS = {}


def spec(pid, variant="asan", domains=None, srcs=None, flags=None, libs=None, gen=True, extra=None,
         repo_extra=None, custom=None, main=None, watch=None):
    SPECS[pid] = dict(id=pid, variant=variant, domains=domains or DOMAINS,
                      srcs=srcs or ["src/checks/%s.cc" % pid], flags=flags or [],
                      libs=libs or [], gen=gen, repo_extra=repo_extra or [], custom=custom,
                      watch=watch or [])


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def headers(root):
    out = []
    for ext in ("h", "hpp", "inc"):
        out += glob.glob(os.path.join(root, "**", "*." + ext), recursive=True)
    return out


_hdr = {}


def hdr_hash(root):
    if root not in _hdr:
        _hdr[root] = file_hash(headers(root))
    return _hdr[root]


class BuildError(Exception):
    pass


class Job:
    """One object file."""

    def __init__(self, src, argv, deps):
        self.src = src
        key = hashlib.sha256(("\0".join(argv) + "\0" + src + "\0" + deps + file_hash([src])).encode()).hexdigest()[:24]
        base = os.path.basename(src).replace(".", "_")
        self.obj = os.path.join(BUILD, "obj", "%s-%s.o" % (base, key))
        self.argv = argv + ["-c", src, "-o", self.obj + ".tmp"]

    def run(self):
        if os.path.exists(self.obj):
            return None
        r = sh(self.argv)
        if r.returncode != 0:
            return " ".join(self.argv) + "\n" + r.stdout
        os.rename(self.obj + ".tmp", self.obj)
        return None


def compile_all(jobs):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    uniq = {j.obj: j for j in jobs}
    with cf.ThreadPoolExecutor(8) as ex:
        for err in ex.map(lambda j: j.run(), uniq.values()):
            if err:
                raise BuildError(err)
    return [j.obj for j in jobs]


def link(name, argv, objs, libs):
    key = hashlib.sha256("\0".join(argv + objs + libs).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "bin", "%s-%s" % (name, key))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if not os.path.exists(out):
        for old in glob.glob(os.path.join(BUILD, "bin", name + "-*")):
            if len(os.path.basename(old)) == len(name) + 25:
                os.unlink(old)
        r = sh(argv + objs + libs + ["-o", out + ".tmp"])
        if r.returncode != 0:
            raise BuildError(" ".join(argv) + "\n" + r.stdout)
        os.rename(out + ".tmp", out)
    return out


def repo_includes():
    return ["-I" + os.path.join(REPO, "c", "include"), "-I" + os.path.join(REPO, "c"), "-I" + REPO]


def repo_jobs(variant, domains, flags=()):
    cc = VARIANTS[variant] + EXTRA_API + list(flags) + repo_includes()
    deps = hdr_hash(os.path.join(REPO, "c"))
    jobs = []
    for d in domains:
        for s in sorted(glob.glob(os.path.join(REPO, "c", d, "*.cc"))):
            jobs.append(Job(s, cc, deps))
    return jobs


def own_cc(variant):
    return VARIANTS[variant] + EXTRA_API + ["-I" + os.path.join(VERIF, "src")]


def own_jobs(srcs, variant, flags=(), repo=True, watch=()):
    cc = own_cc(variant) + list(flags) + (repo_includes() if repo else [])
    deps = hdr_hash(os.path.join(VERIF, "src")) + (hdr_hash(os.path.join(REPO, "c")) if repo else "")
    # Sources of the repository which ours include.
    deps += file_hash([os.path.join(REPO, w) for w in watch])
    return [Job(os.path.join(VERIF, s), cc, deps) for s in srcs]


def engine_jobs(variant, gen=True):
    srcs = ["src/pbt.cc"] + (["src/jpeggen.cc"] if gen else [])
    # The generator and the engine are not under test: build them optimised.
    cc = ["g++", "-std=c++17", "-O2", "-g1", "-I" + os.path.join(VERIF, "src")]
    if variant != "fast":
        cc = ["clang++", "-std=c++17", "-O2", "-g1", "-I" + os.path.join(VERIF, "src"), "-DPBT_SANITIZED"]
    deps = hdr_hash(os.path.join(VERIF, "src"))
    return [Job(os.path.join(VERIF, s), cc, deps) for s in srcs]


def build(pid):
    s = SPECS[pid]
    if s["custom"]:
        return s["custom"](s)
    jobs = repo_jobs(s["variant"], s["domains"])
    cc = VARIANTS[s["variant"]]
    for rel in s["repo_extra"]:
        jobs.append(Job(os.path.join(REPO, rel), cc + EXTRA_API + s["flags"] + repo_includes(),
                        hdr_hash(os.path.join(REPO, "c"))))
    jobs += own_jobs(s["srcs"], s["variant"], s["flags"], watch=s["watch"])
    jobs += engine_jobs(s["variant"], s["gen"])
    objs = compile_all(jobs)
    exe = link(pid, cc, objs, BROTLI + s["libs"] + ["-lpthread", "-lm"])
    return [exe], {}


def san_env():
    return {
        "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:handle_abort=0:"
                        "malloc_context_size=12:symbolize=1:detect_stack_use_after_return=0:"
                        "max_allocation_size_mb=6000",
        "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:die_after_fork=0",
        "UBSAN_OPTIONS": "print_stacktrace=1:symbolize=1",
    }


exec(open(os.path.join(VERIF, "specs.py")).read())


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if args[0] == "--setup":
            compile_all(engine_jobs("fast") + engine_jobs("asan"))
            setup_extra()
            return 0
        if args[0] == "--build":
            for p in (args[1:] or sorted(SPECS)):
                print(p, build(p)[0])
            return 0
        pid = args[0]
        cmd, env = build(pid)
    except BuildError as e:
        sys.stdout.write("BUILD FAILED\n" + str(e)[:8000] + "\n")
        return 3
    fcntl.flock(lock, fcntl.LOCK_UN)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    rest = []
    it = iter(args[1:])
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--seed":
            seed = next(it)
        else:
            rest.append(a)
    e = dict(os.environ)
    e.update(san_env())
    e.update(env)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    full = cmd + ["--tier", tier, "--seed", seed,
                  "--evidence", os.path.join(VERIF, "evidence", pid + ".json"),
                  "--replay-dir", os.path.join(VERIF, "replays"),
                  "--findings", os.path.join(VERIF, "known_findings.txt")] + rest
    sys.stdout.flush()
    os.chdir(VERIF)
    os.execvpe(full[0], full, e)


if __name__ == "__main__":
    sys.exit(main())
