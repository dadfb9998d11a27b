#!/usr/bin/env python3
"""Runs a property's generator-driven check, then the coverage-guided fuzzer and
the MemorySanitizer build on inputs the generator made.

  stages.py ID PBT FUZZ FILES MSAN PLAIN  [options of the check]
"""
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

PID, PBT, FUZZ, FILES, MSAN, PLAIN = sys.argv[1:7]
ARGS = sys.argv[7:]


def opt(name, default=None):
    return ARGS[ARGS.index(name) + 1] if name in ARGS else default


THOROUGH = opt("--tier", "quick") == "thorough"
SEED = int(opt("--seed", "1"))
REPLAYS = opt("--replay-dir", ".")
T0 = time.time()
CRASH = 77


def env():
    e = dict(os.environ)
    e["MSAN_OPTIONS"] = "exit_code=%d:symbolize=1:intercept_memcmp=0:allocator_may_return_null=1" % CRASH
    return e


def run_files(exe, files, timeout):
    """Returns (number done, failing file or None, log)."""
    if not files:
        return 0, None, ""
    try:
        r = subprocess.run([exe], input="\n".join(files) + "\n", stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", env=env(), timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), 0
        return sum(l in set(files) for l in out.split("\n")), None, ""
    names = set(files)
    seen = [l for l in out.split("\n") if l in names]
    if rc == 0 and "finished" in out:
        return len(seen), None, ""
    return len(seen), (seen[-1] if seen else None), out[-6000:]


def parallel(jobs):
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda j: j(), jobs))


def confirmed(exe, path):
    """Three runs out of three fail."""
    for _ in range(3):
        try:
            r = subprocess.run([exe, path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env(), timeout=300)
            if r.returncode == 0:
                return False
        except subprocess.TimeoutExpired:
            return True
    return True


def uninitialized(path):
    """MemorySanitizer complains every time, and valgrind, which sees the C++
    runtime and the Brotli library too, agrees."""
    if not confirmed(MSAN, path):
        return False
    if not shutil.which("valgrind"):
        return True
    try:
        r = subprocess.run(["valgrind", "-q", "--error-exitcode=%d" % CRASH, "--leak-check=no", PLAIN, path],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
        return r.returncode != 0
    except subprocess.TimeoutExpired:
        return False


def violation(path, how, log):
    data = open(path, "rb").read()
    import hashlib
    os.makedirs(REPLAYS, exist_ok=True)
    out = os.path.join(REPLAYS, "%s-%s-%s.bin" % (PID, how, hashlib.sha256(data).hexdigest()[:16]))
    with open(out, "wb") as f:
        f.write(data)
    sys.stderr.write(log[-3000:] + "\n")
    print("VIOLATION property=%s replay=%s" % (PID, out))
    return 1


def main():
    rep = opt("--replay")
    if rep and open(rep, "rb").read(10) != b"pbt-replay":
        if confirmed(FILES, rep) or uninitialized(rep):
            print("VIOLATION property=%s replay=%s" % (PID, rep))
            return 1
        print("replay: no failure")
        return 0
    if rep or "--one" in ARGS:
        return subprocess.run([PBT] + ARGS).returncode
    tmp = tempfile.mkdtemp(prefix="verif-" + PID)
    children = []
    try:
        seeds = os.path.join(tmp, "seeds")
        os.mkdir(seeds)
        e = env()
        e["PBT_DUMP"] = seeds
        e["PBT_DUMP_N"] = "20000" if THOROUGH else "6000"
        r = subprocess.run([PBT] + ARGS, env=e)
        if r.returncode != 0:
            return r.returncode
        names = sorted(glob.glob(seeds + "/*"))
        names = [n for n in names if os.path.getsize(n) < 60000]
        stats = {}
        # Uninitialized memory.
        stats["memory_sanitizer_inputs"] = 0
        stats["memory_sanitizer_unconfirmed"] = 0
        shards = [names[k::8] for k in range(8)]
        deadline = time.time() + (600 if THOROUGH else 60)
        while any(shards) and time.time() < deadline:
            res = parallel([(lambda v=v: run_files(MSAN, v, deadline - time.time() + 1)) for v in shards])
            for k, (n, bad, log) in enumerate(res):
                stats["memory_sanitizer_inputs"] += n
                if bad and uninitialized(bad):
                    return violation(bad, "msan", log)
                # Go on after a failure that does not repeat on its own.
                shards[k] = shards[k][n:] if bad else []
                stats["memory_sanitizer_unconfirmed"] += bool(bad)
        # Coverage guided.
        runs = int(opt("--fuzz-runs", "3000000" if THOROUGH else "30000"))
        limit = 1200 if THOROUGH else 60
        corpora = []
        procs = []
        for k in range(8):
            d = os.path.join(tmp, "c%d" % k)
            os.mkdir(d)
            take = [n for n in names[k::8] if os.path.getsize(n) < 6000][: 600 if THOROUGH else 250]
            for n in take:
                shutil.copy(n, d)
            log = open(os.path.join(tmp, "log%d" % k), "w")
            procs.append((k, len(take), subprocess.Popen(
                [FUZZ, "-seed=%d" % (SEED * 8 + k + 1), "-runs=%d" % (runs + len(take)), "-max_total_time=%d" % limit,
                 "-max_len=8000", "-rss_limit_mb=3000", "-timeout=120", "-use_value_profile=0", "-print_final_stats=1",
                 "-artifact_prefix=%s/crash%d-" % (tmp, k), d], stdout=log, stderr=subprocess.STDOUT, env=env(),
                cwd=tmp)))
            children.append(procs[-1][2])
        total = 0
        new = 0
        cov = 0
        bad = None
        for k, base, p in procs:
            rc = p.wait()
            out = open(os.path.join(tmp, "log%d" % k), errors="replace").read()
            for line in out.split("\n"):
                if line.startswith("stat::number_of_executed_units:"):
                    total += int(line.split()[-1])
                if " cov: " in line:
                    cov = max(cov, int(line.split(" cov: ")[1].split()[0]))
            new += max(0, len(os.listdir(os.path.join(tmp, "c%d" % k))) - base)
            crash = glob.glob("%s/crash%d-*" % (tmp, k))
            crash = [x for x in crash if "slow-unit" not in x and "oom-" not in x]
            if rc != 0 and crash and not bad:
                bad = (crash[0], out)
        stats["coverage_guided_runs"] = total
        stats["coverage_guided_new_inputs"] = new
        stats["coverage_guided_edges"] = cov
        if bad:
            exe = FILES
            if confirmed(exe, bad[0]):
                # Smaller, if it can be had quickly.
                small = bad[0] + ".min"
                try:
                    subprocess.run([FUZZ, "-minimize_crash=1", "-runs=3000", "-max_total_time=20",
                                    "-exact_artifact_path=" + small, bad[0]], stdout=subprocess.DEVNULL,
                                   stderr=subprocess.DEVNULL, env=env(), timeout=60, cwd=tmp)
                except subprocess.TimeoutExpired:
                    pass
                if os.path.exists(small) and confirmed(exe, small):
                    return violation(small, "fuzz", bad[1])
                return violation(bad[0], "fuzz", bad[1])
            stats["unconfirmed_fuzz_artifacts"] = 1
        path = opt("--evidence")
        if path and os.path.exists(path):
            ev = json.load(open(path))
            ev["coverage"].update(stats)
            ev["coverage"]["evaluations"] += stats["memory_sanitizer_inputs"] + total
            ev["wall_s"] = round(time.time() - T0, 1)
            json.dump(ev, open(path, "w"), indent=1)
        print("stages property=%s %s wall=%.1fs" % (PID, json.dumps(stats), time.time() - T0))
        return 0
    finally:
        for c in children:
            if c.poll() is None:
                c.send_signal(signal.SIGKILL)
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
