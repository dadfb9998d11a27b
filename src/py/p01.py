#!/usr/bin/env python3
"""P01: the Python helpers, on generated files and stand-ins for the libraries.

  p01.py GEN DBRUNSLI PACKAGE_DIR [options of the check]
"""
import base64
import hashlib
import importlib
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import types

sys.dont_write_bytecode = True
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings, strategies as st  # noqa: E402

GEN, DBRUNSLI, PACKAGE = [os.path.abspath(x) for x in sys.argv[1:4]]
ARGS = sys.argv[4:]
NAME = "jxl_library_patches"
SIGNATURE = b"\x0a\x04\x42\xd2\xd5\x4e"
T0 = time.time()
START = os.getcwd()


def opt(name, default=None):
    v = ARGS[ARGS.index(name) + 1] if name in ARGS else default
    return os.path.join(START, v) if name in ("--replay", "--replay-dir", "--evidence") and v else v


ROOT = tempfile.mkdtemp(prefix="verif-P01-")
TMP = os.path.join(ROOT, "tmp")
BIN = os.path.join(ROOT, "bin")
WORK = os.path.join(ROOT, "work")
for d in (TMP, BIN, WORK):
    os.mkdir(d)
os.chdir(WORK)  # some converters below write where they are started


def script(name, text):
    p = os.path.join(BIN, name)
    with open(p, "w") as f:
        f.write("#!/bin/sh\n" + text)
    os.chmod(p, 0o755)
    return p


CONVERTERS = {
    "good": DBRUNSLI,
    # Uses the directory of the output for files of its own.
    "messy": script("messy", 'd=$(dirname "$2"); mkdir "$d/x"; echo >"$d/x/y"; echo >"$d/z"; [ $# = 2 ] || exit 9; exec "%s" "$@"\n' % DBRUNSLI),
    # Fails after the output has been written.
    "late": script("late", '"%s" "$@"; exit 1\n' % DBRUNSLI),
    "partial": script("partial", 'echo partial > "$2"; exit 3\n'),
    "killed": script("killed", 'kill -9 $$\n'),
    "missing": os.path.join(BIN, "no such program"),
}


class Wrong(Exception):
    pass


def check(ok, what):
    if not ok:
        raise Wrong(what)


class Custom(Exception):
    pass


def truth(path):
    """What the native tool makes of a file: its JPEG, or None."""
    out = os.path.join(ROOT, "truth.jpg")
    if os.path.exists(out):
        os.unlink(out)
    rc = subprocess.call([DBRUNSLI, path, out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if rc != 0:
        return None
    with open(out, "rb") as f:
        return f.read()


def read(path):
    with open(path, "rb") as f:
        return f.read()


def load(mods=None):
    """Imports the package afresh, with the given modules loaded."""
    for k in [k for k in sys.modules if k == NAME or k.startswith(NAME + ".")]:
        del sys.modules[k]
    for k, v in (mods or {}).items():
        sys.modules[k] = v
    return importlib.import_module(NAME)


def unload(mods):
    for k in list(mods) + [k for k in sys.modules if k == NAME or k.startswith(NAME + ".")]:
        sys.modules.pop(k, None)


def materialize(case):
    d = tempfile.mkdtemp(dir=WORK)
    path = os.path.join(d, case["name"])
    what = case["file"]
    if what == "dir":
        os.mkdir(path)
    elif what != "missing":
        with open(path, "wb") as f:
            f.write(base64.b64decode(case["bytes"]))
    return d, path


def expect(case, path, is_file):
    """What the conversion of a file has to give."""
    conv = case["converter"]
    if conv in ("late", "partial", "killed", "missing") or not is_file:
        return None
    return truth(path)


def call(f):
    try:
        return "value", f()
    except SystemExit:
        raise
    except BaseException as e:  # noqa
        return "raised", e


def observe(case, path, jpeg, result, seen, jxl, value, args, kwargs):
    """Judges a call of a wrapped function that takes a file name."""
    kind, v = result
    if not jxl:
        # Untouched.
        check(len(seen) == 1, "called %d times for another format" % len(seen))
        check(seen[0]["name"] == path, "other name for another format")
        check(seen[0]["args"] == args and seen[0]["kwargs"] == kwargs, "arguments changed: %r" % (seen[0],))
    elif jpeg is None:
        check(kind == "raised", "no failure though the conversion failed")
        check(not seen, "called though the conversion failed")
        if case["converter"] != "missing":
            check(isinstance(v, RuntimeError), "raises %r" % (v,))
        return
    else:
        check(len(seen) == 1, "called %d times, %r" % (len(seen), v))
        check(seen[0]["data"] == jpeg, "other data than the JPEG")
        check(seen[0]["name"] != path, "not a file of its own")
        check(seen[0]["args"] == args and seen[0]["kwargs"] == kwargs, "arguments changed: %r" % (seen[0],))
        check(not os.path.exists(seen[0]["name"]), "temporary file is left")
        check(os.path.dirname(os.path.dirname(seen[0]["name"])) == TMP, "temporary file elsewhere")
        check(seen[0]["mode"] == 0o700, "temporary directory open to others")
    if case["fails"]:
        check(kind == "raised" and isinstance(v, Custom), "exception lost: %r" % (v,))
    else:
        check(kind == "value" and v is value, "result lost: %r" % (v,))


def recorder(case, seen, value):
    def imread(filename, *args, **kwargs):
        """Reads an image."""
        r = {"name": filename, "args": list(args), "kwargs": kwargs, "data": None, "mode": None}
        if isinstance(filename, str) and os.path.isfile(filename):
            r["data"] = read(filename)
            r["mode"] = os.stat(os.path.dirname(filename)).st_mode & 0o777
        seen.append(r)
        if case["fails"]:
            raise Custom()
        return value
    return imread


def run(case):
    os.environ["BIN_JPEG_FROM_JXL"] = CONVERTERS[case["converter"]]
    tempfile.tempdir = TMP
    d, path = materialize(case)
    is_file = os.path.isfile(path)
    data = read(path) if is_file else None
    jxl = is_file and data[:6] == SIGNATURE
    seen = []
    value = object()
    args, kwargs = list(case["args"]), dict(case["kwargs"])
    mods = {}
    try:
        kind = case["kind"]
        if kind == "import":
            res = None
            try:
                load()
            except SystemExit as e:
                res = e
            check((res is not None) == (case["converter"] == "missing"), "import without converter: %r" % (res,))
            return
        if case["converter"] == "missing" and kind != "helper":
            case = dict(case, converter="partial")
            os.environ["BIN_JPEG_FROM_JXL"] = CONVERTERS["partial"]
        if kind == "detect":
            utils = importlib.import_module(NAME + ".jxl_utils") if case["converter"] != "missing" else None
            got = utils.is_jpegxl_recompressed_jpeg_file(path)
            check(got is jxl, "recognized as %r, is %r" % (got, jxl))
            for bad in (None, object(), "", "a\0b", ["x"]):
                check(utils.is_jpegxl_recompressed_jpeg_file(bad) is False, "recognizes %r" % (bad,))
            return
        jpeg = expect(case, path, is_file) if case["file"] != "dir" else None
        if kind == "helper":
            os.environ["BIN_JPEG_FROM_JXL"] = DBRUNSLI
            load()
            os.environ["BIN_JPEG_FROM_JXL"] = CONVERTERS[case["converter"]]
            utils = sys.modules[NAME + ".jxl_utils"]
            f = recorder(case, seen, value)
            if case["nested"]:
                inner = f

                def f(name, *a, **k):
                    r = inner(name, *a, **k)
                    n = []
                    second = call(lambda: utils.call_with_jxl_filename_arg1_replaced_by_temp_jpeg_file(
                        lambda x: n.append((x, read(x))), path))
                    check(second[0] == "value" and n[0][1] == jpeg and n[0][0] != name, "nested conversion")
                    check(read(name) == jpeg, "nested conversion spoils the outer one")
                    return r
            res = call(lambda: utils.call_with_jxl_filename_arg1_replaced_by_temp_jpeg_file(f, path, *args, **kwargs))
            if res[0] == "raised" and isinstance(res[1], Wrong):
                raise res[1]
            observe(case, path, jpeg, res, seen, True, value, args, kwargs)
        elif kind == "cv2":
            m = types.ModuleType("cv2")
            m.imread = recorder(case, seen, value)
            m.CV_32FC3 = 21
            other = types.ModuleType("cv2")  # calls itself so
            other.imread = keep = lambda x: x
            mods = {case["alias"]: m, "other_cv2": other, "nothing": None}
            load(mods)
            for _ in range(case["again"]):
                sys.modules[NAME]._try_patch_all()
            check(other.imread is keep, "patches what is not OpenCV")
            check(m.imread.__doc__ == "Reads an image.", "documentation lost")
            res = call(lambda: m.imread(path, *args, **kwargs))
            observe(case, path, jpeg, res, seen, jxl, value, args, kwargs)
        elif kind == "pythonmagick":
            m = types.ModuleType("PythonMagick")
            rec = recorder(case, seen, value)

            class Image:
                def __init__(self, *a, **k):
                    self.made = rec(*a, **k)
            m.Image = Image
            m.DrawableCircle = 1
            mods = {"PythonMagick": m}
            load(mods)
            for _ in range(case["again"]):
                sys.modules[NAME]._try_patch_all()
            res = call(lambda: m.Image(path, *args, **kwargs).made)
            observe(case, path, jpeg, res, seen, jxl, value, args, kwargs)
        elif kind == "imageio":
            m = types.ModuleType("imageio")
            core = types.ModuleType("imageio.core")

            class Format:
                class Reader:
                    def __init__(self, request):
                        self.request = request
                        self._open()

                class Writer:
                    pass

                def __init__(self, name, description, extensions, modes):
                    self.modes = modes
                    self.extensions = extensions
            core.Format = Format
            m.core = core
            m.imread = recorder(case, seen, value)
            m.formats = types.SimpleNamespace(all=[])
            m.formats.add_format = m.formats.all.append
            mods = {"imageio": m, "imageio.core": core}
            load(mods)
            check(len(m.formats.all) == 1, "registers %d formats" % len(m.formats.all))
            f = m.formats.all[0]
            req = types.SimpleNamespace(mode="r" + case["mode"], firstbytes=(data or b"")[:case["first"]],
                                        get_local_filename=lambda: path)
            can = f._can_read(req)
            want = case["mode"] in "iI?" and req.firstbytes[:6] == SIGNATURE
            check(bool(can) == want, "can_read %r for mode %r" % (can, case["mode"]))
            check(not f._can_write(req), "pretends to write")
            if jxl:
                reader = f.Reader(req)
                check(reader._get_length() == 1, "number of images")
                for bad in (-1, 1, 2):
                    r = call(lambda: reader._get_data(bad))
                    check(r[0] == "raised" and isinstance(r[1], IndexError), "image %d" % bad)
                res = call(lambda: reader._get_data(0))
                if res[0] == "value":
                    check(isinstance(res[1], tuple) and res[1][1] == {}, "result %r" % (res[1],))
                    res = (res[0], res[1][0])
                reader._close()
                observe(case, path, jpeg, res, seen, jxl, value, [], {})
        elif kind == "pil":
            pil, image, imagefile = (types.ModuleType(n) for n in ("PIL", "PIL.Image", "PIL.ImageFile"))

            class ImageFile:
                def __init__(self, fp):
                    self.fp = fp
                    self._open()
            imagefile.ImageFile = ImageFile
            pil.Image, pil.ImageFile = image, imagefile
            image._plugins = ["JpegImagePlugin", "PngImagePlugin"]
            image.opened, image.ext = {}, {}
            image.register_open = image.opened.__setitem__
            image.register_extension = lambda k, e: image.ext.__setitem__(e, k)
            opened = []

            def open_(fp):
                opened.append(fp.read())
                if case["fails"]:
                    raise Custom()
                return types.SimpleNamespace(mode="RGB", size=(3, 4), tile=["tile"], fp=fp)
            image.open = open_
            mods = {"PIL": pil, "PIL.Image": image, "PIL.ImageFile": imagefile}
            load(mods)
            check(len(image.opened) == 1 and list(image.ext) == [".jxl"], "registration")
            if not is_file:
                return
            cls = list(image.opened.values())[0]
            r = call(lambda: cls(io.BytesIO(data)))
            if not jxl:
                check(r[0] == "raised" and isinstance(r[1], SyntaxError), "other formats: %r" % (r,))
            elif jpeg is None:
                check(r[0] == "raised" and isinstance(r[1], RuntimeError), "failing conversion: %r" % (r,))
            elif case["fails"]:
                check(r[0] == "raised" and isinstance(r[1], Custom), "exception lost: %r" % (r,))
            else:
                check(r[0] == "value", "fails: %r" % (r,))
                check(opened == [jpeg], "other data than the JPEG")
                check((r[1].mode, r[1].size, r[1].tile) == ("RGB", (3, 4), ["tile"]), "attributes")
        # Nothing is left, nothing is changed.
        check(os.listdir(TMP) == [], "left in the temporary directory: %r" % os.listdir(TMP))
        check(os.listdir(d) == ([case["name"]] if case["file"] != "missing" else []), "left next to the file")
        if is_file:
            check(read(path) == data, "file modified")
    finally:
        unload(mods)
        for x in (d, TMP):
            shutil.rmtree(x)
        os.mkdir(TMP)


def strategy(pool):
    b64 = lambda b: base64.b64encode(b).decode()  # noqa

    @st.composite
    def cases(draw):
        kind = draw(st.sampled_from(["helper", "helper", "cv2", "cv2", "pythonmagick", "imageio", "pil", "detect",
                                     "import"]))
        # This one reads the file itself: files larger than usual buffers matter.
        big = kind == "pil" and draw(st.integers(0, 3)) == 0
        jpg, brn = draw(st.sampled_from([x for x in pool if len(x[1]) > 1000000] if big else pool))
        file = draw(st.sampled_from(["valid"] * 6 + ["jpeg", "cut", "flipped", "head", "near", "random", "empty",
                                                      "missing", "dir", "trailing"]))
        data = brn
        if file == "jpeg":
            data = jpg
        elif file == "cut":
            data = brn[:draw(st.integers(0, len(brn)))]
        elif file == "flipped":
            i = draw(st.integers(0, len(brn) - 1))
            data = brn[:i] + bytes([brn[i] ^ (1 << draw(st.integers(0, 7)))]) + brn[i + 1:]
        elif file == "head":
            data = SIGNATURE[:draw(st.integers(0, 6))]
        elif file == "near":
            i = draw(st.integers(0, 5))
            data = brn[:i] + bytes([draw(st.integers(0, 255))]) + brn[i + 1:]
        elif file == "random":
            data = draw(st.binary(max_size=40))
        elif file == "empty":
            data = b""
        elif file == "trailing":
            data = brn + draw(st.binary(min_size=1, max_size=3))
        ok = lambda c: c not in "/\0" and not 0xD800 <= ord(c) < 0xE000  # noqa
        name = draw(st.one_of(st.just("a.jxl"), st.sampled_from(["a b.jxl", "-h", "%s", "'\".j", "$(x)", "a\nb", ".j"]),
                              st.text(st.characters(blacklist_categories=["Cs"]), min_size=1, max_size=12).filter(
                                  lambda s: all(map(ok, s)) and s not in (".", "..") and len(s.encode()) < 200)))
        return {
            "kind": kind,
            "file": file, "bytes": b64(data), "name": name,
            "converter": draw(st.sampled_from(["good"] * 6 + sorted(CONVERTERS))),
            "args": draw(st.lists(st.integers(-3, 3), max_size=3)),
            "kwargs": draw(st.dictionaries(st.sampled_from(["flags", "x", "debug"]), st.integers(0, 5), max_size=2)),
            "fails": draw(st.booleans()) and draw(st.booleans()),
            "nested": draw(st.booleans()),
            "again": draw(st.integers(0, 2)),
            "alias": draw(st.sampled_from(["cv2", "opencv", "a.b", "zz"])),
            "mode": draw(st.sampled_from("iIvV?-")),
            "first": draw(st.sampled_from([256, 0, 5, 6, 7])),
        }
    return cases()


def fail(case, text):
    d = opt("--replay-dir", ".")
    os.makedirs(d, exist_ok=True)
    s = json.dumps(case, indent=1, sort_keys=True)
    p = os.path.join(d, "P01-%s.json" % hashlib.sha256(s.encode()).hexdigest()[:16])
    with open(p, "w") as f:
        f.write(s)
    sys.stderr.write(text + "\n")
    print("VIOLATION property=P01 replay=%s" % p)
    return 1


def main():
    sys.path.insert(0, PACKAGE)
    null = os.open(os.devnull, os.O_WRONLY)
    rep = opt("--replay")
    err = os.dup(2)
    if rep:
        case = json.load(open(rep))
        try:
            run(case)
        except Exception:
            traceback.print_exc()
            print("VIOLATION property=P01 replay=%s" % rep)
            return 1
        print("replay: no failure")
        return 0
    seed = int(opt("--seed", "1"))
    thorough = opt("--tier", "quick") == "thorough"
    count = int(opt("--cases", "40000" if thorough else "3000"))
    files = os.path.join(ROOT, "files")
    os.mkdir(files)
    subprocess.check_call([GEN, str(seed), "400" if thorough else "100", files], stderr=null)
    pool = []
    for n in sorted(os.listdir(files)):
        if n.endswith(".j"):
            pool.append((read(os.path.join(files, n[:-2] + ".jpg")), read(os.path.join(files, n))))
    ran = {"cases": 0, "keys": set(), "classes": {}, "samples": [], "last": None}
    limit = T0 + (3000 if thorough else 240)

    @hypothesis.seed(seed)
    @settings(max_examples=count, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink), print_blob=False)
    @given(strategy(pool))
    def prop(case):
        if time.time() > limit:
            return
        ran["cases"] += 1
        key = json.dumps(case, sort_keys=True)
        try:
            run(case)
        except BaseException:
            ran["last"] = case
            raise
        ran["keys"].add(hashlib.sha256(key.encode()).digest()[:12])
        c = case["kind"] + ":" + case["file"]
        ran["classes"][c] = ran["classes"].get(c, 0) + 1
        if ran["cases"] % (count // 3) == 1 and len(ran["samples"]) < 4:
            ran["samples"].append({k: v for k, v in case.items() if k != "bytes"})

    # The converters are noisy.
    os.dup2(null, 2)
    os.environ["PATH"] = os.environ.get("PATH", "")
    failure = None
    try:
        prop()
    except BaseException:
        failure = traceback.format_exc()
    os.dup2(err, 2)
    path = opt("--evidence")
    if path:
        ev = {"property": "P01", "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration",
              "coverage": {
                  "evaluations": ran["cases"], "distinct_nontrivial": len(ran["keys"]),
                  "rule": "A case is one call through the helper or a patched stand-in library (OpenCV, PythonMagick, "
                          "imageio, PIL) with a generated file, file name, arguments and converter behaviour; "
                          "non-trivial = call, result and remaining files were all judged",
                  "samples": ran["samples"], "classes": ran["classes"]},
              "assumptions": [], "wall_s": round(time.time() - T0, 2), "violations": int(bool(failure))}
        with open(path, "w") as f:
            json.dump(ev, f, indent=1)
    if failure:
        if ran["last"] is None:
            print(failure)
            return 2
        return fail(ran["last"], failure)
    print("property=P01 cases=%d distinct=%d wall=%.1fs" % (ran["cases"], len(ran["keys"]), time.time() - T0))
    return 0


try:
    RC = main()
finally:
    shutil.rmtree(ROOT, ignore_errors=True)
sys.stdout.flush()
os._exit(RC)
