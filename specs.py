# Executed by run.py: registers every property's build.
def setup_extra():
    compile_all(ref_jobs("fast"))


spec("R01")
spec("R02")
spec("R04")
spec("R03")
spec("R05")
spec("R06")


def ref_jobs(variant):
    inc = ["-I" + os.path.join(VERIF, "ref/c/include"), "-I" + os.path.join(VERIF, "ref/c"),
           "-I" + os.path.join(VERIF, "ref"), "-I" + os.path.join(VERIF, "src")]
    cc = ["g++", "-std=c++17", "-O2", "-g1", "-DNDEBUG", "-Dbrunsli=brunsli_ref",
          "-DEncodeBrunsli=RefEncodeBrunsli", "-DDecodeBrunsli=RefDecodeBrunsli"] + inc
    deps = hdr_hash(os.path.join(VERIF, "ref")) + hdr_hash(os.path.join(VERIF, "src"))
    srcs = []
    for d in DOMAINS:
        srcs += sorted(glob.glob(os.path.join(VERIF, "ref/c", d, "*.cc")))
    srcs.append(os.path.join(VERIF, "src/ref_api.cc"))
    return [Job(s, cc, deps) for s in srcs]


def build_with_ref(s):
    jobs = repo_jobs(s["variant"], DOMAINS) + own_jobs(s["srcs"], s["variant"], s["flags"])
    jobs += engine_jobs(s["variant"]) + ref_jobs(s["variant"])
    objs = compile_all(jobs)
    return [link(s["id"], VARIANTS[s["variant"]], objs, BROTLI + s["libs"] + ["-lpthread", "-lm"])], {}


spec("F01", variant="fast", custom=build_with_ref)
spec("T05", variant="fast", custom=build_with_ref)
for i in ("T01", "T02", "T03", "T04", "A02"):
    spec(i, custom=build_with_ref, flags=["-DWITH_REF"])
spec("B01")
spec("A01")
spec("Z01", variant="fast")
spec("Z02")


WRAP = ["BrotliEncoderCompress", "BrotliDecoderDecompressStream", "BrotliDecoderDecompress",
        "BrotliDecoderTakeOutput", "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"]


def build_hostile(s):
    """The check itself, the fuzzer, and runners of single files."""
    own = ["src/fuzz/target.cc"]
    flags = ["-DTARGET_JPEG"] if s["id"] == "S01" else []
    sets = {
        "pbt": repo_jobs("san", DOMAINS) + own_jobs(s["srcs"], "san", ["-DWITH_REF"]) + engine_jobs("san") + ref_jobs("san"),
        "fuzz": repo_jobs("fuzz", DOMAINS) + own_jobs(own, "fuzz", flags),
        "files": repo_jobs("san", DOMAINS) + own_jobs(own, "san", flags + ["-DFILES_MAIN"]),
        "msan": repo_jobs("msan", DOMAINS) + own_jobs(own, "msan", flags + ["-DFILES_MAIN"]),
        "plain": repo_jobs("plain", DOMAINS) + own_jobs(own, "plain", flags + ["-DFILES_MAIN"]),
    }
    compile_all([j for v in sets.values() for j in v])
    libs = BROTLI + ["-lpthread", "-lm"]
    o = {k: [j.obj for j in v] for k, v in sets.items()}
    fuzz = [x.replace("fuzzer-no-link", "fuzzer") for x in VARIANTS["fuzz"]]
    wrap = ["-Wl," + ",".join("--wrap=" + w for w in WRAP)]
    exes = [link(s["id"], VARIANTS["san"], o["pbt"], libs),
            link(s["id"] + "-fuzz", fuzz, o["fuzz"], libs),
            link(s["id"] + "-files", VARIANTS["san"], o["files"], libs),
            link(s["id"] + "-msan", VARIANTS["msan"] + wrap, o["msan"], libs),
            link(s["id"] + "-plain", VARIANTS["plain"], o["plain"], libs)]
    return ["python3", os.path.join(VERIF, "src/fuzz/stages.py"), s["id"]] + exes, {}


spec("S01", custom=build_hostile)
spec("S02", custom=build_hostile)


LONG = {"tsan": "thread_sanitizer", "fast": "native", "san": "address_sanitizer"}


def build_threads(s, variants=("fast", "tsan")):
    """The check as users run it, and under the thread sanitizer."""
    out = []
    for v in variants:
        jobs = repo_jobs(v, DOMAINS) + [Job(os.path.join(REPO, r), VARIANTS[v] + repo_includes(), hdr_hash(os.path.join(REPO, "c")))
                                        for r in s["repo_extra"]]
        jobs += own_jobs(s["srcs"], v, s["flags"]) + engine_jobs(v)
        exe = link(s["id"] + ("" if v == "fast" else "-" + v), VARIANTS[v], compile_all(jobs), BROTLI + ["-lpthread", "-lm"])
        out.append(LONG[v] + "=" + exe)
    return ["python3", os.path.join(VERIF, "src/multi.py"), s["id"]] + out + ["--"], {}


spec("F02", custom=build_threads)


def build_internal(s):
    """Drives internal interfaces; when they have changed, the whole codec."""
    try:
        jobs = own_jobs(s["srcs"], s["variant"], s["flags"])
        compile_all(jobs)
        return link_internal(s, jobs)
    except BuildError as e:
        first = [l for l in str(e).split("\n") if "error" in l][:1]
        sys.stdout.write("note: internal interfaces differ, checking end to end (%s)\n" % "".join(first))
        return link_internal(s, own_jobs(s["srcs"], s["variant"], s["flags"] + ["-DNO_INTERNALS"]))


def link_internal(s, own):
    ref = ref_jobs(s["variant"]) if s["flags"] else []
    objs = compile_all(repo_jobs(s["variant"], DOMAINS) + own + engine_jobs(s["variant"]) + ref)
    return [link(s["id"], VARIANTS[s["variant"]], objs, BROTLI + ["-lpthread", "-lm"])], {}


spec("E01", variant="san", custom=build_internal)
spec("E02", variant="san", custom=build_internal)
spec("E03", variant="san", custom=build_internal)
spec("H01", variant="san", custom=build_internal, flags=["-DWITH_REF"])
spec("Z03", variant="fast", custom=build_with_ref)
spec("G01", repo_extra=["c/experimental/groups.cc"], custom=lambda s: build_threads(s, ("san", "tsan")))
spec("M01", variant="fast")
spec("L01", variant="fast", repo_extra=["c/experimental/groups.cc"])


def build_tools(s):
    """The tools, with and without groups, and the check that runs them."""
    v = s["variant"]
    lib = repo_jobs(v, DOMAINS)
    deps = hdr_hash(os.path.join(REPO, "c"))
    compile_all(lib)
    libs = BROTLI + ["-lpthread", "-lm"]
    env = {}
    for tool in ("cbrunsli", "dbrunsli"):
        for groups in (0, 1):
            flags = VARIANTS[v] + (["-DBRUNSLI_EXPERIMENTAL_GROUPS"] if groups else []) + repo_includes()
            srcs = ["c/tools/%s.cc" % tool] + (["c/experimental/groups.cc"] if groups else [])
            jobs = [Job(os.path.join(REPO, f), flags, deps) for f in srcs]
            exe = link("C01-" + tool + "-groups" * groups, VARIANTS[v], compile_all(jobs + lib), libs)
            env["C01_" + tool.upper() + "_GROUPS" * groups] = exe
    objs = compile_all(lib + own_jobs(s["srcs"], v, s["flags"]) + engine_jobs(v))
    return [link(s["id"], VARIANTS[v], objs, libs)], env


spec("C01", variant="san", custom=build_tools)
spec("W01", variant="san", srcs=["src/checks/W01.cc", "src/wasm_glue.cc"], watch=["wasm/codec.cc"])


def build_java(s):
    """The JNI library, the classes, and the check that talks to them."""
    import shutil
    v = s["variant"]
    java = shutil.which("java")
    javac = shutil.which("javac")
    if not java or not javac:
        raise BuildError("no Java")
    inc = os.path.join(os.path.dirname(os.path.dirname(os.path.realpath(javac))), "include")
    flags = VARIANTS[v] + ["-fPIC", "-I" + inc, "-I" + inc + "/linux"] + repo_includes()
    wrapper = os.path.join(REPO, "java/dev/brunsli/wrapper")
    deps = hdr_hash(os.path.join(REPO, "c")) + hdr_hash(wrapper)
    jni = repo_jobs(v, DOMAINS, ["-fPIC"])
    jni += [Job(f, flags, deps) for f in sorted(glob.glob(os.path.join(wrapper, "*.cc")))]
    lib = link("J01-jni", VARIANTS[v] + ["-shared", "-fPIC"], compile_all(jni), BROTLI)
    srcs = [f for f in sorted(glob.glob(os.path.join(wrapper, "*.java"))) if not f.endswith("Test.java")]
    srcs.append(os.path.join(VERIF, "src/java/Driver.java"))
    classes = os.path.join(BUILD, "java-" + file_hash(srcs)[:24])
    if not os.path.isdir(classes):
        for old in glob.glob(os.path.join(BUILD, "java-*")):
            shutil.rmtree(old)
        r = sh([javac, "-nowarn", "-d", classes + ".tmp"] + srcs)
        if r.returncode != 0:
            shutil.rmtree(classes + ".tmp", ignore_errors=True)
            raise BuildError(r.stdout)
        os.rename(classes + ".tmp", classes)
    objs = compile_all(repo_jobs(v, DOMAINS) + own_jobs(s["srcs"], v, s["flags"]) + engine_jobs(v))
    exe = link(s["id"], VARIANTS[v], objs, BROTLI + ["-lpthread", "-lm"])
    return [exe], {"J01_JAVA": java, "J01_CLASSES": classes, "J01_LIBRARY": lib}


spec("J01", variant="fast", custom=build_java)


def build_web(s):
    """The modules as C, with stand-ins for the servers' headers."""
    web = os.path.join(VERIF, "src/web")
    mods = {"apache": "contrib/mod_brunsli/mod_brunsli.c",
            "nginx": "contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c"}
    jobs = []
    for server, mod in mods.items():
        cc = [x for x in VARIANTS["san"] if x not in ("clang++", "-std=c++17")]
        cc = ["clang", "-std=gnu11", "-D_GNU_SOURCE", "-fno-sanitize=null"] + cc + ["-w", "-I" + os.path.join(web, server)]
        deps = hdr_hash(web)
        jobs += [Job(os.path.join(REPO, mod), cc, deps + file_hash(glob.glob(os.path.dirname(os.path.join(REPO, mod)) + "/*.h"))),
                 Job(os.path.join(web, server, "glue.c"), cc, deps)]
    objs = compile_all(jobs + own_jobs(s["srcs"], "san", repo=False) + engine_jobs("san", gen=False))
    return [link(s["id"], VARIANTS["san"], objs, ["-lpthread", "-lm"])], {}


spec("N01", variant="san", custom=build_web)


def build_python(s):
    """The converter and a generator of files; the package runs as it is."""
    v = s["variant"]
    lib = repo_jobs(v, DOMAINS)
    tool = [Job(os.path.join(REPO, "c/tools/dbrunsli.cc"), VARIANTS[v] + repo_includes(), hdr_hash(os.path.join(REPO, "c")))]
    objs = compile_all(lib + tool + own_jobs(["src/gen_files.cc"], v) + engine_jobs(v))
    libs = BROTLI + ["-lpthread", "-lm"]
    n = len(lib)
    dec = link("P01-dbrunsli", VARIANTS[v], objs[:n + 1], libs)
    # The engine brings its main function's arguments; only the generator is used.
    gen = link("P01-gen", VARIANTS[v], objs[:n] + objs[n + 1:], libs)
    return ["python3-vt", os.path.join(VERIF, "src/py/p01.py"), gen, dec, os.path.join(REPO, "contrib/py")], {}


spec("P01", variant="fast", custom=build_python)


KINDS = {
    "plain": ["g++", "-std=c++17", "-O2", "-g1", "-DNDEBUG"],
    # Unknown compiler, byte order and word size; char is unsigned; variables that
    # nobody initialized are not zero.
    "portable": ["g++", "-std=c++17", "-O2", "-g1", "-w", "-DNDEBUG", "-DBRUNSLI_BUILD_ENDIAN_NEUTRAL", "-DBRUNSLI_BUILD_32_BIT",
                 "-DBRUNSLI_DISABLE_LOG", "-funsigned-char", "-ftrivial-auto-var-init=pattern",
                 "-include", os.path.join(VERIF, "src/kinds/foreign.h")],
    # Another compiler, assertions and all logging.
    "debug": ["clang++", "-std=c++17", "-O1", "-g", "-DBRUNSLI_DEBUG", "-DBRUNSLI_ENABLE_LOG"],
    # Other floating point arithmetic.
    "x87": ["g++", "-std=c++17", "-O3", "-ffast-math", "-g1", "-DNDEBUG", "-mfpmath=387"],
}


def build_kinds(s):
    """Several builds of the codec in one program, told apart by their namespaces."""
    jobs = own_jobs(s["srcs"], "fast") + engine_jobs("fast") + ref_jobs("fast") + repo_jobs("fast", DOMAINS)
    objs = compile_all(jobs)
    deps = hdr_hash(os.path.join(REPO, "c")) + hdr_hash(os.path.join(VERIF, "src"))

    def one(name, cc):
        rename = ["-D%s=%s_k_%s" % (x, x, name) for x in ("brunsli", "EncodeBrunsli", "DecodeBrunsli", "Log2FloorNonZero")]
        cc = cc + rename + ["-DKIND=" + name, "-I" + os.path.join(VERIF, "src")] + repo_includes()
        srcs = [os.path.join(VERIF, "src/kinds/api.cc")]
        for d in DOMAINS:
            srcs += sorted(glob.glob(os.path.join(REPO, "c", d, "*.cc")))
        return compile_all([Job(f, cc, deps) for f in srcs])

    for name, cc in KINDS.items():
        try:
            objs = objs + one(name, cc)
        except BuildError:
            # System headers that the repository has come to need may not bear this.
            if "-include" not in cc:
                raise
            sys.stdout.write("note: the %s build needs to know the compiler\n" % name)
            objs = objs + one(name, cc[:cc.index("-include")])
    return [link(s["id"], VARIANTS["fast"], objs, BROTLI + ["-lpthread", "-lm", "-Wl,--allow-multiple-definition"])], {}


spec("K01", variant="fast", custom=build_kinds)


WORK = ["clang++", "-std=c++17", "-O1", "-g", "-DNDEBUG", "-DBRUNSLI_DISABLE_LOG", "-fsanitize-coverage=trace-pc-guard"]


def build_work(s):
    """The code under test counts what it does."""
    deps = hdr_hash(os.path.join(REPO, "c"))
    jobs = own_jobs(s["srcs"] + ["src/work.cc"], "fast") + engine_jobs("fast")
    for d in DOMAINS:
        jobs += [Job(f, WORK + repo_includes(), deps) for f in sorted(glob.glob(os.path.join(REPO, "c", d, "*.cc")))]
    wrap = ["-Wl," + ",".join("--wrap=" + w for w in ("memcpy", "memmove", "memset", "memcmp"))]
    return [link(s["id"], VARIANTS["fast"] + wrap, compile_all(jobs), BROTLI + ["-lpthread", "-lm"])], {}


spec("S03", variant="fast", custom=build_work)
