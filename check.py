#!/usr/bin/env python3
"""Run one property check against /repo's current working tree.

    check.py ID [--tier quick|thorough] [--replay FILE] [extra harness options]

Builds the library variants the property needs (out of the tree, with the repository's own CMake
files), builds the harness, runs it.  Exit 0: the property held on everything explored; exit 1 with a
VIOLATION line otherwise.
"""
import fcntl, glob, hashlib, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
H = os.path.join(VERIF, "harness")
JOBS = os.cpu_count() or 4

SAN = "-g -O1 -fno-omit-frame-pointer -fno-sanitize-recover=all"
VARIANTS = {
    # name: (cmake options, extra C flags, compiler)
    "scalar": (["-DCMAKE_BUILD_TYPE=RelWithDebInfo"], "", "gcc"),
    "simd": (["-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DMBELIB_ENABLE_SIMD=ON"], "", "gcc"),
    "release": (["-DCMAKE_BUILD_TYPE=Release", "-DMBELIB_ENABLE_SIMD=ON", "-DMBELIB_ENABLE_FAST_MATH=ON", "-DMBELIB_ENABLE_LTO=ON"], "", "gcc"),
    "fastscalar": (["-DCMAKE_BUILD_TYPE=Release", "-DMBELIB_ENABLE_FAST_MATH=ON"], "", "gcc"),
    "debuglog": (["-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DMBE_ENABLE_DEBUG_LOGS=ON"], "", "gcc"),
    "strict": (["-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DMBELIB_STRICT_ORDER=ON", "-DMBELIB_ENABLE_SIMD=ON", "-DMBELIB_ENABLE_LTO=ON"], "", "gcc"),
    "debug": (["-DCMAKE_BUILD_TYPE=Debug"], "", "gcc"),
    "clang": (["-DCMAKE_BUILD_TYPE=Release", "-DMBELIB_ENABLE_SIMD=ON"], "", "clang-shared"),
    "notones": (["-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DNOTONES=ON"], "", "gcc"),
    "asan": (["-DCMAKE_BUILD_TYPE=None"], SAN + " -fsanitize=address,undefined,float-cast-overflow", "clang"),
    "asansimd": (["-DCMAKE_BUILD_TYPE=None", "-DMBELIB_ENABLE_SIMD=ON"], SAN + " -fsanitize=address,undefined,float-cast-overflow", "clang"),
    "msan": (["-DCMAKE_BUILD_TYPE=None"], SAN + " -fsanitize=memory -fsanitize-memory-track-origins", "clang"),
    "msansimd": (["-DCMAKE_BUILD_TYPE=None", "-DMBELIB_ENABLE_SIMD=ON"], SAN + " -fsanitize=memory -fsanitize-memory-track-origins", "clang"),
    "tsan": (["-DCMAKE_BUILD_TYPE=None", "-DMBELIB_ENABLE_SIMD=ON"], "-g -O1 -fsanitize=thread", "clang"),
    # coverage-guided runs: the harness keeps inputs that reach new edges or bring comparison operands closer
    "cov": (["-DCMAKE_BUILD_TYPE=None"], "-g -O1 -fsanitize-coverage=trace-pc-guard,trace-cmp", "clang"),
    "covasan": (["-DCMAKE_BUILD_TYPE=None"], SAN + " -fsanitize=address,undefined,float-cast-overflow -fsanitize-coverage=trace-pc-guard,trace-cmp", "clang"),
}

# property -> (harness source, library variants opened at run time, runs)
# a run is (label, kind): kind "dl" = plain harness with dlopen, or a sanitizer variant linked statically
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def env():
    e = dict(os.environ)
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "DESTDIR", "CC", "CXX", "LD_PRELOAD"):
        e.pop(k, None)
    e["LANG"] = "C.UTF-8"
    return e


def build_lib(v):
    opts, flags, cc = VARIANTS[v]
    d = os.path.join(BUILD, "lib-" + v)
    static = cc == "clang"
    cc = cc.split("-")[0]
    if not os.path.exists(os.path.join(d, "build.ninja")):
        os.makedirs(d, exist_ok=True)
        cmd = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_C_COMPILER=" + cc, "-DMBELIB_BUILD_TESTS=OFF",
               "-DMBELIB_BUILD_EXAMPLES=OFF", "-DMBELIB_BUILD_DOCS=OFF", "-DMBELIB_BUILD_BENCHMARKS=OFF", "-DMBELIB_ENABLE_WARNINGS=OFF"] + opts
        if flags:
            cmd.append("-DCMAKE_C_FLAGS=" + flags)
        r = sh(cmd, env=env())
        if r.returncode:
            return None, r.stdout
    r = sh(["ninja", "-C", d, "mbe-static" if static else "mbe-shared"], env=env())
    if r.returncode:
        return None, r.stdout
    pats = ["libmbe-neo*.a"] if static else ["libmbe-neo.so", "libmbe-neo.so.*"]
    for p in pats:
        for f in sorted(glob.glob(os.path.join(d, p))):
            return f, ""
    return None, "no library in " + d


def build_harness(src, kind, libfile):
    flags = ["-std=c++17", "-g", "-Wall", "-I" + H, "-I" + os.path.join(REPO, "include")]
    out = os.path.join(BUILD, "h-%s-%s" % (os.path.splitext(src)[0], kind))
    srcs = [os.path.join(H, s) for s in ("main.cpp", "pbt.cpp", src)]
    deps = srcs + glob.glob(os.path.join(H, "*.hpp")) + glob.glob(os.path.join(H, "*.inc")) + glob.glob(os.path.join(REPO, "include", "*", "*"))
    if libfile:
        deps.append(libfile)
    if os.path.exists(out) and all(os.path.getmtime(d) <= os.path.getmtime(out) for d in deps):
        return out, ""
    if kind == "cov":
        cc, extra, link = "clang++", ["-O2", "-DSTATIC_LIB"], [libfile, "-lm", "-lpthread"]
    elif kind == "dl":
        cc, extra, link = "g++", ["-O2"], ["-ldl", "-lpthread", "-lm"]
    elif kind in ("asan", "asansimd", "covasan"):
        cc, extra, link = "clang++", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DSTATIC_LIB"], [libfile, "-lm", "-lpthread"]
    elif kind == "tsan":
        cc, extra, link = "clang++", ["-O1", "-fsanitize=thread", "-DSTATIC_LIB"], [libfile, "-lm", "-lpthread"]
    elif kind in ("msan", "msansimd"):
        cc, extra, link = "clang++", ["-O1", "-fsanitize=memory", "-fsanitize-ignorelist=" + os.path.join(H, "msan_ignore.txt"), "-DSTATIC_LIB", "-DWITH_MSAN"], [libfile, "-lm", "-lpthread"]
    else:
        return None, "unknown harness kind " + kind
    objs, procs = [], []
    os.makedirs(BUILD, exist_ok=True)
    for s in srcs:
        o = out + "-" + os.path.splitext(os.path.basename(s))[0] + ".o"
        objs.append(o)
        procs.append(subprocess.Popen([cc] + flags + extra + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env()))
    msgs = [p.communicate()[0] for p in procs]
    if any(p.returncode for p in procs):
        return None, "\n".join(msgs)
    r = sh([cc] + extra + objs + ["-o", out] + link, env=env())
    return (out, "") if r.returncode == 0 else (None, r.stdout)


def setup():
    """Build every library variant once: shows that the toolchain is complete (checks rebuild what they need)."""
    os.makedirs(BUILD, exist_ok=True)
    need = sorted({v for c in CHECKS.values() for v in c["libs"]})
    for v in need:
        path, err = build_lib(v)
        if not path:
            print(err[-4000:]); return 3
        print("%-10s %s" % (v, path))
    return 0


def main():
    if sys.argv[1:2] == ["--setup"]:
        return setup()
    pid = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier"); tier = args[i + 1]; del args[i:i + 2]
    seed = os.environ.get("VERIF_SEED", "1")
    if "--seed" in args:
        i = args.index("--seed"); seed = args[i + 1]; del args[i:i + 2]
    replay = None
    if "--replay" in args:
        i = args.index("--replay"); replay = args[i + 1]; del args[i:i + 2]
    spec = CHECKS[pid]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    t0 = time.time()
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    e = env()
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        libs = {v: ex.submit(build_lib, v) for v in spec["libs"]}
        kinds = [k for k in spec["kinds"]]
        plain = ex.submit(build_harness, spec["src"], "dl", None) if "dl" in kinds else None
        for v, f in libs.items():
            path, err = f.result()
            if not path:
                print(err[-4000:]); print("cannot build library variant " + v); return 3
            e["LIB_" + v] = path
        bins = {}
        for k in kinds:
            b, err = plain.result() if k == "dl" else build_harness(spec["src"], k, e["LIB_" + k])
            if not b:
                print(err[-4000:]); print("cannot build harness " + k); return 3
            bins[k] = b
    fcntl.flock(lock, fcntl.LOCK_UN)
    e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1")
    e.setdefault("UBSAN_OPTIONS", "print_stacktrace=1:halt_on_error=1:exitcode=67")
    e.setdefault("MSAN_OPTIONS", "exitcode=68")
    e.setdefault("TSAN_OPTIONS", "exitcode=69:halt_on_error=1")
    e["VERIF_KNOWN"] = os.path.join(VERIF, "KNOWN_FINDINGS")
    print("build %.1f s" % (time.time() - t0), flush=True)
    ev = os.path.join(VERIF, "evidence", pid + ".json")
    work = os.path.join(BUILD, "work"); os.makedirs(work, exist_ok=True)
    parts = []
    for n, k in enumerate(kinds):
        part = ev if len(kinds) == 1 else os.path.join(work, "%s-%s.json" % (pid, k))
        cmd = [bins[k], pid] + (["--guided"] if k.startswith("cov") else []) + ["--tier", tier, "--seed", seed, "--work", work, "--jobs", str(JOBS), "--evidence", part,
               "--replay-dir", os.path.join(VERIF, "replays")] + args
        e["HARNESS_KIND"] = k
        if replay:
            want = "dl"
            for line in open(replay):
                if line.startswith("kind "):
                    want = line.split()[1]
            if want != k:
                continue
            cmd = [bins[k], pid, "--replay", replay]
        for attempt in range(3):
            r = subprocess.run(cmd, env=e)
            if r.returncode in (0, 1):
                break
            print("harness ended with status %d, attempt %d" % (r.returncode, attempt + 1), flush=True)
        if r.returncode:
            if len(kinds) > 1 and os.path.exists(part):
                merge(ev, parts + [(k, part)])
            return r.returncode
        parts.append((k, part))
    if len(kinds) > 1 and not replay:
        merge(ev, parts)
    return 0


def merge(ev, parts):
    import json
    out = None
    for k, p in parts:
        j = json.load(open(p))
        if out is None:
            out = j
            out["coverage"]["samples"] = ["(%s) %s" % (k, s) for s in j["coverage"]["samples"]]
            out["coverage"]["by_build"] = {}
        else:
            out["coverage"]["evaluations"] += j["coverage"]["evaluations"]
            out["coverage"]["samples"] += ["(%s) %s" % (k, s) for s in j["coverage"]["samples"][:2]]
            out["wall_s"] += j["wall_s"]
            out["violations"] = out.get("violations", 0) + j.get("violations", 0)
        out["coverage"]["by_build"][k] = {"evaluations": j["coverage"]["evaluations"], "distinct_nontrivial": j["coverage"]["distinct_nontrivial"], "classes": j["coverage"].get("classes", {})}
    # every build runs the same generated cases: distinct cases are those of the largest run
    out["coverage"]["distinct_nontrivial"] = max(v["distinct_nontrivial"] for v in out["coverage"]["by_build"].values())
    json.dump(out, open(ev, "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
