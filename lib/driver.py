"""Builds the library of /repo's working tree plus a harness, runs the explorer, writes evidence."""
import os, sys, re, json, hashlib, subprocess, time, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
REPLAY = os.path.join(VERIF, "replay")
EVID = os.path.join(VERIF, "evidence")

BASE = ["-std=c++20", "-DNDEBUG", "-w", "-DFMT_DEPRECATED_OSTREAM", "-DFMT_CONSTEVAL=", "-DFMT_SHARED",
        "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-DSPDLOG_SHARED_LIB"]
VARIANTS = {
    "plain": ("g++", ["-O1", "-g0"], []),
    "asan": ("clang++", ["-O1", "-g0", "-fsanitize=address", "-fno-omit-frame-pointer"], ["-fsanitize=address"]),
    "tsan": ("clang++", ["-O1", "-g0", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "pic": ("g++", ["-O1", "-g0", "-fPIC"], []),
    "picasan": ("g++", ["-O1", "-g0", "-fPIC", "-fsanitize=address", "-fno-omit-frame-pointer"], ["-fsanitize=address"]),
}
LIBS = ["-lspdlog", "-lfmt", "-lpthread"]


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise CheckError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def files_under(d, exts):
    out = []
    for root, dirs, fs in os.walk(d):
        dirs.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(root, f))
    return out


def repo_sources():
    src = files_under(os.path.join(REPO, "src"), (".cpp", ".cc", ".cxx"))
    hdr = files_under(os.path.join(REPO, "src"), (".hpp", ".h", ".ipp", ".inl", ".in")) + \
        files_under(os.path.join(REPO, "include"), (".hpp", ".h", ".ipp", ".inl", ".in"))
    return src, hdr


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def project_version():
    t = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"VERSION\s+(\d+(?:\.\d+)*)", t[t.index("project("):])
    return m.group(1)


def prune(keep=10):
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
        ds = sorted((d for d in ds if os.path.isdir(d)), key=os.path.getmtime, reverse=True)
        for d in ds[keep:]:
            if time.time() - os.path.getmtime(d) > 1800:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


class Lock:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def gen_version(dst):
    os.makedirs(os.path.join(dst, "cppsas7bdat"), exist_ok=True)
    v = project_version()
    parts = (v.split(".") + ["0"] * 4)[:4]
    src = os.path.join(REPO, "include/cppsas7bdat/version.hpp.in")
    t = open(src).read()
    for k, x in zip(("MAJOR", "MINOR", "PATCH", "TWEAK"), parts):
        t = t.replace("@PROJECT_VERSION_%s@" % k, x)
    t = t.replace("@PROJECT_VERSION@", v)
    p = os.path.join(dst, "cppsas7bdat/version.hpp")
    if not os.path.exists(p) or open(p).read() != t:
        open(p, "w").write(t)


def variant_flags(variant):
    cxx, fl, ld = VARIANTS[variant]
    return cxx, BASE + fl, ld


def build(variant, harness=None, extra_flags=(), extra_libs=()):
    """Returns (build dir, path of harness binary or None). Library objects and harness compile in parallel."""
    os.makedirs(BUILD, exist_ok=True)
    prune()
    cxx, fl, ld = variant_flags(variant)
    src, hdr = repo_sources()
    key = digest(src + hdr + [os.path.join(REPO, "CMakeLists.txt")], " ".join([cxx] + fl))
    d = os.path.join(BUILD, "%s-%s" % (variant, key))
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    with Lock(os.path.join(d, ".lock")):
        gen_version(d)
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + d, "-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(REPO, "src")]
        jobs, objs = [], []
        for s in src:
            o = os.path.join(d, "lib_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((o, [cxx] + fl + inc + ["-c", s]))
        exe = None
        if harness:
            hs = os.path.join(VERIF, "harness", harness + ".cpp")
            deps = [hs] + files_under(os.path.join(VERIF, "lib"), (".hpp",))
            hk = digest(deps, " ".join(extra_flags))
            ho = os.path.join(d, "h_%s_%s.o" % (harness, hk))
            exe = os.path.join(d, "%s_%s" % (harness, hk))
            if not os.path.exists(exe):
                if not os.path.exists(ho):
                    # the harness must not see /repo/src: it uses the public API only
                    hinc = [i for i in inc if not i.endswith("/src")]
                    jobs.append((ho, [cxx] + fl + list(extra_flags) + hinc + ["-c", hs]))
        jobs.sort(key=lambda j: 0 if "reader" in j[0] or "/h_" in j[0] else 1)

        def comp(j):
            o, cmd = j
            tmp = o + ".tmp"
            sh(cmd + ["-o", tmp])
            os.rename(tmp, o)
        with ThreadPoolExecutor(8) as ex:
            for f in [ex.submit(comp, j) for j in jobs]:
                f.result()
        if harness and not os.path.exists(exe):
            sh([cxx] + fl + ld + ["-o", exe + ".tmp", ho] + objs + list(extra_libs) + LIBS)
            os.rename(exe + ".tmp", exe)
            os.unlink(ho)
    return d, exe


def build_cli(variant):
    """The command-line tool of /repo's working tree, next to the library objects of the variant."""
    d, _ = build(variant)
    cxx, fl, ld = variant_flags(variant)
    src = files_under(os.path.join(REPO, "apps"), (".cpp", ".cc", ".cxx"))
    key = digest(src + files_under(os.path.join(REPO, "apps"), (".hpp", ".h")))
    exe = os.path.join(d, "cli_" + key)
    with Lock(os.path.join(d, ".lock-cli")):
        if not os.path.exists(exe):
            objs = files_under(d, (".o",))
            objs = [o for o in objs if os.path.basename(o).startswith("lib_")]
            sh([cxx] + fl + ld + ["-I" + os.path.join(REPO, "include"), "-I" + d, "-o", exe + ".tmp"] + src + objs + ["-ldocopt"] + LIBS)
            os.rename(exe + ".tmp", exe)
    return exe


def compile_all(jobs):
    """jobs: (object, command without -o)"""
    def comp(j):
        o, cmd = j
        if not os.path.exists(o):
            sh(cmd + ["-o", o + ".tmp"])
            os.rename(o + ".tmp", o)
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(comp, j) for j in jobs]:
            f.result()


def lib_objects(d):
    return [o for o in files_under(d, (".o",)) if os.path.basename(o).startswith("lib_") and os.path.dirname(o) == d]


def build_python(variant):
    """The Python package of /repo's working tree: a directory for PYTHONPATH."""
    top = os.path.join(REPO, "python")
    src = files_under(top, (".cpp", ".cc", ".cxx"))
    pys = files_under(top, (".py",))
    key = digest(src + files_under(top, (".hpp", ".h")) + pys)
    with ThreadPoolExecutor(2) as ex:
        lib = ex.submit(build, variant)
        inc = sh(["/usr/bin/python3", "-c", "import sysconfig; print(sysconfig.get_path('include'))"]).strip()
        npy = sh(["/usr/bin/python3", "-c", "import numpy; print(numpy.get_include())"]).strip()
        v = sh(["/usr/bin/python3", "-c", "import sys; print('%d%d' % sys.version_info[:2])"]).strip()
        d, _ = lib.result()
    cxx, fl, ld = variant_flags(variant)
    p = os.path.join(d, "py_" + key)
    with Lock(os.path.join(d, ".lock-py")):
        if not os.path.exists(os.path.join(p, "done")):
            shutil.rmtree(p, ignore_errors=True)
            pkg = os.path.join(p, "pycppsas7bdat")
            os.makedirs(pkg)
            flags = [cxx] + fl + ["-I" + os.path.join(REPO, "include"), "-I" + d, "-isystem", inc, "-isystem", npy]
            jobs = [(os.path.join(p, "%d.o" % i), flags + ["-c", s]) for i, s in enumerate(src)]
            compile_all(jobs)
            sh([cxx] + fl + ld + ["-shared", "-o", os.path.join(pkg, "cpp.so")] + [j[0] for j in jobs] + lib_objects(d) + ["-lboost_python" + v, "-lboost_numpy" + v] + LIBS)
            for f in pys:
                if os.path.basename(os.path.dirname(f)) == "pycppsas7bdat":
                    shutil.copy(f, pkg)
            for j in jobs:
                os.unlink(j[0])
            open(os.path.join(p, "done"), "w").close()
    return p


def build_r(variant):
    """The R package of /repo's working tree: a library directory for R."""
    top = os.path.join(REPO, "R")
    src = files_under(top, (".cpp", ".cc", ".cxx"))
    rest = [f for f in files_under(top, (".R", ".in", "NAMESPACE", "DESCRIPTION", "Makefile", ".hpp", ".h")) if not f.endswith("/DESCRIPTION")]
    key = digest(src + rest)
    d, _ = build(variant)
    cxx, fl, ld = variant_flags(variant)
    p = os.path.join(d, "R_" + key)
    with Lock(os.path.join(d, ".lock-r")):
        if not os.path.exists(os.path.join(p, "done")):
            shutil.rmtree(p, ignore_errors=True)
            os.makedirs(p)
            rinc = os.path.join(sh(["R", "RHOME"]).strip().replace("/lib/R", "/share/R"), "include")
            rcpp = sh(["Rscript", "--vanilla", "-e", 'cat(system.file("include", package="Rcpp"))']).strip()
            flags = [cxx] + fl + ["-I" + os.path.join(REPO, "include"), "-I" + d, "-isystem", rinc, "-isystem", rcpp]
            jobs = [(os.path.join(p, "%d.o" % i), flags + ["-c", s]) for i, s in enumerate(src)]
            compile_all(jobs)
            # staged as the project does: the package's Makefile takes the library from ../../../build
            so = os.path.join(p, "stage/build/R/CPPSAS7BDAT/src/libRcppsas7bdat.so")
            os.makedirs(os.path.dirname(so))
            sh([cxx] + fl + ld + ["-shared", "-o", so] + [j[0] for j in jobs] + lib_objects(d) + LIBS)
            pkg = os.path.join(p, "stage/R/CPPSAS7BDAT")
            shutil.copytree(os.path.join(top, "CPPSAS7BDAT"), pkg)
            t = open(os.path.join(top, "CPPSAS7BDAT/DESCRIPTION.in")).read().replace("@PROJECT_VERSION@", project_version())
            open(os.path.join(pkg, "DESCRIPTION"), "w").write(t)
            rlib = os.path.join(p, "lib")
            os.makedirs(rlib)
            e = dict(os.environ, LC_ALL="C.UTF-8", R_LIBS_USER="")
            e.update(preload(variant))
            sh(["R", "--vanilla", "CMD", "INSTALL", "--no-test-load", "--library=" + rlib, pkg], env=e)
            for j in jobs:
                os.unlink(j[0])
            shutil.rmtree(os.path.join(p, "stage"))
            open(os.path.join(p, "done"), "w").close()
    return os.path.join(p, "lib")


def preload(variant):
    """What a process needs to load a sanitized shared library."""
    if variant != "picasan":
        return {}
    a = sh(["g++", "-print-file-name=libasan.so"]).strip()
    c = sh(["g++", "-print-file-name=libstdc++.so.6"]).strip()
    return {"LD_PRELOAD": os.path.realpath(a) + " " + os.path.realpath(c), "ASAN_OPTIONS": env_for_run()["ASAN_OPTIONS"] + ":detect_odr_violation=0"}


def env_for_run(prop=None):
    e = dict(os.environ)
    e["VERIF_KNOWN"] = " ".join(f["id"] for f in known_findings(prop)) if prop else ""
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_abort=1:symbolize=0:max_allocation_size_mb=4096"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:symbolize=0"
    e["LC_ALL"] = "C"
    e["TZ"] = "VRF-5:45SUM,M3.2.0/2,M11.1.0/3"  # results do not depend on it
    return e


def write_evidence(prop, tier, seed, level, coverage, wall, violations, assumptions):
    os.makedirs(EVID, exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage, assumptions=assumptions, wall_s=round(wall, 2), violations=violations)
    tmp = os.path.join(EVID, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(tmp, os.path.join(EVID, prop + ".json"))


def coverage_from_stats(level, st, spec):
    samples = []
    for s in st.get("sections", []):
        for t in s.get("samples", [])[:2]:
            samples.append("%s: %s" % (s["section"], t))
    cov = {}
    if level == "model_checking":
        cov["states"] = st.get("states", 0)
        cov["transitions"] = st.get("transitions", 0)
        cov["traces_validated_against_impl"] = st.get("executions", 0)
    else:
        cov["evaluations"] = st.get("executions", 0)
        cov["distinct_nontrivial"] = st.get("distinct", 0)
        cov["rule"] = spec["rule"]
    cov["samples"] = samples[:12] or ["(none)"]
    cov["oracle_comparisons"] = st.get("oracle_comparisons", 0)
    cov["exhaustive"] = bool(st.get("complete", False))
    cov["sections"] = [{k: v for k, v in s.items() if k != "samples"} for s in st.get("sections", [])]
    return cov


def merge_stats(a, b):
    if not a:
        return b
    for k, v in b.items():
        if k == "sections":
            a[k] = a.get(k, []) + v
        elif k == "complete":
            a[k] = bool(a.get(k)) and bool(v)
        elif isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v
    return a


def run_cpp(prop, spec, tier, args):
    t0 = time.time()
    parts = [dict(variant=spec.get("variant", "asan"), harness=spec["harness"], flags=spec.get("flags", ()), libs=spec.get("libs", ()))] + list(spec.get("parts", []))
    if args.get("replay"):
        sec = ""
        for l in open(args["replay"]):
            if l.startswith("section "):
                sec = l.split()[1]
        for p in reversed(parts):
            if sec.startswith(p.get("prefix", "")):
                parts = [p]
                break
    with ThreadPoolExecutor(len(parts)) as ex:
        exes = list(ex.map(lambda p: build(p["variant"], p["harness"], p.get("flags", ()), p.get("libs", ())), parts))
    if spec.get("cli"):
        os.environ["VERIF_VERSION"] = project_version()
        os.environ["VERIF_CLI"] = build_cli(parts[0]["variant"])
    tb = time.time() - t0
    os.makedirs(REPLAY, exist_ok=True)
    if args.get("replay"):
        return subprocess.run([exes[0][1], "--replay", args["replay"]], env=env_for_run(prop)).returncode
    st = {}
    for d, exe in exes:
        stats = os.path.join(d, "stats-%s-%d.json" % (prop, os.getpid()))
        cmd = [exe, "--property", prop, "--replay-dir", REPLAY, "--stats", stats, "--jobs", str(args.get("jobs") or os.cpu_count() or 4)]
        if tier == "thorough":
            cmd.append("--thorough")
        if args.get("only"):
            cmd += ["--only", args["only"]]
        rc = subprocess.run(cmd, env=env_for_run(prop)).returncode
        if os.path.exists(stats):
            one = json.load(open(stats))
            os.unlink(stats)
            st = merge_stats(st, one) if rc == 0 else one
        if rc:
            return rc, st, tb
    return 0, st, tb


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop):
                m = re.match(r"id=(\S+)\s+(.*)", l.strip()[len("finding: property=%s " % prop):])
                out.append(dict(id=m.group(1), text=m.group(2)))
    return out


def main(argv):
    import checks
    if not argv:
        print(__doc__)
        return 2
    prop = argv[0]
    args = {}
    i = 1
    while i < len(argv):
        args[argv[i].lstrip("-")] = argv[i + 1]
        i += 2
    tier = args.get("tier") or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = checks.CHECKS[prop]
    level = spec["level"]
    t0 = time.time()
    try:
        if spec["kind"] == "cpp":
            r = run_cpp(prop, spec, tier, args)
            if args.get("replay"):
                return r
            rc, st, tb = r
            print("[%s] build %.1fs, total %.1fs" % (prop, tb, time.time() - t0), flush=True)
            if rc == 0:
                cov = coverage_from_stats(level, st, spec)
                for f in known_findings(prop):
                    n = sum(s.get("known:" + f["id"], 0) for s in st.get("sections", []))
                    if n:
                        print("KNOWN-FINDING: property=%s %s: %s (%d cases)" % (prop, f["id"], f["text"], n), flush=True)
                write_evidence(prop, tier, seed, level, cov, time.time() - t0, 0, spec["assumptions"])
                return 0
            if rc == 1:
                cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": spec.get("rule", ""), "states": 0, "transitions": 0,
                       "traces_validated_against_impl": 0, "samples": [st.get("message", "")], "explanation": "stopped at the first violation"}
                write_evidence(prop, tier, seed, level, cov, time.time() - t0, 1, spec["assumptions"])
                return 1
            print("[%s] harness ended with %d" % (prop, rc), file=sys.stderr)
            return 2
        else:
            import importlib
            sys.path.insert(0, os.path.join(VERIF, "harness"))
            m = importlib.import_module(spec["module"])
            return m.run(prop, spec, tier, seed, args)
    except CheckError as e:
        print("[%s] ERROR %s" % (prop, e), file=sys.stderr)
        return 2
