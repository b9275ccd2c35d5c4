"""Compiles what a check needs from /repo's current working tree.

Nothing is trusted but file contents: every object goes through ccache (keyed on
preprocessed content / content hashes of all headers) and is re-linked on every
run.  Nothing is written under /repo.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = os.cpu_count() or 8

EXCLUDE = re.compile(r"(_test|_benchmark|benchmark_utils|benchmark|cuda|test_util|"
                     r"evaluator_test_utils|numeric_diff_test_utils|gmock|gtest)")
ABSL = sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.a"))

COMMON = ["-std=c++17", "-w", "-DCERES_STATIC_DEFINE", "-pthread",
          "-fno-omit-frame-pointer"]
FLAVOURS = {
    # -D_GLIBCXX_ASSERTIONS: out-of-range vector indexing is a crash, not luck.
    "plain": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
    "fast": ["-O2"],
    "asan": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS",
             "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment",
             "-fno-sanitize-recover=undefined"],
    # Instrumented for our own scheduler/race detector (mc/mcsched.cc supplies the
    # __tsan_* entry points), not linked with libtsan.
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-fno-pie"],
}
LINK = {
    "plain": [], "fast": [],
    "asan": ["-fsanitize=address,undefined"],
    "tsan": ["-no-pie"] + ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp")],
}


class BuildError(Exception):
    pass


def gen_config():
    """ceres/internal/{config,export}.h, from the tree's own template."""
    out = os.path.join(BUILD, "gen", "ceres", "internal")
    os.makedirs(out, exist_ok=True)
    text = open(os.path.join(REPO, "cmake", "config.h.in")).read()
    defined = {"CERES_USE_EIGEN_SPARSE", "CERES_NO_LAPACK", "CERES_NO_SUITESPARSE",
               "CERES_NO_CUDA", "CERES_NO_CUDSS", "CERES_NO_ACCELERATE_SPARSE",
               "CERES_NO_CHOLMOD_PARTITION", "CERES_NO_EIGEN_METIS"}

    def sub(m):
        return ("#define " + m.group(1)) if m.group(1) in defined else ""
    text = re.sub(r"@(CERES_\w+)@", sub, text)
    text = re.sub(r"#cmakedefine\s+(\w+)", sub, text)
    export = """#ifndef CERES_EXPORT_H
#define CERES_EXPORT_H
#define CERES_EXPORT
#define CERES_NO_EXPORT
#define CERES_DEPRECATED __attribute__((__deprecated__))
#define CERES_DEPRECATED_EXPORT CERES_DEPRECATED
#define CERES_DEPRECATED_NO_EXPORT CERES_DEPRECATED
#endif
"""
    for name, body in (("config.h", text), ("export.h", export)):
        p = os.path.join(out, name)
        if not os.path.exists(p) or open(p).read() != body:
            open(p, "w").write(body)
    return os.path.join(BUILD, "gen")


def library_sources():
    s = sorted(glob.glob(os.path.join(REPO, "internal/ceres/*.cc")) +
               glob.glob(os.path.join(REPO, "internal/ceres/generated/*.cc")))
    return [f for f in s if not EXCLUDE.search(os.path.basename(f))]


def ccache_env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(VERIF, ".ccache")
    e["CCACHE_MAXSIZE"] = "8G"
    e["CCACHE_BASEDIR"] = "/"
    e["CCACHE_COMPILERCHECK"] = "content"
    e["CCACHE_NOHASHDIR"] = "1"
    e.pop("CCACHE_DISABLE", None)
    e["TMPDIR"] = os.path.join(BUILD, "tmp")
    os.makedirs(e["TMPDIR"], exist_ok=True)
    return e


CCACHE = shutil.which("ccache")


def compile_one(src, obj, flags, env):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = ([CCACHE] if CCACHE else []) + ["g++"] + flags + ["-c", src, "-o", obj]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode and os.path.exists(obj):
        os.unlink(obj)
    return r.returncode, r.stdout.decode(errors="replace"), src


def build(specs, log=None):
    """specs: list of dicts {name, sources, flavour, lib, defines, sched}.

    lib: "none", "core" (dynamic + one Schur specialisation), "full", or a list
    of file names in internal/ceres.  Returns {name: executable}.
    """
    gen = gen_config()
    env = ccache_env()
    jobs = {}  # obj -> (src, flags)
    exes = {}
    slow = ("covariance_impl", "schur_eliminator_", "partitioned_matrix_view_")
    for sp in specs:
        fl = sp["flavour"]
        inc = ["-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(VERIF, "mc"),
               "-I" + gen, "-I" + os.path.join(REPO, "include"),
               "-I" + os.path.join(REPO, "internal"), "-I" + os.path.join(REPO, "internal/ceres"),
               "-I/usr/include/eigen3"]
        base = COMMON + FLAVOURS[fl] + inc + sp.get("cxxflags", [])
        lib = sp.get("lib", "none")
        libflags = list(base)
        tag = fl
        if lib == "core":
            libflags += ["-DCERES_RESTRICT_SCHUR_SPECIALIZATION"]
            tag = fl + "_core"
        objs = []
        if lib in ("core", "full"):
            srcs = library_sources()
        elif lib == "none":
            srcs = []
        else:
            srcs = [os.path.join(REPO, "internal/ceres", f) for f in lib]
        for s in srcs:
            rel = os.path.relpath(s, REPO).replace("/", "__")[:-3]
            # Only a few files depend on the specialisation switch.
            o = os.path.join(BUILD, "obj", tag, rel + ".o")
            jobs[o] = (s, libflags)
            objs.append(o)
        hobjs = []
        defs = ["-D" + d for d in sp.get("defines", [])]
        if lib == "core":
            defs.append("-DCERES_RESTRICT_SCHUR_SPECIALIZATION")
        dtag = hashlib.sha1(" ".join(defs + sp.get("cxxflags", [])).encode()).hexdigest()[:6]
        for s in sp["sources"] + ["mc/mc.cc"] + (["mc/mcsched.cc"] if fl == "tsan" else []):
            path = os.path.join(VERIF, s)
            o = os.path.join(BUILD, "obj", fl + "_h" + dtag, s.replace("/", "__") + ".o")
            f = base + defs
            if s.startswith("mc/"):
                # The explorer itself is never instrumented.
                f = COMMON + ["-O2", "-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(VERIF, "mc")]
                o = os.path.join(BUILD, "obj", "mc_" + fl, s.replace("/", "__") + ".o")
                if fl == "tsan":
                    # mc.cc shares library templates with the code under test,
                    # so it is instrumented like it (and switched off at run
                    # time); mcsched.cc shares none.
                    f = f + (["-fsanitize=thread", "-fno-pie"] if s.endswith("mc.cc") else ["-fno-pie", "-g1"])
            jobs[o] = (path, f)
            hobjs.append(o)
        exes[sp["name"]] = (hobjs, objs, fl, tag, sp)
    # longest first
    order = sorted(jobs.items(), key=lambda kv: (not any(t in kv[0] for t in slow), "harness" not in kv[0]))
    errors = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(compile_one, s, o, f, env) for o, (s, f) in order]
        for fu in cf.as_completed(futs):
            rc, out, src = fu.result()
            if rc:
                errors.append("compile failed: %s\n%s" % (src, out[-3000:]))
    if errors:
        raise BuildError("\n".join(errors))
    # A file list may go stale when code moves between files: such a harness is
    # linked against the whole library instead.
    res = {}
    bindir = os.path.join(BUILD, "bin")
    os.makedirs(bindir, exist_ok=True)

    def link(name):
        hobjs, objs, fl, tag, sp = exes[name]
        exe = os.path.join(bindir, name)
        args = ["g++"] + LINK[fl] + ["-pthread", "-o", exe] + hobjs
        if objs:
            lib = os.path.join(BUILD, "lib_%s.a" % name)
            if os.path.exists(lib):
                os.unlink(lib)
            subprocess.check_call(["ar", "qcT", lib] + objs)
            args += [lib]
            args += ["-Wl,--start-group"] + ABSL + ["-Wl,--end-group"]
        else:
            args += ["-Wl,--start-group"] + ABSL + ["-Wl,--end-group"]
        args += sp.get("link", []) + ["-lpthread", "-ldl"]
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode and isinstance(sp.get("lib"), list):
            return name, None
        if r.returncode:
            raise BuildError("link failed: %s\n%s" % (name, r.stdout.decode(errors="replace")[-4000:]))
        return name, exe
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for name, exe in ex.map(link, list(exes)):
            res[name] = exe
    redo = [dict(sp, lib="core") for sp in specs if res[sp["name"]] is None]
    if redo:
        res.update(build(redo))
    return res
