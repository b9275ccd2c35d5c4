#!/usr/bin/env python3
"""Development aid: mkseed.py SPEC.py -- confirms planted bugs in a scratch copy and
stores them under /verif/seeded.  SPEC.py defines SEEDS, a list of dicts: id, property,
needs, breaks, edits [(file, old, new)], demo (C++ text), lib ("none"|"core"), opt."""
import json, os, runpy, shutil, subprocess, sys
V = "/verif"; D = "/tmp/sd"; B = "/tmp/sd_build"
seeds = runpy.run_path(sys.argv[1])["SEEDS"]
only = set(sys.argv[2:])
def run(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def fresh():
    run("rm -rf %s && mkdir -p %s && cp -a /repo/.git %s/ && git -C %s checkout -q -f HEAD -- . " % (D, D, D, D))
    assert os.path.exists(D + "/include/ceres/ceres.h")
def tests():
    r = run("cmake -S /opt/vp/subset -B %s -G Ninja -DREPO=%s -DCMAKE_BUILD_TYPE=RelWithDebInfo -DFETCHCONTENT_FULLY_DISCONNECTED=ON && ninja -C %s subset_tests" % (B, D, B), env=dict(os.environ, CC="gcc", CXX="g++"))
    if r.returncode: return "build failed\n" + r.stdout.decode()[-1500:]
    t = "integer_sequence_algorithm_test invert_psd_matrix_test is_close_test jet_traits_test parallel_utils_test parameter_dims_test tiny_solver_test tiny_solver_autodiff_function_test".split()
    for x in t:
        r = run("%s/bin/%s" % (B, x))
        if r.returncode: return "test %s failed\n" % x + r.stdout.decode()[-500:]
    return ""
fresh()
for s in seeds:
    if only and s["id"] not in only: continue
    run("git -C %s checkout -q -f HEAD -- ." % D)
    out = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    for e in s["edits"]:
        f = os.path.join(D, e[0]); t = open(f).read()
        n = e[3] if len(e) > 3 else 1
        assert t.count(e[1]) >= 1, (s["id"], "not found", e[1])
        if len(e) <= 3: assert t.count(e[1]) == 1, (s["id"], "ambiguous", e[1], t.count(e[1]))
        open(f, "w").write(t.replace(e[1], e[2], n))
    open(out + "/patch.diff", "wb").write(run("git -C %s diff" % D).stdout)
    d = open(V + "/tools/seedkit/demo.sh").read().replace("@LIB@", s.get("lib", "core")).replace("@OPT@", str(s.get("opt", 0))).replace("@EXTRA@", s.get("extra", ""))
    open(out + "/demo.sh", "w").write(d); os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.cc", "w").write(s["demo"].lstrip())
    shutil.copytree(V + "/tools/seedkit/shim", out + "/shim")
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
    t = tests()
    m = run("bash %s/demo.sh" % out, cwd=D)
    run("git -C %s checkout -q -f HEAD -- ." % D)
    c = run("bash %s/demo.sh" % out, cwd=D)
    ok = not t and m.returncode not in (0, 3, 4) and c.returncode == 0
    print(s["id"], "OK" if ok else "BAD", "tests:", t or "pass", "patched demo:", m.returncode, m.stdout.decode(errors="replace")[-200:].strip(), "| clean:", c.returncode, c.stdout.decode(errors="replace")[-300:].strip(), flush=True)
    if not ok and "--keep" not in sys.argv: shutil.rmtree(out)
shutil.rmtree(D, ignore_errors=True); shutil.rmtree(B, ignore_errors=True)
