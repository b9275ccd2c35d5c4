"""Development aid: mutate.py CHECK[,CHECK] FILE 'old' 'new' [--tier t]  -- runs checks on a mutated scratch copy."""
import os, shutil, subprocess, sys
checks, f, old, new = sys.argv[1:5]
d = "/tmp/mut/repo"
if not os.path.exists(d):
    os.makedirs("/tmp/mut", exist_ok=True)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
    subprocess.check_call("mkdir -p %s && git -C /repo archive HEAD | tar -x -C %s" % (d, d), shell=True)
p = os.path.join(d, f)
orig = open(p).read()
assert orig.count(old) >= 1, "not found: " + old
try:
    open(p, "w").write(orig.replace(old, new, 1))
    env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD="/tmp/mut/build")
    for c in checks.split(","):
        r = subprocess.run(["python3", "/verif/tools/check.py", c] + sys.argv[5:], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = r.stdout.decode(errors="replace").splitlines()
        v = [l for l in o if "VIOLATION" in l or l.startswith("  ")]
        print("%s exit %d %s" % (c, r.returncode, "CAUGHT" if r.returncode == 1 else "missed"))
        for l in v[:4]:
            print("     " + l[:400])
        if r.returncode == 2:
            print("\n".join(o[-12:])[-1500:])
finally:
    open(p, "w").write(orig)
