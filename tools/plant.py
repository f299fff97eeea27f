"""Confirms a planted bug in a scratch copy and keeps it under seeded/.  Usage: plant.py SPECDIR
SPECDIR/spec.py defines id, property, needs, what, edits=[(path, old, new)...]; SPECDIR/demo.py is the demonstration."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
sd = os.path.abspath(sys.argv[1])
exec(open(os.path.join(sd, "spec.py")).read(), spec)
sid = spec["id"]
sc = "/tmp/sc_" + sid
if os.path.exists(sc):
    shutil.rmtree(sc)
os.makedirs(sc)
subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm base" % (sc, sc), shell=True)
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="agg", PYTHONPATH=sc)


def fail(m):
    print("NOT KEPT", sid, m)
    shutil.rmtree(sc)
    sys.exit(1)


DEMO = '#!/bin/bash\n# exit 0 on the unchanged tree, nonzero with the patch; cwd is the repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def demo():
    p = os.path.join(sd, "demo.sh")
    open(p, "w").write(DEMO)
    r = subprocess.run(["bash", p], cwd=sc, env=env, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


rc, out = demo()
if rc != 0:
    fail("demo fails on the unchanged tree: " + out)
for path, old, new in spec["edits"]:
    p = os.path.join(sc, path)
    s = open(p).read()
    if s.count(old) != 1:
        fail("edit matches %d times in %s: %r" % (s.count(old), path, old))
    open(p, "w").write(s.replace(old, new))
rc, out = demo()
if rc == 0:
    fail("demo passes with the change: " + out)
print("demo with change:", out.strip().splitlines()[-1] if out.strip() else rc)
patch = subprocess.run(["git", "diff"], cwd=sc, capture_output=True, text=True).stdout
t = open("/opt/vp/test.sh").read().replace("/repo", sc)
open(sd + "/test.sh", "w").write(t)
b = open("/opt/vp/build.sh").read().replace("/repo", sc)
open(sd + "/build.sh", "w").write(b)
r = subprocess.run(["bash", sd + "/build.sh"], env=env, capture_output=True, text=True)
if r.returncode:
    fail("build: " + r.stdout[-300:] + r.stderr[-600:])
subprocess.run(["bash", sd + "/test.sh", sd + "/out.json"], env=env, capture_output=True, text=True)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
passed = set(json.load(open(sd + "/out.json"))["passed"])
if stable - passed:
    fail("tests fail: %s" % sorted(stable - passed)[:5])
dst = os.path.join(HERE, "seeded", sid)
os.makedirs(dst, exist_ok=True)
open(dst + "/patch.diff", "w").write(patch)
open(dst + "/demo.sh", "w").write(DEMO)
shutil.copy(sd + "/demo.py", dst + "/demo.py")
json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["what"]}, open(dst + "/meta.json", "w"), indent=1)
r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), spec["property"], "--root", sc], cwd=HERE, capture_output=True, text=True)
viol = "VIOLATION property=%s" % spec["property"] in r.stdout
print("KEPT", sid, spec["property"], "caught" if viol and r.returncode == 1 else "MISSED rc=%d" % r.returncode)
print("   ", "\n    ".join(x[:200] for x in r.stdout.splitlines()[-6:]))
shutil.rmtree(sc)
