"""Helper for planting bugs: tools/plant.py SPEC.py
SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text after the header).
Writes seeded/ID/{patch.diff,demo.sh,demo.py,meta.json} and confirms: tests pass with it, demo passes without
and fails with it."""
import json, os, runpy, shutil, subprocess, sys, tempfile

HEAD = '''import os, shutil, sys, tempfile, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)
REPO = os.getcwd()
S = tempfile.mkdtemp()
import atexit
atexit.register(lambda: shutil.rmtree(S, ignore_errors=True))
P = "/opt/venv/lib/pypy3.9/site-packages"
for m in ("mypy", "llvmlite"):
    os.symlink(os.path.join(P, m), os.path.join(S, m))
sys.path[:0] = [REPO, S]
sys.path.append(P)
os.chdir(S)
'''
DEMO_SH = '''#!/bin/bash
exec python3-vt "$(dirname "$(readlink -f "$0")")/demo.py"
'''
s = runpy.run_path(sys.argv[1])
d = f"/verif/seeded/{s['ID']}"
os.makedirs(d, exist_ok=True)
for f, o, n in s["EDITS"]:
    p = os.path.join("/repo", f)
    t = open(p).read()
    c = t.count(o)
    if c != s.get("COUNT", 1):
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
        sys.exit(f"{f}: old text occurs {c} times")
    open(p, "w").write(t.replace(o, n))
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
open(f"{d}/patch.diff", "w").write(diff)
if "DEMO_SH" in s:
    open(f"{d}/demo.sh", "w").write(s["DEMO_SH"])
else:
    open(f"{d}/demo.sh", "w").write(DEMO_SH)
    open(f"{d}/demo.py", "w").write(HEAD + s["DEMO"])
os.chmod(f"{d}/demo.sh", 0o755)
json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(f"{d}/meta.json", "w"), indent=1)
run = lambda *c: subprocess.run(c, capture_output=True, text=True, cwd="/repo")
try:
    b = run("bash", "/opt/vp/build.sh")
    t = tempfile.mktemp()
    run("bash", "/opt/vp/test.sh", t)
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("stable") or base.get("passed") or base
    got = set(json.load(open(t))["passed"]); os.unlink(t)
    lost = [x for x in (want if isinstance(want, list) else []) if x not in got]
    bad = run("bash", f"{d}/demo.sh")
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    run("bash", "/opt/vp/build.sh")
ok = run("bash", f"{d}/demo.sh")
print(s["ID"], "build", b.returncode, "tests passed", len(got), "lost", lost, "demo clean", ok.returncode, "demo patched", bad.returncode)
if ok.returncode: print("CLEAN:", ok.stdout[-500:], ok.stderr[-1500:])
if bad.returncode == 0: print("PATCHED passes", bad.stdout[-300:])
else: print("  patched says:", (bad.stdout + bad.stderr).strip().splitlines()[-1][:300] if (bad.stdout + bad.stderr).strip() else "")
print(run("git", "status", "--short").stdout)
# only original lines changed?
