"""tools/mut.py CHECK[,CHECK] FILE 'old' 'new' [n] : one-off mutant (n-th occurrence, default must be unique), checks run on a scratch copy."""
import os, shutil, subprocess, sys, tempfile
checks, f, old, new = sys.argv[1:5]
n = int(sys.argv[5]) if len(sys.argv) > 5 else None
d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
subprocess.check_call(["cp", "-a", "/repo/.", d])
p = os.path.join(d, f)
t = open(p).read()
parts = t.split(old)
if n is None:
    assert len(parts) == 2, f"{len(parts) - 1} occurrences"
    n = 1
open(p, "w").write(old.join(parts[:n]) + new + old.join(parts[n:]))
for c in checks.split(","):
    r = subprocess.run(["./check", c] + os.environ.get("SENS_ARGS", "").split(), cwd="/verif", env={**os.environ, "MLREPO": d}, capture_output=True, text=True)
    lines = [l for l in r.stdout.splitlines() if l.startswith("  ")]
    print(c, "exit", r.returncode, (lines[0] if lines else (r.stdout + r.stderr)[-300:])[:220])
shutil.rmtree(d)
