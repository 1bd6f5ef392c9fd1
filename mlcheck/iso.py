"""Run a function in a forked child and return its JSON result (so the caller's process state stays as it is)."""
import json
import os
import traceback

from .runner import Violation


def isolated(f, *a):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = {"ok": f(*a)}
            except Violation as v:
                out = {"violation": str(v)}
            except BaseException:
                out = {"error": traceback.format_exc()[-3000:]}
            with os.fdopen(w, "w") as o:
                json.dump(out, o, default=str)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as i:
        txt = i.read()
    os.waitpid(pid, 0)
    out = json.loads(txt)
    if "error" in out:
        raise RuntimeError(out["error"])
    return out
