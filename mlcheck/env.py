"""Import the code under test from the repository's working tree.

The tests of this project run under PyPy 3.9 with its own venv; Hypothesis only exists in the
python3-vt venv (CPython 3.12).  Everything under test is pure Python plus llvmlite (ctypes), so
CPython imports the sources straight from /repo and borrows the pure-Python dependencies
(mypy, networkx, llvmlite ...) of the project's venv.  Nothing is written under /repo.
"""
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get("MLREPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROJ_SITE = "/opt/venv/lib/pypy3.9/site-packages"

_scratch = None


def scratch():
    """A scratch directory of this process tree, removed at exit by the process that made it."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="mlcheck-")
        owner = os.getpid()
        import atexit

        d = _scratch

        def rm():
            if os.getpid() == owner:
                shutil.rmtree(d, ignore_errors=True)

        atexit.register(rm)
    return _scratch


def bootstrap():
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    shim = os.path.join(scratch(), "shim")
    if not os.path.isdir(shim):
        os.makedirs(shim)
        for m in ("mypy", "llvmlite"):
            os.symlink(os.path.join(PROJ_SITE, m), os.path.join(shim, m))
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
        sys.path.insert(1, shim)
        sys.path.append(PROJ_SITE)
    work = os.path.join(scratch(), "cwd")
    os.makedirs(work, exist_ok=True)
    os.chdir(work)
    os.environ["MYPY_CACHE_DIR"] = os.path.join(scratch(), "mypy_cache")
