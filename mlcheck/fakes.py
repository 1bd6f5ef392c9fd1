"""Scripted stand-ins for the external solvers, in a scratch directory of this process.

`dir()` is a per-process directory with `racket` and `cvc5` scripts, put first on PATH and made the
working directory (the code under test writes ./synthesisLogs/ there).
"""
import contextlib
import os
import shutil
import time

from . import env

_dir = None
_sleep = time.sleep

RACKET = """#!/bin/sh
# $1 is the problem file, or the verification problem
case "$1" in
  *_verif.rkt) . ./verif.sh ;;
  *) . ./racket.sh ;;
esac
"""
CVC5 = """#!/bin/sh
for last; do :; done
. ./cvc5.sh
"""


def dir():
    global _dir
    if _dir is None or _dir[0] != os.getpid():
        d = os.path.join(env.scratch(), "fakes%d" % os.getpid())
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, "bin"))
        os.makedirs(os.path.join(d, "synthesisLogs"))
        for n, t in (("racket", RACKET), ("cvc5", CVC5)):
            p = os.path.join(d, "bin", n)
            with open(p, "w") as f:
                f.write(t)
            os.chmod(p, 0o755)
        _dir = (os.getpid(), d)
        os.environ["PATH"] = os.path.join(d, "bin") + ":" + os.environ["PATH"]
    os.chdir(_dir[1])
    return _dir[1]


def put(name, text):
    with open(os.path.join(dir(), name), "w") as f:
        f.write(text)


@contextlib.contextmanager
def fast(limit=None):
    """time.sleep replaced by a short pause"""
    t = time.sleep
    time.sleep = lambda s=0: _sleep(min(s, 0.002))
    try:
        yield
    finally:
        time.sleep = t


def reap(timeout=2.0):
    """wait for every process the code under test started; returns those that had to be killed"""
    from metalift import process_tracker
    bad = []
    for p in process_tracker.all_processes:
        try:
            p.wait(timeout)
        except Exception:  # noqa
            bad.append(p)
            p.kill()
            p.wait()
        for s in (p.stdout, p.stderr, p.stdin):
            if s:
                s.close()
    process_tracker.all_processes.clear()
    return bad
