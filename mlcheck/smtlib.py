"""The SMT runtime library of the repository in the evaluator, with a standard model for the functions it
only declares."""
import os

from . import env, smt


def _len(l):
    return len(l)


def _app(l, x):
    return l + (x,)


def _take(l, n):
    return l[:n] if n > 0 else ()


def _geth(default):
    def f(l, i):
        if i <= 0:
            return l[0] if l else default
        return l[i] if i < len(l) else default
    return f


MODEL = {
    "list_length": _len, "matrix_length": _len, "list_append": _app, "matrix_append": _app,
    "list_take": _take, "matrix_take": _take, "list_get_helper": _geth(0), "matrix_get_helper": _geth(()),
}


def text(name):
    with open(os.path.join(env.REPO, "metalift/utils", name)) as f:
        return f.read()


_pre = None


def base():
    """A fresh evaluator with tuples, integer functions and lists loaded."""
    global _pre
    import copy

    if _pre is None:
        _pre = smt.Smt(interp=MODEL)
        for n in ("tuples.smt", "integer-fn-axioms.smt", "list-axioms.smt"):
            _pre.load(text(n))
    s = smt.Smt(interp=MODEL)
    for k in ("sorts", "dts", "ctor", "sel", "sig", "defs"):
        setattr(s, k, dict(getattr(_pre, k)))
    s.lib_asserts = list(_pre.asserts)
    s.order = list(_pre.order)
    return s
