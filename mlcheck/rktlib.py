"""The repository's Rosette runtime library, loaded into the evaluator."""
import os

from . import env, rkt


_base = None


def interp():
    """A fresh evaluator whose globals are the library's definitions."""
    global _base
    if _base is None:
        _base = rkt.Interp()
        with open(os.path.join(env.REPO, "metalift/utils/utils.rkt")) as f:
            _base.load(f.read())
    I = rkt.Interp()
    I.steps = _base.steps
    I.steps.n = 400000
    I.g = rkt.Env({}, _base.g)
    return I


def model_interp():
    """The same names bound to the reference meanings (for emission checks), so that emission is judged
    independently of the library's own text."""
    I = rkt.Interp()
    g = I.g.d

    def ref(l, i, d):
        return l[i] if 0 <= i < len(l) else d

    def tail(l, i):
        return l[i:] if 0 <= i <= len(l) else ()

    def take(l, i):
        return l[:i] if i > 0 else ()

    def sl(l, s, e):
        return tail(take(l, e), s)

    def prep(r, m):
        return m if r == () else (r,) + m

    def cols(m, s, e):
        out = ()
        for r in reversed(m):
            out = prep(sl(r, s, e), out)
        return out

    def transpose(m):
        return tuple(zip(*m)) if m and all(m) else ()

    S = lambda a: tuple(sorted(set(a)))
    g.update({
        "list-ref-noerr": lambda l, i: ref(l, i, 0), "list-tail-noerr": tail, "list-take-noerr": take,
        "list-append": lambda l, x: l + (x,), "list-prepend": lambda x, l: (x,) + l,
        "list-empty": lambda: (), "vec-slice-noerr": sl,
        "vec-slice-with-length-noerr": lambda l, s, n: sl(l, s, s + n),
        "list-concat": lambda a, b: a + b, "make-tuple": lambda *a: tuple(a),
        "tupleGet": lambda t, i: ref(t, i, 0),
        "set-singleton": lambda v: (v,), "set-create": lambda: (), "set-eq": rkt.equalp,
        "set-union": lambda a, b: S(a + b), "set-member": lambda v, s: v in s,
        "set-insert": lambda v, s: S(s + (v,)), "set-subset": lambda a, b: set(a) <= set(b),
        "set-minus": lambda a, b: tuple(x for x in a if x not in b),
        "quotient-noerr": lambda x, y: rkt.quotient(x, 1 if y == 0 else y),
        "matrix-length": len, "matrix-empty": lambda: (), "matrix-append": lambda l, x: l + (x,),
        "matrix-prepend": prep, "matrix-tail-noerr": tail, "matrix-take-noerr": take,
        "matrix-ref-noerr": lambda l, i: ref(l, i, ()), "matrix-row-slice-noerr": sl,
        "matrix-row-slice-with-length-noerr": lambda l, s, n: sl(l, s, s + n),
        "matrix-col-slice-noerr": cols,
        "matrix-col-slice-with-length-noerr": lambda l, s, n: cols(l, s, s + n),
        "matrix-transpose-noerr": transpose,
        "tensor3d-length": len, "tensor3d-empty": lambda: (), "tensor3d-append": lambda l, x: l + (x,),
        "tensor3d-prepend": prep, "tensor3d-tail-noerr": tail, "tensor3d-take-noerr": take,
        "tensor3d-ref-noerr": lambda l, i: ref(l, i, ()), "tensor3d-slice-noerr": sl,
        "tensor3d-slice-with-length-noerr": lambda l, s, n: sl(l, s, s + n),
    })
    return I
