"""The symbolic inputs declared for a synthesis problem denote exactly the values within the bound."""
import itertools
import os

from hypothesis import strategies as st

from metalift import ir as I
from metalift.rosette_translator import to_rosette

from .. import build, env as menv, gens, ref, rkt, rktfile
from ..runner import Discard, Sub, Violation, sut

PROPERTY = "C16"
RULE = ("sets of 1-4 variables of all types and a list bound 1-4; the declarations of the written problem file are evaluated under "
        "symbol assignments: the set of values each variable takes is compared with the set of values of its type within the bound "
        "(exhaustively over a small integer domain where it has at most 4000 assignments, otherwise by distinguishing every symbol), "
        "every symbol is declared once, serves one variable and is quantified over by the query")
ASSUMPTIONS = ["matrix/tensor variables have between 0 and bound rows of exactly bound columns (the documented shape of the encoding)",
               "mini Racket evaluator"]

ELEM = ["Int", "Int", "Bool"]


@st.composite
def vtype(draw, d=2):
    k = draw(st.sampled_from(["Int", "Bool", "List", "List", "Set", "Matrix", "Tensor3D", "Tuple", "Nested"]))
    if k in ("Int", "Bool", "Matrix", "Tensor3D"):
        return k
    if k == "List":
        return ["List", draw(st.sampled_from(ELEM))]
    if k == "Nested":
        return ["List", ["List", "Int"]]
    if k == "Set":
        return ["Set", "Int"]
    return ["Tuple", [draw(vtype(d - 1)) if d > 0 and draw(st.integers(0, 2)) == 0 else draw(st.sampled_from(["Int", "Bool", ["List", "Int"]]))
                      for _ in range(draw(st.integers(1, 3)))]]


@st.composite
def case(draw):
    n = draw(st.integers(1, 4))
    ns = draw(st.lists(st.sampled_from(gens.VAR_NAMES), min_size=n, max_size=n, unique=True))
    b = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 4]))
    return dict(vars=[["var", x, draw(vtype())] for x in ns], bound=b, seed=draw(st.integers(0, 2**30)),
                unbounded=draw(st.booleans()))


def write(case):
    f = os.path.join(menv.scratch(), f"p{os.getpid()}.rkt")
    with sut("to_rosette"):
        to_rosette(basename="p", filename=f, target_lang=[], vars={build.expr(v) for v in case["vars"]}, inv_and_ps=[], preds=[],
                   vc=I.BoolLit(True), loop_and_ps_info=[], rounds_to_guess=0, fns_to_guess=[], fn_defs_to_exclude=[],
                   unbounded_ints=case["unbounded"], list_bound=case["bound"])
    t = open(f).read()
    os.unlink(f)
    try:
        return rktfile.Problem(t)
    except rktfile.Bad as e:
        raise Violation(f"the problem file is malformed: {e}: {t[:1500]}")


def within(v, t, b):
    """the evaluated (Racket) value is one of type t within bound b"""
    if t == "Int":
        return isinstance(v, int) and not isinstance(v, bool)
    if t == "Bool":
        return isinstance(v, bool)
    if not isinstance(v, tuple):
        return False
    if t == "Matrix":
        return len(v) <= b and all(isinstance(r, tuple) and len(r) == b and all(within(x, "Int", b) for x in r) for r in v)
    if t == "Tensor3D":
        return len(v) <= b and all(isinstance(m, tuple) and len(m) == b and within(m, "Matrix", b) for m in v)
    if t[0] == "List":
        return len(v) <= b and all(within(x, t[1], b) for x in v)
    if t[0] == "Set":
        return len(v) <= b and all(within(x, "Int", b) for x in v) and list(v) == sorted(set(v))
    return len(v) == len(t[1]) and all(within(x, y, b) for x, y in zip(v, t[1]))


def domain(t, b, D):
    """all values of type t within the bound over the integers D (as Racket values)"""
    if t == "Int":
        return list(D)
    if t == "Bool":
        return [False, True]
    if t == "Matrix":
        rows = list(itertools.product(D, repeat=b))
        return [m for k in range(b + 1) for m in itertools.product(rows, repeat=k)]
    if t == "Tensor3D":
        rows = list(itertools.product(D, repeat=b))
        ms = list(itertools.product(rows, repeat=b))
        return [m for k in range(b + 1) for m in itertools.product(ms, repeat=k)]
    if t[0] == "List":
        e = domain(t[1], b, D)
        return [m for k in range(b + 1) for m in itertools.product(e, repeat=k)]
    if t[0] == "Set":
        return [tuple(sorted(c)) for k in range(b + 1) for c in itertools.combinations(D, k)]
    return list(itertools.product(*[domain(x, b, D) for x in t[1]]))


def shapes(t, b):
    """the shapes (value with every leaf replaced by its type) of a type"""
    if t in ("Int", "Bool"):
        return [t[0]]
    if t == "Matrix":
        return [((("I",) * b,) * k) for k in range(b + 1)]
    if t == "Tensor3D":
        return [(((("I",) * b,) * b,) * k) for k in range(b + 1)]
    if t[0] == "List":
        e = shapes(t[1], b)
        return [m for k in range(b + 1) for m in itertools.product(e, repeat=k)]
    return list(itertools.product(*[shapes(x, b) for x in t[1]]))


def shape(v):
    return tuple(map(shape, v)) if isinstance(v, tuple) else "B" if isinstance(v, bool) else "I"


def leaves(v):
    if isinstance(v, tuple):
        for x in v:
            yield from leaves(x)
    else:
        yield v


def has_set(t):
    return isinstance(t, list) and (t[0] == "Set" or any(has_set(x) for x in (t[1] if t[0] == "Tuple" else [t[1]])))


def names(form, out):
    if isinstance(form, list):
        for x in form:
            names(x, out)
    elif isinstance(form, rkt.Sym):
        out.add(str(form))
    return out


def check(case, c):
    import random
    rng = random.Random(case["seed"])
    P = write(case)
    b = case["bound"]
    if (P.bitwidth is False) != case["unbounded"]:
        raise Violation(f"bit width {P.bitwidth} for unbounded={case['unbounded']}")
    if len(P.synths) != 1:
        raise Violation(f"{len(P.synths)} queries")
    fa = P.synths[0][1]
    quant = [str(x) for x in (fa[1:] if isinstance(fa, list) else [fa])]
    if sorted(quant) != sorted(P.symbols):
        raise Violation(f"the query quantifies over {quant} but the symbols are {list(P.symbols)}")
    defs = {P.name(f): f for f in P.defs}
    deps = {}

    def dep(n):
        if n in P.symbols:
            return {n}
        if n in deps:
            return deps[n]
        deps[n] = set()
        r = set()
        if n in defs:
            for x in names(defs[n][2:], set()):
                r |= dep(x)
        deps[n] = r
        return r

    owner = {}
    for v in case["vars"]:
        if v[1] not in P.symbols and v[1] not in defs:
            raise Violation(f"{v[1]} is not declared: {P.text[-1500:]}")
        for s in dep(v[1]):
            if s in owner:
                raise Violation(f"symbol {s} serves both {owner[s]} and {v[1]}")
            owner[s] = v[1]
    unused = set(P.symbols) - set(owner)
    if unused:
        raise Violation(f"symbols {sorted(unused)} serve no variable")

    zero = {s: 0 if t == "integer?" else False for s, t in P.symbols.items()}

    def value(name, assign):
        try:
            J = P.run({**zero, **assign}, {})
            return J.g.get(rkt.Sym(name))
        except rktfile.Bad as e:
            raise Violation(f"malformed: {e}")

    for v in case["vars"]:
        t = v[2]
        syms = sorted(dep(v[1]))
        D = list(range(b + 1))
        dom = {s: D if P.symbols[s] == "integer?" else [False, True] for s in syms}
        n = 1
        for s in syms:
            n *= len(dom[s])
        fast = Fast(P, v[1], zero)
        if n <= 4000:
            got = set()
            for a in itertools.product(*[dom[s] for s in syms]):
                x = fast(dict(zip(syms, a)))
                if isinstance(x, rkt.RktError):
                    raise Violation(f"{v[1]} has no value when {dict(zip(syms, a))}: {x}")
                got.add(typed(x))
            want = {typed(x) for x in domain(t, b, D)}
            if got != want:
                raise Violation(f"{v[1]} : {t} with bound {b} over integers {D} misses {list(want - got)[:3]} and also takes "
                                f"{list(got - want)[:3]}: {P.text[-1200:]}")
            c.label("exhaustive")
        else:
            c.label("distinguished")
            if has_set(t):
                for _ in range(60):
                    a = {s: rng.choice(dom[s]) for s in syms}
                    x = fast(a)
                    if isinstance(x, rkt.RktError) or not within(x, t, b):
                        raise Violation(f"{v[1]} : {t} takes {x!r} when {a}")
                continue
            base = {s: b if P.symbols[s] == "integer?" else False for s in syms}
            full = fast(base)
            if isinstance(full, rkt.RktError):
                raise Violation(f"{v[1]} has no value when {base}: {full}")
            lens = [s for s in syms if P.symbols[s] == "integer?" and shape(fast({**base, s: 0})) != shape(full)]
            elems = [s for s in syms if s not in lens]
            dist = {s: 1000 + i if P.symbols[s] == "integer?" else False for i, s in enumerate(elems)}
            want = {repr(x) for x in shapes(t, b)} if nshapes(t, b) <= 600 else None
            allc = list(itertools.product(D, repeat=len(lens))) if (b + 1) ** len(lens) <= 700 else \
                [tuple(rng.choice(D) for _ in lens) for _ in range(150)]
            allc += [(b,) * len(lens)]
            got = set()
            for cmb in allc:
                x = fast({**dist, **dict(zip(lens, cmb))})
                if isinstance(x, rkt.RktError) or not within(x, t, b):
                    raise Violation(f"{v[1]} : {t} with bound {b} takes {x!r} with lengths {dict(zip(lens, cmb))}: {P.text[-1200:]}")
                ints = [l for l in leaves(x) if not isinstance(l, bool)]
                if len(set(ints)) != len(ints):
                    raise Violation(f"{v[1]} : {t}: components are not independent: {x!r}")
                got.add(repr(shape(x)))
            if want is not None and (b + 1) ** len(lens) <= 700 and got != want:
                raise Violation(f"{v[1]} : {t} with bound {b} does not take the shapes {list(want - got)[:3]}")
            x = fast({**dist, **{l: b for l in lens}})
            if {l for l in leaves(x) if not isinstance(l, bool)} != {d for s, d in dist.items() if P.symbols[s] == "integer?"}:
                raise Violation(f"{v[1]} : {t}: some symbols never appear: {x!r}")
            nb = [s for s in elems if P.symbols[s] != "integer?"]
            for s in nb[:12]:
                y = fast({**dist, **{l: b for l in lens}, s: True})
                if sum(1 for l in leaves(y) if l is True) != 1:
                    raise Violation(f"{v[1]} : {t}: symbol {s} does not stand for one component: {y!r}")
    if any(not isinstance(v[2], str) or v[2] in ("Matrix", "Tensor3D") for v in case["vars"]):
        c.nontrivial()
    c.label(f"bound:{b}", *[f"type:{v[2] if isinstance(v[2], str) else v[2][0]}" for v in case["vars"]])


def typed(x):
    return tuple(map(typed, x)) if isinstance(x, tuple) else (type(x).__name__, x)


def nshapes(t, b):
    if t in ("Int", "Bool"):
        return 1
    if t in ("Matrix", "Tensor3D"):
        return b + 1
    if t[0] == "List":
        return sum(nshapes(t[1], b) ** k for k in range(b + 1))
    n = 1
    for x in t[1]:
        n *= nshapes(x, b)
    return n


class Fast:
    """evaluate one variable: only its own definitions"""

    def __init__(self, P, name, zero):
        need = []
        defs = {P.name(f): f for f in P.defs}

        def go(n):
            if n in defs and defs[n] not in need:
                for x in sorted(names(defs[n][2:], set())):
                    if x != n:
                        go(x)
                need.append(defs[n])
        go(name)
        self.need, self.name, self.zero = need, rkt.Sym(name), zero
        self.I = P.lib()
        self.g = dict(self.I.g.d)

    def __call__(self, assign):
        I = self.I
        I.steps.n = 400000
        I.g.d.clear()
        I.g.d.update(self.g)
        for s, x in {**self.zero, **assign}.items():
            I.g.d[rkt.Sym(s)] = x
        try:
            for f in self.need:
                I.top(f)
            return I.g.get(self.name)
        except rkt.RktError as e:
            return e


SUBS = [Sub("vars", case, check, 1600, 30000, rule="non-trivial: some variable is not a plain integer or boolean")]
