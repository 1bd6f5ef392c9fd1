"""The Rosette runtime library computes the reference operations, and is total with its defaults."""
from hypothesis import strategies as st

from .. import gens, ref, rkt, rktlib
from ..runner import Sub, Violation

PROPERTY = "C22"
RULE = ("functions of utils.rkt reached from emitted code, run from the file's text by an independent Racket evaluator on generated "
        "arguments (in and out of range), against reference list/matrix/tensor/set/tuple/integer operations; histories of set and map updates against Python sets and dicts")
ASSUMPTIONS = ["mini Racket evaluator; no racket binary is installed",
               "integer square root is only a stand-in in this library and is not checked",
               "matrices and tensors have no empty rows (prepending an empty row is the library's way of dropping it)"]


def lref(l, i):
    return l[i] if 0 <= i < len(l) else 0


def mref(l, i):
    return l[i] if 0 <= i < len(l) else ()


def tail(l, i):
    return l[i:] if 0 <= i <= len(l) else ()


def take(l, i):
    return l[:max(i, 0)]


def sl(l, s, e):
    return tail(take(l, e), s)


def sll(l, s, n):
    return sl(l, s, s + n)


def cols(m, s, e):
    return tuple(r for r in (sl(r, s, e) for r in m) if r)


def transpose(m):
    return tuple(zip(*m))


L, M, T, S, I, ROW, IDX = "L", "M", "T", "S", "I", "ROW", "IDX"
TABLE = {
    "list-ref-noerr": ([L, IDX], lref), "list-tail-noerr": ([L, IDX], tail), "list-take-noerr": ([L, IDX], take),
    "list-append": ([L, I], lambda l, x: l + (x,)), "list-prepend": ([I, L], lambda x, l: (x,) + l),
    "list-empty": ([], lambda: ()), "list-concat": ([L, L], lambda a, b: a + b),
    "vec-slice-noerr": ([L, IDX, IDX], sl), "vec-slice-with-length-noerr": ([L, IDX, IDX], sll),
    "matrix-ref-noerr": ([M, IDX], mref), "matrix-tail-noerr": ([M, IDX], tail), "matrix-take-noerr": ([M, IDX], take),
    "matrix-length": ([M], len), "matrix-append": ([M, ROW], lambda m, r: m + (r,)),
    "matrix-prepend": ([ROW, M], lambda r, m: (r,) + m), "matrix-empty": ([], lambda: ()),
    "matrix-row-slice-noerr": ([M, IDX, IDX], sl), "matrix-row-slice-with-length-noerr": ([M, IDX, IDX], sll),
    "matrix-col-slice-noerr": ([M, IDX, IDX], cols),
    "matrix-col-slice-with-length-noerr": ([M, IDX, IDX], lambda m, s, n: cols(m, s, s + n)),
    "matrix-transpose-noerr": ([M], transpose),
    "tensor3d-length": ([T], len), "tensor3d-empty": ([], lambda: ()), "tensor3d-ref-noerr": ([T, IDX], mref),
    "tensor3d-tail-noerr": ([T, IDX], tail), "tensor3d-take-noerr": ([T, IDX], take),
    "tensor3d-slice-noerr": ([T, IDX, IDX], sl), "tensor3d-slice-with-length-noerr": ([T, IDX, IDX], sll),
    "tensor3d-append": ([T, "MROW"], lambda t, m: t + (m,)), "tensor3d-prepend": ([ "MROW", T], lambda m, t: (m,) + t),
    "set-create": ([], lambda: ()), "set-singleton": ([I], lambda v: (v,)),
    "set-eq": ([S, S], lambda a, b: a == b), "set-union": ([S, S], lambda a, b: tuple(sorted(set(a) | set(b)))),
    "set-member": ([I, S], lambda v, s: v in s), "set-insert": ([I, S], lambda v, s: tuple(sorted(set(s) | {v}))),
    "set-subset": ([S, S], lambda a, b: set(a) <= set(b)), "set-minus": ([S, S], lambda a, b: tuple(sorted(set(a) - set(b)))),
    "quotient-noerr": ([I, I], lambda a, b: a if b == 0 else rkt.quotient(a, b)),
    "integer-exp-noerr": ([IDX], lambda n: pow(3, n, 64) if n > 0 else 1),
    "list-tuple-ref-noerr": ([M, IDX], mref), "list-tuple-tail-noerr": ([M, IDX], tail), "list-tuple-take-noerr": ([M, IDX], take),
    "list-tuple-empty": ([], lambda: ()), "list-tuple-prepend": ([ROW, M], lambda r, m: (r,) + m),
    "list-tuple-append": ([M, ROW], lambda m, r: m + (r,)), "list-tuple-length": ([M], len),
}


@st.composite
def arg(draw, k):
    ints = st.integers(-6, 9) if draw(st.booleans()) else gens.INTS
    if k == I:
        return draw(ints)
    if k == IDX:
        return draw(st.integers(-2, 8))
    if k == L:
        return draw(st.lists(ints, max_size=7))
    if k == ROW:
        return draw(st.lists(ints, min_size=1, max_size=4))
    if k == S:
        return sorted(set(draw(st.lists(st.integers(-4, 6), max_size=7))))
    if k == M or k == "MROW":
        nc = draw(st.integers(1, 4))
        return [[draw(ints) for _ in range(nc)] for _ in range(draw(st.integers(1 if k == "MROW" else 0, 4)))]
    if k == T:
        return [draw(arg("MROW")) for _ in range(draw(st.integers(0, 3)))]


@st.composite
def fn_case(draw):
    f = draw(st.sampled_from(sorted(TABLE)))
    return dict(fn=f, args=[draw(arg(k)) for k in TABLE[f][0]])


def check_fn(case, c):
    name = case["fn"]
    ks, model = TABLE[name]
    args = [ref.from_json(a) for a in case["args"]]
    I_ = rktlib.interp()
    try:
        got = I_.g.get(rkt.Sym(name))(*args)
    except rkt.RktError as e:
        raise Violation(f"({name} {args}) fails: {e}")
    want = model(*args)
    if not rkt.equalp(got, want):
        raise Violation(f"({name} {args}) = {got!r}, expected {want!r}")
    c.nontrivial(any(a != () for a in args))
    c.label(name)


@st.composite
def tup_case(draw):
    n = draw(st.integers(1, 5))
    return dict(vals=[draw(gens.SMALL) for _ in range(n)], i=draw(st.integers(0, n - 1)))


def check_tup(case, c):
    I_ = rktlib.interp()
    try:
        t = I_.g.get("make-tuple")(*case["vals"])
        got = I_.g.get("tupleGet")(t, case["i"])
    except rkt.RktError as e:
        raise Violation(f"tuple {case}: {e}")
    if got != case["vals"][case["i"]]:
        raise Violation(f"component {case['i']} of tuple {case['vals']} is {got}")
    c.nontrivial()


OPS = st.one_of(
    st.tuples(st.just("insert"), st.integers(-3, 5)), st.tuples(st.just("union"), st.lists(st.integers(-3, 5), max_size=4)),
    st.tuples(st.just("minus"), st.lists(st.integers(-3, 5), max_size=4)),
    st.tuples(st.just("put"), st.integers(-3, 5), st.integers(-9, 9)))


def hist_case():
    return st.lists(OPS.map(list), min_size=1, max_size=12)


def check_hist(case, c):
    I_ = rktlib.interp()
    f = lambda n: I_.g.get(rkt.Sym(n))
    try:
        s, m = f("set-create")(), f("map-create")()
        ms, mm = set(), {}
        for op in case:
            if op[0] == "insert":
                s = f("set-insert")(op[1], s)
                ms.add(op[1])
            elif op[0] == "put":
                m = f("map-insert")(m, op[1], op[2])
                mm[op[1]] = op[2]
            else:
                other = f("set-create")()
                for x in op[1]:
                    other = f("set-insert")(x, other)
                s = f("set-" + op[0])(s, other)
                ms = ms | set(op[1]) if op[0] == "union" else ms - set(op[1])
                if f("set-subset")(other, s) != (set(op[1]) <= ms):
                    raise Violation(f"set-subset {other} {s}")
            if s != tuple(sorted(ms)):
                raise Violation(f"after {case}: set is {s}, expected {sorted(ms)}")
            for k in range(-3, 6):
                if f("set-member")(k, s) != (k in ms):
                    raise Violation(f"set-member {k} {s}")
                if f("map-contains")(m, k) != (1 if k in mm else 0):
                    raise Violation(f"after {case}: map-contains {k} {m}")
                if k in mm and f("map-get")(m, k) != mm[k]:
                    raise Violation(f"after {case}: map-get {k} {m} = {f('map-get')(m, k)}, expected {mm[k]}")
            if len(m) != len(mm):
                raise Violation(f"after {case}: map {m} has duplicate keys")
    except rkt.RktError as e:
        raise Violation(f"history {case}: {e}")
    c.nontrivial(len(case) > 2)


SUBS = [
    Sub("fn", fn_case, check_fn, 16000, 300000, rule="one library function on one argument tuple; non-trivial: some non-empty argument"),
    Sub("tuple", tup_case, check_tup, 400, 4000, rule="every case"),
    Sub("history", hist_case, check_hist, 1600, 30000, rule="sequence of set/map updates with full observation after each; non-trivial: >2 operations"),
]
