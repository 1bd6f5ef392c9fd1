"""The SMT list/tuple/integer library is consistent with, and determines, the list operations."""
import itertools

from hypothesis import strategies as st

from .. import gens, ref, rkt, rktlib, smt, smtlib
from ..runner import Sub, Violation
from .c08 import read

PROPERTY = "C23"
RULE = ("list-axioms.smt, tuples.smt and integer-fn-axioms.smt read by an independent SMT evaluator: definitions are run on generated "
        "arguments against reference operations and against the Rosette library; axioms are evaluated under the standard list model on generated values; "
        "a single-point change of a declared function must contradict some axiom instance")
ASSUMPTIONS = ["mini SMT-LIB evaluator", "integer_sqrt is a stand-in and is not checked",
               "head/tail of nil are unspecified in SMT; values depending on them are not compared"]
L, M, IDX, I = ("MLList", "Int"), ("MLList", ("MLList", "Int")), "IDX", "Int"

clamp = lambda n: max(n, 0)
TABLE = {  # name -> (args, reference, in-domain predicate)
    "list_get": ([L, IDX], lambda l, i: l[i], lambda l, i: 0 <= i < len(l)),
    "list_length": ([L], len, None), "list_prepend": ([I, L], lambda x, l: (x,) + l, None),
    "list_append": ([L, I], lambda l, x: l + (x,), None), "list_empty": ([], lambda: (), None),
    "list_tail": ([L, IDX], lambda l, n: l[clamp(n):], None), "list_take": ([L, IDX], lambda l, n: l[:clamp(n)], None),
    "list_concat": ([L, L], lambda a, b: a + b, None), "list_contains": ([L, I], lambda l, v: v in l, None),
    "matrix_get": ([M, IDX], lambda l, i: l[i], lambda l, i: 0 <= i < len(l)),
    "matrix_length": ([M], len, None), "matrix_prepend": ([L, M], lambda x, l: (x,) + l, None),
    "matrix_append": ([M, L], lambda l, x: l + (x,), None), "matrix_empty": ([], lambda: (), None),
    "matrix_tail": ([M, IDX], lambda l, n: l[clamp(n):], None), "matrix_take": ([M, IDX], lambda l, n: l[:clamp(n)], None),
    "vec_slice": ([L, IDX, IDX], lambda l, s, e: l[clamp(s):clamp(e)], None),
    "vec_slice_with_length": ([L, IDX, IDX], lambda l, s, n: l[clamp(s):clamp(s + n)], None),
    "matrix_row_slice": ([M, IDX, IDX], lambda l, s, e: l[clamp(s):clamp(e)], None),
    "matrix_row_slice_with_length": ([M, IDX, IDX], lambda l, s, n: l[clamp(s):clamp(s + n)], None),
    "matrix_col_slice": ([M, IDX, IDX], lambda m, s, e: tuple(r[clamp(s):clamp(e)] for r in m), None),
    "matrix_col_slice_with_length": ([M, IDX, IDX], lambda m, s, n: tuple(r[clamp(s):clamp(s + n)] for r in m), None),
    "matrix_transpose": ([M], lambda m: tuple(zip(*m)), None),
    "integer_exp": ([IDX], lambda n: pow(3, n, 64) if n > 0 else 1, None),
}
RKT = {"list_get": "list-ref-noerr", "list_length": "length", "list_prepend": "list-prepend", "list_append": "list-append",
       "list_tail": "list-tail-noerr", "list_take": "list-take-noerr", "list_concat": "list-concat", "matrix_get": "matrix-ref-noerr",
       "matrix_length": "matrix-length", "matrix_append": "matrix-append", "matrix_prepend": "matrix-prepend",
       "matrix_tail": "matrix-tail-noerr", "matrix_take": "matrix-take-noerr", "vec_slice": "vec-slice-noerr",
       "vec_slice_with_length": "vec-slice-with-length-noerr", "matrix_row_slice": "matrix-row-slice-noerr",
       "matrix_row_slice_with_length": "matrix-row-slice-with-length-noerr", "matrix_col_slice": "matrix-col-slice-noerr",
       "matrix_col_slice_with_length": "matrix-col-slice-with-length-noerr", "integer_exp": "integer-exp-noerr"}


@st.composite
def val(draw, s, maxlen=6):
    if s == I:
        return draw(gens.SMALL)
    if s == IDX:
        return draw(st.integers(-2, 8))
    if s == L:
        return draw(st.lists(gens.SMALL, max_size=maxlen))
    if s == M:
        nc = draw(st.integers(1, 4))
        return [[draw(gens.SMALL) for _ in range(nc)] for _ in range(draw(st.integers(0, 4)))]
    raise ValueError(s)


@st.composite
def fn_case(draw):
    f = draw(st.sampled_from(sorted(TABLE)))
    a = [draw(val(k)) for k in TABLE[f][0]]
    return dict(fn=f, args=a)


def check_fn(case, c):
    try:
        S = smtlib.base()
    except smt.SmtError as e:
        raise Violation(f"library is ill-formed: {e}")
    f = case["fn"]
    ks, model, dom = TABLE[f]
    args = [ref.from_json(a) for a in case["args"]]
    if f not in S.sig:
        raise Violation(f"{f} is not provided by the library")
    if len(S.sig[f][0]) != len(args):
        raise Violation(f"{f} has signature {S.sig[f]}")
    if dom and not dom(*args):
        c.label("out-of-domain")
        return
    want = model(*args)
    try:
        got = S.call(f, args)
    except smt.Limit as e:
        raise Violation(f"{f}{tuple(args)} does not terminate: {e}")
    except RecursionError:
        raise Violation(f"{f}{tuple(args)} does not terminate")
    if not ref.same(got, want):
        raise Violation(f"{f}{tuple(args)} = {got!r}, expected {want!r}")
    c.label(f)
    # agreement of the two back ends inside the common domain
    lib = {"list_tail": "list_tail", "list_take": "list_take"}.get(f, f)
    if f in RKT:
        try:
            if f in ref.LIB:
                ref.LIB[f](*args)
            r = rktlib.interp().g.get(rkt.Sym(RKT[f]))(*args)
            if not rkt.equalp(r, rkt.to_rkt(got)):
                raise Violation(f"{f}{tuple(args)}: SMT library gives {got!r}, Rosette library {r!r}")
            c.label("agree")
        except ref.Undef:
            pass
        except rkt.RktError as e:
            raise Violation(f"{RKT[f]}{tuple(args)}: {e}")
    c.nontrivial(any(a != () for a in args))


def sort_val(s):
    return {"Int": st.integers(-2, 7), "Bool": st.booleans(), L: val(L), M: val(M)}[s]


def axioms():
    S = smtlib.base()
    out = []
    for a in S.lib_asserts:
        if isinstance(a, list) and a[0] == "forall":
            out.append(([(b[0], S.sort(b[1])) for b in a[1]], a[2]))
        else:
            out.append(([], a))
    return S, out


def ax_case():
    n = len(axioms()[1])

    @st.composite
    def c(draw):
        i = draw(st.integers(0, n - 1))
        vs = axioms()[1][i][0]
        return dict(axiom=i, vals=[draw(sort_val(s)) for _, s in vs])
    return c()


def check_ax(case, c):
    S, axs = axioms()
    if case["axiom"] >= len(axs):
        return
    vs, body = axs[case["axiom"]]
    env = {n: ref.from_json(v) for (n, _), v in zip(vs, case["vals"])}
    try:
        ok = S.eval(body, env)
    except (smt.Limit, RecursionError):
        c.label("unspecified")
        return
    if not ok:
        raise Violation(f"axiom {smt.sx(body)} is false for real lists at {env}")
    c.label(f"axiom{case['axiom']}")
    c.nontrivial()


PIN = {"list_length": (L,), "matrix_length": (M,), "list_append": (L, I), "matrix_append": (M, L), "list_take": (L, IDX),
       "matrix_take": (M, IDX), "list_get_helper": (L, IDX), "matrix_get_helper": (M, IDX)}


@st.composite
def pin_case(draw):
    f = draw(st.sampled_from(sorted(PIN)))
    args = [draw(val(s, 3)) for s in PIN[f]]
    if f.endswith("get_helper"):
        if not args[0]:
            args[0] = [1] if PIN[f][0] == L else [[1]]
        args[1] = draw(st.integers(0, len(args[0]) - 1))
    if f.endswith("length"):
        wrong = draw(st.integers(-2, 6).filter(lambda x: x != len(args[0])))
    elif f == "list_get_helper":
        wrong = draw(st.integers(7, 9))
    elif f in ("list_append", "list_take", "matrix_get_helper"):
        wrong = [9] + draw(st.lists(gens.SMALL, max_size=2))
    else:
        wrong = [[9]] + draw(st.lists(st.just([1]), max_size=1))
    return dict(fn=f, args=args, wrong=wrong)


def check_pin(case, c):
    """If declared function f had another value at one point, some axiom instance would be violated."""
    S, axs = axioms()
    f = case["fn"]
    if f in S.defs or f not in S.sig:  # given a body instead of axioms: determined by it
        c.label("defined")
        return
    args = tuple(ref.from_json(a) for a in case["args"])
    wrong = ref.from_json(case["wrong"])
    good = smtlib.MODEL[f]
    S.interp = {**smtlib.MODEL, f: lambda *a: wrong if a == args else good(*a)}
    lists = {(), }
    mats = {(), }
    for a in list(args) + [wrong]:
        if isinstance(a, tuple):
            tgt = mats if a and isinstance(a[0], tuple) else lists
            if a == ():
                mats.add(a)
            for k in range(len(a) + 1):
                tgt.add(a[k:])
                tgt.add(a[:k])
            tgt.add(((1,) + a) if tgt is lists else (((1,),) + a))
            for r in a:
                if isinstance(r, tuple):
                    lists.add(r)
    if PIN[f][0] == M:
        lists.add((1,))
    ints = [i for i in {*range(-1, 6), *[a for a in args if isinstance(a, int)], *[x for l in lists for x in l]}]
    pool = {"Int": sorted(ints), L: sorted(lists), M: sorted(mats), "Bool": [False, True]}
    heads = {"Int": sorted({x for l in lists for x in l} | {1}), L: sorted(lists)}
    for vs, body in axs:
        if f not in smt.sx(body) and f.replace("_helper", "") not in smt.sx(body):
            continue
        doms = [pool[s] for _, s in vs]
        n = 1
        for d in doms:
            n *= len(d)
        it = itertools.product(*doms)
        for vals in itertools.islice(it, 6000):
            S.steps = 0
            try:
                if not S.eval(body, dict(zip([n for n, _ in vs], vals))):
                    c.nontrivial()
                    return
            except (smt.Limit, RecursionError):
                pass
    raise Violation(f"the axioms do not determine {f}{args}: it could just as well be {wrong!r} instead of {good(*args)!r}")


@st.composite
def tup_case(draw):
    n = draw(st.integers(1, 5))
    return dict(n=n, vals=[draw(gens.SMALL) for _ in range(n)], i=draw(st.integers(0, n - 1)))


def check_tup(case, c):
    S = smtlib.base()
    n, i = case["n"], case["i"]
    t = f"(tuple{n}_get{i} (tuple{n} {' '.join('p%d' % k for k in range(n))}))"
    env = {f"p{k}": "Int" for k in range(n)}
    term = read(S, t, "Int", env)
    got = S.eval(term, {f"p{k}": v for k, v in enumerate(case["vals"])})
    if got != case["vals"][i]:
        raise Violation(f"{t} selects {got}, expected {case['vals'][i]}")
    c.nontrivial()


SUBS = [
    Sub("fn", fn_case, check_fn, 12000, 200000, rule="one library function on generated arguments; non-trivial: in the domain with a non-empty argument"),
    Sub("axiom", ax_case, check_ax, 12000, 300000, rule="one axiom instance under the list model; non-trivial: evaluable"),
    Sub("pinned", pin_case, check_pin, 400, 6000, rule="one single-point change of a declared function; non-trivial: contradicted by an axiom instance"),
    Sub("tuple", tup_case, check_tup, 400, 2000, rule="every case"),
]
