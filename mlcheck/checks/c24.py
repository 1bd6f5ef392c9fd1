"""The tensor DSL has one meaning: its definitions, its Rosette/SMT/Python texts, its constructors and its axioms."""
import functools
import os

from hypothesis import strategies as st

from .. import build, env, gens, ref, rkt, rktlib, smt, smtlib
from ..runner import Sub, Violation, sut

PROPERTY = "C24"
RULE = ("every function declared in tenspiler_common on generated vectors, matrices, tensors, scalars and scalar functions: its declaration "
        "(reference evaluator), its Rosette text over utils.rkt, the call emitted for it, its SMT text, the verification file that uses it, its Python "
        "text and the text in llmlift_scripts/dsl.py against an independent element-wise or reduction definition; every axiom evaluated on generated assignments")
ASSUMPTIONS = ["mini Racket and SMT evaluators", "outside the shapes a definition covers, representations are only compared with the declaration",
               "division is compared with each target's own rounding (known finding: they differ on negative numbers); division by zero is not compared",
               "known classes excluded and listed: sum/max axioms read past the end or start from the empty list; matrix-vector axiom with unequal lengths; "
               "3-D tensors in SMT; integer_sqrt in Rosette", "the Python back end has no 3-D tensors"]

V, M, T, I, B = "V", "M", "T", "I", "B"


def trunc(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class No(Exception):
    """the definition does not cover these arguments"""


def need(ok):
    if not ok:
        raise No()


def z(op):
    def f(x, y):
        need(len(x) == len(y))
        return tuple(z(op)(a, b) if isinstance(a, tuple) else op(a, b) for a, b in zip(x, y))
    return f


def each(op, v):
    return tuple(each(op, a) if isinstance(a, tuple) else op(a) for a in v)


def rect(m):
    need(not m or (m[0] and all(len(r) == len(m[0]) for r in m)))
    return m


def nz(div):
    def f(a, b):
        need(b != 0)
        return div(a, b)
    return f


def matvec(m, v):
    need(all(len(r) == len(v) > 0 for r in m))
    return tuple(sum(a * b for a, b in zip(r, v)) for r in m)


def prod(l):
    r = 1
    for x in l:
        r *= x
    return r


def sl(l, s, e):
    need(0 <= s <= e <= len(l))
    return l[s:e]


def cols(m, s, e):
    rect(m)
    need(all(0 <= s < e <= len(r) for r in m))
    return tuple(r[s:e] for r in m)


def mx(l):
    need(l)
    return max(l)


add, sub, mul = (lambda a, b: a + b), (lambda a, b: a - b), (lambda a, b: a * b)
OPS = {"add": lambda d: add, "sub": lambda d: sub, "mul": lambda d: mul, "div": nz}
DEFS = {  # name -> (argument kinds, definition given the target's division and the function argument)
    "reduce_sum": ([V], lambda d, g: sum), "reduce_mul": ([V], lambda d, g: prod), "reduce_max": ([V], lambda d, g: mx),
    "matrix_vec_mul": ([M, V], lambda d, g: matvec),
    "ite_int": ([B, I, I], lambda d, g: lambda c, a, b: a if c else b),
    "vec_map": ([V], lambda d, g: lambda v: each(g, v)),
    "selection_two_args": ([V, V], lambda d, g: z(g)), "matrix_selection_two_args": ([M, M], lambda d, g: z(g)),
    "dissolve_selection_two_args": ([V, V, I, I], lambda d, g: lambda x, y, o, r: z(lambda a, b: g(a, b, o, r))(x, y)),
    "dissolve_matrix_selection_two_args": ([M, M, I, I], lambda d, g: lambda x, y, o, r: z(lambda a, b: g(a, b, o, r))(x, y)),
    "vec_slice": ([V, "X", "X"], lambda d, g: sl), "matrix_row_slice": ([M, "X", "X"], lambda d, g: sl),
    "vec_slice_with_length": ([V, "X", "X"], lambda d, g: lambda l, s, n: sl(l, s, s + n)),
    "matrix_row_slice_with_length": ([M, "X", "X"], lambda d, g: lambda l, s, n: sl(l, s, s + n)),
    "matrix_col_slice": ([M, "X", "X"], lambda d, g: cols),
    "matrix_col_slice_with_length": ([M, "X", "X"], lambda d, g: lambda m, s, n: cols(m, s, s + n)),
    "firsts": ([M], lambda d, g: lambda m: tuple(r[0] for r in rect(m))),
    "rests": ([M], lambda d, g: lambda m: need(not m or len(m[0]) > 1) or tuple(r[1:] for r in rect(m))),
    "matrix_transpose": ([M], lambda d, g: lambda m: tuple(zip(*rect(m)))),
    "integer_exp": (["E"], lambda d, g: lambda n: pow(3, n, 64) if n > 0 else 1),
    "integer_sqrt": (["N"], lambda d, g: lambda n: need(False)), "integer_sqrt_helper": (["N", "N"], lambda d, g: lambda n, k: need(False)),
}
for o in OPS:
    f = (lambda o: lambda d, g: z(OPS[o](d)))(o)
    DEFS["vec_elemwise_" + o] = ([V, V], f)
    DEFS["matrix_elemwise_" + o] = ([M, M], f)
    if o in ("add", "mul"):
        DEFS["tensor3d_elemwise_" + o] = ([T, T], f)
    right = (lambda o: lambda d, g: lambda a, v: each(lambda x: OPS[o](d)(x, a), v))(o)
    left = (lambda o: lambda d, g: lambda a, v: each(lambda x: OPS[o](d)(a, x), v))(o)
    for k, n in ((V, "vec"), (M, "matrix")):
        DEFS[f"{n}_scalar_{o}"] = ([I, k], right)
        if o in ("sub", "div"):
            DEFS[f"scalar_{n}_{o}"] = ([I, k], left)
HO = {"vec_map": 1, "selection_two_args": 2, "matrix_selection_two_args": 2, "dissolve_selection_two_args": 4, "dissolve_matrix_selection_two_args": 4}
a_, b_, c_, d_ = [["var", n, "Int"] for n in ("p", "q", "r", "s")]
L = lambda n: ["lit", n, "Int"]
GS = {1: [["add", a_, L(1)], ["mul", a_, a_], ["ite", ["gt", a_, L(2)], L(7), a_]],
      2: [["sub", a_, b_], ["ite", ["gt", a_, b_], a_, ["mul", L(3), b_]], ["add", ["mul", a_, L(2)], b_]],
      4: [["add", ["sub", a_, b_], ["mul", c_, d_]], ["ite", ["ge", ["sub", c_, d_], L(0)], a_, b_]]}


def gdecl(f, i):
    body = GS[HO[f]][i]
    return ["fn", "g_", "Int", body] + [a_, b_, c_, d_][:HO[f]]


@st.composite
def vec(draw, n=None, elem=gens.SMALL):
    return draw(st.lists(elem, min_size=n or 0, max_size=4 if n is None else n))


@st.composite
def fn_case(draw):
    f = draw(st.sampled_from(sorted(DEFS)))
    kinds = DEFS[f][0]
    n, m, k = draw(st.integers(0, 4)), draw(st.integers(1, 4)), draw(st.integers(1, 2))
    ragged = draw(st.integers(0, 4)) == 0
    elem = draw(st.sampled_from([gens.SMALL, st.integers(-90, -30), st.integers(1, 9), st.integers(0, 3), st.integers(-60, 60), st.integers(-10 ** 6, 10 ** 6)]))
    args = []
    for x in kinds:
        n2, m2 = (draw(st.integers(0, 4)), draw(st.integers(1, 4))) if ragged else (n, m)
        if x == V:
            args.append(draw(vec(m2 if f == "matrix_vec_mul" else n2, elem)))
        elif x == M:
            args.append([draw(vec(draw(st.integers(1, 4)) if ragged and draw(st.booleans()) else m2, elem)) for _ in range(n2)])
        elif x == T:
            args.append([[draw(vec(m, elem)) for _ in range(k)] for _ in range(n2)])
        elif x == B:
            args.append(draw(st.booleans()))
        elif x == "X":
            args.append(draw(st.integers(0, 4)))
        elif x == "E":
            args.append(draw(st.integers(-3, 40)))
        elif x == "N":
            args.append(draw(st.integers(0, 70)))
        else:
            args.append(draw(elem))
    return dict(fn=f, args=args, g=draw(st.integers(0, len(GS[HO[f]]) - 1)) if f in HO else None)


@functools.lru_cache(None)
def table(pid):
    """-> {name: declaration object} of tenspiler_common, and the texts of them all"""
    from metalift import ir
    from metalift.utils.tenspiler import tenspiler_common as tc
    ds = {}
    for v in vars(tc).values():
        if isinstance(v, (ir.FnDecl, ir.FnDeclRecursive)) and v.body() is not None:
            ds[v.name()] = v
    miss = [f for f in DEFS if f not in ds]
    if miss:
        raise Violation(f"the DSL lacks {miss}")
    return ds


def decls():
    with sut("importing the DSL"):
        return table(os.getpid())


KIND = {"E": "Int", V: ["List", "Int"], M: "Matrix", T: "Tensor3D", I: "Int", B: "Bool", "X": "Int", "N": "Int"}


@functools.lru_cache(None)
def spec_table(pid):
    return {n: build.undecl(d) for n, d in decls().items()}


def arg_spec(f, names):
    return [["var", n, KIND[k]] for n, k in zip(names, DEFS[f][0])]


def call_spec(f, args):
    d = spec_table(os.getpid())[f]
    extra = [["fnref", "g_"]] if f in HO else []
    return ["call", f, d[2]] + args + extra


def defined(f, args, g, div):
    try:
        return DEFS[f][1](div, g)(*args)
    except No:
        return None


def by_decl(f, args, g):
    ds = spec_table(os.getpid())
    fns = {n: ([p[1] for p in d[4:]], d[3]) for n, d in ds.items() if n not in ref.LIB}
    d = ds[f]
    e = dict(zip([p[1] for p in d[4:]], list(args)))
    if f in HO:
        gd = gdecl(f, g)
        fns["g_"] = ([p[1] for p in gd[4:]], gd[3])
        e[d[-1][1]] = ("fn", "g_")
    try:
        return ref.ev(d[3], e, fns)
    except ref.Undef:
        return None


@functools.lru_cache(None)
def rkt_text(f):
    return decls()[f].to_rosette()


def by_rosette(f, args, g, emitted):
    from metalift import ir
    R = rktlib.interp()
    for n in DEFS:
        with sut(f"{n}: to_rosette"):
            t = rkt_text(n)
        R.load(t)
    if f in HO:
        with sut("to_rosette"):
            R.load(build.decl(gdecl(f, g)).to_rosette())
    names = ["u%d" % i for i in range(len(args))]
    fn = f
    if emitted:
        with sut("to_rosette"):
            ps = arg_spec(f, names)
            t = build_call(f, ps).to_rosette()
        R.load(f"(define (go_ {' '.join(names)}) {t})")
        fn = "go_"
    fargs = [rkt.to_rkt(a) for a in args]
    if f in HO and not emitted:
        fargs.append(R.g.get(rkt.Sym("g_")))
    return R.g.get(rkt.Sym(fn))(*fargs)


def build_call(f, ps):
    from metalift import ir
    d = decls()[f]
    a = [build.expr(p) for p in ps]
    if f in HO:
        fv = d.arguments()[-1]
        a.append(ir.Var("g_", fv.type))
    return ir.Call(f, d.return_type(), *a)


def closure(f):
    ds = decls()
    out, todo = {}, [f]
    while todo:
        n = todo.pop()
        if n in out or n not in ds:
            continue
        out[n] = ds[n]
        todo += [x[1] for x in ref.walk(spec_table(os.getpid())[n][3]) if x[0] == "call"]
    return out


@functools.lru_cache(None)
def smt_file(pid, f, g, ax, quant):
    """the verification file whose condition is f(args) = out, with f's closure (and axiom) in the target language"""
    from metalift import ir, smt_util
    from metalift.utils.tenspiler import constants as K
    lib = smtlib.base().sig
    with sut("building"):
        ps = arg_spec(f, ["u%d" % i for i in range(len(DEFS[f][0]))])
        c = build_call(f, ps)
        out = ir.Var("out_", c.type)
        lang = [d for n, d in closure(f).items() if n not in lib]
        if f in HO:
            lang.append(build.decl(gdecl(f, g)))
        if ax is not None:
            lang = list(lang)
            for n in [x.name() for x in lang]:
                for x in [x for a in K.TENSPILER_FN_NAME_TO_AXIOMS.get(f, []) for x in calls(a.e()) if x not in lib]:
                    for m, d in closure(x).items():
                        if m not in lib and m not in [y.name() for y in lang]:
                            lang.append(d)
            lang.append(K.TENSPILER_FN_NAME_TO_AXIOMS[f][ax])
    p = os.path.join(env.scratch(), f"c24-{os.getpid()}.smt")
    with sut("writing the verification file"):
        smt_util.toSMT(lang, [build.expr(v) for v in ps] + [out], [], [], ir.Eq(c, out), p, [], [])
    text = open(p).read()
    S = smt.Smt(interp=smtlib.MODEL)
    try:
        S.load(text)
    except smt.SmtError as e:
        raise Violation(f"{f}: the verification file is ill-formed: {e}")
    return S, [a for a in S.asserts]


def calls(e):
    from metalift import ir
    out = set()

    def go(x):
        if isinstance(x, ir.Expr):
            if isinstance(x, ir.Call):
                out.add(x.name())
            for a in x.args:
                go(a)
    go(e)
    return out


def by_smt(f, args, want, g):
    """-> does the verification file's condition f(args) = want hold? (None: unspecified)"""
    S, asserts = smt_file(os.getpid(), f, g, None, False)
    S.steps = 0
    e = {"u%d" % i: a for i, a in enumerate(args)}
    e["out_"] = want
    try:
        return not S.eval(asserts[-1], e)
    except (smt.Limit, RecursionError):
        return None


@functools.lru_cache(None)
def smt_decl(pid, f):
    """f's own SMT text in place of the library's definition of the same name"""
    S = smtlib.base()
    todo = [n for n in closure(f) if n == f or n not in S.sig]
    for t in (f,):
        S.sig.pop(t, None)
        S.defs.pop(t, None)
    ds = [decls()[n] for n in todo]
    done = 0
    texts = []
    with sut("toSMT"):
        texts = [(d.name(), d.toSMT()) for d in ds]
    while texts:
        rest = []
        err = None
        for n, t in texts:
            try:
                S.load(t)
            except smt.SmtError as e:
                S.sig.pop(n, None)
                S.defs.pop(n, None)
                rest.append((n, t))
                err = e
        if len(rest) == len(texts):
            raise Violation(f"{f}: SMT text is ill-formed: {err}: {rest[0][1]}")
        texts = rest
    return S


@functools.lru_cache(None)
def py_ns(pid, which):
    if which == "dsl":
        ns = {}
        exec(open(os.path.join(env.REPO, "llmlift_scripts", "dsl.py")).read(), ns)
        return ns
    ns = {}
    exec("from typing import *", ns)
    for n in sorted(DEFS):
        if n.startswith("tensor3d"):
            continue
        with sut(f"{n}: to_python"):
            t = decls()[n].to_python()
        try:
            exec(t, ns)
        except Exception as e:
            raise Violation(f"{n}: Python text cannot be run: {e}: {t}")
    return ns


def lists(a):
    return [lists(x) for x in a] if isinstance(a, tuple) else a


def tuples(a):
    return tuple(tuples(x) for x in a) if isinstance(a, list) else a


def by_python(f, args, g, which):
    ns = py_ns(os.getpid(), which)
    if f not in ns:
        return None
    extra = []
    if f in HO:
        gd = gdecl(f, g)
        extra = [lambda *a: ref.ev(gd[3], dict(zip([p[1] for p in gd[4:]], a)))]
    import sys
    lim = sys.getrecursionlimit()
    sys.setrecursionlimit(2000)
    try:
        return tuples(ns[f](*[lists(a) for a in args], *extra))
    except ZeroDivisionError:
        return None
    except RecursionError:
        return "diverges"
    except IndexError as e:
        raise Violation(f"{f}{tuple(args)}: Python text ({which}) raises {e}")
    finally:
        sys.setrecursionlimit(lim)


def check_fn(case, c):
    f, g = case["fn"], case["g"]
    args = [ref.from_json(a) for a in case["args"]]
    gf = None
    if f in HO:
        gd = gdecl(f, g)
        gf = lambda *a: ref.ev(gd[3], dict(zip([p[1] for p in gd[4:]], a)))
    known = case.get("known")
    decls()
    want = defined(f, args, gf, lambda a, b: a // b)
    got = by_decl(f, args, g)
    if want is not None and got is not None and not ref.same(want, got):
        raise Violation(f"{f}{tuple(args)} is declared as {got!r} but means {want!r}")
    if want is None and got is None:
        c.label("undefined")
        return
    base = got if want is None else want

    def expect(div):
        w = defined(f, args, gf, div)
        return base if w is None else w
    if known == "div":
        expect = lambda d: base

    def judge(what, v, w):
        if not ref.same(v, w):
            raise Violation(f"{f}{tuple(args)}: {what} gives {v!r}, expected {w!r}")
        c.label(what)
    for emitted in (False, True):
        if emitted and f.startswith("integer_sqrt") and known != "sqrt":
            continue
        try:
            r = by_rosette(f, args, g, emitted)
        except rkt.RktError as e:
            raise Violation(f"{f}{tuple(args)}: Rosette text is not evaluable: {e}")
        except (rkt.StepLimit, RecursionError):
            r = None
        if r is None:
            c.label("Rosette diverges")
        elif not rkt.equalp(r, rkt.to_rkt(expect(trunc))):
            raise Violation(f"{f}{tuple(args)}: Rosette {'call' if emitted else 'text'} gives {r!r}, expected {expect(trunc)!r}")
    if not f.startswith("tensor3d") or known == "tensor3d":
        w = expect(lambda a, b: smt.ediv(a, b))
        ok = by_smt(f, args, w, g)
        if ok is None:
            c.label("SMT unspecified")
            if "div" not in f and not f.startswith("integer_sqrt"):
                raise Violation(f"{f}{tuple(args)}: the SMT definition does not determine a value")
        elif not ok:
            raise Violation(f"{f}{tuple(args)}: the verification file does not make it {w!r}")
        if f not in HO:
            S = smt_decl(os.getpid(), f)
            S.steps = 0
            try:
                judge("SMT text", S.call(f, args), w)
            except (smt.Limit, RecursionError):
                if "div" not in f and not f.startswith("integer_sqrt"):
                    raise Violation(f"{f}{tuple(args)}: the SMT text does not determine a value")
    for which in ("text", "dsl") if not f.startswith("tensor3d") else ():
        v = by_python(f, args, g, which)
        if v is not None:
            judge(f"Python {which}", v, expect(lambda a, b: a // b))
    c.label(f)
    c.nontrivial(bool(args) and any(a not in ((), 0) for a in args))


# ---------------------------------------------------------------- constructors
DISP = {  # constructor -> (kinds allowed for the tensor, operation, reversed, scalar first)
    **{f"call_elemwise_{o}": ([V, M, T] if o in ("add", "mul") else [V, M], o, "e") for o in OPS},
    **{f"call_scalar_{o}": ([V, M], o, "r") for o in OPS},
    **{f"call_scalar_r{o}": ([V, M], o, "l") for o in ("sub", "div")},
}


@st.composite
def disp_case(draw):
    f = draw(st.sampled_from(sorted(DISP)))
    k = draw(st.sampled_from(DISP[f][0]))
    e = st.integers(0, 30) if DISP[f][1] != "div" else st.integers(1, 30)
    n, m = draw(st.integers(0, 3)), draw(st.integers(1, 3))
    v = lambda: {V: lambda: draw(vec(n, e)), M: lambda: [draw(vec(m, e)) for _ in range(n)],
                 T: lambda: [[draw(vec(m, e)) for _ in range(2)] for _ in range(n)]}[k]()
    return dict(fn=f, kind=k, a=v() if DISP[f][2] == "e" else draw(e), b=v())


def check_disp(case, c):
    from metalift import ir
    from metalift.utils.tenspiler import tenspiler_common as tc
    f, k = case["fn"], case["kind"]
    ks, o, how = DISP[f]
    decls()
    obj = lambda kk, n: {V: lambda: ir.List(ir.Int, n), M: lambda: ir.Matrix(ir.Int, n), T: lambda: ir.Tensor3D(ir.Int, n), I: lambda: ir.Int(n)}[kk]()
    with sut(f):
        r = getattr(tc, f)(obj(k if how == "e" else I, "u0"), obj(k, "u1"))
    e = build.spec(r.src)
    a, b = ref.from_json(case["a"]), ref.from_json(case["b"])
    op = OPS[o](lambda x, y: x // y)
    want = {"e": lambda: z(op)(a, b), "r": lambda: each(lambda x: op(x, a), b), "l": lambda: each(lambda x: op(a, x), b)}[how]()
    ds = spec_table(os.getpid())
    fns = {n: ([p[1] for p in d[4:]], d[3]) for n, d in ds.items() if n not in ref.LIB}
    try:
        got = ref.ev(e, {"u0": a, "u1": b}, fns)
    except ref.Undef:
        return
    if not ref.same(got, want):
        raise Violation(f"{f}({a}, {b}) denotes {got!r}, expected {want!r}: {r.src}")
    t = build.unty(r.type)
    if t != KIND[k]:
        raise Violation(f"{f} on a {k} has type {t}")
    c.label(f + k)
    c.nontrivial(b != ())


# ---------------------------------------------------------------- axioms
def axioms():
    with sut("importing the axioms"):
        from metalift.utils.tenspiler import constants as K
        return [(f, i) for f in sorted(K.TENSPILER_FN_NAME_TO_AXIOMS) for i in range(len(K.TENSPILER_FN_NAME_TO_AXIOMS[f]))]


@st.composite
def ax_case(draw):
    axs = axioms()
    f, i = draw(st.sampled_from(axs))
    g = draw(st.integers(0, len(GS[HO[f]]) - 1)) if f in HO else None
    n, m = draw(st.sampled_from([4, 3, 3, 2, 1, 0])), draw(st.integers(1, 3))
    loose = draw(st.integers(0, 4)) == 0
    dim = lambda d, lo: draw(st.integers(lo, 4)) if loose else d
    big = draw(st.booleans())
    elem = st.integers(-60, 60) if big else gens.SMALL
    return dict(fn=f, ax=i, g=g, vecs=[draw(vec(dim(m if f == "matrix_vec_mul" else n, 0), elem)) for _ in range(2)],
                mats=[[draw(vec(dim(m, 0), elem)) for _ in range(dim(n, 0))] for _ in range(2)],
                ints=[draw(st.one_of(elem, st.integers(1, 9))) for _ in range(3)], index=draw(st.integers(-1, 5) if loose else st.integers(0, n)),
                default=draw(st.sampled_from([0, 7])))


def check_ax(case, c):
    f, i, g = case["fn"], case["ax"], case["g"]
    if (f, i) not in axioms():
        return
    decls()
    S, asserts = smt_file(os.getpid(), f, g, i, True)
    qs = [a for a in asserts[:-1] if isinstance(a, list) and a[0] == "forall" and "u0" not in [b[0] for b in a[1]]]
    qs = qs[-1:]
    if not qs:
        raise Violation(f"{f}: the axiom does not reach the verification file")
    vs, body = qs[0][1], qs[0][2]
    pools = {("MLList", "Int"): list(case["vecs"]), ("MLList", ("MLList", "Int")): list(case["mats"]), "Int": list(case["ints"])}
    e = {}
    for n, s in vs:
        s = S.sort(s)
        e[n] = ref.from_json(case["index"]) if n == "index" else ref.from_json(pools[s].pop(0))
    idx = e.get("index")
    if not case.get("known"):
        lens = [len(v) for n, v in e.items() if isinstance(v, tuple)]
        if f in ("reduce_sum", "reduce_max") and (idx is None or idx >= lens[0]):
            c.label("known class: past the end")
            return
        if f == "reduce_max" and idx == 0:
            c.label("known class: maximum of nothing")
            return
        if f == "matrix_vec_mul":
            m, v = [next(x for n, x in e.items() if n == k) for k in (vs[0][0], vs[1][0])]
            if not m or not m[0] or len(m[0]) != len(v):
                c.label("known class: unequal lengths")
                return
    S.steps = 0
    S.interp = {**smtlib.MODEL, "list_get_helper": smtlib._geth(case.get("default", 0))}  # reads past the end mean anything
    try:
        ok = S.eval(body, e)
        prem = body[0] != "=>" or S.eval(body[1], e)
    except (smt.Limit, RecursionError):
        c.label("unspecified")
        return
    if not ok:
        raise Violation(f"axiom of {f} is false at {e}: {smt.sx(body)}")
    c.label(f"{f}.{i}{'' if prem else ' (premise false)'}")
    c.nontrivial(bool(prem))


SUBS = [
    Sub("fn", fn_case, check_fn, 6000, 120000, "some argument is neither zero nor empty"),
    Sub("calls", disp_case, check_disp, 1500, 20000, "the tensor is not empty"),
    Sub("axioms", ax_case, check_ax, 4000, 80000, "the axiom's premises hold"),
]
