"""Hypothesis strategies for types, values, IR expressions and function definitions (as specs)."""
import keyword

from hypothesis import strategies as st

from . import ref
from .ref import Tup, to_json

INTS = st.one_of(st.integers(-3, 6), st.integers(-3, 6), st.integers(-40, 40), st.integers(-10**9, 10**9))
SMALL = st.integers(-3, 6)
VAR_NAMES = ["a", "b", "x", "y", "i", "n", "arg", "ret", "agg_result", "agg.result", "ref.tmp", "i22",
             "x1", "acc", "data", "v7", "row_vec", "inv_x", "psum", "list_v", "vec", "matrix1", "set_a",
             "OUT", "rv0", "tmp.1", "_t"]
FN_NAMES = ["f", "g", "h", "helper", "list_sum", "vec_sum2", "matrix_total", "my_fn", "invert", "psi",
            "test_inv0", "inv0", "test_ps", "tensor3d_f", "set_size", "mapper", "select_one", "ite2",
            "reduce_sum2", "iteration"]


@st.composite
def value(draw, t, ints=None, maxlen=4):
    ints = ints or SMALL
    if t == "Int":
        return draw(ints)
    if t == "Bool":
        return draw(st.booleans())
    if t == "Matrix":
        nc = draw(st.integers(1, 3))
        nr = draw(st.integers(0, 3))
        return [[draw(ints) for _ in range(nc)] for _ in range(nr)]
    if t == "Tensor3D":
        return [x for x in (draw(value("Matrix", ints)) for _ in range(draw(st.integers(0, 3)))) if x]
    if t[0] == "List":
        n = draw(st.integers(0, maxlen))
        r = [draw(value(t[1], ints, max(1, maxlen - 1))) for _ in range(n)]
        if isinstance(t[1], list) and t[1][0] == "List":
            r = [x for x in r if x]
        return r
    if t[0] == "Set":
        return to_json(frozenset(draw(st.lists(ints, max_size=4))))
    if t[0] == "Tuple":
        return {"T": [draw(value(x, ints)) for x in t[1]]}
    raise ValueError(t)


def var_names(k, used=()):
    return st.lists(st.sampled_from([n for n in VAR_NAMES if n not in used]), min_size=k, max_size=k,
                    unique=True)


class Opts:
    def __init__(self, lang="all", python=False, smt=False, unguarded=True, tensor=True, nested=False,
                 lets=False, big=False, tupf=True, sets=True, matrix=True, lists=True, divmod=True,
                 tuples=True, boolists=False, ites=True, let_names=None):
        self.__dict__.update(locals())
        if python:
            self.tensor = False
            self.sets = False
        if smt:
            self.tensor = False


def lit(draw, o):
    return ["lit", draw(INTS if o.big else st.integers(-4, 9)), "Int"]


def gen(draw, t, vs, o, depth, fns=()):
    """vs: list of ["var",name,ty]; fns: list of (name, ret, [argtypes])."""
    k = ref.tkey(t)
    leaves = [v for v in vs if ref.tkey(v[2]) == k]
    g = lambda ty, d=None: gen(draw, ty, vs, o, depth - 1 if d is None else d, fns)
    pick = lambda n: draw(st.integers(0, n - 1))

    def leaf():
        if leaves and pick(4):
            return leaves[pick(len(leaves))]
        return base()

    def base():
        if t == "Int":
            return lit(draw, o)
        if t == "Bool":
            return ["lit", draw(st.booleans()), "Bool"]
        if t == "Matrix":
            return ["call", "matrix_empty", t]
        if t == "Tensor3D":
            return ["call", "tensor3d_empty", t]
        if t[0] == "List":
            return ["call", "list_empty" if isinstance(t[1], str) and t[1] in ("Int", "Bool") else "matrix_empty", t]
        if t[0] == "Set":
            return ["call", "set-create", t]
        if t[0] == "Tuple":
            return ["tuple"] + [gen(draw, x, vs, o, 0, fns) for x in t[1]]
        raise ValueError(t)

    if isinstance(t, list) and t[0] == "Fn":  # a function passed by name
        return leaves[pick(len(leaves))]
    if depth <= 0:
        return leaf()
    alts = []
    add = lambda w, f: alts.extend([f] * w)
    add(2, leaf)
    if o.ites:
        add(1, lambda: ["ite", g("Bool"), g(t), g(t)])
    if o.lets and o.lang:
        def let():
            vt = ["Int", "Bool"][pick(2)]
            name = draw(st.sampled_from(o.let_names or VAR_NAMES))
            v = ["var", name, vt]
            return ["let", v, g(vt), gen(draw, t, [x for x in vs if x[1] != name] + [v], o, depth - 1, fns)]
        add(1, let)
    for f in fns:
        if ref.tkey(f[1]) == k:
            add(2, lambda f=f: ["call", f[0], f[1]] + [g(x) for x in f[2]])
    if o.tuples:
        for v in vs:
            if isinstance(v[2], list) and v[2][0] == "Tuple":
                for i, x in enumerate(v[2][1]):
                    if ref.tkey(x) == k:
                        add(1, lambda v=v, i=i: ["tget", v, ["lit", i, "Int"]])
        for tt in [["Tuple", ["Int", "Int"]], ["Tuple", ["Int", "Bool", "Int"]]]:
            for i, x in enumerate(tt[1]):
                if x == t and depth > 1:
                    add(1 if i == 0 else 0, lambda tt=tt, i=i: ["tget", g(tt), ["lit", i, "Int"]])
    LI = ["List", "Int"]

    def idx(lst, lenfn, d=None):
        c = pick(4)
        if c == 0:
            return ["lit", pick(3), "Int"]
        if c == 1:
            return ["sub", ["call", lenfn, "Int", lst], ["lit", 1 + pick(2), "Int"]]
        if c == 2:
            return ["ite", ["lt", ["lit", 0, "Int"], ["call", lenfn, "Int", lst]],
                    ["lit", 0, "Int"], ["lit", 0, "Int"]]
        return g("Int", min(1, depth - 1))

    def listvar(ty):
        c = [v for v in vs if ref.tkey(v[2]) == ref.tkey(ty)]
        return c[pick(len(c))] if c and pick(3) else g(ty)

    if t == "Int":
        add(2, lambda: ["add"] + [g("Int") for _ in range(2 + pick(2))])
        add(2, lambda: ["sub", g("Int"), g("Int")])
        add(1, lambda: ["mul"] + [g("Int") for _ in range(2 + (pick(3) == 0))])
        if o.divmod:
            def dm():
                op = ["div", "mod"][pick(2)]
                x = g("Int")
                c = pick(3)
                if c == 0:
                    x = ["ite", ["ge", x, ["lit", 0, "Int"]], x, ["sub", ["lit", 0, "Int"], x]]
                elif c == 1:
                    x = ["lit", draw(st.integers(0, 30)), "Int"]
                y = ["lit", 1 + pick(5), "Int"] if pick(3) else g("Int")
                return [op, x, y]
            add(1, dm)
        if o.lists:
            def lget():
                l = listvar(LI)
                return ["call", "list_get", "Int", l, idx(l, "list_length")]
            add(2, lget)
            add(1, lambda: ["call", "list_length", "Int", g(LI)])
        if o.matrix:
            add(1, lambda: ["call", "matrix_length", "Int", g("Matrix")])

            def mget():
                m = listvar("Matrix")
                r = ["call", "matrix_get", LI, m, idx(m, "matrix_length")]
                return ["call", "list_get", "Int", r, ["lit", pick(2), "Int"]]
            add(1, mget)
        if o.tensor:
            add(1, lambda: ["call", "tensor3d_length", "Int", g("Tensor3D")])
    elif t == "Bool":
        add(3, lambda: [["lt", "le", "gt", "ge", "eq"][pick(5)], g("Int"), g("Int")])
        add(1, lambda: ["eq", g("Bool"), g("Bool")])
        add(2, lambda: [["and", "or"][pick(2)]] + [g("Bool") for _ in range(2 + pick(2))])
        add(2, lambda: ["not", g("Bool")])
        if not o.python:
            add(1, lambda: ["implies", g("Bool"), g("Bool")])
        if o.lists:
            add(1, lambda: ["eq", g(LI), g(LI)])
            if not o.python:
                add(1, lambda: ["call", "list_eq", "Bool", g(LI), g(LI)])
        if o.matrix:
            add(1, lambda: ["eq", g("Matrix"), g("Matrix")])
        if o.sets:
            S = ["Set", "Int"]
            add(1, lambda: ["call", "set-member", "Bool", g("Int"), g(S)])
            add(1, lambda: ["call", "set-subset", "Bool", g(S), g(S)])
            add(1, lambda: ["eq", g(S), g(S)])
        if o.tuples:
            T = ["Tuple", ["Int", "Int"]]
            add(1, lambda: ["eq", g(T), g(T)])
    elif t == "Matrix" or (isinstance(t, list) and t == ["List", LI]):
        row = LI
        add(2, lambda: ["call", "matrix_prepend", t, nonempty(draw, g, row), g(t)])
        add(2, lambda: ["call", "matrix_append", t, g(t), nonempty(draw, g, row)])
        def m1(fn):
            m = g(t)
            return ["call", fn, t, m, idx(m, "matrix_length")]
        add(1, lambda: m1("matrix_tail"))
        add(1, lambda: m1("matrix_take"))
        def m2(fn):
            m = listvar(t)
            return ["call", fn, t, m, ["lit", pick(2), "Int"], ["lit", 1 + pick(2), "Int"]]
        add(1, lambda: m2("matrix_row_slice"))
        add(1, lambda: m2("matrix_row_slice_with_length"))
        add(1, lambda: m2("matrix_col_slice"))
        add(1, lambda: m2("matrix_col_slice_with_length"))
        add(1, lambda: ["call", "matrix_transpose", t, listvar(t)])
    elif t == "Tensor3D":
        add(2, lambda: ["call", "tensor3d_prepend", t, nonempty(draw, g, "Matrix"), g(t)])
        add(2, lambda: ["call", "tensor3d_append", t, g(t), nonempty(draw, g, "Matrix")])
        def t1(fn):
            m = g(t)
            return ["call", fn, t, m, idx(m, "tensor3d_length")]
        add(1, lambda: t1("tensor3d_tail"))
        add(1, lambda: t1("tensor3d_take"))
        def t2(fn):
            return ["call", fn, t, listvar(t), ["lit", pick(2), "Int"], ["lit", 1 + pick(2), "Int"]]
        add(1, lambda: t2("tensor3d_slice"))
        add(1, lambda: t2("tensor3d_slice_with_length"))
    elif t[0] == "List":
        add(2, lambda: ["call", "list_prepend", t, g(t[1]), g(t)])
        add(2, lambda: ["call", "list_append", t, g(t), g(t[1])])
        def l1(fn):
            l = g(t)
            return ["call", fn, t, l, idx(l, "list_length")]
        add(1, lambda: l1("list_tail"))
        add(1, lambda: l1("list_take"))
        def l2(fn):
            return ["call", fn, t, listvar(t), ["lit", pick(3), "Int"], ["lit", 1 + pick(3), "Int"]]
        add(1, lambda: l2("vec_slice"))
        add(1, lambda: l2("vec_slice_with_length"))
        if not o.python:
            add(1, lambda: ["call", "list_concat", t, g(t), g(t)])
        if t == LI and o.matrix:
            def mg():
                m = listvar("Matrix")
                return ["call", "matrix_get", LI, m, idx(m, "matrix_length")]
            add(1, mg)
    elif t[0] == "Set":
        add(2, lambda: ["call", "set-insert", t, g("Int"), g(t)])
        add(1, lambda: ["call", "set-singleton", t, g("Int")])
        add(1, lambda: ["call", "set-union", t, g(t), g(t)])
        add(1, lambda: ["call", "set-minus", t, g(t), g(t)])
    elif t[0] == "Tuple":
        add(3, lambda: ["tuple"] + [g(x) for x in t[1]])
    if t == "Matrix" and o.tensor:
        def tg():
            m = listvar("Tensor3D")
            return ["call", "tensor3d_get", "Matrix", m, idx(m, "tensor3d_length")]
        add(1, tg)
    return alts[pick(len(alts))]()


def nonempty(draw, g, t):
    """An expression of list type that is never empty (matrices have no empty rows)."""
    x = g(t)
    if t == ["List", "Int"]:
        return ["call", "list_prepend", t, g("Int"), x] if x[0] != "var" else x
    return ["call", "matrix_prepend", t, nonempty(draw, g, ["List", "Int"]), x] if x[0] != "var" else x


def scalar_types(o):
    r = ["Int", "Bool"]
    if o.lists:
        r.append(["List", "Int"])
    if o.matrix:
        r.append("Matrix")
    if o.sets:
        r.append(["Set", "Int"])
    if o.tuples:
        r += [["Tuple", ["Int", "Int"]], ["Tuple", ["Int", "Bool", "Int"]]]
        if o.lists:
            r.append(["Tuple", [["List", "Int"], "Int"]])
        if o.python:
            r.append(["Tuple", ["Int"]])
    if o.tensor:
        r.append("Tensor3D")
    if o.nested:
        r.append(["List", ["List", "Int"]])
    return r


@st.composite
def signature(draw, o, maxargs=4, minargs=1, names=None):
    n = draw(st.integers(minargs, maxargs))
    ns = draw(var_names(n)) if names is None else draw(
        st.lists(st.sampled_from(names), min_size=n, max_size=n, unique=True))
    tys = [draw(st.sampled_from(scalar_types(o))) for _ in range(n)]
    return [["var", a, t] for a, t in zip(ns, tys)]


@st.composite
def typed_expr(draw, o, t=None, vs=None, depth=None, fns=()):
    vs = draw(signature(o)) if vs is None else vs
    t = t or draw(st.sampled_from(scalar_types(o)))
    d = depth if depth is not None else draw(st.sampled_from([2, 3, 1, 3, 4, 4, 5]))
    return gen(draw, t, vs, o, d, fns), vs, t


@st.composite
def envs(draw, vs, n=4, maxlen=4):
    return [{v[1]: draw(value(v[2], maxlen=maxlen)) for v in vs} for _ in range(n)]


@st.composite
def decls(draw, o, maxfns=3, rec=True, names=None, argnames=None):
    """A list of function definitions, each may call the earlier ones; recursive ones terminate by
    construction (structural recursion on a list or a decreasing Int)."""
    out = []
    sigs = []
    nf = draw(st.integers(1, maxfns))
    fnames = draw(st.lists(st.sampled_from(names or FN_NAMES), min_size=nf, max_size=nf, unique=True))
    for name in fnames:
        ps = draw(signature(o, 3, names=argnames))
        kind = draw(st.sampled_from(["fn", "rec", "rec"])) if rec else "fn"
        ret = draw(st.sampled_from(scalar_types(o)))
        if kind == "rec":
            body = recursive_body(draw, name, ret, ps, o, sigs)
        else:
            body = gen(draw, ret, ps, o, draw(st.integers(1, 3)), sigs)
        out.append([kind, name, ret, body] + ps)
        sigs.append((name, ret, [p[2] for p in ps]))
    return out, sigs


def recursive_body(draw, name, ret, ps, o, sigs):
    """if <base condition on ps[k]> base else step with one recursive call on a smaller ps[k]."""
    rec_ok = [i for i, p in enumerate(ps) if p[2] in ("Int", "Matrix") or p[2] == ["List", "Int"]]
    if not rec_ok:
        return gen(draw, ret, ps, o, 2, sigs)
    k = draw(st.sampled_from(rec_ok))
    p = ps[k]
    g = lambda t, d=2: gen(draw, t, ps, o, d, sigs)
    if p[2] == "Int":
        cond = [draw(st.sampled_from(["le", "lt"])), p, ["lit", draw(st.integers(0, 2)), "Int"]]
        small = ["sub", ["ite", ["gt", p, ["lit", 6, "Int"]], ["lit", 6, "Int"], p], ["lit", 1, "Int"]]
    else:
        pre = "matrix" if p[2] == "Matrix" else "list"
        cond = ["lt", ["call", pre + "_length", "Int", p], ["lit", 1, "Int"]]
        small = ["call", pre + "_tail", p[2], p, ["lit", 1, "Int"]]
    args = [small if i == k else (q if draw(st.integers(0, 3)) else gen(draw, q[2], ps, o, 1, ()))
            for i, q in enumerate(ps)]
    rc = ["call", name, ret] + args
    if ret == "Int":
        step = [draw(st.sampled_from(["add", "sub"])), g("Int", 1), rc]
        if draw(st.booleans()):
            step = ["ite", g("Bool", 1), step, rc]
    elif ret == "Bool":
        step = [draw(st.sampled_from(["and", "or"])), g("Bool", 1), rc]
    elif ret == ["List", "Int"]:
        step = ["call", "list_prepend", ret, g("Int", 1), rc]
    elif ret == "Matrix":
        step = ["call", "matrix_prepend", ret, nonempty(draw, lambda t: g(t, 1), ["List", "Int"]), rc]
    elif isinstance(ret, list) and ret[0] == "Set":
        step = ["call", "set-insert", ret, g("Int", 1), rc]
    else:
        step = ["ite", g("Bool", 1), rc, g(ret, 1)]
    base = g(ret, 1)
    if draw(st.booleans()):
        return ["ite", cond, base, step]
    return ["ite", ["not", cond], step, base]


# ---- every operator alike -----------------------------------------------------------------------------
_LI, _SI, _M, _T = ["List", "Int"], ["Set", "Int"], "Matrix", "Tensor3D"
_LL = ["List", _LI]


def operators(o):
    """[how, name, result, arguments]"""
    r = [["op", n, "Int", ["Int", "Int"]] for n in ("add", "sub", "mul")]
    r += [["op", n, "Int", ["Int", "Int", "Int"]] for n in ("add", "mul")]
    if o.divmod:
        r += [["op", n, "Int", ["Nat", "Pos"]] for n in ("div", "mod")]
    r += [["op", n, "Bool", ["Int", "Int"]] for n in ("lt", "le", "gt", "ge", "eq")]
    r += [["op", n, "Bool", ["Bool", "Bool"]] for n in ("and", "or", "eq")] + [["op", n, "Bool", ["Bool", "Bool", "Bool"]] for n in ("and", "or")]
    r += [["op", "not", "Bool", ["Bool"]]]
    if not o.python:
        r += [["op", "implies", "Bool", ["Bool", "Bool"]]]
    r += [["op", "ite", t, ["Bool", t, t]] for t in scalar_types(o)]
    c = lambda n, t, *a: r.append(["call", n, t, list(a)])
    if o.lists:
        c("list_get", "Int", _LI, "Nat")
        c("list_length", "Int", _LI)
        c("list_empty", _LI)
        c("list_append", _LI, _LI, "Int")
        c("list_prepend", _LI, "Int", _LI)
        c("list_tail", _LI, _LI, "Nat")
        c("list_take", _LI, _LI, "Nat")
        c("vec_slice", _LI, _LI, "Nat", "Nat")
        c("vec_slice_with_length", _LI, _LI, "Nat", "Nat")
        r.append(["op", "eq", "Bool", [_LI, _LI]])
        if not o.python:
            c("list_concat", _LI, _LI, _LI)
            c("list_eq", "Bool", _LI, _LI)
    if o.matrix:
        for m in [_M] + [_LL] * o.nested:
            c("matrix_get", _LI, m, "Nat")
            c("matrix_length", "Int", m)
            c("matrix_append", m, m, _LI)
            c("matrix_prepend", m, _LI, m)
            c("matrix_tail", m, m, "Nat")
            c("matrix_take", m, m, "Nat")
            for n in ("row", "col"):
                c(f"matrix_{n}_slice", m, m, "Nat", "Nat")
                c(f"matrix_{n}_slice_with_length", m, m, "Nat", "Nat")
            c("matrix_transpose", m, m)
            r.append(["op", "eq", "Bool", [m, m]])
        c("matrix_empty", _M)
    if o.tensor:
        c("tensor3d_get", _M, _T, "Nat")
        c("tensor3d_length", "Int", _T)
        c("tensor3d_empty", _T)
        c("tensor3d_append", _T, _T, _M)
        c("tensor3d_prepend", _T, _M, _T)
        c("tensor3d_tail", _T, _T, "Nat")
        c("tensor3d_take", _T, _T, "Nat")
        c("tensor3d_slice", _T, _T, "Nat", "Nat")
        c("tensor3d_slice_with_length", _T, _T, "Nat", "Nat")
    if o.sets:
        c("set-create", _SI)
        c("set-insert", _SI, "Int", _SI)
        c("set-singleton", _SI, "Int")
        c("set-union", _SI, _SI, _SI)
        c("set-minus", _SI, _SI, _SI)
        c("set-member", "Bool", "Int", _SI)
        c("set-subset", "Bool", _SI, _SI)
        r.append(["op", "eq", "Bool", [_SI, _SI]])
    if o.tuples:
        for t in scalar_types(o):
            if isinstance(t, list) and t[0] == "Tuple":
                r.append(["tuple", "tuple", t, t[1]])
                r += [["tget", i, u, [t]] for i, u in enumerate(t[1])]
    return r


@st.composite
def dense(draw, t):
    """values of sizes for which most operators are defined"""
    if t in ("Nat", "Pos"):
        return draw(st.integers(0, 2)) + (t == "Pos")
    if t == "Int":
        return draw(st.integers(-2, 4))
    if t == "Bool":
        return draw(st.booleans())
    if t == "Matrix" or t == _LL:
        nc = draw(st.integers(2, 3))
        return [[draw(INTS) for _ in range(nc)] for _ in range(draw(st.integers(2, 4)))]
    if t == "Tensor3D":
        return [draw(dense("Matrix")) for _ in range(draw(st.integers(1, 3)))]
    if t[0] == "List":
        return [draw(dense(t[1])) for _ in range(draw(st.integers(2, 4)))]
    if t[0] == "Set":
        return to_json(frozenset(draw(st.lists(SMALL, max_size=4))))
    return {"T": [draw(dense(x)) for x in t[1]]}


@st.composite
def op_expr(draw, o, names=VAR_NAMES, nenvs=6, literals=True):
    """-> expression, variables, type, environments: one operator, all of them alike, over variables, literals and one more operator"""
    ops = operators(o)
    vs, kinds = [], {}
    free = list(draw(st.permutations(names)))

    def var(t):
        u = "Int" if t in ("Nat", "Pos") else t
        old = [v for v in vs if kinds[v[1]] == t]
        if old and draw(st.integers(0, 2)) == 0 or not free:
            same = old or [v for v in vs if v[2] == u]
            if same:
                return draw(st.sampled_from(same))
        v = ["var", free.pop() if free else f"zz{len(vs)}", u]
        vs.append(v)
        kinds[v[1]] = t
        return v

    def arg(t, d):
        k = draw(st.integers(0, 5))
        if k == 0 and literals and t in ("Int", "Nat", "Pos"):
            return ["lit", draw(dense(t)), "Int"]
        if k == 1 and d and t not in ("Nat", "Pos"):
            return one(draw(st.sampled_from([x for x in ops if x[2] == t])), d - 1)
        return var(t)

    def one(op, d):
        how, n, t, ts = op
        if how == "tget":
            return ["tget", arg(ts[0], d), ["lit", n, "Int"]]
        xs = [arg(u, d) for u in ts]
        return (["call", n, t] if how == "call" else [n]) + xs
    op = draw(st.sampled_from(ops))
    e = one(op, 1)
    return e, vs, op[2], [{v[1]: draw(dense(kinds[v[1]])) for v in vs} for _ in range(nenvs)]
