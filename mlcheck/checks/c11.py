"""The object API builds the expression it denotes; ill-typed uses are rejected."""
import operator

from hypothesis import strategies as st

from metalift import ir as I

from .. import build, gens, ref
from ..ref import LIB, Tup
from ..runner import Discard, Sub, Violation, sut

PROPERTY = "C11"
RULE = ("random trees of API operations (operators with Python literals on either side, slices, in-place mutators, set and tuple "
        "methods, conditionals, calls); the expression built is evaluated with the reference semantics and compared with the same "
        "tree computed directly on Python values; types are compared too; ill-typed operand combinations must raise")
ASSUMPTIONS = ["equality and index operands are not type-checked by the API and are outside the rejection part",
               "tuple components are Int/Bool (others are documented as unsupported)"]

L, LB, LL, M, T3, S, T = (["List", "Int"], ["List", "Bool"], ["List", ["List", "Int"]], "Matrix", "Tensor3D", ["Set", "Int"],
                          ["Tuple", ["Int", "Bool"]])
TYPES = ["Int", "Bool", L, LB, LL, M, T3, S, T]


def elem(t):
    return ref.elem_type(t)


def _set(l, i, v):
    ref._rng(0 <= i < len(l))
    return l[:i] + (v,) + l[i + 1:]


def _el(f):
    def g(a, b):
        if len(a) != len(b):
            raise ref.Undef("lengths differ")
        return tuple(f(x, y) for x, y in zip(a, b))
    return g


def _arith(name):
    return {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": ref.div}[name]


EXTRA = {"list_set": _set}
for n in ("add", "sub", "mul", "div"):
    f = _arith(n)
    EXTRA["vec_elemwise_" + n] = _el(f)
    EXTRA["matrix_elemwise_" + n] = _el(_el(f))
    EXTRA["vec_scalar_" + n] = lambda k, v, f=f: tuple(f(x, k) for x in v)
    EXTRA["scalar_vec_" + n] = lambda k, v, f=f: tuple(f(k, x) for x in v)
    EXTRA["matrix_scalar_" + n] = lambda k, v, f=f: tuple(tuple(f(x, k) for x in r) for r in v)
    EXTRA["scalar_matrix_" + n] = lambda k, v, f=f: tuple(tuple(f(k, x) for x in r) for r in v)
EXTRA["f_int"] = lambda a, b: 2 * a - b
EXTRA["f_list"] = lambda a, b: (a,) + b
LIBX = {**LIB, **EXTRA}


def bc(f):
    """list/matrix arithmetic with a scalar on either side"""
    def g(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                raise ref.Undef("shape")
            return tuple(g(x, y) for x, y in zip(a, b))
        if isinstance(a, tuple):
            return tuple(g(x, b) for x in a)
        if isinstance(b, tuple):
            return tuple(g(a, x) for x in b)
        return f(a, b)
    return g


def need(c, m="range"):
    if not c:
        raise ref.Undef(m)


# name -> (python on objects, python on values)
API = {
    "+": (operator.add, lambda a, b: a + b),
    "-": (operator.sub, lambda a, b: a - b),
    "*": (operator.mul, lambda a, b: a * b),
    "//": (operator.floordiv, ref.div),
    "%": (operator.mod, ref.mod),
    "==": (operator.eq, lambda a, b: ref.same(a, b)),
    "!=": (operator.ne, lambda a, b: not ref.same(a, b)),
    "<": (operator.lt, operator.lt), "<=": (operator.le, operator.le),
    ">": (operator.gt, operator.gt), ">=": (operator.ge, operator.ge),
    "and": (lambda a, *b: a.And(*b), lambda *a: all(a)),
    "or": (lambda a, *b: a.Or(*b), lambda *a: any(a)),
    "not": (lambda a: a.Not(), lambda a: not a),
    "implies": (I.implies, lambda a, b: (not a) or b),
    "ite": (I.ite, lambda c, a, b: a if c else b),
    "choose1": (lambda a: I.choose(a), lambda a: a),
    "norelax": (lambda a: a.maybe_relaxed(False), lambda a: a),
    "len": (lambda a: a.len(), len),
    "get": (lambda a, i: a[i], LIB["list_get"]),
    "tail": (lambda a, i: a[i:], LIB["list_tail"]),
    "take": (lambda a, i: a[:i], LIB["list_take"]),
    "slice": (lambda a, i, j: a[i:j], LIB["vec_slice"]),
    "swl": (lambda a, i, j: a.slice_with_length(i, j), LIB["vec_slice_with_length"]),
    "append": (lambda a, x: mutate(a, lambda o: o.append(x)), lambda a, x: a + (x,)),
    "prepend": (lambda a, x: mutate(a, lambda o: o.prepend(x)), lambda a, x: (x,) + a),
    "set": (lambda a, i, x: mutate(a, lambda o: setit(o, i, x)), _set),
    "lempty": (lambda: I.List.empty(I.Int), lambda: ()),
    "lbempty": (lambda: I.List.empty(I.Bool), lambda: ()),
    "llempty": (lambda: I.List.empty(I.List[I.Int]), lambda: ()),
    "mempty": (lambda: I.Matrix.empty(I.Int), lambda: ()),
    "tempty": (lambda: I.Tensor3D.empty(I.Int), lambda: ()),
    "ldefault": (lambda: I.List.default_value(), lambda: ()),
    "mdefault": (lambda: I.Matrix.default_value(), lambda: ()),
    "idefault": (lambda: I.Int.default_value(), lambda: 0),
    "bdefault": (lambda: I.Bool.default_value(), lambda: False),
    "colslice": (lambda a, i, j: a.col_slice(i, j), LIB["matrix_col_slice"]),
    "colswl": (lambda a, i, j: a.col_slice_with_length(i, j), LIB["matrix_col_slice_with_length"]),
    "colvec": (lambda a, i: a.col_vec(i), lambda a, i: LIB["matrix_transpose"](LIB["matrix_col_slice"](a, i, i + 1))[0]),
    "transpose": (lambda a: a.transpose(), LIB["matrix_transpose"]),
    "sempty": (lambda: I.Set.empty(I.Int), lambda: frozenset()),
    "sadd": (lambda s, x: s.add(x), lambda s, x: s | {x}),
    "sremove": (lambda s, x: s.remove(x), lambda s, x: s - {x}),
    "ssingle": (lambda x: I.Set.singleton(x), lambda x: frozenset([x])),
    "sunion": (lambda a, b: a.union(b), lambda a, b: a | b),
    "sdiff": (lambda a, b: a.difference(b), lambda a, b: a - b),
    "scontains": (lambda s, x: s.__contains__(x), lambda s, x: x in s),
    "mktuple": (I.make_tuple, lambda *a: Tup(a)),
    "t0": (lambda t: t[0], lambda t: t[0]),
    "t1": (lambda t: t[1], lambda t: t[1]),
    "t1o": (lambda t: t[I.Int(1)], lambda t: t[1]),
    "call_int": (lambda a, b: I.call("f_int", I.Int, a, b), EXTRA["f_int"]),
    "call_list": (lambda a, b: I.call("f_list", I.List[I.Int], a, b), EXTRA["f_list"]),
    "callv_int": (lambda a, b: I.call_value(I.Fn((I.Int, I.Int, I.Int), "f_int"), a, b), EXTRA["f_int"]),
    "callv_list": (lambda a, b: I.call_value(I.create_object(I.make_fn_type(I.List[I.Int], I.Int, I.List[I.Int]), "f_list"), a, b),
                   EXTRA["f_list"]),
}
for n in ("add", "sub", "mul", "div"):
    API["L" + n] = (lambda a, b, n=n: getattr(I.List, n)(a, b), bc(_arith(n)))
    API["M" + n] = (lambda a, b, n=n: getattr(I.Matrix, n)(a, b), bc(_arith(n)))


def mutate(a, f):
    """Mutators change the receiver only, return it (append/prepend), and keep its type."""
    r = f(a)
    if r is not a:
        raise Violation("an in-place list operation does not return its receiver")
    return a


def setit(o, i, x):
    o[i] = x
    return o


class K(int):
    """A Python literal operand."""


def options(t):
    """(op, argument types); an argument type "int"/"bool" is an Int/Bool position where a Python literal may stand"""
    r = []
    if t == "Int":
        for o in ("+", "-", "*", "//", "%"):
            r += [(o, "Int", "Int"), (o, "Int", "lit"), (o, "lit", "Int")]
        r += [("len", x) for x in (L, LB, LL, M, T3)]
        r += [("get", L, "Int"), ("get", L, "lit"), ("t0", T), ("norelax", "Int"), ("call_int", "Int", "Int"),
              ("callv_int", "Int", "Int"), ("idefault",)]
    elif t == "Bool":
        for o in ("<", "<=", ">", ">=", "==", "!="):
            r += [(o, "Int", "Int"), (o, "Int", "lit"), (o, "lit", "Int")]
        r += [("==", "Bool", "Bool"), ("!=", "Bool", "Bool"), ("==", "Bool", "blit"), ("!=", "Bool", "blit"), ("!=", "blit", "Bool")]
        r += [(o, x, x) for o in ("==", "!=") for x in (L, M, S, LL)]
        r += [("and", "Bool", "Bool"), ("and", "Bool", "Bool", "Bool"), ("or", "Bool", "Bool"), ("or", "Bool", "Bool", "Bool"),
              ("and", "Bool", "blit"), ("or", "Bool", "blit"), ("not", "Bool"), ("implies", "Bool", "Bool"), ("scontains", S, "Int"),
              ("get", LB, "Int"), ("t1", T), ("t1o", T), ("bdefault",)]
    elif t in (L, LB, LL, M, T3):
        e = elem(t)
        r += [("append", t, e), ("prepend", t, e), ("append", t, e), ("prepend", t, e)]
        for i in ("Int", "lit"):
            r += [("tail", t, i), ("take", t, i), ("slice", t, i, "lit"), ("slice", t, "lit", i), ("swl", t, i, "lit"), ("swl", t, "lit", i)]
        if t in (L, LB, M, LL):
            r += [("+", t, t)]
        if t in (L, LB):
            r += [("set", t, "Int", e), ("set", t, "lit", e)]
        if t == L:
            r += [("get", x, i) for x in (M, LL) for i in ("Int", "lit")]
            r += [(o, *a) for o in ("Ladd", "Lsub", "Lmul", "Ldiv") for a in ((L, L), (L, "Int"), ("Int", L), (L, "lit"), ("lit", L))]
            r += [("colvec", M, "lit"), ("colvec", M, "Int"), ("call_list", "Int", L), ("callv_list", "Int", L), ("lempty",), ("ldefault",)]
        if t == M:
            r += [("get", T3, "Int"), ("get", T3, "lit"), ("transpose", M)]
            r += [(o, M, *a) for o in ("colslice", "colswl") for a in (("lit", "lit"), ("Int", "lit"), ("lit", "Int"))]
            r += [(o, *a) for o in ("Madd", "Msub", "Mmul", "Mdiv") for a in ((M, M), (M, "Int"), ("Int", M), (M, "lit"), ("lit", M))]
            r += [("mempty",), ("mdefault",)]
        if t == LL:
            r += [("llempty",), ("transpose", M)][:1]
        if t == LB:
            r += [("lbempty",)]
        if t == T3:
            r += [("tempty",)]
    elif t == S:
        r += [("sadd", S, "Int"), ("sremove", S, "Int"), ("sunion", S, S), ("sdiff", S, S), ("ssingle", "Int"), ("sempty",)] * 2
    elif t == T:
        r += [("mktuple", "Int", "Bool")] * 2
    r += [("ite", "Bool", t, t), ("choose1", t)]
    return r


ALL = [(o, t) for t in TYPES for o in options(t)]
OPTS = {ref.tkey(t): options(t) for t in TYPES}


@st.composite
def tree(draw, t, vs, depth):
    pick = lambda n: draw(st.integers(0, n - 1))
    if t == "lit":
        return ["k", draw(st.sampled_from([0, 1, 1, 2, 2, 1, 0, 3, -1, 4]))]
    if t == "blit":
        return ["k", draw(st.booleans())]
    same = [v for v in vs if ref.tkey(v[2]) == ref.tkey(t)]
    if depth <= 0 and len(vs) < 7 and (not same or pick(3) == 0) and pick(4):
        vs.append(["var", [x for x in gens.VAR_NAMES if x not in [v[1] for v in vs]][pick(4)], t])
        same = vs[-1:]
    if depth <= 0 or pick(6) == 0:
        if same and (depth <= 0 or pick(3)):
            return ["v", *same[pick(len(same))][1:]]
        if t == "Int":
            return ["I", draw(st.integers(-3, 6))]
        if t == "Bool":
            return ["B", draw(st.booleans())]
        nul = [o for o in OPTS[ref.tkey(t)] if len(o) == 1]
        if nul and not same:
            return ["op", t, nul[pick(len(nul))][0]]
        if same:
            return ["v", *same[pick(len(same))][1:]]
        if t == T:
            return ["op", t, "mktuple", draw(tree("Int", vs, 0)), draw(tree("Bool", vs, 0))]
    o = OPTS[ref.tkey(t)]
    o = o[pick(len(o))]
    return ["op", t, o[0]] + [draw(tree(a, vs, depth - 1)) for a in o[1:]]


@st.composite
def api_case(draw):
    n = draw(st.integers(1, 2))
    names = draw(gens.var_names(n))
    vs = [["var", a, draw(st.sampled_from(TYPES))] for a in names]
    t = draw(st.sampled_from(TYPES))
    d = draw(st.sampled_from([1, 1, 2, 2, 3, 4]))
    if d == 1:  # exactly one operation, every operation equally likely
        o, t = draw(st.sampled_from(ALL))
        tr = ["op", t, o[0]] + [draw(tree(a, vs, 0)) for a in o[1:]]
    else:
        tr = draw(tree(t, vs, d))
    return dict(vars=vs, ty=t, t=tr, envs=[{v[1]: draw(gens.value(v[2], ints=st.sampled_from([0, 1, 1, 2, 2, 3, 4, -1, -3, 7]))) for v in vs} for _ in range(8)])


def mk(t, vs_obj, used):
    k = t[0]
    if k == "k":
        return t[1]
    if k == "I":
        return I.Int(t[1])
    if k == "B":
        return I.Bool(t[1])
    if k == "v":
        return fresh(t[1], t[2])
    args = [mk(x, vs_obj, used) for x in t[3:]]
    before = [(a, a.src, repr(a.src)) for a in args if isinstance(a, I.Object)]
    r = API[t[2]][0](*args)
    for a, s, rep in before:
        if repr(s) != rep:
            raise Violation(f"{t[2]} modified an expression it was given: {rep} became {s!r}")
        if a is not r and a.src is not s:
            raise Violation(f"{t[2]} changed an operand other than its receiver")
    if t[2] not in ("append", "prepend", "set", "norelax") and any(a is r for a, _, _ in before):
        raise Violation(f"{t[2]} returned one of its operands")
    used.add(t[2])
    want = build.ty(t[1])
    if not isinstance(r, I.Object):
        raise Violation(f"{t[2]} returned {type(r).__name__}, not an object: {t}")
    if r.type != want:
        raise Violation(f"{t[2]} built an object of type {r.type}, expected {want}: {t}")
    if build.unty(r.src.type) != build.unty(want):
        raise Violation(f"{t[2]} built an expression of type {r.src.type}, expected {want}: {t}")
    if type(r) is not (want if t[1] in ("Int", "Bool") else want.__origin__):
        raise Violation(f"{t[2]} built a {type(r).__name__} for {want}")
    return r


def fresh(name, ty):
    if ty == "Int":
        return I.Int(name)
    if ty == "Bool":
        return I.Bool(name)
    return I.create_object(build.ty(ty), name)


def val(t, env):
    k = t[0]
    if k in ("k", "I", "B"):
        return t[1]
    if k == "v":
        return env[t[1]]
    r = API[t[2]][1](*[val(x, env) for x in t[3:]])
    if t[1] == M and r and (not r[0] or any(len(x) != len(r[0]) for x in r)):
        raise ref.Undef("not a matrix")
    if t[1] in (T3, LL) and any(not x for x in r):
        raise ref.Undef("empty row")
    if isinstance(r, int) and abs(r) > 10**40:
        raise ref.Undef("large")
    return r


def strip(s):
    return [strip(x) if isinstance(x, list) else x for x in s]


def unchoose(s):
    if isinstance(s, list) and s and s[0] == "choose":
        if len(s) != 2:
            raise Violation(f"choose over one alternative has {len(s) - 1}")
        return unchoose(s[1])
    return [unchoose(x) if isinstance(x, list) else x for x in s] if isinstance(s, list) else s


def check_api(case, c):
    used = set()
    with sut("API"):
        o = mk(case["t"], {}, used)
    s = unchoose(build.spec(o))
    n = 0
    for env in case["envs"]:
        env = {k: ref.from_json(v) for k, v in env.items()}
        try:
            want = val(case["t"], env)
        except ref.Undef:
            continue
        try:
            got = ref.ev(s, env, lib=LIBX, shortcircuit=True)
        except ref.Undef as u:
            if str(u) in ("fuel", "too large"):
                continue
            raise Violation(f"the operations give {want!r} but the expression {o!r} has no value ({u}) for {env}: {case['t']}")
        except KeyError as e:
            raise Violation(f"the expression uses {e}: {o!r}")
        except (TypeError, IndexError) as e:
            raise Violation(f"the expression is ill-typed ({e}): {o!r}")
        n += 1
        if not ref.same(got, want):
            raise Violation(f"the operations give {want!r} but the expression {o!r} means {got!r} for {env}: {case['t']}")
    if n and used:
        c.nontrivial()
    c.label(*[f"op:{u}" for u in used])


# ---- ill-typed uses -------------------------------------------------------------------------------

OBJ = {"Int": "Int", "Bool": "Bool", "L": L, "LB": LB, "LL": LL, "M": M, "T3": T3, "S": S, "T": T, "SB": ["Set", "Bool"],
       "T2": ["Tuple", ["Int", "Int"]], "T3t": ["Tuple", ["Int", "Bool", "Int"]]}
SAME_CTX = ["ite", "choose2", "union", "diff"]
# op -> set of accepted operand-kind tuples (everything else must raise)
I2 = {("Int", "Int")}
E2 = {("L", "Int"), ("LB", "Bool"), ("LL", "L"), ("M", "L"), ("T3", "M")}
SAMES = {(a, a) for a in OBJ}
NUM = {("Int", "L"), ("L", "Int"), ("L", "L")}
MNUM = {("Int", "M"), ("M", "Int"), ("M", "M")}
OK = {
    "-": I2, "*": I2, "//": I2, "%": I2,
    "+": I2 | {(a, a) for a in ("L", "LB", "LL", "M", "T3")},
    "<": I2, "<=": I2, ">": I2, ">=": I2,
    "and": {("Bool", "Bool")}, "or": {("Bool", "Bool")}, "implies": {("Bool", "Bool")},
    "ite": SAMES, "choose2": SAMES, "itec": {("Bool", a) for a in OBJ},
    "append": E2, "prepend": E2, "set0": E2,
    "sadd": {("S", "Int"), ("SB", "Bool")}, "sremove": {("S", "Int"), ("SB", "Bool")},
    "sunion": {("S", "S"), ("SB", "SB")}, "sdiff": {("S", "S"), ("SB", "SB")},
    "Ladd": NUM, "Lsub": NUM, "Lmul": NUM, "Ldiv": NUM,
    "Madd": MNUM, "Msub": MNUM, "Mmul": MNUM, "Mdiv": MNUM,
    "mkInt": {("Int", a) for a in OBJ}, "mkBool": {("Bool", a) for a in OBJ},
    "not": {("Bool", a) for a in OBJ},
    "Add": I2, "Sub": I2, "Mul": I2, "Div": I2, "Mod": I2, "Lt": I2, "Le": I2, "Gt": I2, "Ge": I2,
    "And": {("Bool", "Bool")}, "Or": {("Bool", "Bool")}, "Implies": {("Bool", "Bool")}, "Ite": SAMES, "Choose": SAMES,
    "Not": {("Bool", a) for a in OBJ},
    "and3": {("Bool", "Bool")}, "or3": {("Bool", "Bool")}, "Choose3": SAMES, "Add3": I2, "Mul3": I2,
}
# combinations of equal types other than Int are accepted by the raw comparison/arithmetic constructors: not judged
UNJUDGED = {k: SAMES for k in ("Add", "Sub", "Mul", "Div", "Mod", "Lt", "Le", "Gt", "Ge", "Add3", "Mul3")}
RUN = {
    "+": operator.add, "-": operator.sub, "*": operator.mul, "//": operator.floordiv, "%": operator.mod,
    "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge,
    "and": lambda a, b: a.And(b), "or": lambda a, b: a.Or(b), "implies": I.implies,
    "ite": lambda a, b: I.ite(I.Bool("cc"), a, b), "choose2": lambda a, b: I.choose(a, b), "itec": lambda a, b: I.ite(a, b, b),
    "append": lambda a, b: a.append(b), "prepend": lambda a, b: a.prepend(b), "set0": lambda a, b: setit(a, 0, b),
    "sadd": lambda a, b: a.add(b), "sremove": lambda a, b: a.remove(b), "sunion": lambda a, b: a.union(b),
    "sdiff": lambda a, b: a.difference(b), "mkInt": lambda a, b: I.Int(a.src), "mkBool": lambda a, b: I.Bool(a.src),
    "not": lambda a, b: a.Not(),
    "and3": lambda a, b: I.Bool("q").And(a, b), "or3": lambda a, b: I.Bool("q").Or(a, b),
    "Choose3": lambda a, b: I.Choose(a.src, a.src, b.src), "Add3": lambda a, b: I.Add(a.src, a.src, b.src),
    "Mul3": lambda a, b: I.Mul(a.src, a.src, b.src),
    "Ite": lambda a, b: I.Ite(I.Bool("cc").src, a.src, b.src), "Not": lambda a, b: I.Not(a.src),
}
for n in ("add", "sub", "mul", "div"):
    RUN["L" + n] = lambda a, b, n=n: getattr(I.List, n)(a, b)
    RUN["M" + n] = lambda a, b, n=n: getattr(I.Matrix, n)(a, b)
for n in ("Add", "Sub", "Mul", "Div", "Mod", "Lt", "Le", "Gt", "Ge", "And", "Or", "Implies", "Choose"):
    RUN[n] = lambda a, b, n=n: getattr(I, n)(a.src, b.src)


@st.composite
def ill_case(draw):
    # a batch of operator/operand-kind combinations, with operands that are variables or built expressions
    r = []
    for _ in range(12):
        r.append([draw(st.sampled_from(sorted(RUN))), draw(st.sampled_from(sorted(OBJ))), draw(st.sampled_from(sorted(OBJ))),
                  draw(st.booleans()), draw(st.booleans())])
    return dict(uses=r)


def operand(kind, name, built):
    o = fresh(name, OBJ[kind])
    if built:
        o = I.ite(I.Bool("sel"), o, fresh(name + "2", OBJ[kind]))
    return o


def check_ill(case, c):
    bad = 0
    for opn, a, b, ba, bb in case["uses"]:
        if (a, b) in UNJUDGED.get(opn, ()) and (a, b) not in OK[opn]:
            continue
        with sut("operands"):
            x, y = operand(a, "p", ba), operand(b, "q", bb)
        xs = repr(x)
        try:
            r = RUN[opn](x, y)
            ok = r is not NotImplemented
        except Exception as e:  # noqa
            ok, r = False, e
        if (a, b) in OK[opn]:
            if not ok:
                raise Violation(f"well-typed {opn} of {OBJ[a]} and {OBJ[b]} raised {r!r}")
        else:
            bad += 1
            if ok:
                raise Violation(f"ill-typed {opn} of {OBJ[a]} and {OBJ[b]} is accepted and builds {r!r}")
            if repr(x) != xs:
                raise Violation(f"rejected {opn} changed its receiver to {x!r}")
    if bad >= 3:
        c.nontrivial()


# ---- grammars, declarations -----------------------------------------------------------------------


@st.composite
def misc_case(draw):
    n = draw(st.integers(1, 4))
    vs = [["var", a, draw(st.sampled_from(TYPES))] for a in draw(gens.var_names(n))]
    t = draw(st.sampled_from(TYPES))
    alts = [draw(tree(t, vs, draw(st.integers(0, 2)))) for _ in range(draw(st.integers(1, 4)))]
    return dict(vars=vs, ty=t, alts=alts, kind=draw(st.sampled_from(["choose", "decl", "declrec", "synth", "relax", "tuple", "badidx"])))


def check_misc(case, c):
    k, ty = case["kind"], build.ty(case["ty"])
    with sut("API"):
        objs = [mk(a, {}, set()) for a in case["alts"]]
        args = [fresh(v[1], v[2]) for v in case["vars"]]
    sp = [build.spec(o) for o in objs]
    if k == "choose":
        with sut("choose"):
            r = I.choose(*objs)
        if r.type != ty or build.spec(r) != ["choose"] + sp:
            raise Violation(f"choose built {r!r} from {objs}")
    elif k == "relax":
        x = I.Int("x")
        with sut("maybe_relaxed"):
            r = x.maybe_relaxed(True)
        got = {ref.ev(s, {"x": 10}) for s in build.spec(r)[1:]}
        if got != {9, 10, 11} or r.type != I.Int:
            raise Violation(f"maybe_relaxed(True) built {r!r}")
    elif k == "tuple":
        prim = [o for o in objs + args if isinstance(o, (I.Int, I.Bool))]
        if not prim:
            raise Discard("no primitive components")
        with sut("make_tuple"):
            t = I.make_tuple(*prim)
            comps = [t[i] for i in range(len(prim))]
        if t.length != len(prim):
            raise Violation(f"a tuple of {len(prim)} components has length {t.length}")
        for i, (a, b) in enumerate(zip(prim, comps)):
            if b.type != a.type or build.spec(b)[0] != "tget" or build.spec(b)[2] != ["lit", i, "Int"]:
                raise Violation(f"component {i} of {t!r} is {b!r}")
        try:
            t[len(prim)]
            raise Violation(f"index {len(prim)} of a tuple of {len(prim)} components is accepted")
        except Violation:
            raise
        except Exception:
            pass
    elif k == "badidx":
        for bad in (slice(None, None, None), slice(0, 2, 1), slice(None, 2, 2), slice(1, None, 2)):
            for o in args + objs:
                if isinstance(o, I.List):
                    try:
                        r = o[bad]
                    except Exception:
                        continue
                    raise Violation(f"unsupported slice {bad} builds {r!r}")
    else:
        cls = {"decl": I.FnDecl, "declrec": I.FnDeclRecursive, "synth": I.Synth}[k]
        f = {"decl": lambda: I.fn_decl("ff", ty, objs[0], *args), "declrec": lambda: I.fn_decl_recursive("ff", ty, objs[0], *args),
             "synth": lambda: I.synth("ff", objs[0], *args)}[k]
        with sut(k):
            d = f()
            got = (d.name(), build.spec(d.body()), [build.spec(a) for a in d.arguments()])
            rt = d.type if k == "synth" else d.return_type()
        if type(d) is not cls or got != ("ff", sp[0], [build.spec(a) for a in args]) or rt != ty:
            raise Violation(f"{k} built {d!r} ({rt}) from {objs[0]!r}, {args}")
        if k != "synth" and build.unty(d.type) != ["Fn", [build.unty(ty)] + [v[2] for v in case["vars"]]]:
            raise Violation(f"{k} has type {d.type}")
    c.nontrivial()
    c.label(k)


SUBS = [
    Sub("api", api_case, check_api, 12000, 300000, rule="non-trivial: at least one operation and a defined value"),
    Sub("ill", ill_case, check_ill, 3000, 60000, rule="non-trivial: >=3 ill-typed uses in the batch of 12"),
    Sub("misc", misc_case, check_misc, 1500, 30000, rule="every case"),
]
