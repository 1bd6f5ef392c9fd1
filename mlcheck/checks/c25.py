"""Solutions written in Python are read as the program they are."""
import ast

from hypothesis import strategies as st

from .. import build, llm, ref
from ..runner import Discard, Sub, Violation, sut

PROPERTY = "C25"
RULE = ("1-3 annotated functions of one or two statements over integers, booleans, lists and nested lists: arithmetic, chained comparisons, "
        "conditionals, literals, indexing, slices, list displays, calls of DSL functions and of each other (positional and keyword), recursion, "
        "lambdas that may capture parameters; every definition read back is evaluated on generated inputs (the DSL's functions interpreted by the "
        "DSL's own Python) and compared with executing the text; one unsupported construct planted in such a program must be an error; "
        "the answer-unwrapping helpers (code fences, `ite(c, a, b)`) keep the program; non-trivial: at least two rows of some function are defined on both sides")
ASSUMPTIONS = ["indices out of range or negative and division outside non-negative/positive are not compared",
               "mypy reads a reduced standard library (int, bool, list, Callable), which types these programs identically",
               "`/` is read as integer division on purpose and not generated"]


def parser():
    P, U, _, dsl, ns = llm.modules()
    return P, U, dsl, ns


# ---- programs ------------------------------------------------------------------------------------
TY = {"I": "int", "B": "bool", "L": "List[int]", "M": "List[List[int]]"}
II = ("fn", ["I"])
III = ("fn", ["I", "I"])
DSL = {
    "firsts": ("L", [("matrix", "M")]), "integer_exp": ("I", [("n", "I")]),
    "ite_int": ("I", [("cond", "B"), ("int_x", "I"), ("int_y", "I")]),
    "matrix_col_slice": ("M", [("matrix", "M"), ("start", "I"), ("end", "I")]),
    "matrix_elemwise_add": ("M", [("matrix_x", "M"), ("matrix_y", "M")]),
    "matrix_elemwise_sub": ("M", [("matrix_x", "M"), ("matrix_y", "M")]),
    "matrix_row_slice": ("M", [("matrix", "M"), ("start", "I"), ("end", "I")]),
    "matrix_scalar_add": ("M", [("a", "I"), ("matrix_x", "M")]),
    "matrix_scalar_sub": ("M", [("a", "I"), ("matrix_x", "M")]),
    "matrix_selection_two_args": ("M", [("matrix_x", "M"), ("matrix_y", "M"), ("select_two_args_arg", III)]),
    "matrix_transpose": ("M", [("matrix", "M")]), "matrix_vec_mul": ("L", [("matrix_x", "M"), ("x", "L")]),
    "reduce_max": ("I", [("x", "L")]), "reduce_mul": ("I", [("x", "L")]), "reduce_sum": ("I", [("x", "L")]),
    "scalar_vec_sub": ("L", [("a", "I"), ("x", "L")]),
    "selection_two_args": ("L", [("x", "L"), ("y", "L"), ("select_two_args_arg", III)]),
    "vec_elemwise_add": ("L", [("x", "L"), ("y", "L")]), "vec_elemwise_sub": ("L", [("x", "L"), ("y", "L")]),
    "vec_elemwise_mul": ("L", [("x", "L"), ("y", "L")]),
    "vec_map": ("L", [("x", "L"), ("map_int_to_int", II)]), "vec_scalar_add": ("L", [("a", "I"), ("x", "L")]),
    "vec_scalar_mul": ("L", [("a", "I"), ("x", "L")]), "vec_scalar_sub": ("L", [("a", "I"), ("x", "L")]),
    "vec_slice": ("L", [("lst", "L"), ("start", "I"), ("end", "I")]),
}
NAMES = ["a", "b", "base", "active", "opacity", "row", "col", "x", "y", "out", "i", "n", "z_1", "A", "agg.result".replace(".", "_")]
FN = ["f", "g", "invariant", "invariant1", "invariant2", "normal_blend", "aux"]


class G:
    hof = False     # more calls that pass functions

    def __init__(self, draw, sigs, kw=True):
        self.draw, self.sigs, self.kw = draw, sigs, kw

    def pick(self, n):
        return self.draw(st.integers(0, n - 1))

    def one(self, xs):
        return xs[self.pick(len(xs))]

    def idx(self, vs, d):
        k = self.pick(6)
        if k < 3:
            return str(self.pick(3))
        iv = [v for v, t in vs if t == "I"]
        r = self.one(iv) if iv and k < 5 else self.e("I", vs, min(d - 1, 1))
        return "0" if r.startswith("(-") else r

    def lam(self, t, vs, d):
        if self.pick(6) == 0:  # by name
            named = ["integer_exp"] * (t == II) + [n for n, r, ps in self.sigs if r == "I" and [x for _, x in ps] == t[1] and ps == sorted(ps)]
            if named:
                return self.one(named)
        ps = self.draw(st.lists(st.sampled_from(["p", "q", "px", "py"] + [v for v, _ in vs[:1]]), min_size=len(t[1]), max_size=len(t[1]), unique=True))
        inner = [v for v in vs if v[0] not in ps] + [(p, "I") for p in ps] * 2
        return f"(lambda {', '.join(ps)}: {self.e('I', inner, min(d, 2))})"

    def call(self, f, ps, vs, d):
        args = [self.lam(t, vs, d) if isinstance(t, tuple) else self.e(t, vs, d - 1) for _, t in ps]
        if self.kw and self.pick(6) == 0:
            k = self.pick(len(ps) + 1)
            named = self.draw(st.permutations([f"{n}={a}" for (n, _), a in zip(ps[k:], args[k:])]))
            args = args[:k] + list(named)
        return f"{f}({', '.join(args)})"

    def e(self, t, vs, d):
        p = self.pick
        e = self.e
        own = [v for v, vt in vs if vt == t]
        leaf = d <= 0 or p(6) == 0
        if leaf and own and p(5):
            return self.one(own)
        if leaf:
            if t == "I":
                k = p(6)
                return f"(-{p(4)})" if k == 0 else str(self.one([0, 1, 2, 3, 5, 32, 255])) if k < 5 else "len(%s)" % self.one([v for v, vt in vs if vt in "LM"] or ["[1]"])
            if t == "B":
                return self.one(["True", "False"]) if p(3) == 0 else f"({e('I', vs, 0)} {self.one(['<', '<=', '>', '>=', '==', '!='])} {e('I', vs, 0)})"
            if t == "L":
                return self.one(["[]"] + ["[1]", "[0, 2]", "[3, 1, 2]"] * 3) if p(2) else f"[{e('I', vs, 0)}]"
            return self.one(["[]"] + ["[[1, 2]]", "[[0], [4]]"] * 4)
        if self.hof and t in "LM" and p(2):
            f = self.one([n for n in sorted(DSL) if DSL[n][0] == t and any(isinstance(x, tuple) for _, x in DSL[n][1])])
            return self.call(f, DSL[f][1], vs, d)
        k = p(12)
        if k == 0:
            return f"({e(t, vs, d - 1)} if {e('B', vs, d - 1)} else {e(t, vs, d - 1)})"
        if k == 1:
            cands = [s for s in self.sigs if s[1] == t]
            if cands:
                s = self.one(cands)
                return self.call(s[0], s[2], vs, d)
        if t == "I":
            if k < 6:
                op = self.one(["+", "-", "*", "+", "-", "*", "//", "%"])
                b = e("I", vs, d - 1) if op in "+-*" else str(1 + p(5))
                return f"({e('I', vs, d - 1)} {op} {b})"
            if k == 6:
                return f"(-{e('I', vs, d - 1)})"
            if k == 7:
                return f"len({e(self.one('LM'), vs, d - 1)})"
            if k < 10:
                return f"{e('L', vs, d - 1)}[{self.idx(vs, d)}]" if p(2) else f"{e('M', vs, d - 1)}[{self.idx(vs, d)}][{self.idx(vs, d)}]"
        elif t == "B":
            if k < 5:
                n = 1 + (p(4) == 0) + (p(8) == 0)
                r = e("I", vs, d - 1)
                for _ in range(n):
                    r += f" {self.one(['<', '<=', '>', '>=', '==', '!='])} {e('I', vs, d - 1)}"
                return f"({r})"
            if k < 7:
                q = self.one("LLMB")
                return f"({e(q, vs, d - 1)} == {e(q, vs, d - 1)})"
            op = self.one(["and", "or"])
            return "(" + f" {op} ".join(e("B", vs, d - 1) for _ in range(2 + (p(4) == 0))) + ")"
        else:
            if k < 5:
                b = e(t, vs, d - 1)
                k2 = p(3)
                return f"{b}[{self.idx(vs, d)}:]" if k2 == 0 else f"{b}[:{self.idx(vs, d)}]" if k2 == 1 else f"{b}[{self.idx(vs, d)}:{self.idx(vs, d)}]"
            if k == 5:
                return f"[{', '.join(e('I' if t == 'L' else 'L', vs, d - 1) for _ in range(1 + p(3)))}]"
            if t == "L" and k == 6:
                return f"({e('L', vs, d - 1)} + {e('L', vs, d - 1)})"
            if t == "L" and k == 7:
                return f"{e('M', vs, d - 1)}[{self.idx(vs, d)}]"
        f = self.one([n for n in sorted(DSL) if DSL[n][0] == t] or [None])
        return self.call(f, DSL[f][1], vs, d) if f else f"({e('I', vs, d - 1)} < {e('I', vs, d - 1)})"


def params(draw):
    n = draw(st.integers(1, 4))
    ns = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True))
    return [(x, draw(st.sampled_from("IIBLLM"))) for x in ns]


def text(f):
    ps = ", ".join(f"{n}: {TY[t]}" for n, t in f["ps"])
    head = f"def {f['name']}({ps}) -> {TY[f['ret']]}:"
    b = f["body"]
    if f.get("tidy"):
        b = ast.unparse(ast.parse(b, mode="eval"))
    body = [f"{f['var']} = {b}", f"return {f['var']}"] if f.get("var") else [f"return {b}"]
    if f.get("doc") == 1:
        body = ['"""a docstring: return 0"""'] + body
    elif f.get("doc") == 2:
        body[-1] += "  # and (a comment"
    return "\n".join([head] + ["    " + x for x in body]) + "\n"


@st.composite
def program(draw, kw=True, depth=3, apart=False):
    sigs, fns = [], []
    for nm in draw(st.lists(st.sampled_from(FN), min_size=1, max_size=3, unique=True)):
        ps = params(draw)
        ret = draw(st.sampled_from("IBLM"))
        g = G(draw, sigs, kw)
        g.hof = draw(st.integers(0, 3)) == 3
        body = g.e(ret, ps, depth)
        if g.pick(5) == 0:
            lv = [v for v, t in ps if t == "L"]
            if lv and ret in "IL":
                v = lv[0]
                rest = [f"{v}[1:]" if n == v else n for n, _ in ps]
                rec = f"{nm}({', '.join(rest)})"
                body = f"({body} if len({v}) < 1 else ({e1(g, ret, ps)} + {rec}))"
        f = dict(name=nm, ps=ps, ret=ret, body=body, tidy=draw(st.booleans()), doc=draw(st.integers(0, 4)),
                 var=draw(st.sampled_from([None, None, "result", "ret"])))
        fns.append(f)
        if not apart:
            sigs.append((nm, ret, ps))
    order = draw(st.permutations(range(len(fns))))
    return [fns[i] for i in order]


def e1(g, ret, ps):
    return g.e(ret, ps, 1)


@st.composite
def rows(draw, fns, n=6):
    r = {}
    i = st.integers(-1, 4) if draw(st.integers(0, 2)) else st.integers(-40, 300)
    for f in fns:
        rs = []
        for _ in range(n):
            w = draw(st.integers(1, 3))
            row = {}
            for nm, t in f["ps"]:
                row[nm] = draw({"I": i, "B": st.booleans(), "L": st.lists(i, max_size=4),
                                "M": st.lists(st.lists(i, min_size=w, max_size=w), max_size=3)}[t])
            rs.append(row)
        r[f["name"]] = rs
    return r


@st.composite
def case(draw):
    split = draw(st.integers(0, 3)) == 0
    fns = draw(program(apart=split))
    return dict(fns=fns, rows=draw(rows(fns)), split=split)


# ---- reading and running -------------------------------------------------------------------------
def read(code, n, ctx=None, lib=None):
    """-> (names, definitions, in_calls) or the exception"""
    P, _, dsl, _ = parser()
    l, a = ctx or ({}, {})
    try:
        return P.check_solution(solution=code, expected_num_funcs=n, dsl_code=lib or dsl, lambda_exprs=l, arg_name_to_count=a)
    except Exception as e:
        return e


def topy(v):
    if isinstance(v, bool) or isinstance(v, int):
        return v
    if isinstance(v, tuple):
        return [topy(x) for x in v]
    raise Discard("odd value")


def fromjs(v):
    return tuple(fromjs(x) for x in v) if isinstance(v, list) else v


def interp(decls):
    """definitions -> function table for the reference; function arguments are inlined where they are used"""
    from metalift import ir as I

    _, _, _, ns = parser()
    table, lams = {}, {}
    for d in decls:
        if not isinstance(d, (I.FnDecl, I.FnDeclRecursive)):
            raise Violation(f"{d!r} listed as a definition")
        if d.name() in lams and build.undecl(lams[d.name()]) != build.undecl(d):
            raise Violation(f"{d.name()} names both {lams[d.name()]} and {d}")
        lams[d.name()] = d

    def inline(s):
        if not isinstance(s, list):
            return s
        if s and s[0] == "fnref":
            d = lams[s[1]]
            u = build.undecl(d)
            return ["lambda", u[2], inline(u[3])] + u[4:]
        return [inline(x) for x in s]

    for n, d in lams.items():
        u = build.undecl(d)
        table[n] = ([p[1] for p in u[4:]], inline(u[3]))

    def dslfn(f):
        def call(*args):
            def conv(a):
                if isinstance(a, ref.Closure):
                    return lambda *xs: ref.ev(a.body, {**a.env, **dict(zip(a.params, xs))}, table, ref.Fuel(5000))
                if isinstance(a, tuple) and a[:1] == ("fn",):
                    return lambda *xs: ref.ev(["call", a[1], "Int"] + [["lit", x, "Int"] for x in xs], {}, table, ref.Fuel(5000))
                return topy(a)
            try:
                return fromjs(f(*[conv(a) for a in args]))
            except (ref.Undef, KeyError):
                raise
            except Exception as e:
                raise ref.Hard(str(e))
        return call

    for n in set(DSL) - set(ref.LIB):
        table.setdefault(n, dslfn(ns[n]))
    return table


def compare(code, fns, rws, res, c):
    P, _, _, ns = parser()
    names, decls, in_calls = res
    env_ = dict(ns)
    try:
        exec("from typing import Any, Callable, List\n" + code, env_)
    except Exception as e:
        raise Discard(f"Python rejects it: {e}")
    if sorted(names) != sorted(f["name"] for f in fns):
        raise Violation(f"functions {names} read from\n{code}")
    table = interp(decls)
    byname = {d.name(): d for d in decls if hasattr(d, "arguments")}
    shown = 0
    for f in fns:
        d = byname.get(f["name"])
        if d is None:
            raise Violation(f"no definition of {f['name']} read from\n{code}")
        u = build.undecl(d)
        want_ps = sorted(n for n, _ in f["ps"])
        if sorted(p[1] for p in u[4:]) != want_ps or u[2] != IR[f["ret"]] or any(p[2] != IR[dict(f["ps"])[p[1]]] for p in u[4:]):
            raise Violation(f"signature of {f['name']} read as {u[4:]} -> {u[2]} from\n{code}")
        ok = 0
        for row in rws[f["name"]]:
            try:
                want = fromjs(env_[f["name"]](**row))
            except RecursionError:
                continue
            except Exception:
                continue
            try:
                got = ref.ev(["call", f["name"], u[2]] + [["var", p[1], p[2]] for p in u[4:]], {n: fromjs(v) for n, v in row.items()},
                             table, ref.Fuel(8000))
            except ref.Undef:
                continue
            except KeyError as e:
                raise Violation(f"{f['name']} has a {e} in\n{code}\nread as {d}")
            ok += 1
            if not ref.same(got, want):
                raise Violation(f"{f['name']}({row}) = {want} in\n{code}\nbut the definition read, {d}, gives {got}")
        shown = max(shown, ok)
    # every function argument is listed with its caller
    for d in decls:
        for caller, fn in calls_with_fns(d):
            if (caller, fn) not in in_calls:
                raise Violation(f"{fn} is passed to {caller} but not listed in {in_calls} for\n{code}")
            if fn not in byname and fn not in DSL:
                raise Violation(f"no definition of {fn}, passed to {caller}, in what was read from\n{code}")
    c.nontrivial(shown >= 2)
    return shown


IR = {"I": "Int", "B": "Bool", "L": ["List", "Int"], "M": ["List", ["List", "Int"]]}


def calls_with_fns(d):
    if not hasattr(d, "arguments"):
        return
    for s in ref.walk(build.undecl(d)[3]):
        if s[0] == "call":
            for a in s[3:]:
                if a[0] == "fnref" or a[0] == "var" and a[2][0] == "Fn":
                    yield s[1], a[1]


def check_case(case, c):
    fns = case["fns"]
    code = "\n".join(text(f) for f in fns)
    if case.get("split") and len(fns) > 1:  # a function and its invariants arrive one after the other
        ctx = ({}, {})
        parts = [read("\n".join(text(f) for f in p), len(p), ctx) for p in (fns[:1], fns[1:])]
        res = next((p for p in parts if isinstance(p, Exception)), None) or tuple(parts[0][i] + parts[1][i] for i in range(3))
        c.label("split")
    else:
        res = read(code, len(fns))
    if isinstance(res, Exception):
        if "[]" in code:
            raise Discard("the type of an empty list is not determined")
        raise Violation(f"rejected: {type(res).__name__}: {res}\n{code}")
    compare(code, fns, case["rows"], res, c)
    for k, w in (("lambda", "lambda"), ("==", "=="), ("conditional", " if "), ("slice", ":]"), ("keyword", "=(")):
        if w in code:
            c.label(k)


# ---- unsupported code ----------------------------------------------------------------------------
BAD_E = {
    "I": ["abs({I})", "max({I}, {I})", "sum({L})", "({I} ** 2)", "({I} & {I})", "({I} << 1)", "(~{I})", "(+{I})", "1.5", "({I} or {I})", "({I} and 1)",
          "{L}[-1]", "{L}[-2]", "{M}[-1][0]", "(lambda z: z + 1)({I})", "(w := {I})", "reduce_sum(x=[1], y=[2])", "reduce_sum()", "reduce_sum({L}, {L})",
          "reduce_sum(*[{L}])", "reduce_sum(**{{'x': {L}}})", "ite_int({B}, int_x={I})", "{L}.count(1)", "{L}.index({I})", "unknown_fn({I})", "int({I})",
          "reduce_sum({M})", "vec_map({L}, lambda p: p)[0].real", "KONST", "len('abc')", "len(({I}, 1))", "reduce_sum", "(1, 2)[0]", "{{1: 2}}[1]",
          "(await {I})", "len(len({L}))", "len(*[{L}])", "({B} + {I})", "(-{B})", "None", "'s'", "matrix_vec_mul({L}, {M})[0]", "len({L}, {L})", "{L}.__len__()", "[{I}, {L}][0]"],
    "B": ["(not {B})", "({I} in {L})", "({I} is {I})", "({I} not in {L})", "({L} < {L})", "({L} != {L})", "({B} & {B})", "any([{B}])", "bool({I})",
          "({I} == {B})", "({L} == {I})", "({B} < {B})", "isinstance({I}, int)", "({B} != {B})", "({I} < {I} < {B})", "({L} == {M})"],
    "L": ["[q for q in {L}]", "[q + 1 for q in {L} if q > 0]", "list({L})", "sorted({L})", "{L}[::2]", "{L}[1:3:2]", "{L}[:]", "{L}[:-1]", "{L}[-2:]", "{L}[-1:]",
          "{L}[0:-1]", "[*{L}]", "[{I}, *{L}]", "({L} * 2)", "{L}.copy()", "vec_map({L}, abs)", "vec_map({L}, lambda *p: p[0])",
          "vec_map({L}, lambda p, q: p)", "vec_map({L}, lambda p, q=1: p + q)", "vec_map({L}, lambda *, p: p)", "list(map(lambda p: p, {L}))", "({L} + {M})", "{{1, 2}}", "({L} - {L})", "{L}[{L}]", "range(3)",
          "vec_map({L}, lambda p: [p])", "vec_map({L}, lambda p: p > 0)", "[KONST]"],
    "M": ["[[q] for q in {L}]", "({M} + {M})", "{M}[::2]", "{M}[:-1]", "[r[1:] for r in {M}]", "[{L}, *{M}]", "({M} * 2)", "{M}.copy()"],
}
BAD_S = [
    "    t = {R}\n    return {V}", "    t = {R}\n    return {V}",
    "    if {B}:\n        return {R}\n    return {R}", "    if {B}:\n        return {R}\n    else:\n        return {R}", "    for q in {L}:\n        return {R}",
    "    while {B}:\n        return {R}", "    t = {R}\n    u = t\n    return u", "    t = {R}\n    t = {R}\n    return t", "    t = {R}\n    return {R}",
    "    t = u = {R}\n    return t", "    t, u = {R}, 1\n    return t", "    pass\n    return {R}", "    t = {R}\n    u = {R}", "    t = {R}\n    t += {R}\n    return t",
    "    {R}\n    return {R}", "    def h(q: int) -> int:\n        return q\n    return {R}", "    assert {B}\n    return {R}", "    return", "    raise Exception('x')",
    "    yield {R}", "    pass", "    t = {R}\n    return t if {B} else t", "    global KONST\n    return {R}", "    try:\n        return {R}\n    except Exception:\n        return {R}",
    "    with open('x') as q:\n        return {R}", "    {R}", "    t = {R}", "    del {V}\n    return {R}", "    import os\n    return {R}", "    [0][0] = {R}\n    return [0]",
]
BAD_SIG = ["untyped", "unret", "optional", "extra", "missing", "star", "kwstar", "decorated", "async", "float", "any", "noargtypes", "class", "dsl"]


@st.composite
def bad(draw):
    fns = draw(program(depth=2))
    k = draw(st.integers(0, 9))
    i = draw(st.integers(0, len(fns) - 1))
    f = fns[i]
    g = G(draw, [])
    vs = f["ps"]
    sub = {t: g.e(t, vs, 1) for t in "IBLM"}
    sub.update({t: {"L": "[1, 2]", "M": "[[1], [2]]"}[t] for t in "LM" if "[]" in sub[t]})
    what = None
    if k < 6:
        t = draw(st.sampled_from("IIIBBLLM"))
        what = draw(st.sampled_from(BAD_E[t]))
        hole = what.format(**sub)
        w = {"I": {"I": "({0} + {1})", "B": "({0} > {1})", "L": "[{1}, {0}]", "M": "[[{0}]]"},
             "B": {"I": "(1 if {0} else {1})", "B": "({0} and {1})", "L": "({1} if {0} else [])", "M": "({1} if {0} else [])"},
             "L": {"I": "reduce_sum({0})", "B": "({0} == {1})", "L": "vec_elemwise_add({1}, {0})", "M": "[{0}]"},
             "M": {"I": "len({0})", "B": "({0} == {1})", "L": "firsts({0})", "M": "matrix_transpose({0})"}}[t][f["ret"]]
        other = g.e({"I": "I", "B": f["ret"] if f["ret"] != "B" else "B", "L": "L", "M": "M"}[t], vs, 1)
        f["body"] = w.format(hole, other) if draw(st.booleans()) or t != f["ret"] else hole
        f["tidy"] = False
        body = None
    elif k < 8:
        what = draw(st.sampled_from(BAD_S))
        body = what.format(R=g.e(f["ret"], vs, 1), V=vs[0][0], **sub)
    else:
        what = draw(st.sampled_from(BAD_SIG))
        body = None
    return dict(fns=fns, at=i, kind=k, what=what, stmts=body)


def bad_text(case):
    out = []
    n = len(case["fns"])
    for j, f in enumerate(case["fns"]):
        t = text(f)
        if j == case["at"]:
            head, rest = t.split("\n", 1)
            if case["stmts"] is not None:
                t = head + "\n" + case["stmts"] + "\n"
            elif case["kind"] >= 8:
                p0, t0 = f["ps"][0]
                w = case["what"]
                if w == "untyped":
                    head = head.replace(f"{p0}: {TY[t0]}", p0, 1)
                elif w == "noargtypes":
                    head = f"def {f['name']}({', '.join(p for p, _ in f['ps'])}) -> {TY[f['ret']]}:"
                elif w == "unret":
                    head = head[:head.index(" ->")] + ":"
                elif w == "optional":
                    head = head.replace(f"{p0}: {TY[t0]}", f"{p0}: 'Optional[{TY[t0]}]'", 1)
                elif w == "float":
                    head = head[:head.index(" ->")] + " -> float:"
                elif w == "any":
                    head = head.replace(f"{p0}: {TY[t0]}", f"{p0}: Any", 1)
                elif w == "star":
                    head = head.replace(f"{p0}: {TY[t0]}", f"*{p0}: {TY[t0]}", 1) if len(f["ps"]) == 1 else head.replace("):", ")", 1).replace(") ->", ", *args: int) ->")
                elif w == "kwstar":
                    head = head.replace(") ->", ", **kwargs: int) ->")
                elif w == "decorated":
                    head = "def deco(q: Any) -> Any:\n    return q\n@deco\n" + head
                elif w == "async":
                    head = "async " + head
                elif w == "extra":
                    rest += "\ndef more(q: int) -> int:\n    return q\n"
                elif w == "missing":
                    n += 1
                elif w == "class":
                    head, rest = "", "class K:\n" + "\n".join("    " + x for x in t.splitlines()) + "\n"
                elif w == "dsl":
                    head = head.replace(f"def {f['name']}(", "def reduce_sum(", 1)
                t = head + "\n" + rest
        out.append(t)
    return "KONST = 3\n" + "\n".join(out), n


def check_bad(case, c):
    code, n = bad_text(case)
    res = read(code, n)
    c.nontrivial()
    c.label(str(case["what"])[:40])
    if not isinstance(res, Exception):
        raise Violation(f"`{case['what']}` accepted in\n{code}\nread as {[str(d) for d in res[1]]}")


# ---- unwrapping answers --------------------------------------------------------------------------
@st.composite
def wrapped(draw):
    fns = draw(program(kw=False, depth=3))
    for f in fns:
        f["doc"] = 0
        f["var"] = None
        f["tidy"] = True
    blocks = draw(st.lists(st.tuples(st.sampled_from(["", "python", "Python"]), st.sampled_from(["\n", " \n", "\n\n"]),
                                     st.sampled_from(["Here it is:\n", "", "Sure!\n\n"])), min_size=len(fns), max_size=len(fns)))
    seed = draw(st.integers(0, 7))
    return dict(fns=fns, rows=draw(rows(fns, 4)), blocks=[list(b) for b in blocks], seed=seed)


class ToIte(ast.NodeTransformer):
    def __init__(self, seed):
        self.seed, self.n = seed, 0

    def visit_IfExp(self, node):
        self.generic_visit(node)
        self.n += 1
        if (self.seed + self.n) % 3 == 0:
            return node
        return ast.Call(ast.Name("ite"), [node.test, node.body, node.orelse], [])


def check_wrapped(case, c):
    _, U, _, _ = parser()
    fns = case["fns"]
    texts, tr = [], ToIte(case["seed"])
    for f in fns:
        texts.append(ast.unparse(ast.fix_missing_locations(tr.visit(ast.parse(text(f))))) + "\n")
    answer = "".join(f"{pre}```{lang}{nl}{t}```\nwhich works.\n" for t, (lang, nl, pre) in zip(texts, case["blocks"]))
    with sut("extract_all_python_functions"):
        got = U.extract_all_python_functions(answer)
    if [g.strip() for g in got] != [t.strip() for t in texts]:
        raise Violation(f"extracted {got} from\n{answer}")
    with sut("replace_ite"):
        code = "\n\n".join(U.replace_ite(g) for g in got)
    code1 = "\n".join(text(f) for f in fns)
    try:
        same = ast.dump(ast.parse(code)) == ast.dump(ast.parse(code1))
    except SyntaxError as e:
        raise Violation(f"replace_ite gives invalid code ({e}):\n{code}\nfrom\n{answer}")
    if not same:
        raise Violation(f"replace_ite gives\n{code}\nfrom\n{answer}")
    c.nontrivial("ite(" in answer.replace("ite_int", ""))


SUBS = [Sub("solutions", case, check_case, 1600, 30000),
        Sub("unsupported", bad, check_bad, 1600, 20000),
        Sub("answers", wrapped, check_wrapped, 500, 8000)]
