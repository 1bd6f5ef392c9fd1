"""Equality, hashing, copying, mapping and substitution of expressions are structural."""
import copy

from hypothesis import strategies as st

from metalift import ir as I

from .. import build, gens, ref
from ..runner import Discard, Sub, Violation, sut

PROPERTY = "C12"
RULE = ("pairs of expressions (rebuilt copy / one-site mutation of a name, type, literal, operator, argument order or arity / independent) "
        "compared against equality of their specs; mapping, rewriting, common-expression extraction and replacement compared with the same "
        "operation done on the spec, the input checked unchanged")
ASSUMPTIONS = ["substitution keys are not bound inside the expression (the IR substitutes by name)",
               "NonTerm, Target and TargetCall are outside mapping (documented helpers for old grammars)"]

O = gens.Opts(lets=True, nested=True)


def key(s):
    """structure+types, distinguishing booleans from integers"""
    if isinstance(s, bool):
        return ("b", s)
    if isinstance(s, list):
        return tuple(key(x) for x in s)
    return s


# ---- wider expression specs: typed_expr plus Choose, CallValue, TupleGet, Lambda, declarations ---------

@st.composite
def wide(draw, vs=None, depth=None):
    e, vs, t = draw(gens.typed_expr(O, vs=vs, depth=depth))
    k = draw(st.integers(0, 11))
    if k == 0:
        e = ["choose"] + [draw(gens.typed_expr(O, t=t, vs=vs, depth=2))[0] for _ in range(draw(st.integers(0, 3)))] + [e]
    elif k == 1:
        a = draw(gens.typed_expr(O, vs=vs, depth=1))
        e = ["callv", ["var", draw(st.sampled_from(["f", "g"])), ["Fn", [t, a[2], t]]], a[0], e]
    elif k == 2:
        e = ["lambda", t, e] + [["var", x, draw(st.sampled_from(["Int", "Bool"]))] for x in draw(gens.var_names(2))]
        t = ["Fn", [t] + [p[2] for p in e[3:]]]
    elif k == 3:
        a = draw(gens.typed_expr(O, vs=vs, depth=1))
        e = ["tget2", ["tuple", e, a[0]], ["lit", draw(st.integers(0, 1)), "Int"]]
        t = t if e[2][1] == 0 else a[2]
    elif k in (4, 5, 6):
        e = [["fndecl", "recdecl", "axiom"][k - 4], "fn", t, e] + list(vs)
        if k == 6:
            b = draw(gens.typed_expr(O, t="Bool", vs=vs, depth=2))[0]
            e = ["axiom", "", "Bool", b] + list(vs)
        t = None
    return e, vs, t


def mkx(s):
    if s[0] == "tget2":
        return I.TupleGet(mkx(s[1]), mkx(s[2]))
    if s[0] in ("fndecl", "recdecl"):
        return (I.FnDecl if s[0] == "fndecl" else I.FnDeclRecursive)(s[1], build.ty(s[2]), mkx(s[3]), *[mkx(p) for p in s[4:]])
    if s[0] == "axiom":
        return I.Axiom(mkx(s[3]), *[mkx(p) for p in s[4:]])
    return build.expr(s)


def spx(e):
    """back to a spec, class by class (no conflation of make-tuple/TupleExpr, ite/Ite)"""
    if isinstance(e, I.Object):
        e = e.src
    if isinstance(e, I.Axiom):
        return ["axiom", "", "Bool"] + [spx(x) for x in e.args]
    if isinstance(e, (I.FnDecl, I.FnDeclRecursive)):
        return ["recdecl" if isinstance(e, I.FnDeclRecursive) else "fndecl", e.name(), build.unty(e.return_type())] + [
            spx(x) for x in e.args[1:]]
    if isinstance(e, I.TupleGet):
        return ["tget2"] + [spx(x) for x in e.args]
    if isinstance(e, I.Lambda):
        return ["lambda", build.unty(e.type)[1][0]] + [spx(x) for x in e.args]
    if isinstance(e, I.Var):
        return ["var", e.args[0], build.unty(e.type)]
    if isinstance(e, I.Lit):
        return ["lit", e.args[0], build.unty(e.type)]
    if isinstance(e, I.CallValue):
        return ["callv"] + [spx(x) for x in e.args]
    if isinstance(e, I.Call):
        if e.args[0] == "tupleGet":
            return ["tget"] + [spx(x) for x in e.args[1:]]
        return ["call", e.args[0], build.unty(e.type)] + [spx(x) for x in e.args[1:]]
    if isinstance(e, I.TupleExpr):
        return ["tuple"] + [spx(x) for x in e.args]
    if isinstance(e, I.Let):
        return ["let"] + [spx(x) for x in e.args]
    if isinstance(e, I.Choose):
        return ["choose"] + [spx(x) for x in e.args]
    return [build.NAME[type(e)]] + [spx(x) for x in e.args]


HEAD = {"call": 3, "lambda": 2, "fndecl": 3, "recdecl": 3, "axiom": 3}


def kids(s):
    if s[0] in ("var", "lit", "fnref"):
        return []
    return list(range(HEAD.get(s[0], 1), len(s)))


def paths(s, p=()):
    yield p
    for i in kids(s):
        yield from paths(s[i], p + (i,))


def at(s, p):
    for i in p:
        s = s[i]
    return s


def put(s, p, x):
    if not p:
        return x
    s = list(s)
    s[p[0]] = put(s[p[0]], p[1:], x)
    return s


ARITH = ["add", "sub", "mul", "div", "mod"]
CMP = ["lt", "le", "gt", "ge"]
TT = ["Int", "Bool", ["List", "Int"], ["List", "Bool"], "Matrix", ["List", ["List", "Int"]], ["Set", "Int"], ["Tuple", ["Int", "Int"]]]


@st.composite
def mutation(draw, s):
    """one change at one site; may be ill-typed overall (equality does not care) - None if not applicable"""
    ps = list(paths(s))
    p = ps[draw(st.integers(0, len(ps) - 1))]
    n = at(s, p)
    k = n[0]
    if k == "var":
        m = draw(st.sampled_from([["var", n[1] + "_", n[2]], ["var", n[1], draw(st.sampled_from(TT))]]))
    elif k == "lit":
        m = ["lit", n[1] + 1, n[2]] if n[2] == "Int" else draw(st.sampled_from([["lit", not n[1], "Bool"], ["lit", int(n[1]), "Int"]]))
        if n[2] == "Int" and n[1] in (0, 1) and draw(st.booleans()):
            m = ["lit", bool(n[1]), "Bool"]
    elif k == "call":
        c = draw(st.integers(0, 2))
        m = ["call", n[1] + "2", n[2]] + n[3:] if c == 0 else ["call", n[1], draw(st.sampled_from(TT))] + n[3:] if c == 1 \
            else n[:3] + n[3:-1] if len(n) > 3 else n[:2] + [draw(st.sampled_from(TT))]
    elif k in ARITH and len(n) == 3:
        m = draw(st.sampled_from([[draw(st.sampled_from(ARITH))] + n[1:], [k] + n[:0:-1]]))
    elif k in CMP:
        m = draw(st.sampled_from([[draw(st.sampled_from(CMP))] + n[1:], [k] + n[:0:-1]]))
    elif k in ("and", "or"):
        m = draw(st.sampled_from([[{"and": "or", "or": "and"}[k]] + n[1:], [k] + n[:0:-1], n[:-1] if len(n) > 2 else n + [n[-1]],
                                  n + [n[-1]], [k, n[1], [k] + n[2:]] if len(n) > 3 else n + [n[1]]]))
    elif k in ("add", "mul") or k == "choose":
        m = draw(st.sampled_from([n + [n[-1]], [k] + n[:0:-1]]))
    elif k in ("eq", "implies"):
        m = [{"eq": "eq", "implies": "implies"}[k]] + n[:0:-1]
    elif k == "ite":
        m = ["ite", n[1], n[3], n[2]]
    elif k == "tget" or k == "tget2":
        m = [k, n[1], ["lit", 1 - n[2][1], "Int"]]
    elif k in ("fndecl", "recdecl"):
        m = draw(st.sampled_from([[{"fndecl": "recdecl", "recdecl": "fndecl"}[k]] + n[1:], [k, n[1] + "2"] + n[2:],
                                  [k, n[1], draw(st.sampled_from(TT))] + n[3:], n[:-1] if len(n) > 5 else n + [["var", "zz", "Int"]]]))
    elif k == "axiom":
        m = n[:-1] if len(n) > 5 else n + [["var", "zz", "Int"]]
    elif k == "lambda":
        m = n + [["var", "zz", "Int"]]
    elif k == "callv":
        m = n[:2] + n[2:][::-1]
    else:
        return None
    return put(s, p, m)


@st.composite
def eq_case(draw):
    e, vs, t = draw(wide())
    k = draw(st.integers(0, 4))
    if k == 0:
        return dict(a=e, b=e)
    if k == 1:
        return dict(a=e, b=draw(wide(vs=vs, depth=1))[0])
    m = draw(mutation(e))
    return dict(a=e, b=e if m is None else m)


def check_eq(case, c):
    sa, sb = case["a"], case["b"]
    with sut("building"):
        a = mkx(sa)
    try:
        b = mkx(sb)
    except Exception:  # an ill-typed mutation the constructors refuse
        raise Discard("not constructible")
    want = key(sa) == key(sb)
    ra, rb = repr(a), repr(b)
    with sut("=="):
        for x, y in ((a, b), (b, a)):
            if bool(x == y) is not want:
                raise Violation(f"{x!r} == {y!r} is {x == y}; structurally {'equal' if want else 'different'}: {sa} {sb}")
            if bool(x != y) is want:
                raise Violation(f"{x!r} != {y!r} is {x != y}; structurally {'equal' if want else 'different'}")
        if want and hash(a) != hash(b):
            raise Violation(f"equal expressions hash differently: {a!r}")
        if len({a, b}) != (1 if want else 2) or ((b in {a: 1}) is not want):
            raise Violation(f"as set members / dictionary keys {a!r} and {b!r} are {'different' if want else 'the same'}")
    if sa[0] not in ("fndecl", "recdecl", "axiom", "lambda", "callv", "choose", "tget2") and sb[0] not in (
            "fndecl", "recdecl", "axiom", "lambda", "callv", "choose", "tget2"):
        with sut("objects"):
            oa, ob = I.create_object(a.type, a), I.create_object(b.type, b)
            wa, wb = I.ObjectWrapper(oa), I.ObjectWrapper(ob)
            if (wa == wb) is not want or (want and hash(wa) != hash(wb)):
                raise Violation(f"wrapped objects of {a!r} and {b!r} compare {'different' if want else 'equal'}")
    if key(spx(a)) != key(sa) or repr(a) != ra or repr(b) != rb:
        raise Violation(f"comparing or building changed {sa} to {spx(a)}")
    for cp in (copy.deepcopy, copy.copy):
        with sut("copy"):
            d = cp(a)
        if not (d == a) or key(spx(d)) != key(sa) or hash(d) != hash(a):
            raise Violation(f"the copy of {a!r} is {d!r}")
    with sut("deepcopy"):
        d = copy.deepcopy(a)
        for n in nodes(d):
            if isinstance(n, I.Var):
                n.set_name("changed")
            elif isinstance(n, (I.FnDecl, I.FnDeclRecursive)):
                n.set_name("changed")
    if key(spx(a)) != key(sa):
        raise Violation(f"renaming inside a deep copy changed the original {ra} to {a!r}")
    if not want or len(list(paths(sa))) > 3:
        c.nontrivial()
    c.label("equal" if want else "different", sa[0])


def nodes(e):
    yield e
    for a in e.args:
        if isinstance(a, I.Expr):
            yield from nodes(a)


# ---- map_args / rewrite ------------------------------------------------------------------------------

@st.composite
def map_case(draw):
    vs = [["var", a, t] for a, t in zip(draw(gens.var_names(4)), draw(st.permutations(["Int", "Bool", ["List", "Int"], "Matrix"])))]
    e, vs, t = draw(wide(vs=vs))
    names = sorted({at(e, p)[1] for p in paths(e) if at(e, p)[0] == "var"})
    bound = {at(e, p)[1][1] for p in paths(e) if at(e, p)[0] == "let"} | {x[1] for p in paths(e) for x in at(e, p)[3:] if at(e, p)[0] == "lambda"}
    if e[0] in ("fndecl", "recdecl", "axiom"):
        bound |= {x[1] for x in e[4:]}
    free = [n for n in names if n not in bound]
    m = {}
    for n in free:
        if draw(st.integers(0, 4)):
            tys = [at(e, p)[2] for p in paths(e) if at(e, p)[0] == "var" and at(e, p)[1] == n]
            if isinstance(tys[0], list) and tys[0][0] == "Fn":
                continue
            m[n] = draw(gens.typed_expr(O, t=tys[0], vs=vs, depth=draw(st.integers(0, 2))))[0]
    m["unused_name"] = ["lit", 1, "Int"]
    return dict(e=e, m=m, k=draw(st.integers(0, 5)))


def subst(s, m):
    if s[0] == "var":
        return m.get(s[1], s)
    if s[0] in ("lit", "fnref"):
        return s
    h = HEAD.get(s[0], 1)
    return s[:h] + [subst(x, m) for x in s[h:]]


def check_map(case, c):
    s = case["e"]
    with sut("building"):
        e = mkx(s)
        m = {k: mkx(v) for k, v in case["m"].items()}
    before = repr(e)
    with sut("map_args"):
        seen = []
        ident = e.map_args(lambda a: (seen.append(a), a)[1])
    if key(spx(ident)) != key(s) or type(ident) is not type(e):
        raise Violation(f"mapping the identity over {e!r} gives {ident!r}")
    children = [a for a in e.args if isinstance(a, I.Expr)]
    if {id(x) for x in seen if isinstance(x, I.Expr)} != {id(x) for x in children}:
        raise Violation(f"mapping over {e!r} visits {seen!r}")
    if children:  # replace exactly one child
        ks = kids(s)
        i = case["k"] % len(ks)
        probe = ["add", s[ks[i]], ["lit", 0, "Int"]] if s[0] in build.BIN or s[0] == "call" else None
        try:
            pe = mkx(probe) if probe else None
        except Exception:
            pe = None
        if pe is not None:
            want = s[:ks[i]] + [probe] + s[ks[i] + 1:]
            try:
                mkx(want)
                ok = True
            except Exception:
                ok = False
            if ok and sum(1 for x in children if x is children[i]) == 1:
                with sut("map_args"):
                    got = e.map_args(lambda a: pe if a is children[i] else a)
                if key(spx(got)) != key(want):
                    raise Violation(f"replacing argument {i} of {e!r} gives {got!r}")
    with sut("rewrite"):
        r = e.rewrite(m)
    want = subst(s, case["m"])
    if key(spx(r)) != key(want):
        raise Violation(f"rewriting {e!r} with {m} gives {r!r}, expected {mkx(want)!r}")
    counts = {}
    with sut("count_variable_uses"):
        e.count_variable_uses(counts)
    wc = {}
    for p in paths(s):
        if at(s, p)[0] == "var":
            wc[at(s, p)[1]] = wc.get(at(s, p)[1], 0) + 1
    if counts != wc:
        raise Violation(f"variable uses of {e!r} are counted as {counts}, expected {wc}")
    with sut("rewrite nothing"):
        r0 = e.rewrite({})
    if key(spx(r0)) != key(s):
        raise Violation(f"rewriting nothing in {e!r} gives {r0!r}")
    if repr(e) != before or key(spx(e)) != key(s):
        raise Violation(f"mapping changed its input from {before} to {e!r}")
    if len(m) > 1:
        c.nontrivial()
    c.label(s[0])


# ---- common expressions ------------------------------------------------------------------------------

@st.composite
def common_case(draw):
    vs = draw(gens.signature(O, 3))
    pool = [draw(gens.typed_expr(O, vs=vs, depth=2)) for _ in range(3)]
    e, _, t = draw(gens.typed_expr(O, vs=vs, depth=3))
    # plant repeated sub-expressions
    for _ in range(draw(st.integers(0, 4))):
        ps = [p for p in paths(e) if at(e, p)[0] not in ("var",) or True]
        p = ps[draw(st.integers(0, len(ps) - 1))]
        x = pool[draw(st.integers(0, 2))]
        try:
            if build.typ(at(e, p)) == x[2] and not (p and at(e, p[:-1])[0] in ("let", "tget")):
                e = put(e, p, x[0] if draw(st.booleans()) else ["choose", x[0], at(e, p)])
        except (ValueError, IndexError, KeyError, TypeError):
            pass
    ps = list(paths(e))
    chosen = [at(e, ps[draw(st.integers(0, len(ps) - 1))]) for _ in range(draw(st.integers(0, 3)))]
    return dict(e=e, commons=chosen, skip=draw(st.booleans()), smt=draw(st.booleans()))


def check_common(case, c):
    s = case["e"]
    with sut("building"):
        e = build.expr(s)
    before = repr(e)
    with sut("findCommonExprs"):
        cnts = I.Expr.findCommonExprs(e, [])
    got = [key(spx(x)) for x, n in cnts]
    want = {key(at(s, p)) for p in paths(s)}
    if len(set(got)) != len(got) or set(got) != want:
        raise Violation(f"the distinct sub-expressions of {e!r} are listed as {[x for x, n in cnts]}")
    occ = {}

    def count(x):
        k = key(x)
        occ[k] = occ.get(k, 0) + 1
        if occ[k] == 1:
            for i in kids(x):
                count(x[i])
    count(s)
    for x, n in cnts:
        if (n > 1) != (occ[key(spx(x))] > 1):
            raise Violation(f"{x!r} is counted {n} times in {e!r}")
    cs, ck = [], []
    for x in case["commons"]:
        if key(x) not in ck and not any(at(s, p)[0] in ("let", "tget") and key(x) in (key(at(s, p)[1]), key(at(s, p)[-1])) for p in paths(s)):
            ck.append(key(x))
            cs.append(build.expr(x))
    mode = I.PrintMode.SMT if case["smt"] else I.PrintMode.Rosette

    def repl(x, top):
        k = key(x)
        if k in ck and not top:
            i = ck.index(k)
            return ["var", f"v{i}" if case["smt"] else f"(v{i})", build.unty(cs[i].type)]
        if x[0] in ("var", "lit"):
            return x
        return x[:HEAD.get(x[0], 1)] + [repl(y, False) for y in x[HEAD.get(x[0], 1):]]
    want = repl(s, case["skip"])
    with sut("replaceExprs"):
        r = I.Expr.replaceExprs(e, cs, mode, skipTop=case["skip"])
    if key(spx(r)) != key(want):
        raise Violation(f"replacing {cs} in {e!r} gives {r!r}")
    if repr(e) != before or [key(spx(x)) for x in cs] != ck:
        raise Violation(f"replacing common expressions changed its input {before} to {e!r}")
    if len(ck) and key(want) != key(s):
        c.nontrivial()


# ---- operators of raw expressions, arbitrary choices ---------------------------------------------------

@st.composite
def raw_case(draw):
    vs = [["var", x, "Int"] for x in ("x", "y", "z")]
    o = gens.Opts(lets=False, lists=False, matrix=False, sets=False, tuples=False, tensor=False, divmod=False)
    es = [draw(gens.typed_expr(o, t="Int", vs=vs, depth=1))[0] for _ in range(draw(st.integers(2, 5)))]
    ch = draw(nested_choice(es))
    return dict(es=es, ops=[draw(st.sampled_from("+-*")) for _ in es[1:]], left=draw(st.booleans()), choice=ch,
                envs=[{v[1]: draw(st.integers(-5, 7)) for v in vs} for _ in range(3)])


@st.composite
def nested_choice(draw, es, depth=3):
    k = draw(st.integers(0, 3)) if depth else 0
    if k == 0:
        return draw(st.sampled_from(es))
    if k == 1:
        return ["add", draw(nested_choice(es, depth - 1)), draw(nested_choice(es, depth - 1))]
    return ["choose"] + [draw(nested_choice(es, depth - 1)) for _ in range(k)]


OPF = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b}


def first(s):
    if s[0] == "choose":
        return first(s[1])
    if s[0] in ("var", "lit"):
        return s
    return [s[0]] + [first(x) for x in s[1:]]


def check_raw(case, c):
    with sut("operators"):
        es = [build.expr(s) for s in case["es"]]
        acc = es[0]
        for e, o in zip(es[1:], case["ops"]):
            acc = OPF[o](acc, e) if case["left"] else OPF[o](e, acc)
    for env in case["envs"]:
        vals = [ref.ev(s, env) for s in case["es"]]
        w = vals[0]
        for v, o in zip(vals[1:], case["ops"]):
            w = OPF[o](w, v) if case["left"] else OPF[o](v, w)
        got = ref.ev(build.spec(acc), env)
        if got != w:
            raise Violation(f"the operators {case['ops']} on {es} build {acc!r} = {got}, expected {w}")
    for s, e in zip(case["es"], es):
        if key(spx(e)) != key(s):
            raise Violation(f"an operator changed its operand {s} to {e!r}")
    with sut("chooseArbitrarily"):
        x = build.expr(case["choice"])
        y = x.chooseArbitrarily()
    sy = spx(y)
    if any(at(sy, p)[0] == "choose" for p in paths(sy)):
        raise Violation(f"choosing arbitrarily in {x!r} leaves a choice: {y!r}")
    if not derivable(case["choice"], sy):
        raise Violation(f"{y!r} is not one of the choices of {x!r}")
    if key(spx(x)) != key(case["choice"]):
        raise Violation("choosing changed the expression")
    c.nontrivial(len(es) > 2)


def derivable(s, x):
    if s[0] == "choose":
        return any(derivable(a, x) for a in s[1:])
    if s[0] in ("var", "lit"):
        return key(s) == key(x)
    return s[0] == x[0] and len(s) == len(x) and all(derivable(a, b) for a, b in zip(s[1:], x[1:]))


SUBS = [
    Sub("eq", eq_case, check_eq, 5000, 120000, rule="non-trivial: structurally different, or equal with >3 nodes"),
    Sub("map", map_case, check_map, 4000, 80000, rule="non-trivial: at least one variable substituted"),
    Sub("common", common_case, check_common, 3000, 60000, rule="non-trivial: at least one sub-expression replaced"),
    Sub("raw", raw_case, check_raw, 1500, 30000, rule="non-trivial: three or more operands"),
]
