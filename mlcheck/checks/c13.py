"""Simplification and equality optimisation of verification conditions preserve validity / values."""
import z3
from hypothesis import strategies as st

from metalift import ir as I

from .. import build, gens, ref
from ..runner import Discard, Sub, Violation, sut

PROPERTY = "C13"
RULE = ("(value) typed expressions with literals planted in conjunctions: simplify() keeps the value in every environment; "
        "(vc) conditions of the shape front ends and drivers produce (conjunctions of implications with equalities, nested "
        "implications, invariant calls): after simplify and after the equality optimisation run to its fixpoint, validity is "
        "compared by exhaustive small assignments and, where these do not decide, by an independent translation to z3")
ASSUMPTIONS = ["vc sub-check: linear integer/boolean conditions; z3 (Python API, own translation) decides validity when sampling does not"]

O = gens.Opts(lets=True, nested=True)


def plant(draw, s):
    """conjunctions with literals, nested and repeated"""
    if s[0] in ("var", "lit"):
        return s
    h = {"call": 3}.get(s[0], 1)
    s = s[:h] + [plant(draw, x) if not (s[0] == "let" and i == 0) and not (s[0] == "tget" and i == 1) else x
                 for i, x in enumerate(s[h:])]
    t = build.typ(s)
    if t == "Bool" and draw(st.integers(0, 3)) == 0:
        args = [s] + [["lit", draw(st.sampled_from([True, True, False])), "Bool"] for _ in range(draw(st.integers(0, 2)))]
        if draw(st.booleans()):
            args = args[::-1]
        s = ["and"] + args
    return s


@st.composite
def value_case(draw):
    e, vs, t = draw(gens.typed_expr(O, t=draw(st.sampled_from(["Bool", "Bool", "Int", ["List", "Int"]]))))
    e = plant(draw, e)
    return dict(e=e, vars=vs, envs=draw(gens.envs(vs, 4)))


def check_value(case, c):
    with sut("building"):
        e = build.expr(case["e"])
    before = repr(e)
    with sut("simplify"):
        r = e.simplify()
        r2 = r.simplify()
    s = build.spec(r)
    n = 0
    for env in case["envs"]:
        env = {k: ref.from_json(v) for k, v in env.items()}
        try:
            want = ref.ev(case["e"], env)
        except ref.Undef:
            continue
        n += 1
        for q, nm in ((s, "simplified"), (build.spec(r2), "twice simplified")):
            try:
                got = ref.ev(q, env)
            except ref.Undef as u:
                raise Violation(f"the {nm} expression has no value ({u}): {e!r} -> {r!r} at {env}")
            if not ref.same(got, want):
                raise Violation(f"{e!r} means {want!r} but its simplification {r!r} means {got!r} at {env}")
    if build.unty(r.type) != build.unty(e.type):
        raise Violation(f"simplification changed the type of {e!r} to {r.type}")
    if repr(e) != before or build.spec(e) != case["e"]:
        raise Violation(f"simplification changed its input {before} to {e!r}")
    if n and s != case["e"]:
        c.nontrivial()


# ---- verification conditions --------------------------------------------------------------------------

VS = ["x", "y", "z", "w", "x1", "n"]
BS = ["p", "q"]
DEFS = [
    None,
    {"inv0": (["a", "b"], ["le", ["var", "a", "Int"], ["var", "b", "Int"]]), "ps": (["a"], ["eq", ["var", "a", "Int"], ["lit", 1, "Int"]])},
    {"inv0": (["a", "b"], ["eq", ["var", "a", "Int"], ["var", "b", "Int"]]), "ps": (["a"], ["ge", ["var", "a", "Int"], ["lit", 0, "Int"]])},
]


@st.composite
def vc_case(draw):
    pick = lambda n: draw(st.integers(0, n - 1))
    ints = VS[:2 + pick(5)]
    focus = draw(st.sampled_from(["any", "any", "eqs", "chain"]))

    def v():
        return ["var", ints[pick(len(ints))], "Int"]

    def b():
        return ["var", BS[pick(2)], "Bool"]

    def term(d=1):
        k = pick(6)
        if k < 3 or d == 0:
            return v() if pick(4) else ["lit", pick(4) - 1, "Int"]
        if k < 5:
            return [["add", "sub"][pick(2)], term(d - 1), term(d - 1)]
        return ["mul", ["lit", 2, "Int"], term(d - 1)]

    def eq():
        k = pick(6)
        if k == 0:
            return ["eq", b(), atom(0)]
        if k == 1:
            return ["eq", v(), v()]
        x = ["eq", v(), term()]
        return x if pick(2) else [x[0], x[2], x[1]]

    def atom(d):
        k = pick(8)
        if k == 0:
            return b()
        if k == 1:
            return ["call", "inv0", "Bool", term(), term()]
        if k == 2:
            return ["call", "ps", "Bool", term()]
        if k < 5:
            return eq() if d else ["lt", v(), v()]
        return [["lt", "le", "gt", "ge"][pick(4)], v(), term()]

    def formula(d):
        k = pick(9)
        if d == 0 or k < 4:
            return atom(1)
        if k == 4:
            return ["not", formula(d - 1)]
        if k == 5:
            return ["or", formula(d - 1), formula(d - 1)]
        if k == 6:
            return ["and", formula(d - 1), formula(d - 1)]
        if k == 7:
            return ["ite", atom(0), formula(d - 1), formula(d - 1)]
        return ["implies", formula(d - 1), formula(d - 1)]

    def assertion():
        asm = [eq() if focus != "any" and pick(3) else formula(1) for _ in range(1 + pick(4))]
        if focus == "chain" and asm:
            # transitivity-style valid implications
            a, bb, cc = draw(st.permutations(ints + ["k1", "k2"]))[:3]
            V = lambda t: ["var", t, "Int"]
            asm += [["le", V(a), V(bb)], ["le", V(bb), V(a)], ["eq", V(a), V(cc)]]
            concl = draw(st.sampled_from([["eq", V(a), V(bb)], ["eq", V(bb), V(cc)], ["le", V(cc), V(bb)]]))
            asm = draw(st.permutations(asm))
        else:
            concl = formula(2)
        if pick(4) == 0 and len(asm) > 1:
            asm = [["and"] + asm[:1] + asm[1:]]
        h = ["and"] + asm if len(asm) > 1 or pick(2) else asm[0]
        return ["implies", h, concl]

    cs = [assertion() if pick(6) else formula(2) for _ in range(1 + pick(3))]
    return dict(vc=["and"] + cs if len(cs) > 1 or pick(2) else cs[0], defs=pick(len(DEFS)))


def inline(s, defs):
    if s[0] in ("var", "lit"):
        return s
    if s[0] == "call":
        args = [inline(x, defs) for x in s[3:]]
        if defs is None:
            return s[:3] + args
        ps, body = defs[s[1]]
        return sub(body, dict(zip(ps, args)))
    return [s[0]] + [inline(x, defs) for x in s[1:]]


def sub(s, m):
    if s[0] == "var":
        return m.get(s[1], s)
    if s[0] == "lit":
        return s
    return [s[0]] + [sub(x, m) for x in s[1:]]


def to_z3(s):
    k = s[0]
    if k == "var":
        return z3.Int(s[1]) if s[2] == "Int" else z3.Bool(s[1])
    if k == "lit":
        return z3.IntVal(s[1]) if s[2] == "Int" else z3.BoolVal(s[1])
    if k == "call":
        return z3.Function(s[1], *[z3.IntSort()] * (len(s) - 3), z3.BoolSort())(*[to_z3(x) for x in s[3:]])
    a = [to_z3(x) for x in s[1:]]
    return {"add": lambda *a: z3.Sum(*a), "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "eq": lambda a, b: a == b,
            "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b,
            "and": lambda *a: z3.And(*a), "or": lambda *a: z3.Or(*a), "not": z3.Not, "implies": z3.Implies, "ite": z3.If}[k](*a)


def valid(s):
    """True / False / None"""
    S = z3.Solver()
    S.set("timeout", 4000)
    S.add(z3.Not(to_z3(s)))
    r = S.check()
    return True if r == z3.unsat else False if r == z3.sat else None


def optimise(vc):
    """the documented fixpoint: count the uses, optimise, until nothing changes"""
    new = set()
    prev = vc.toSMT()
    for _ in range(60):
        counts = {}
        vc.count_variable_uses(counts)
        vc = vc.optimize_useless_equality(counts, new)
        if vc.toSMT() == prev:
            return vc, new
        prev = vc.toSMT()
    raise Violation("the equality optimisation does not reach a fixpoint in 60 rounds")


def check_vc(case, c):
    s = case["vc"]
    defs = DEFS[case["defs"]]
    with sut("building"):
        e = build.expr(s)
    before = repr(e)
    want = valid(inline(s, defs))
    if want is None:
        raise Discard("z3 does not decide the original")
    with sut("simplify"):
        r0 = e.simplify()
    with sut("optimize_useless_equality"):
        r, new = optimise(e)
    if repr(e) != before:
        raise Violation(f"optimisation changed its input {before} to {e!r}")
    for x, nm in ((r0, "simplified"), (r, "optimised")):
        t = build.spec(x)
        if build.unty(x.type) != "Bool":
            raise Violation(f"the {nm} condition is not boolean: {x!r}")
        free = {v[1] for v in ref.walk(t) if v[0] == "var"}
        known = {v[1] for v in ref.walk(s) if v[0] == "var"} | {v.name() for v in new}
        if not free <= known:
            raise Violation(f"the {nm} condition has undeclared variables {sorted(free - known)}")
        got = valid(inline(t, defs))
        if got is not None and got != want:
            raise Violation(f"the condition is {'valid' if want else 'not valid'} but {nm} it is {'valid' if got else 'not valid'}: "
                            f"{e!r} became {x!r} (definitions {defs})")
        if got is None:
            c.label("undecided")
    if {v.name() for v in new} & {v[1] for v in ref.walk(s) if v[0] == "var"}:
        raise Violation(f"a new variable reuses a name of the condition: {new}")
    if build.spec(r) != s:
        c.nontrivial()
    c.label("valid" if want else "invalid", "changed" if build.spec(r) != s else "same", *(["replaced"] if new else []))


SUBS = [
    Sub("value", value_case, check_value, 3000, 60000, rule="non-trivial: the simplification differs and a value is defined"),
    Sub("vc", vc_case, check_vc, 6000, 120000, rule="non-trivial: the optimised condition differs from the original"),
]
