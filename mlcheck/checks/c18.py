"""The printed solution of the Rosette solver is read back as the same functions."""
import os

from hypothesis import strategies as st

from metalift import ir as I
from metalift.synthesize_rosette import synthesize

from .. import build, env as menv, fakes, gens, ref, rkt, rktlib, template
from ..runner import Discard, Sub, Violation, sut
from . import c14

PROPERTY = "C18"
RULE = ("1-3 templates over every operator of the Rosette back end; the grammar text the code wrote is derived at random (fully, or with "
        "some unneeded nonterminals and choices left in place), printed as Racket prints forms (source-location line, datum syntax, random "
        "line breaks) and handed to synthesize() by a stand-in for racket; the returned definitions must have the declared names, "
        "parameters and types and the value of the printed text (of one of its completions) on every generated input")
ASSUMPTIONS = ["mini Racket evaluator over reference meanings of the library", "a function with nothing to choose may be missing from the output",
               "forms are printed with continuation lines indented, as Racket's pretty printer does"]

LETS = ["x2", "t0", "let_v", "tmp.2", "rv1", "vv"]
OPTS = [gens.Opts(nested=True, lets=True, let_names=LETS, big=True), gens.Opts(tensor=False, matrix=False, lets=True, let_names=LETS, big=True), gens.Opts(lists=False, matrix=False, tensor=False, lets=True, let_names=LETS),
        gens.Opts(sets=False, tuples=False)]
OPAQUE = {"integer_sqrt": lambda x: 7 * x + 3, "integer_exp": lambda x: 3 * x - 5, "sum2": lambda x: 11 * len(x) + sum(x),
          "pos": lambda x, y: x < 2 * y, "dup": lambda x: x + x, "inc": lambda x: x + 1, "dec": lambda x: x - 1,
          "list_map": lambda f, l: tuple(fn(f)(x) for x in l)}
FN1 = ["Fn", ["Int", "Int"]]


def fn(f):
    return OPAQUE[f[1]] if isinstance(f, tuple) else f


SIGS = [("integer_sqrt", "Int", ["Int"]), ("integer_exp", "Int", ["Int"]), ("sum2", "Int", [["List", "Int"]]),
        ("pos", "Bool", ["Int", "Int"]), ("dup", ["List", "Int"], [["List", "Int"]]),
        ("list_map", ["List", "Int"], [FN1, ["List", "Int"]])]
NAMES = ["inv0", "f_ps", "ps", "test_inv1", "select", "inv00"]


@st.composite
def case(draw):
    o = draw(st.sampled_from(OPTS))
    sigs = draw(st.lists(st.sampled_from(SIGS), max_size=3, unique_by=lambda s: s[0]))
    if not o.lists:
        sigs = [s for s in sigs if "List" not in str(s)]
    hof = [["var", n, FN1] for n in ("inc", "dec")] if any(s[0] == "list_map" for s in sigs) else []
    if hof:
        sigs += [("inc", "Int", ["Int"]), ("dec", "Int", ["Int"])]
    synths = []
    for nm in draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True)):
        vs = draw(gens.signature(o, names=draw(st.sampled_from([gens.VAR_NAMES, gens.VAR_NAMES + template.NT_LIKE]))))
        t = draw(st.sampled_from(gens.scalar_types(o)))
        fns = sigs + [(s[0], s[1], [v[2] for v in s[3]]) for s in synths]
        synths.append([nm, t, draw(template.template(o, vs + hof, t, fns, budget=5)), vs, draw(gens.envs(vs, 5))])
    picks = draw(st.lists(st.integers(0, 11), min_size=4, max_size=24))
    return dict(sigs=sigs, synths=synths, picks=picks, partial=draw(st.sampled_from([0, 0, 0, 1, 3])),
                breaks=draw(st.lists(st.integers(0, 9), min_size=3, max_size=8)), order=draw(st.permutations(range(len(synths)))),
                omit=draw(st.booleans()), quote=draw(st.booleans()))


@st.composite
def op_case(draw):
    e, vs, t, envs = draw(gens.op_expr(OPTS[0], names=gens.VAR_NAMES))
    e = [e, ["choose", e, e], ["ite", ["choose", ["lit", True, "Bool"], ["lit", False, "Bool"]], e, e]][draw(st.integers(0, 2))]
    if not vs:
        vs, envs = [["var", "x", "Int"]], [dict(x=1)]
    return dict(sigs=[], synths=[[draw(st.sampled_from(NAMES)), t, e, vs, envs]], picks=draw(st.lists(st.integers(0, 11), min_size=4, max_size=8)),
                partial=0, breaks=draw(st.lists(st.integers(0, 9), min_size=3, max_size=8)), order=[0], omit=False, quote=draw(st.booleans()))


class Picks:
    def __init__(self, l):
        self.l, self.i = l, 0

    def __call__(self, n):
        k = self.l[self.i % len(self.l)] + self.i // len(self.l)
        self.i += 1
        return k % n


def derive(x, alts, pick, partial, top=True):
    a = alts(x)
    if a is not None:
        if partial and not top and pick(8) < partial:
            return x
        xs = a[1]
        return derive(xs[pick(len(xs))], alts, pick, partial, top and len(xs) == 1)
    if isinstance(x, list):
        return [derive(y, alts, pick, partial, False) for y in x]
    return x


def completions(x, alts, limit=300):
    """all full derivations, as nested lists"""
    a = alts(x)
    if a is not None:
        out = []
        for y in a[1]:
            out += completions(y, alts, limit)
            if len(out) > limit:
                raise Discard("too many completions")
        return out
    if isinstance(x, list):
        out = [[]]
        for y in x:
            ys = completions(y, alts, limit)
            out = [o + [z] for o in out for z in ys]
            if len(out) > limit:
                raise Discard("too many completions")
        return out
    return [x]


def show(x):
    if isinstance(x, list):
        return "(" + " ".join(show(y) for y in x) + ")"
    if isinstance(x, bool):
        return "#t" if x else "#f"
    return str(x)


def layout(x, breaks, ind=1):
    """the text of a datum with random line breaks, continuation lines indented"""
    out, k = [], [0]

    def nl():
        k[0] += 1
        return breaks[k[0] % len(breaks)] < 4

    def go(y, ind):
        if isinstance(y, list):
            out.append("(")
            for i, z in enumerate(y):
                if i == 1 and y[0] == "define":
                    out.append(" ")
                elif i:
                    out.append("\n" + " " * (ind + 1 + (i > 1)) if nl() else " ")
                go(z, ind + 2)
            out.append(")")
        else:
            out.append(show(y))
    go(x, ind)
    return "".join(out)


def check(case, c):
    with sut("building"):
        mk = lambda: [I.Synth(s[0], build.expr(s[2]), *[build.expr(v) for v in s[3]]) for s in case["synths"]]
        syn, loops = mk(), mk()
        lib = [I.FnDecl(n, build.ty(r), build.expr(gens_default(r)), *[I.Var(f"p{i}", build.ty(t)) for i, t in enumerate(ts)]) for n, r, ts in case["sigs"]]
        vs = {build.expr(v) for s in case["synths"] for v in s[3][:0]}
    pick = Picks(case["picks"])
    wants, forms = {}, []
    for s, y in zip(case["synths"], syn):
        with sut("Synth.to_rosette"):
            text = y.to_rosette({})
        params, start, alts = c14.read_grammar(text, s[0])
        d = derive(start, alts, pick, case["partial"])
        n = template.count(s[2])
        if n > 20000:
            raise Discard("too many derivations")
        full = completions(d, alts)
        head = [s[0]] + params
        if not (case["omit"] and n == 1):
            forms.append([s[0], ["define", head, d]])
        wants[s[0]] = full
        c.label("partial" if len(full) > 1 else "full")
    order = [forms[i] for i in case["order"] if i < len(forms)]
    lines = ["#t"]
    for i, (nm, f) in enumerate(order):
        lines.append(f"/root/work/synthesisLogs/task.rkt:{20 + 3 * i}:0")
        lines.append(("'" if case["quote"] else "") + layout(f, case["breaks"]))
    text = "\n".join(lines) + "\n"
    fakes.put("sol", text)
    fakes.put("racket.sh", 'cp sol sol.tmp; mv sol.tmp synthesisLogs/task_sol0\n')
    try:
        with fakes.fast(), sut("reading the solution back: " + text):
            out = synthesize(basename="task", target_lang=lib, vars=vs, inv_and_ps=syn, preds=[], vc=I.Lit(True, I.Bool),
                             loop_and_ps_info=loops, cvc_path="cvc5", no_verify=True, log=False, list_bound=2)
    finally:
        fakes.reap()
    if [f.name() for f in out] != [s[0] for s in case["synths"]]:
        raise Violation(f"returned {[f.name() for f in out]} for {[s[0] for s in case['synths']]}")
    table = {}
    with sut("reading the returned definitions"):
        for f in out:
            table[f.name()] = ([v.args[0] for v in f.arguments()], build.spec(f.body()))
    judged = 0
    for s, f in zip(case["synths"], out):
        if [(v.args[0], ref.tkey(norm(build.unty(v.type)))) for v in f.arguments()] != [(v[1], ref.tkey(norm(v[2]))) for v in s[3]]:
            raise Violation(f"{s[0]} has parameters {f.arguments()}, declared {s[3]}")
        for what, t in (("return type", f.return_type()), ("body type", f.body().type)):
            if ref.tkey(norm(build.unty(t))) != ref.tkey(norm(s[1])):
                raise Violation(f"{s[0]}: {what} {t}, declared {s[1]}: {f.body()!r} from {text}")
        vals = []
        for env in s[4]:
            env = {k: ref.from_json(v) for k, v in env.items()}
            vals.append(run_ir(table[s[0]][1], env, case, table))
        ok = False
        seen = []
        for d in wants[s[0]]:
            ws = [run_text(show(d), env, case, table) for env in s[4]]
            seen.append(ws)
            pairs = [(v, w) for v, w in zip(vals, ws) if v is not None and w is not None]
            if all(rkt.equalp(rkt.to_rkt(v), w) for v, w in pairs):
                ok = True
                judged += len(pairs)
                break
        if not ok:
            raise Violation(f"{s[0]} was read back as {f.body()!r}, with values {vals} where the text has {seen[:4]} on {s[4]}: {text}")
    if judged and any(isinstance(d, list) for w in wants.values() for d in w):
        c.nontrivial()
    for s in case["synths"]:
        for w in wants[s[0]][:1]:
            c.label(*["op:" + o for o in heads(w) if o not in gens.VAR_NAMES])


def heads(d):
    if isinstance(d, list) and d:
        r = {d[0]} if isinstance(d[0], str) else set()
        for x in d:
            r |= heads(x)
        return r
    return set()


def norm(t):
    if t == "Matrix":
        return ["List", ["List", "Int"]]
    if t == "Tensor3D":
        return ["List", ["List", ["List", "Int"]]]
    if isinstance(t, list) and t[0] == "List":
        return ["List", norm(t[1])]
    if isinstance(t, list) and t[0] == "Tuple":
        return ["Tuple", [norm(x) for x in t[1]]]
    return t


def gens_default(t):
    return ["lit", 0, "Int"] if t == "Int" else ["lit", True, "Bool"] if t == "Bool" else ["call", "list_empty", t]


def opaque_synth(s, table):
    """calls between the synthesised functions are opaque: an argument-sensitive value of the type, but where the
    function was read back as a literal, because conditionals on calls of it may be pruned (C21)"""
    body = table[s[0]][1]

    def f(*a):
        if body[0] == "lit":
            return body[1]
        k = sum((i + 2) * size(x) for i, x in enumerate(a))
        return of(s[1], k)
    return f


def size(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    return sum((i + 1) * size(y) for i, y in enumerate(sorted(x) if isinstance(x, frozenset) else x)) + len(x)


def of(t, k):
    if t == "Int":
        return k
    if t == "Bool":
        return k % 2 == 0
    if t == "Matrix" or t == ["List", ["List", "Int"]]:
        return ((k, k + 1), (k, 1))
    if t == "Tensor3D":
        return (((k, k + 1),),)
    if t[0] == "List":
        return (k, 1)
    if t[0] == "Set":
        return frozenset([k])
    return ref.Tup(of(x, k + i) for i, x in enumerate(t[1]))


def run_ir(spec, env, case, table):
    fns = {**OPAQUE, **{s[0]: opaque_synth(s, table) for s in case["synths"]}}
    try:
        return ref.ev(spec, env, fns)
    except ref.Undef:
        return None
    except KeyError as e:
        raise Violation(f"the definition read back uses {e}: {spec}")


RKNAME = {"integer_sqrt": "integer-sqrt-noerr", "integer_exp": "integer-exp-noerr"}


def run_text(text, env, case, table):
    J = rktlib.model_interp()
    for n, f in OPAQUE.items():
        for k in (n, RKNAME.get(n, n)):
            J.g.d[k] = f
    for q in case["synths"]:
        g = opaque_synth(q, table)
        J.g.d[q[0]] = lambda *a, g=g: rkt.to_rkt(g(*a))
    try:
        return J.run(text, {rkt.Sym(k): rkt.to_rkt(ref.from_json(v)) for k, v in env.items()})
    except (rkt.StepLimit, RecursionError, OverflowError):
        return None
    except rkt.RktError as e:
        if "undefined for 0" in str(e):  # remainder by zero
            return None
        raise Violation(f"the written grammar's text fails: {e}: {text}")


SUBS = [Sub("readback", case, check, 2400, 60000, rule="non-trivial: some function's text is a compound form and a value is compared"),
        Sub("operators", op_case, check, 2000, 40000, rule="every operator alike; non-trivial as above")]
