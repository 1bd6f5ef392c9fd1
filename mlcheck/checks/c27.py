"""LLMLift verifies the language model's answer, and nothing else."""
import os
import types

from hypothesis import strategies as st

from metalift import ir as I

from .. import build, env as menv, fakes, gens, llm, ref, rkt, rktfile, rktlib, smt, smtlib
from ..runner import Discard, Sub, Violation, sut
from . import c25
from .c10 import run, val

PROPERTY = "C27"
RULE = ("a benchmark (inputs, loop variables, a condition over calls of the summary and one or two invariants with computed arguments) and the language "
        "model's answers: Python functions over the DSL, with lambdas, conditionals, slices, parameters in any order, after refused answers; the file "
        "that reaches the SMT solver or Rosette is read and evaluated: the condition it decides, and every function it defines, has the value that "
        "executing the answers gives; non-trivial: the condition calls a function of the answer and is judged on at least one assignment")
ASSUMPTIONS = ["indices out of range or negative and division outside non-negative/positive are not compared",
               "lambdas capture parameters in Rosette only, for SMT only in dissolve_blend_8, where they capture the two parameters it adds",
               "matrices have no empty rows", "integers are unbounded (the Rosette file limits them to 6 bits on purpose)"]

O = gens.Opts(smt=True, tensor=False, divmod=False, sets=False, tuples=False)
LI = ["List", "Int"]
ML = ["List", LI]
SPEC = {"I": "Int", "B": "Bool", "L": LI, "M": ML}
INPUTS = ["a", "base", "active", "opacity", "weight", "input", "x", "n", "max_pos", "key_cache", "A"]
RENAME = {"out": "agg.result"}


class G(c25.G):
    """lambdas that capture nothing, unless they may"""
    capture = False

    def lam(self, t, vs, d):
        return super().lam(t, vs if self.capture else [], d)


def function(g, name, ps, ret, body, var=None, tidy=False):
    return dict(name=name, ps=ps, ret=ret, body=body, var=var, tidy=tidy, doc=g.pick(5))


@st.composite
def case(draw, dissolve=False):
    g = G(draw, [])
    method = draw(st.sampled_from(["smt", "rosette"]))
    g.capture = method == "rosette"
    g.hof = not dissolve and draw(st.booleans())
    ins = [(n, draw(st.sampled_from("IILLMM"))) for n in draw(st.lists(st.sampled_from(INPUTS), min_size=1, max_size=3, unique=True))]
    if dissolve:
        ins = [("base", "M"), ("active", "M"), ("opacity", "I"), ("rand_cons", "I")]
    double = dissolve or draw(st.booleans())
    T = "M" if dissolve else draw(st.sampled_from("ILLMM"))
    out = ("out", T)
    row = ("row_vec", "L") if double else None
    i, j = ("row", "I"), ("col", "I")
    if not double:
        i = (draw(st.sampled_from(["i", "idx", "row"])), "I")
    order = lambda ps: [tuple(x) for x in draw(st.permutations(ps))]
    sh = g.pick(4)
    if dissolve:
        lam = lambda: "lambda int_x, int_y: " + g.e("I", [("int_x", "I"), ("int_y", "I"), ("opacity", "I"), ("rand_cons", "I")], 2)
        same = lam()
        lam2 = (lambda: same) if sh else lam
        ps = function(g, "f", order(ins), T, f"matrix_selection_two_args(base, active, {same})")
        r = ("base", "active") if g.pick(4) else ("active", "base")
        inv = [function(g, "invariant1", order(ins + [out, i]), "B",
                        f"row >= 0 and row <= len(base) and out == matrix_selection_two_args(base[:row], active[:row], {lam2()})"),
               function(g, "invariant2", order(ins + [out, i, j, row]), "B",
                        f"row >= 0 and row_vec == selection_two_args({r[0]}[row][:col], {r[1]}[row][:col], {lam2()}) and out == "
                        f"matrix_selection_two_args({r[0]}[:row], {r[1]}[:row], {lam2()})")]
    else:
        kw = dict(var=draw(st.sampled_from([None, None, "result"])), tidy=draw(st.booleans()))
        body = g.e(T, ins, 3)
        if g.pick(3):  # a DSL call at the top, as is usual
            f = g.one([n for n in sorted(c25.DSL) if c25.DSL[n][0] == T])
            body = g.call(f, c25.DSL[f][1], ins, 2)
        ps = function(g, "f", order(ins), T, body, **kw)
        inv = []
        for k, vs in enumerate([ins + [out, i], ins + [out, i, j, row]][:2 if double else 1]):
            eqs = [f"{o[0]} == {body if o is out and g.pick(4) == 0 else g.e(o[1], [v for v in vs if v != o], 2)}" for o in ([out, row] if k else [out])]
            rng = [f"{i[0]} >= 0", f"0 <= {i[0]} <= {g.e('I', ins, 1)}", g.e("B", vs, 2)]
            parts = draw(st.permutations(eqs + [g.one(rng)] + [g.one(rng)] * g.pick(2)))
            b = " and ".join(parts) if g.pick(4) else f"({parts[0]}) or ({' and '.join(parts[1:])})"
            inv.append(function(g, f"invariant{k + 1 if double else ''}", order(vs), "B", b, tidy=draw(st.booleans())))
        if g.pick(4) == 0:
            inv.reverse()
    # the verification condition
    agg = draw(st.booleans())
    sv = lambda v: ["var", RENAME.get(v[0], v[0]) if agg else v[0], SPEC[v[1]]]
    state = ins + [out, i] + ([j, row] if double else [])
    vs = [sv(v) for v in state] + draw(st.sampled_from([[], [["var", "v_3", "Int"]], [["var", "v_4", LI]]]))

    def arg(v):
        e = sv(v)
        if v in ins or g.pick(2):
            return e
        if v[1] == "I":
            return g.one([["lit", 0, "Int"], ["add", e, ["lit", 1, "Int"]], ["call", "list_length" if ins[0][1] == "L" else "matrix_length", "Int", sv(ins[0])]
                          if ins[0][1] != "I" else ["lit", 1, "Int"], gens.gen(draw, "Int", vs, O, 1)])
        if v[1] == "L":
            return g.one([["call", "list_empty", LI], ["call", "list_append", LI, e, gens.gen(draw, "Int", vs, O, 1)], gens.gen(draw, LI, vs, O, 1)])
        return g.one([["call", "matrix_empty", ML], ["call", "matrix_append", ML, e, sv(row) if row else gens.gen(draw, LI, vs, O, 1)]])

    def use(f):
        """the arguments of a predicate are sorted by name, the returned value comes last"""
        if f is ps:
            return ["call", "PS", "Bool"] + [sv(v) for v in sorted(f["ps"])] + [arg(out)]
        return ["call", f["name"], "Bool"] + [arg(v) for v in sorted(f["ps"])]
    conj = []
    for f in inv:
        conj.append(use(f) if g.pick(3) == 0 else ["implies", gens.gen(draw, "Bool", vs, O, 1), use(f)])
        conj.append(["implies", ["and", use(f), gens.gen(draw, "Bool", vs, O, 1)], use(g.one(inv))])
    conj.append(["implies", ["and", use(g.one(inv)), ["not", gens.gen(draw, "Bool", vs, O, 1)]], use(ps)])
    asserts = [draw(st.permutations(conj))[k] for k in range(len(conj))]
    refused = lambda: draw(st.lists(st.sampled_from([["def f(x): return x", "no"], ["def f(x: int) -> int:\n    for q in x:\n        pass\n    return 1\n", "loop"]]), max_size=2)) if g.pick(5) == 0 else []
    rows = {}
    envs = draw(gens.envs([v for v in vs if v[2] != ML] + [["var", v[1], "Matrix"] for v in vs if v[2] == ML], 8, maxlen=3))
    idx = [sv(v)[1] for v in state if v[1] == "I" and v not in ins]
    for e in envs:
        if draw(st.integers(0, 3)):
            for n in idx:
                e[n] = draw(st.integers(0, 2))
    for f in [ps] + inv:
        rows[f["name"]] = draw(c25.rows([f], 4))[f["name"]]
    return dict(name="dissolve_blend_8" if dissolve else draw(st.sampled_from(["task", "collapse_blend_8", "softmax_part1"])), ps=ps, inv=inv, double=double,
                agg=agg, state=state, ins=ins, vars=vs, asserts=asserts, method=method, envs=envs, rows=rows,
                bad=[refused(), refused()])


def pyfns(case):
    """the answers, executed; a row on which the reference semantics is not defined is left out"""
    ns = llm.modules()[-1]
    fs = [dict(case["ps"], name=case["name"])] + case["inv"]
    texts = [c25.text(f) for f in fs]
    envp = dict(ns)
    try:
        for t in texts:
            exec("from typing import Any, Callable, List\n" + t, envp)
    except Exception as e:
        raise Discard(f"Python rejects it: {e}")
    return fs, texts, envp


def full(f):
    """matrices have no empty rows"""
    def g(*a):
        r = f(*a)
        if isinstance(r, tuple) and () in r:
            raise ref.Undef("empty row")
        return r
    return g


def topy(v):
    return [topy(x) for x in v] if isinstance(v, tuple) else v


def table(case, fs, envp, decls):
    """name in the problem -> a Python callable taking the arguments in their order"""
    inner = {n: full(f) if callable(f) else f for n, f in c25.interp(decls).items()}
    by = {d.name(): d for d in decls}
    t = {}

    def mk(f):
        d = by[f["name"]]
        ps = sorted(f["ps"])

        def call(*a):
            vals = dict(zip([n for n, _ in ps], a))
            u = build.undecl(d)
            g = ref.ev(["call", f["name"], u[2]] + [["var", p[1], p[2]] for p in u[4:]], vals, inner, ref.Fuel(8000))
            try:
                w = c25.fromjs(envp[f["name"]](**{n: topy(v) for n, v in vals.items()}))
            except RecursionError:
                raise ref.Undef("deep")
            except Exception as e:
                raise ref.Undef(str(e))
            if not ref.same(g, w):
                raise Discard("read differently (C25)")
            return w
        return call
    k = case["name"]
    P = mk(fs[0])
    t["PS"] = lambda *a: ref.same(P(*a[:-1]), a[-1])
    for f in fs[1:]:
        t[f["name"]] = mk(f)
    return t


def rename(e, m):
    if not isinstance(e, list) or e[0] in ("var", "lit"):
        return e
    h = 3 if e[0] == "call" else 1
    return ([e[0], m.get(e[1], e[1]), e[2]] if e[0] == "call" else e[:1]) + [rename(x, m) for x in e[h:]]


class Verify(rktfile.Problem):
    """the last two forms: (define vc (verify (assert e))) and vc"""

    def __init__(self, text, lib):
        self.last = None
        super().__init__(text, lib)
        if self.last != "shown" or len(self.verifies) != 1:
            raise rktfile.Bad(f"{len(self.verifies)} verification queries, {self.last}")

    def read(self, f):
        if isinstance(f, rkt.Sym) and self.last == str(f):
            self.last = "shown"
            return
        if isinstance(f, list) and f[:1] == ["define"] and isinstance(f[2], list) and f[2][:1] == ["verify"]:
            self.verifies.append(f[2])
            self.last = str(f[1])
            return
        super().read(f)


def check(case, c):
    P, U, S, dsl, _ = llm.modules()
    fs, texts, envp = pyfns(case)
    d = fakes.dir()
    for n in ("llmlift_scripts", "metalift"):
        if not os.path.lexists(os.path.join(d, n)):
            os.symlink(os.path.join(menv.REPO, n), os.path.join(d, n))
    name = case["name"]
    from metalift.utils.tenspiler import constants as K
    lib = "\n\n".join(f.to_python() for f in K.TENSPILER_FNS)  # (mypy keeps what it has read when the text is the same)
    ctx = ({}, {})
    parts = [c25.read(texts[0], 1, ctx, lib), c25.read("\n".join(texts[1:]), len(texts) - 1, ctx, lib)]
    for p in parts:
        if isinstance(p, Exception):
            raise Discard(f"refused (C25): {p}")
    decls = parts[0][1] + parts[1][1]
    tab = table(case, fs, envp, decls)
    m = {"PS": f"{name}_ps", "invariant": f"{name}_inv0", "invariant1": f"{name}_inv0", "invariant2": f"{name}_inv1"}
    with sut("building the condition"):
        asserts = [I.Bool(build.expr(rename(a, m))) for a in case["asserts"]]
        obj = lambda v, r=False: I.create_object(build.ty(SPEC[v[1]]), RENAME.get(v[0], v[0]) if r else v[0])
        byn = {v[0]: v for v in case["state"]}
        out = obj(byn["out"])
        ins = [obj(v) for v in case["ins"]]
        allv = {build.expr(v) for v in case["vars"]}
        if case["double"]:
            info = U.DoubleLoopInfo(obj(byn["row"]), obj(byn["col"]), ins, ins + [obj(byn["row"])], [out], [out, obj(byn["row_vec"])])
        else:
            info = U.SingleLoopInfo(obj(case["state"][-1]), ins, [out])
    driver = types.SimpleNamespace(var_tracker=types.SimpleNamespace(all=lambda: list(allv)), asserts=asserts)
    answers = [b[0] for b in case["bad"][0]] + [texts[0]] + [b[0] for b in case["bad"][1]] + ["\n".join(texts[1:])]
    it = iter(answers)
    keep = "cp \"$1\" given; echo '(unsat)'\n"
    fakes.put("racket.sh", keep)
    fakes.put("cvc5.sh", "cp \"$last\" given; echo unsat\n")
    given = os.path.join(d, "given")
    if os.path.exists(given):
        os.unlink(given)
    os.environ["BITWUZLA_PATH"] = "/nonexistent/bitwuzla"
    old = S.get_solution_from_llm
    S.get_solution_from_llm = lambda model, messages: next(it)
    libfns = list(K.TENSPILER_FNS)
    try:
        with sut("verifying the answers"):
            S.run_llm_synthesis_algorithm(
                driver=driver, loop_info=info, output_var=out, source_code="int f(int x) { return y; }", benchmark_name=name, llm_model=S.LLMModel.GPT,
                dsl_fns=libfns, dsl_fn_name_to_axioms=K.TENSPILER_FN_NAME_TO_AXIOMS, max_num_ps_sols=len(case["bad"][0]) + 1,
                max_num_inv_sols=len(case["bad"][1]) + 1, verification_method=S.VerificationMethod(case["method"]))
    finally:
        S.get_solution_from_llm = old
    if next(it, None) is not None:
        raise Violation("accepted before the last answer")
    if not os.path.exists(given):
        raise Violation("nothing was verified")
    text = open(given).read()
    vc = ["and"] + case["asserts"] if len(case["asserts"]) > 1 else case["asserts"][0]
    desc = "\n".join(texts)
    judged = 0
    if case["method"] == "smt":
        own = text[text.rfind("(define-fun-rec matrix_transpose"):][:7000]
        M = smt.Smt(interp=smtlib.MODEL)
        try:
            M.load(text)
        except smt.SmtError as e:
            raise Violation(f"the file is ill-formed: {e}\n{desc}\n{own}")
        if M.commands[-3:-1] != ["assert", "check-sat"] and M.commands[-2:] != ["assert", "check-sat"]:
            raise Violation(f"the condition is not the last assertion: {M.commands[-4:]}")
        ev = lambda x, e: run(M, x, e)
        cond = lambda e: (lambda r: None if r is None else not r)(ev(M.asserts[-1], e))
        fn = lambda n, names, e: ev([n] + names, e)
        for v in case["vars"]:
            if v[1] not in M.sig:
                raise Violation(f"{v[1]} is not declared\n{own}")
    else:
        own = text[-6000:]
        try:
            R = Verify(text, rktlib.interp)
            J = R.run({n: False if t == "boolean?" else 0 for n, t in R.symbols.items()}, {}, [], {})
        except rktfile.Bad as e:
            raise Violation(f"the problem is malformed: {e}\n{desc}\n{own}")
        except rkt.RktError as e:
            raise Violation(f"the problem fails: {e}\n{desc}\n{own}")
        for v in case["vars"]:
            if rkt.Sym(v[1]) not in J.g.d:
                raise Violation(f"{v[1]} is not defined\n{own}")

        def rk(form, e):
            for n, v in e.items():
                J.g.d[rkt.Sym(n)] = v
            J.steps.n = 400000
            try:
                return J.ev(form, J.g)
            except RecursionError:
                return None
            except rkt.RktError as x:
                if "steps" in str(x):
                    return None
                raise Violation(f"{x} at {e}\n{desc}\n{own}")
        cond = lambda e: rk(R.verifies[0][1][1], e)
        fn = lambda n, names, e: rk([rkt.Sym(n)] + [rkt.Sym(x) for x in names], e)
        if R.verifies[0][1][0] != "assert":
            raise Violation(f"{R.verifies[0]}")
    for e in case["envs"]:
        e = {k: ref.from_json(v) for k, v in e.items()}
        want = val(vc, e, tab)
        if want is None:
            continue
        got = cond(e)
        if got is None:
            continue
        judged += 1
        if bool(got) != want:
            raise Violation(f"the condition is {want} at {e}, in the file {got}\n{desc}\n{build.expr(rename(vc, m))}\n{own}")
    for f in fs:
        fname = f"{name}_ps" if f is fs[0] else m[f["name"]]
        for r in case["rows"]["f" if f is fs[0] else f["name"]]:
            e = {k: c25.fromjs(v) for k, v in r.items()}
            names = sorted(e)
            try:
                want = tab["PS" if f is fs[0] else f["name"]](*[e[n] for n in names], *([()] if f is fs[0] else []))
                if f is fs[0]:
                    e["out"] = c25.fromjs(envp[name](**r))
                    names.append("out")
                    want = True
            except (ref.Undef, RecursionError):
                continue
            got = fn(fname, names, e)
            if got is not None and bool(got) != want:
                raise Violation(f"{fname}({e}) is {want}, in the file {got}\n{desc}\n{own}")
    c.label(case["method"], "double" if case["double"] else "single", f"judged:{judged}", *(["lambda"] if "lambda" in desc else []))
    c.nontrivial(judged > 0)


SUBS = [Sub("answers", case, check, quick=900, thorough=20000, rule=RULE),
        Sub("dissolve", lambda: case(dissolve=True), check, quick=160, thorough=3000, rule=RULE)]
