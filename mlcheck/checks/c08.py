"""SMT-LIB text emitted for expressions and functions is well-sorted and means the same."""
import os
import subprocess
import tempfile

from hypothesis import strategies as st

from .. import build, env as menv, gens, ref, smt, smtlib
from ..runner import Sub, Violation, sut

PROPERTY = "C08"
RULE = ("typed IR expressions/definitions over Int, Bool, integer lists, matrices, sets and tuples; the emitted SMT-LIB is "
        "parsed, sort-checked against the repository's SMT library and evaluated (library definitions from their text, "
        "declared list functions by their standard meaning), and compared with the reference meaning")
ASSUMPTIONS = ["mini SMT-LIB sort checker/evaluator (mlcheck/smt.py); cross-checked against cvc5 --parse-only in the thorough tier",
               "values compared only where the reference defines them"]

O = gens.Opts(lets=True, big=True, nested=True, smt=True)
NAMES = gens.VAR_NAMES


@st.composite
def expr_case(draw):
    e, vs, t = draw(gens.typed_expr(O))
    return dict(expr=e, vars=vs, ty=t, envs=draw(gens.envs(vs)))


@st.composite
def op_case(draw):
    e, vs, t, envs = draw(gens.op_expr(O))
    return dict(expr=e, vars=vs, ty=t, envs=envs)


@st.composite
def decl_case(draw):
    ds, sigs = draw(gens.decls(gens.Opts(lets=False, nested=True, smt=True)))
    last = ds[-1]
    return dict(decls=ds, args=draw(gens.envs(last[4:], 4)),
                unint=draw(st.lists(st.sampled_from(["Int", "Bool", ["List", "Int"], "Matrix"]), min_size=2, max_size=4)))


def smt_sort(t):
    if isinstance(t, str):
        return {"Matrix": ("MLList", ("MLList", "Int"))}.get(t, t)
    if t[0] == "List":
        return ("MLList", smt_sort(t[1]))
    if t[0] == "Set":
        return ("Set", smt_sort(t[1]))
    return ("Tuple%d" % len(t[1]),) + tuple(smt_sort(x) for x in t[1])


def ev(S, term, env, what):
    S.steps = 0
    try:
        return S.eval(term, env)
    except (smt.Limit, RecursionError):
        return None
    except (TypeError, IndexError, AttributeError) as e:
        raise Violation(f"{what}: emitted SMT is not evaluable: {e}")


def read(S, text, want, env):
    try:
        ts = smt.parse(text)
        if len(ts) != 1:
            raise smt.SmtError("not one term")
        got = S.check(ts[0], env)
        if got != want:
            raise smt.SmtError(f"has sort {smt.sx(got)}, expected {smt.sx(want)}")
    except smt.SmtError as x:
        raise Violation(f"emitted SMT is ill-formed: {x}: {text[:700]}")
    return ts[0]


def check_expr(case, c):
    e = case["expr"]
    with sut("building"):
        obj = build.expr(e)
    with sut("toSMT"):
        text = obj.toSMT()
    S = smtlib.base()
    term = read(S, text, smt_sort(case["ty"]), {v[1]: smt_sort(v[2]) for v in case["vars"]})
    n = 0
    for env in case["envs"]:
        env = {k: ref.from_json(v) for k, v in env.items()}
        try:
            want = ref.ev(e, env)
        except ref.Undef:
            continue
        got = ev(S, term, env, "expression")
        if got is None:
            continue
        n += 1
        if not ref.same(got, want):
            raise Violation(f"expression evaluates to {got!r} in SMT but means {want!r}: env {env} text {text[:800]}")
    ops = {x[1] if x[0] == "call" else x[0] for x in ref.walk(e)}
    if n and len(ops) > 2:
        c.nontrivial()
    c.label(*[f"op:{o}" for o in ops if o not in ("var", "lit")])


def check_decl(case, c):
    ds = case["decls"]
    with sut("building"):
        objs = [build.decl(d) for d in ds]
        un = build.decl(["rec" if len(case["unint"]) % 2 else "fn", "uninterp", case["unint"][0], None]
                        + [["var", f"u{i}", t] for i, t in enumerate(case["unint"][1:])])
    with sut("toSMT"):
        texts = [o.toSMT() for o in objs]
        ut = un.toSMT()
    S = smtlib.base()
    try:
        for t in texts:
            S.load(t)
        S.load(ut)
    except smt.SmtError as x:
        raise Violation(f"emitted SMT definition is ill-formed: {x}: {texts + [ut]}")
    if S.sig["uninterp"] != ([smt_sort(t) for t in case["unint"][1:]], smt_sort(case["unint"][0])):
        raise Violation(f"uninterpreted declaration has the wrong signature: {ut}")
    last = ds[-1]
    for d in ds:
        if S.sig.get(d[1]) != ([smt_sort(p[2]) for p in d[4:]], smt_sort(d[2])):
            raise Violation(f"signature of {d[1]} is {S.sig.get(d[1])}: {texts}")
    fns = build.fn_table(ds)
    call = ["call", last[1], last[2]] + last[4:]
    with sut("toSMT"):
        ctext = build.expr(call).toSMT()
    term = read(S, ctext, smt_sort(last[2]), {v[1]: smt_sort(v[2]) for v in last[4:]})
    n = 0
    for env in case["args"]:
        env = {k: ref.from_json(v) for k, v in env.items()}
        try:
            want = ref.ev(call, env, fns)
        except ref.Undef:
            continue
        got = ev(S, term, env, f"call of {last[1]}")
        if got is None:
            continue
        n += 1
        if not ref.same(got, want):
            raise Violation(f"{last[1]} returns {got!r} in SMT but {want!r} by definition: {env}; {texts}")
    if n and any(d[0] == "rec" and d[1] in str(d[3]) for d in ds):
        c.nontrivial()
        c.label("recursive")
    c.label(f"defined:{n}")


@st.composite
def cvc_case(draw):
    ds, sigs = draw(gens.decls(gens.Opts(lets=False, nested=True, smt=True)))
    vs = draw(gens.signature(O))
    es = []
    for _ in range(6):
        t = draw(st.sampled_from(gens.scalar_types(O)))
        es.append([gens.gen(draw, t, vs, O, 3, sigs), t])
    return dict(decls=ds, vars=vs, exprs=es)


def check_cvc(case, c):
    """The emitted text is accepted by a real SMT solver's parser (syntax and sorts)."""
    lines = ["(set-logic ALL)"] + [smtlib.text(n) for n in ("tuples.smt", "integer-fn-axioms.smt", "list-axioms.smt")]
    with sut("toSMT"):
        for d in case["decls"]:
            lines.append(build.decl(d).toSMT())
        for v in case["vars"]:
            lines.append(f"(declare-const {v[1]} {smt.sx(smt_sort(v[2]))})")
        for e, t in case["exprs"]:
            x = build.expr(e).toSMT()
            lines.append(f"(assert (= {x} {x}))")
    f = tempfile.NamedTemporaryFile("w", suffix=".smt2", dir=menv.scratch(), delete=False)
    f.write("\n".join(lines))
    f.close()
    r = subprocess.run(["cvc5", "--lang=smt2", "--parse-only", f.name], capture_output=True, text=True, timeout=120)
    os.unlink(f.name)
    if "(error" in r.stdout + r.stderr or r.returncode:
        raise Violation(f"cvc5 rejects the emitted text: {(r.stdout + r.stderr)[:300]}: {lines[4:]}")
    c.nontrivial()


SUBS = [
    Sub("expr", expr_case, check_expr, 4000, 80000, rule="non-trivial: >=3 distinct operators and >=1 environment where the value is defined"),
    Sub("operators", op_case, check_expr, 2400, 30000, rule="every operator alike; non-trivial as above"),
    Sub("decl", decl_case, check_decl, 2000, 40000, rule="non-trivial: contains a recursive function and a defined call"),
    Sub("cvc5", cvc_case, check_cvc, 160, 4000, rule="every case: 6 expressions and 1-3 definitions parsed by cvc5"),
]
