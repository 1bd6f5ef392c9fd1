"""Rosette text emitted for expressions and functions means what the expression means."""
from hypothesis import strategies as st

from .. import build, gens, ref, rkt, rktlib
from ..runner import Sub, Violation, sut

PROPERTY = "C07"
RULE = ("typed IR expressions/definitions over Int, Bool, lists, matrices, 3D tensors, sets, tuples, built with the "
        "raw constructors; the emitted Rosette text is parsed and run by an independent Racket evaluator against "
        "the repository's own utils.rkt and compared with the reference meaning on generated environments")
ASSUMPTIONS = ["mini Racket evaluator (mlcheck/rkt.py) implements the used subset of Racket; no racket binary is installed",
               "values compared only where the reference defines them (indices in range, dividend>=0, divisor>0)"]

O = gens.Opts(lets=True, big=True, nested=True)


@st.composite
def expr_case(draw):
    e, vs, t = draw(gens.typed_expr(O))
    return dict(expr=e, vars=vs, ty=t, envs=draw(gens.envs(vs)))


@st.composite
def op_case(draw):
    e, vs, t, envs = draw(gens.op_expr(O))
    return dict(expr=e, vars=vs, ty=t, envs=envs)


@st.composite
def decl_case(draw):
    ds, sigs = draw(gens.decls(gens.Opts(lets=False, nested=True)))
    last = ds[-1]
    return dict(decls=ds, args=draw(gens.envs(last[4:], 4)))


def used_ops(e):
    return {x[1] if x[0] == "call" else x[0] for x in ref.walk(e)}


def run(I, text, env, what):
    try:
        return I.run(text, {rkt.Sym(k): rkt.to_rkt(v) for k, v in env.items()})
    except rkt.RktError as e:
        raise Violation(f"{what}: emitted Rosette fails: {e}: {text[:600]}")
    except (rkt.StepLimit, OverflowError, RecursionError):
        return None


def to_cmp(v):
    return rkt.to_rkt(v)


def check_expr(case, c):
    e = case["expr"]
    with sut("building"):
        obj = build.expr(e)
    with sut("to_rosette"):
        text = obj.to_rosette()
    I = rktlib.interp()
    n = 0
    for env in case["envs"]:
        env = {k: ref.from_json(v) for k, v in env.items()}
        try:
            want = ref.ev(e, env)
        except ref.Undef:
            continue
        got = run(I, text, env, "expression")
        if got is None:
            continue
        n += 1
        if not rkt.equalp(got, to_cmp(want)):
            raise Violation(f"expression evaluates to {got!r} in Rosette but means {want!r}: env {env} text {text[:800]}")
    ops = used_ops(e)
    if n and len(ops) > 2:
        c.nontrivial()
    if not n:
        c.label("all-undefined")
    c.label(*[f"op:{o}" for o in ops if o not in ("var", "lit")])


def check_decl(case, c):
    ds = case["decls"]
    with sut("building"):
        objs = [build.decl(d) for d in ds]
    with sut("to_rosette"):
        texts = [o.to_rosette() for o in objs]
    I = rktlib.interp()
    for t in texts:
        try:
            I.load(t)
        except rkt.RktError as e:
            raise Violation(f"definition does not load: {e}: {t[:500]}")
    if I.forms:
        raise Violation(f"unexpected top-level text {I.forms!r}")
    fns = build.fn_table(ds)
    last = ds[-1]
    call = ["call", last[1], last[2]] + last[4:]
    with sut("to_rosette"):
        ctext = build.expr(call).to_rosette()
    n = 0
    for env in case["args"]:
        env = {k: ref.from_json(v) for k, v in env.items()}
        try:
            want = ref.ev(call, env, fns)
        except ref.Undef:
            continue
        got = run(I, ctext, env, f"call of {last[1]}")
        if got is None:
            continue
        n += 1
        if not rkt.equalp(got, to_cmp(want)):
            raise Violation(f"{last[1]} returns {got!r} in Rosette but {want!r} by definition: {env}; {texts}")
    if n and any(d[0] == "rec" and d[1] in str(d[3]) for d in ds):
        c.nontrivial()
        c.label("recursive")
    c.label(f"defined:{n}")


SUBS = [
    Sub("expr", expr_case, check_expr, 2400, 60000, rule="non-trivial: >=3 distinct operators and >=1 environment where the value is defined"),
    Sub("operators", op_case, check_expr, 2400, 30000, rule="every operator alike; non-trivial as above"),
    Sub("decl", decl_case, check_decl, 1200, 30000, rule="non-trivial: contains a function and a defined call"),
]
