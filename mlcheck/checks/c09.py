"""Python text emitted for expressions and functions means what the expression means."""
from hypothesis import strategies as st

from .. import build, gens, ref
from ..runner import Sub, Violation, sut

PROPERTY = "C09"
RULE = ("typed IR expressions/definitions over Int, Bool, integer lists, matrices, tuples, function values and calls; the emitted Python text is "
        "compiled and run and compared with the reference meaning")
ASSUMPTIONS = ["operations without a dedicated Python form are emitted as calls of the same name; the harness supplies those by their reference meaning",
               "compared only where the reference defines a value"]

O = gens.Opts(python=True, big=True)


def py(v):
    if isinstance(v, ref.Tup):
        return tuple(py(x) for x in v)
    if isinstance(v, tuple):
        return [py(x) for x in v]
    return v


def unpy(v):
    if isinstance(v, tuple):
        return ref.Tup(unpy(x) for x in v)
    if isinstance(v, list):
        return tuple(unpy(x) for x in v)
    return v


def lib(name):
    def f(*a):
        try:
            return py(ref.LIB[name](*[unpy(x) for x in a]))
        except ref.Undef:
            raise IndexError(name)
    return f


def base_env():
    from typing import Any, Callable, List
    return {"List": List, "Callable": Callable, "Any": Any,
            **{k: lib(k) for k in ref.LIB if k.isidentifier()}}


PYV = [n for n in gens.VAR_NAMES if n.isidentifier()]


@st.composite
def expr_case(draw):
    vs = draw(gens.signature(O, names=PYV))
    e, vs, t = draw(gens.typed_expr(O, vs=vs))
    return dict(expr=e, vars=vs, ty=t, envs=draw(gens.envs(vs)))


@st.composite
def op_case(draw):
    e, vs, t, envs = draw(gens.op_expr(O, names=PYV))
    return dict(expr=e, vars=vs, ty=t, envs=envs)


PO = gens.Opts(python=True, tuples=False)
PYF = [n for n in gens.FN_NAMES if n != "ite"]


@st.composite
def decl_case(draw):
    ds, sigs = draw(gens.decls(PO, names=PYF, argnames=PYV))
    last = ds[-1]
    # a higher-order wrapper: applies a function-typed parameter to arguments
    ft = ["Fn", [last[2]] + [p[2] for p in last[4:]]]
    hof = ["fn", "apply_it", last[2], ["callv", ["var", "func", ft]] + last[4:], ["var", "func", ft]] + last[4:]
    return dict(decls=ds, hof=hof, args=draw(gens.envs(last[4:], 4)))


def compile_(text, mode):
    try:
        return compile(text, "<emitted>", mode)
    except SyntaxError as e:
        raise Violation(f"emitted Python does not compile: {e}: {text}")


def run(code, env, text):
    try:
        return unpy(eval(code, env))
    except RecursionError:
        return None
    except Exception as e:  # noqa: the emitted program fails where the expression has a value
        raise Violation(f"emitted Python fails: {type(e).__name__} {e}: {text}")


def check_expr(case, c):
    e = case["expr"]
    with sut("building"):
        obj = build.expr(e)
    with sut("to_python"):
        text = obj.to_python()
    code = compile_(text, "eval")
    n = 0
    for env in case["envs"]:
        env = {k: ref.from_json(v) for k, v in env.items()}
        try:
            want = ref.ev(e, env, shortcircuit=True)
        except ref.Undef:
            continue
        got = run(code, {**base_env(), **{k: py(v) for k, v in env.items()}}, text)
        n += 1
        if got is not None and not ref.same(got, want):
            raise Violation(f"expression evaluates to {got!r} in Python but means {want!r}: env {env} text {text}")
    ops = {x[1] if x[0] == "call" else x[0] for x in ref.walk(e)}
    c.nontrivial(n and len(ops) > 2)
    c.label(*[f"op:{o}" for o in ops if o not in ("var", "lit")])


def check_decl(case, c):
    ds = case["decls"] + [case["hof"]]
    env0 = base_env()
    with sut("to_python"):
        texts = [build.decl(d).to_python() for d in ds]
    for t in texts:
        code = compile_(t, "exec")
        try:
            exec(code, env0)
        except Exception as e:  # noqa
            raise Violation(f"emitted definition cannot be executed: {type(e).__name__} {e}: {t}")
    fns = build.fn_table(ds)
    last = case["decls"][-1]
    ft = case["hof"][4][2]
    call = ["call", "apply_it", last[2], ["fnref", last[1], ft]] + last[4:]
    for d in ds:
        if d[1] not in env0:
            raise Violation(f"{d[1]} is not defined by {texts}")
    n = 0
    for env in case["args"]:
        env = {k: ref.from_json(v) for k, v in env.items()}
        try:
            want = ref.ev(call, env, fns, shortcircuit=True)
        except ref.Undef:
            continue
        args = ", ".join(p[1] for p in last[4:])
        text = f"__f({last[1]}, {args})"
        got = run(compile_(text, "eval"), {"__f": env0["apply_it"], last[1]: env0[last[1]], **{k: py(v) for k, v in env.items()}}, str(texts))
        n += 1
        if got is not None and not ref.same(got, want):
            raise Violation(f"{last[1]} returns {got!r} in Python but {want!r} by definition: {env}; {texts}")
    c.nontrivial(n and any(d[0] == "rec" and d[1] in str(d[3]) for d in ds))


SUBS = [
    Sub("expr", expr_case, check_expr, 4000, 100000, rule="non-trivial: >=3 distinct operators and >=1 defined environment"),
    Sub("operators", op_case, check_expr, 2400, 30000, rule="every operator alike; non-trivial as above"),
    Sub("decl", decl_case, check_decl, 1600, 40000, rule="non-trivial: contains a recursive function and a defined call"),
]
