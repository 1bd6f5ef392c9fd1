"""Tidying synthesised functions up never changes what they compute."""
from hypothesis import strategies as st

from metalift import ir as I
from metalift.synthesis_common import get_used_fn_names, prune_fn_decls

from .. import build, gens, ref
from ..runner import Sub, Violation, sut

PROPERTY = "C21"
RULE = ("1-4 (recursive) definitions, some of them constant predicates, whose bodies contain conditionals on literals, on calls of constant "
        "predicates and on ordinary conditions, nested in every position; pruning keeps every name, parameter and type, gives each function "
        "the same value on every generated input (the other functions pruned too), removes no call of another function than the constant "
        "predicates', leaves the originals unchanged, and is idempotent in meaning; the used-function set is exactly the set of called names")
ASSUMPTIONS = ["values compared where the reference defines them; a discarded branch may be undefined"]

OPTS = [gens.Opts(nested=True, lets=True), gens.Opts(tensor=False, matrix=False), gens.Opts(lists=False, matrix=False, tensor=False)]
CONST = [("is_on", True), ("is_off", False), ("flag", None), ("opaque", "none")]


@st.composite
def case(draw):
    o = draw(st.sampled_from(OPTS))
    preds = []
    for nm, v in draw(st.lists(st.sampled_from(CONST), min_size=1, max_size=3, unique_by=lambda x: x[0])):
        ps = draw(gens.signature(o, 2, 0))
        if v == "none":
            body = None
        elif v is None:
            body = gens.gen(draw, "Bool", ps, o, 1)
        else:
            body = ["lit", v, "Bool"]
        preds.append([draw(st.sampled_from(["rec", "fn"])), nm, "Bool", body] + ps)
    psigs = [(d[1], "Bool", [p[2] for p in d[4:]]) for d in preds]
    ds, sigs = draw(gens.decls(o, 3))
    pick = lambda n: draw(st.integers(0, n - 1))

    def constcond(vs):
        k = pick(4)
        if k == 0:
            return ["lit", bool(pick(2)), "Bool"]
        if k < 3:
            s = psigs[pick(len(psigs))]
            return ["call", s[0], "Bool"] + [gens.gen(draw, t, vs, o, 1) for t in s[2]]
        return ["ite", constcond(vs), ["lit", True, "Bool"], ["lit", False, "Bool"]]

    def wrap(e, vs, d):
        """put conditionals around sub-expressions"""
        if e[0] in ("var", "lit"):
            r = e
        else:
            h = {"call": 3}.get(e[0], 1)
            if e[0] == "let":
                r = ["let", e[1], wrap(e[2], vs, d), e[3]]
            elif e[0] == "tget":
                r = ["tget", wrap(e[1], vs, d), e[2]]
            else:
                r = e[:h] + [wrap(x, vs, d) for x in e[h:]]
        if d > 0 and pick(4) == 0:
            t = build.typ(r)
            other = gens.gen(draw, t, vs, o, 1, sigs)
            if pick(3) == 0:
                other = ["ite", constcond(vs), other, gens.gen(draw, t, vs, o, 1, sigs)]
            c = constcond(vs)
            if pick(4) == 0:
                c = ["not", c]
            r = ["ite", c] + ([r, other] if pick(2) else [other, r])
        return r
    out = []
    for d in ds:
        out.append(d[:3] + [wrap(d[3], d[4:], 2)] + d[4:])
    envs = {d[1]: draw(gens.envs(d[4:], 4)) for d in out + [p for p in preds if p[3] is not None]}
    allf = draw(st.permutations(preds + out))
    return dict(fns=list(allf), envs=envs, present=draw(st.integers(0, 3)) > 0)


def opaque(*a):
    return len(repr(a)) % 2 == 0


def calls(e, out):
    if isinstance(e, I.Call):
        out.append(e.args[0])
    for x in getattr(e, "args", []):
        if isinstance(x, I.Expr):
            calls(x, out)
    return out


def check(case, c):
    with sut("building"):
        fs = {d[1]: build.decl(d) for d in case["fns"]}
    before = {n: repr(f) + str(f.args) for n, f in fs.items()}
    copies = {d[1]: build.decl(d) for d in case["fns"]}
    # the constant predicates may be defined elsewhere: then nothing may be assumed about them
    given = {n: f for n, f in fs.items() if case["present"] or n not in {x[0] for x in CONST}}
    with sut("prune_fn_decls"):
        out = prune_fn_decls(dict(given))
        again = prune_fn_decls(out)
    for n, f in fs.items():
        if not same(f, copies[n]) or repr(f) + str(f.args) != before[n]:
            raise Violation(f"pruning changed the given function {n}: {copies[n]} to {f}")
    if list(out) != list(given):
        raise Violation(f"pruned functions {list(out)}, given {list(given)}")
    base = {d[1]: ([p[1] for p in d[4:]], d[3]) if d[3] is not None else opaque for d in case["fns"]}
    changed = 0
    for stage, res in (("pruning", out), ("pruning twice", again)):
        new = dict(base)
        for n, f in res.items():
            if type(f) is not type(fs[n]) or f.name() != n or f.type != fs[n].type or list(f.arguments()) != list(fs[n].arguments()):
                raise Violation(f"{stage} made {f!r} of {fs[n]!r}")
            if fs[n].body() is None:
                if f.body() is not None:
                    raise Violation(f"{n} had no body, now {f.body()!r}")
                continue
            with sut("reading the pruned function"):
                new[n] = ([p.args[0] for p in f.arguments()], build.spec(f.body()))
            if f.body().type != fs[n].body().type:
                raise Violation(f"{n}'s body had type {fs[n].body().type}, now {f.body().type}")
            changed += repr(new[n][1]) != repr(base[n][1])
            was, now = calls(fs[n].body(), []), calls(f.body(), [])
            if any(now.count(k) > was.count(k) for k in now):
                raise Violation(f"{stage} added calls to {n}: {fs[n].body()!r} to {f.body()!r}")
        for d in case["fns"]:
            if d[3] is None or d[1] not in res:
                continue
            call = ["call", d[1], d[2]] + d[4:]
            for env in case["envs"][d[1]]:
                env = {k: ref.from_json(v) for k, v in env.items()}
                try:
                    want = ref.ev(call, env, base)
                except ref.Undef:
                    continue
                try:
                    got = ref.ev(call, env, new)
                except ref.Undef as u:
                    raise Violation(f"{stage} made {d[1]} undefined ({u}) at {env}: {fs[d[1]].body()!r} to {res[d[1]].body()!r}")
                if not ref.same(got, want):
                    raise Violation(f"{stage} changed {d[1]} from {want} to {got} at {env}: {fs[d[1]].body()!r} to {res[d[1]].body()!r}; "
                                    f"{ {n: str(f.body()) for n, f in given.items()} }")
    for what, fl in (("given", list(given.values())), ("pruned", list(out.values()))):
        fl = [f for f in fl if f.body() is not None]
        with sut("get_used_fn_names"):
            got = get_used_fn_names(fl)
        want = set()
        for f in fl:
            want |= set(calls(f.body(), []))
        if set(got) != want:
            raise Violation(f"used functions {sorted(got)}, called {sorted(want)} in {[f.body() for f in fl]}")
    if changed:
        c.nontrivial()
    c.label("changed" if changed else "unchanged", "given" if case["present"] else "elsewhere")


def same(a, b):
    return type(a) is type(b) and build_safe(a) == build_safe(b)


def build_safe(f):
    return [type(f).__name__, f.args[0], None if f.args[1] is None else build.spec(f.args[1]), [build.spec(p) for p in f.args[2:]]]


SUBS = [Sub("prune", case, check, 2400, 60000, rule="non-trivial: some function was changed by pruning")]
