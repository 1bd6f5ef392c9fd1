"""Completeness of the VC that the Python front end makes: exact invariants and postcondition satisfy it."""
import re

from hypothesis import strategies as st

from .. import fastmypy, pyfront as P, ref, vcsearch
from ..runner import Discard, Sub, Violation, sut
from .c01 import inv_map

PROPERTY = "C02"
RULE = ("random program of the Python subset; invariants are interpreted as exactly the reachable loop-head states and the "
        "postcondition as exactly the function's graph (both decided by executing the program); the VC must not be false at "
        "assignments taken from executions, perturbed ones and random ones")
ASSUMPTIONS = ["parameters of programs with loops are not modified (invariants do not range over initial values)",
               "assignments at which the program does not terminate within the step limit, or is undefined, are skipped"]
fastmypy.install()


def case_for(loops):
    @st.composite
    def case(draw):
        p = draw(P.program(sound=False, loops=loops))
        if p["params"] and draw(st.integers(0, 5)) == 0:
            p["rename"] = True
        return dict(prog=p, args=[draw(P.args_for(p)) for _ in range(3)], cuts=draw(st.lists(st.integers(0, 20), min_size=3, max_size=3)),
                    rand=draw(st.lists(st.integers(0, 10 ** 6), min_size=6, max_size=6)))
    return case


def rnd(t, seed):
    import random
    r = random.Random(seed)
    if t == "Int":
        return r.randint(-3, 6)
    if t == "Bool":
        return r.random() < 0.5
    if t[0] == "List" and t[1] != "Int":
        return tuple(rnd(t[1], f"{seed}/{k}") for k in range(r.randint(0, 3)))
    if t[0] == "List":
        return tuple(r.randint(-3, 5) for _ in range(r.randint(0, 4)))
    if t[0] == "Tuple":
        return ref.Tup(rnd(x, f"{seed}/{k}") for k, x in enumerate(ref.components(t)))
    return frozenset(r.randint(-2, 4) for _ in range(r.randint(0, 3)))


def perturb(v, t, seed):
    if t == "Int":
        return v + (1 if seed % 2 else -1)
    if t != "Bool" and t[0] == "List" and v:
        return v[:-1] if seed % 2 else v + (1 if t[1] == "Int" else rnd(t[1], seed),)
    return rnd(t, seed)


def predicates(p, pr, v, im, pre):
    params = [n for n, _ in p["params"]]
    # ---- predicates
    if len(im) != len(pr.loops):
        raise Violation(f"{len(pr.loops)} loops but {len(im)} invariants")
    ps = v.preds.get(p["name"] + "_ps")
    if ps is None or [t for _, t in ps] != [t for _, t in p["params"]] + [p["ret"]]:
        raise Violation(f"the postcondition ranges over {ps}, not over the arguments and the result")
    if [n for n, _ in ps[:-1]] != [pre + n for n in params]:
        raise Violation(f"the postcondition's arguments are {ps}, not the function's")
    names = set()
    P.names_s(p["body"], names)
    for name, l in im.items():
        a = [n for n, _ in v.preds[name]]
        rest = a[len(params):]
        if a[:len(params)] != params or rest != sorted(set(rest) - set(params)):
            raise Violation(f"{name} ranges over {a}: expected {params} and then the other variables in order")
        missing = (pr.loops[l]["defined"] & names) - set(a)
        if missing:
            raise Violation(f"{name} does not range over {sorted(missing)}:\n{P.source(p)}")
        if set(rest) - names:
            raise Violation(f"{name} ranges over unknown variables {rest}")
    for l, g in enumerate(v.grammars):
        info = pr.loops[l]
        if list(g[0]) != sorted(info["writes"]):
            raise Violation(f"loop {l}: writes given to the grammar are {g[0]}, expected {sorted(info['writes'])}\n{P.source(p)}")
        if list(g[1]) != sorted(info["reads"]):
            raise Violation(f"loop {l}: reads given to the grammar are {g[1]}, expected {sorted(info['reads'])}\n{P.source(p)}")
    free = vcsearch.free_vars(v.spec)
    for n, t in free.items():
        if n not in v.vars or v.vars[n] != t:
            raise Violation(f"VC variable {n}: {t} is not a declared variable ({v.vars})")
    return free


def check(case, c):
    p = case["prog"]
    pr = P.Program(p)
    pre = "actual_" if p.get("rename") else ""
    d, _, got = P.analyze(p, prefix=pre)
    v = P.harvest(d, p, got)
    im = inv_map(v, p["name"])
    params = [n for n, _ in p["params"]]
    ptypes = dict(p["params"])
    free = predicates(p, pr, v, im, pre)

    # ---- truth
    preds = {}
    for name, l in im.items():
        def inv(vals, l=l, pa=v.preds[name]):
            r = pr.run(vals[:len(params)])
            if r is None:
                return None
            return any(k == l and vcsearch.head(pa, vals, s, lambda n: n) for k, s in r[0])
        preds[name] = inv

    def post(vals):
        r = pr.run(vals[:-1])
        return None if r is None else ref.same(vals[-1], r[1])

    preds[p["name"] + "_ps"] = post
    srcs = vcsearch.sources(v, im, [pre + n for n in params], lambda n: n)
    tried = {"True": 0, "None": 0}

    def test(env):
        r = vcsearch.kleene(v.spec, env, preds, P.FNS)
        tried[str(r)] = tried.get(str(r), 0) + 1
        if r is False:
            raise Violation(f"the VC is false at {env} although the invariants and the postcondition are exact:\n"
                            f"{P.source(p)}\nVC: {v.spec}")

    for a, cut, sd in zip(case["args"], case["cuts"], case["rand"]):
        a = [ref.from_json(x) for x in a]
        r = pr.run(a)
        if r is None:
            continue
        args = dict(zip([pre + n for n in params], a))
        for t in {len(r[0]), cut % (len(r[0]) + 1)}:
            last = {}
            for l, s in r[0][:t]:
                last[l] = s
            k = 0
            for env in vcsearch.candidates(free, args, srcs, last, cap=24):
                test(env)
                k += 1
                if k % 3 == 1 and len(env) > len(args):
                    n = sorted(set(env) - set(args))[sd % (len(env) - len(args))]
                    test({**env, n: perturb(env[n], v.vars[n], sd + k)})
    for sd in case["rand"]:
        test({**{n: rnd(t, f"{n}{sd}") for n, t in free.items()}})
    c.nontrivial(tried["True"] >= 2 and (len(pr.loops) or len(p["body"]) > 1))
    c.label(f"loops:{len(pr.loops)}", f"decided:{min(tried['True'], 10)}")


def params_modified(p):
    """Loops of the C01 programs may modify parameters; invariants cannot be exact for those."""
    W = set()
    P.rw(p["body"], set(), W)
    return W & {n for n, _ in p["params"]}


@st.composite
def simple_case(draw):
    p = draw(P.simple())
    return dict(prog=p, args=[draw(P.args_for(p)) for _ in range(3)], cuts=draw(st.lists(st.integers(0, 20), min_size=3, max_size=3)),
                rand=draw(st.lists(st.integers(0, 10 ** 6), min_size=6, max_size=6)))


@st.composite
def preds_case(draw):
    return dict(prog=draw(st.one_of(P.simple(), P.program(sound=True, loops=True))))


def check_simple(case, c):
    if params_modified(case["prog"]):
        return check_preds(case, c)
    check(case, c)


def check_preds(case, c):
    p = case["prog"]
    pr = P.Program(p)
    d, _, got = P.analyze(p)
    v = P.harvest(d, p, got)
    predicates(p, pr, v, inv_map(v, p["name"]), "")
    c.nontrivial(bool(pr.loops))


SUBS = [
    Sub("simple", simple_case, check_simple, 1600, 40000, rule="small dense programs; non-trivial as for loops"),
    Sub("preds", preds_case, check_preds, 800, 10000, rule="predicates and their argument lists only; non-trivial: has a loop"),
    Sub("loops", case_for(True), check, 1200, 40000, rule="non-trivial: the VC is decided at >=2 assignments and the program has a loop"),
    Sub("straight", case_for(False), check, 600, 20000, rule="non-trivial: the VC is decided at >=2 assignments, several statements"),
]
