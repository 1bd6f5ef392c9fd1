"""Completeness of the VC that the LLVM front end makes: exact invariants and postcondition satisfy it."""
from hypothesis import strategies as st

from .. import llvmfront as F, llvmir as L, ref, vcsearch
from ..runner import Discard, Sub, Violation
from .c02 import perturb, rnd
from .c04 import FNS, Rejected, clang_case as c04_clang_case, loop_numbers, may_reject, with_pre as c04_with_pre

PROPERTY = "C05"
RULE = ("random functions in the supported instruction set (clang -O0 style and arbitrary control flow), normalised by the pass; "
        "invariants are interpreted as exactly the reachable loop-head states and the postcondition as exactly the function's "
        "graph (both decided by an independent IR interpreter); the VC must not be false at assignments taken from executions, "
        "perturbed ones and random ones; the predicates' arguments and what the grammars are given are compared with the function")
ASSUMPTIONS = ["invariants range over all variables of the function (the grammar names them)",
               "integers are mathematical; dividends, divisors and operands of unsigned comparisons are not negative",
               "assignments at which the program does not terminate within the step limit, or is undefined, are skipped"]


def setup():
    L.build_pass()


def case_for(**kw):
    @st.composite
    def case(draw):
        p = draw(F.program(**kw))
        return dict(prog=p, args=[draw(F.args_for(p)) for _ in range(3)], cuts=draw(st.lists(st.integers(0, 20), min_size=3, max_size=3)),
                    rand=draw(st.lists(st.integers(0, 10 ** 6), min_size=6, max_size=6)))
    return case


def predicates(p, pr, v, im, scope, override=None):
    """Names, types and order of the predicates' arguments and of what the grammars get."""
    params = sorted(n for n, _ in p["params"])
    types = {**p["vars"], **dict(p["params"]), "retval": p["ret"], "tmp": "Int", "ref": "Int"}
    ps = v.preds.get(p["name"] + "_ps")
    want = [(n, types[n]) for n in params] + [(p["name"] + "_rv", p["ret"])]
    if ps != want:
        raise Violation(f"the postcondition ranges over {ps}, expected {want}\n{p['text']}")
    writes = F.loop_writes(pr.f)
    hascope = {n for n in scope if n in p["vars"] or (n == "retval" and "%retval = alloca" in p["text"])}
    for name, l in im.items():
        h = v.heads[name][1]
        w = sorted(writes[h])
        if v.writes[name] != w:
            raise Violation(f"{name}: the variables said to be written are {v.writes[name]}, expected {w}\n{p['text']}")
        first = [n for n, _ in override] if override else sorted(set(w) | set(params))
        a = [n for n, _ in v.preds[name]]
        names = first + sorted((hascope | set(params) & set(scope)) - set(first))
        if a != names:
            raise Violation(f"{name} ranges over {a}, expected {names}\n{p['text']}")
        if any(t != types[n] for n, t in v.preds[name]):
            raise Violation(f"{name}: {v.preds[name]} have other types in the function: {types}\n{p['text']}")
        for g in v.got:
            if g[0] == name and (list(g[1]) != w or list(g[2]) != params or set(g[3]) != hascope | set(params) & set(scope)):
                raise Violation(f"{name}: its grammar gets writes {g[1]}, reads {g[2]}, in scope {g[3]}; expected {w}, {params} "
                                f"and {sorted(hascope)}\n{p['text']}")
        if not any(g[0] == name for g in v.got):
            raise Violation(f"the grammar of {name} is not used")
    for g in v.got:
        if g[0] == p["name"] + "_ps" and (g[1], list(g[2])) != ((p["name"] + "_rv",), params):
            raise Violation(f"the postcondition's grammar gets {g[1:]}")
        if g[0] not in im and g[0] != p["name"] + "_ps":
            raise Violation(f"a grammar is asked for {g[0]}")
    free = {n: F.MI if t == "Matrix" else t for n, t in vcsearch.free_vars(v.spec).items()}
    for n, t in free.items():
        if n not in v.vars or v.vars[n] != t:
            raise Violation(f"VC variable {n}: {t} is not a declared variable ({v.vars})\n{p['text']}")
    return free


def check(case, c):
    p = case["prog"]
    pr = F.Program(p)
    if all(pr.run([ref.from_json(x) for x in a]) is None for a in case["args"]):
        raise Discard("no terminating run")
    try:
        with may_reject([pr], c):
            v = F.analyze([p], "all", pre=case.get("pre"))
    except Rejected:
        return
    im = loop_numbers(v, [(p["name"], pr)])
    free = predicates(p, pr, v, im, list(p["vars"]) + ["retval"])
    params = [n for n, _ in p["params"]]

    def excluded(d):
        """Executions from arguments outside the precondition do not count: nothing is reachable there."""
        try:
            return case.get("pre") is not None and not ref.ev(case["pre"], d)
        except ref.Undef:
            return None

    preds = {}
    for name, l in im.items():
        def inv(vals, h=v.heads[name][1], pa=v.preds[name]):
            d = {n: x for (n, _), x in zip(pa, vals)}
            if excluded(d):
                return False
            r = pr.run([d[n] for n in params])
            if r is None:
                return None
            return any(k == h and vcsearch.head(pa, vals, s, lambda n: n) for k, s in r[0])
        preds[name] = inv

    def post(vals):
        d = dict(zip(sorted(params), vals))
        if excluded(d):
            return False
        r = pr.run([d[n] for n in params])
        return None if r is None else ref.same(vals[-1], r[1])

    preds[p["name"] + "_ps"] = post
    fns = vcsearch.with_preds(FNS, preds)
    srcs = vcsearch.sources(v, im, params, lambda n: n)
    nums = {v.heads[i][1]: l for i, l in im.items()}
    tried = {"True": 0, "None": 0}

    def test(env):
        r = vcsearch.kleene(v.spec, env, preds, fns)
        tried[str(r)] = tried.get(str(r), 0) + 1
        if r is False:
            raise Violation(f"the VC is false at {env} although the invariants and the postcondition are exact:\n{p['text']}\nVC: {v.spec}")

    for a, cut, sd in zip(case["args"], case["cuts"], case["rand"]):
        a = [ref.from_json(x) for x in a]
        r = pr.run(a)
        if r is None:
            continue
        args = dict(zip(params, a))
        for t in sorted({len(r[0]), cut % (len(r[0]) + 1)}):
            last = {}
            for h, s in r[0][:t]:
                last[nums[h]] = s
            k = 0
            for env in vcsearch.candidates(free, args, srcs, last, cap=24):
                test(env)
                k += 1
                if k % 3 == 1 and len(env) > len(args):
                    n = sorted(set(env) - set(args))[sd % (len(env) - len(args))]
                    test({**env, n: perturb(env[n], v.vars[n], sd + k)})
    for sd in case["rand"]:
        test({n: rnd(t, f"{n}{sd}") for n, t in free.items()})
    c.nontrivial(tried["True"] >= 2 and len(pr.f.blocks) > 2)
    c.label(f"loops:{len(pr.heads)}", f"decided:{min(tried['True'], 10)}")


@st.composite
def with_pre(draw):
    case = draw(c04_with_pre())
    case["args"] = case["args"][:3]
    return {**case, "cuts": [0, 1, 2], "rand": draw(st.lists(st.integers(0, 10 ** 6), min_size=4, max_size=4))}


@st.composite
def clang_case(draw):
    case = draw(c04_clang_case())
    return dict(module=case["module"], args=case["args"][:3], cuts=draw(st.lists(st.integers(0, 20), min_size=3, max_size=3)),
                rand=draw(st.lists(st.integers(0, 10 ** 6), min_size=4, max_size=4)))


def check_clang(case, c):
    c.label(case["module"].split("/")[-1])
    check({**case, "prog": F.from_module(case["module"])}, c)


@st.composite
def preds_case(draw):
    p = draw(F.program(kinds=draw(st.sampled_from([(), ("l", "s", "v", "Bool"), ("t", "v"), ("m", "v")])), cfg=draw(st.booleans())))
    names = sorted(p["vars"]) + [n for n, _ in p["params"]] + ["retval", "nothing"]
    over = None
    if draw(st.booleans()):
        types = {**p["vars"], **dict(p["params"])}
        over = [[n, types[n]] for n in draw(st.lists(st.sampled_from(sorted(types)), min_size=1, max_size=3, unique=True))]
    return dict(prog=p, scope=draw(st.lists(st.sampled_from(names), unique=True)), over=over)


def check_preds(case, c):
    """Which variables predicates range over depends on the scope and the arguments the grammar asks for."""
    p = case["prog"]
    pr = F.Program(p)
    if not any(pr.f.blocks[b][-1]["op"] == "ret" for b in F.dominators(pr.f)[0]):
        raise Discard("never returns")
    try:
        with may_reject([pr], c):
            v = F.analyze([p], case["scope"], override=case["over"])
    except Rejected:
        return
    im = loop_numbers(v, [(p["name"], pr)])
    predicates(p, pr, v, im, case["scope"], case["over"])
    c.nontrivial(len(im) > 0)
    c.label(f"loops:{len(im)}")


SUBS = [
    Sub("structured", case_for(), check, 800, 30000, rule="non-trivial: the VC is decided at >=2 assignments and there are several blocks"),
    Sub("cfg", case_for(cfg=True), check, 600, 20000, rule="arbitrary control flow; non-trivial as above"),
    Sub("values", case_for(kinds=("l", "s", "v", "t", "Bool")), check, 700, 20000, rule="lists, sets, vectors, tuples, Booleans; non-trivial as above"),
    Sub("matrices", case_for(kinds=("m", "v", "m")), check, 700, 20000, rule="vectors of vectors, vectors declared in loops, returned by reference; non-trivial as above"),
    Sub("simple", case_for(simple=True, kinds=("v", "l")), check, 600, 20000, rule="small functions; non-trivial as above"),
    Sub("compiled", lambda: clang_case(), check_clang, 200, 4000, rule="the functions clang compiled for the benchmarks, on random arguments; non-trivial as above"),
    Sub("precondition", lambda: with_pre(), check, 300, 10000, rule="with a precondition; non-trivial as above"),
    Sub("preds", preds_case, check_preds, 600, 10000, rule="predicates, their arguments and the grammars only; non-trivial: has a loop"),
]
