"""Soundness of the VC that the LLVM front end makes: an execution the postcondition rejects refutes it."""
import contextlib

from hypothesis import strategies as st

from .. import llvmfront as F, llvmir as L, ref, vcsearch
from ..runner import Discard, Sub, Violation

PROPERTY = "C04"
RULE = ("random functions in the supported instruction set (clang -O0 style and arbitrary control flow), normalised by the "
        "pass; the original is run by an independent IR interpreter recording every loop-head state; the VC gets invariants "
        "true exactly on a chosen subset of the visited states and a postcondition false exactly at the observed result; "
        "some assignment taken from the states must make the VC false")
ASSUMPTIONS = ["integers are mathematical (runs beyond 32 bits are dropped)", "dividends, divisors and operands of unsigned "
               "comparisons are not negative"]
FNS = F.FNS


def setup():
    L.build_pass()


def case_for(**kw):
    @st.composite
    def case(draw):
        p = draw(F.program(**kw))
        return dict(prog=p, args=[draw(F.args_for(p)) for _ in range(5)], cut=draw(st.integers(0, 12)),
                    bits=draw(st.integers(0, 1023)), scope=draw(st.sampled_from(["all", "all", "none", []])))
    return case


def subsets(case):
    bits, cut = case["bits"], case["cut"]
    return [("every visited state", lambda k, l: True), ("nothing", lambda k, l: False),
            (f"the first {cut} visits", lambda k, l: k < cut), ("all but the first visits of some loops", lambda k, l: k >= 1 + cut % 3),
            ("a random subset", lambda k, l: bits >> (k % 10) & 1), ("one loop only", lambda k, l: l == bits % 3)]


def loop_numbers(v, prs):
    """invariant -> number of the loop; every natural loop of the source must have one."""
    num = {(n, h): 100 * i + j for i, (n, pr) in enumerate(prs) for j, h in enumerate(pr.heads)}
    im = {}
    for inv, key in v.heads.items():
        if key not in num:
            raise Violation(f"{inv} belongs to {key}, which is not a loop header")
        im[inv] = num.pop(key)
    if num:
        raise Violation(f"the loops at {sorted(num)} have no invariant")
    return im


def project(trace, im, preds, heads):
    """The parts of the visited states that the invariants range over."""
    out = []
    names = {l: {n for n, _ in preds[i]} for i, l in im.items()}
    for h, s in trace:
        l = heads[h]
        out.append((l, {n: x for n, x in s.items() if n in names[l]}))
    return out


def refute(case, c, v, im, pr, pre=None, first=None):
    """Every terminating run (that satisfies the precondition) must refute the VC, given a postcondition that rejects it.
    first: function analysed before on the same arguments; its invariants and postcondition hold exactly on its run."""
    p = pr.prog
    name = p["name"] + "_ps"
    order = sorted(range(len(p["params"])), key=lambda i: p["params"][i][0])

    def mine(q):
        m = {i: l for i, l in im.items() if v.heads[i][0] == q["name"]}
        return m, {v.heads[i][1]: l for i, l in m.items()}

    n_runs, ls = 0, set()
    for a in case["args"]:
        a = [ref.from_json(x) for x in a]
        r = pr.run(a)
        if r is None:
            continue
        args = dict(zip([q[0] for q in p["params"]], a))
        if pre is not None:
            try:
                if ref.ev(pre, args) is not True:
                    continue
            except ref.Undef:
                continue
        tr1, extra = [], None
        if first is not None:
            r1 = first.run(a)
            if r1 is None:
                continue
            tr1 = project(r1[0], mine(first.prog)[0], v.preds, mine(first.prog)[1])
            extra = {first.prog["name"] + "_ps": lambda vals: ref.same(vals[-1], r1[1]) and
                     all(ref.same(x, a[i]) for x, i in zip(vals, order))}
        n_runs += 1
        tr = project(r[0], mine(p)[0], v.preds, mine(p)[1])
        ls |= {l for l, _ in tr}
        seen = set()
        for what, sub in subsets(case):
            key = tuple(bool(sub(k, l % 100)) for k, (l, _) in enumerate(tr))
            if key in seen:
                continue
            seen.add(key)
            ok, n, env = vcsearch.refutes(
                v, im, name, args, (tr1 + tr, r[1]), lambda k, l: k < len(tr1) or sub(k - len(tr1), l % 100),
                FNS, lambda n: n, [a[i] for i in order], extra=extra)
            if not ok:
                raise Violation(
                    f"the VC holds although {p['name']}{tuple(a)} returns {r[1]!r}, which the postcondition rejects "
                    f"(invariants hold on {what}; {n} assignments tried):\n{p['text']}\nVC: {v.spec}")
            c.label("subset:" + what.split(" ")[0])
    return n_runs, len(ls)


def terminates(pr, case):
    if all(pr.run([ref.from_json(x) for x in a]) is None for a in case["args"]):
        raise Discard("no terminating run")


def may_reject(ps, c):
    """Code outside what the front end supports has to be rejected (or treated soundly)."""
    what = [w for w, b in [("irreducible", any(not p.reducible for p in ps)), ("pointer", any(p.prog["refs"] for p in ps))] if b]
    if not what:
        return contextlib.nullcontext()

    @contextlib.contextmanager
    def cm():
        try:
            yield
        except Violation:
            c.label(f"{what[0]}: rejected")
            raise Rejected
    return cm()


class Rejected(Exception):
    pass


def check(case, c):
    p = case["prog"]
    pr = F.Program(p)
    terminates(pr, case)
    try:
        with may_reject([pr], c):
            v = F.analyze([p], case["scope"], pre=case.get("pre"))
    except Rejected:
        return
    im = loop_numbers(v, [(p["name"], pr)])
    runs, ls = refute(case, c, v, im, pr, pre=case.get("pre"))
    c.nontrivial((ls > 0 or not pr.heads) and len(pr.f.blocks) > 2)
    c.label(f"loops executed:{ls}", f"runs:{runs}", f"ret:{p['ret'] if isinstance(p['ret'], str) else p['ret'][0]}")


@st.composite
def two(draw):
    kinds = draw(st.sampled_from([(), ("v", "l")]))
    ps = draw(st.lists(st.sampled_from(["Int"] + list(kinds)), min_size=1, max_size=2))
    first = draw(F.program(kinds=kinds, name="first", simple=True, params=ps))
    # the same parameters in the same order
    p = draw(F.program(kinds=kinds, simple=True, params=ps).filter(lambda q: q["params"] == first["params"]))
    return dict(first=first, prog=p, args=[draw(F.args_for(p)) for _ in range(5)], cut=draw(st.integers(0, 12)),
                bits=draw(st.integers(0, 1023)), scope=draw(st.sampled_from(["all", "all", "none", []])))


def check_two(case, c):
    """A function analysed after another one with the same driver, which may assume the other's postcondition."""
    p, q = case["prog"], case["first"]
    pr, fr = F.Program(p), F.Program(q)
    terminates(pr, case)
    try:
        with may_reject([pr, fr], c):
            v = F.analyze([q, p], case["scope"])
    except Rejected:
        return
    im = loop_numbers(v, [(q["name"], fr), (p["name"], pr)])
    runs, ls = refute(case, c, v, im, pr, first=fr)
    c.nontrivial(runs > 0 and len(fr.f.blocks) + len(pr.f.blocks) > 2)
    c.label(f"loops executed:{ls}", f"runs:{runs}")


@st.composite
def with_pre(draw):
    case = draw(case_for()().filter(lambda x: any(k == "Int" for k in x["prog"]["kinds"])))
    v = lambda: ["var", draw(st.sampled_from([n for n, t in case["prog"]["params"] if t == "Int"])), "Int"]
    rel = lambda: [draw(st.sampled_from(["lt", "le", "gt", "ge"])), v(), draw(st.sampled_from([["lit", 0, "Int"], ["lit", 2, "Int"], v()]))]
    case["pre"] = rel() if draw(st.booleans()) else [draw(st.sampled_from(["and", "or"])), rel(), rel()]
    return case


@st.composite
def clang_case(draw):
    m = draw(st.sampled_from(F.compiled()))
    p = F.from_module(m)
    n = draw(st.tuples(st.integers(1, 3), st.integers(1, 3)))
    i = st.integers(0, 5) if draw(st.booleans()) else st.integers(0, 70)

    def arg(k):
        """Mostly matrices of the same shape."""
        r, w = n if draw(st.integers(0, 5)) else draw(st.tuples(st.integers(0, 3), st.integers(0, 3)))
        row = st.lists(i, min_size=w, max_size=w)
        return draw(i if k == "Int" else row if k == "v" else st.lists(row, min_size=r, max_size=r))
    small = st.integers(0, 3)
    args = [[draw(small) if k == "Int" and draw(st.booleans()) else arg(k) for k in p["kinds"]] for _ in range(4)]
    return dict(module=m, args=args, cut=draw(st.integers(0, 12)), bits=draw(st.integers(0, 1023)), scope=draw(st.sampled_from(["all", "none", []])))


def check_clang(case, c):
    c.label(case["module"].split("/")[-1])
    check({**case, "prog": F.from_module(case["module"])}, c)


SUBS = [
    Sub("structured", case_for(), check, 1000, 30000, rule="non-trivial: some loop head is visited or there is none, and there are several blocks"),
    Sub("cfg", case_for(cfg=True), check, 700, 20000, rule="arbitrary control flow; irreducible control flow has to be rejected or treated soundly"),
    Sub("values", case_for(kinds=("l", "s", "v", "t", "Bool")), check, 900, 20000, rule="lists, sets, vectors, tuples, Booleans; non-trivial as above"),
    Sub("matrices", case_for(kinds=("m", "v", "m")), check, 800, 20000, rule="vectors of vectors, vectors declared in loops, returned by reference; non-trivial as above"),
    Sub("changed parameters", case_for(kinds=("m", "v"), params=["v"], writeparams=True), check, 400, 10000, rule="vectors passed by value are changed; non-trivial as above"),
    Sub("compiled", lambda: clang_case(), check_clang, 300, 5000, rule="the functions clang compiled for the benchmarks, on random arguments; non-trivial as above"),
    Sub("unknown functions", case_for(kinds=("v",), unknown=True, simple=True), check, 300, 6000, rule="calls of functions without a model, which change their arguments, have to be rejected"),
    Sub("simple", case_for(simple=True, kinds=("v", "l")), check, 700, 20000, rule="small functions; non-trivial as above"),
    Sub("precondition", lambda: with_pre(), check, 400, 10000, rule="with a precondition, which runs have to satisfy; non-trivial as above"),
    Sub("two functions", lambda: two(), check_two, 600, 12000, rule="non-trivial: some run; one of the functions branches"),
]
