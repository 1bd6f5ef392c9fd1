"""Soundness of the VC that the Python front end makes: an execution the postcondition rejects refutes it."""
import re

from hypothesis import strategies as st

from .. import build, fastmypy, pyfront as P, ref, vcsearch
from ..runner import Discard, Sub, Violation, sut

PROPERTY = "C01"
RULE = ("random program of the Python subset and inputs; it is executed by CPython recording every loop-head state; the "
        "VC gets invariants true exactly on a chosen subset of the visited states and a postcondition false exactly "
        "at the observed (arguments, result); some assignment taken from the states must make the VC false")
ASSUMPTIONS = ["mypy runs with a reduced standard-library stub set (same types for the subset)",
               "programs are free of list/set aliasing followed by mutation, and of negative indices and dividends"]
fastmypy.install()


def case_for(loops):
    @st.composite
    def case(draw):
        p = draw(P.program(sound=True, loops=loops))
        n = 4
        return dict(prog=p, args=[draw(P.args_for(p)) for _ in range(n)], cut=draw(st.integers(0, 12)),
                    bits=draw(st.integers(0, 1023)))
    return case


@st.composite
def simple_case(draw):
    p = draw(P.simple())
    return dict(prog=p, args=[draw(P.args_for(p)) for _ in range(4)], cut=draw(st.integers(0, 12)),
                bits=draw(st.integers(0, 1023)))


def inv_map(v, fname):
    names = sorted((n for n in v.preds if re.fullmatch(re.escape(fname) + r"_inv\d+", n)),
                   key=lambda n: int(n.rsplit("inv", 1)[1]))
    return {n: i for i, n in enumerate(names)}


def subsets(case):
    bits, cut = case["bits"], case["cut"]
    return [("every visited state", lambda k, l: True), ("nothing", lambda k, l: False),
            (f"the first {cut} visits", lambda k, l: k < cut), ("all but the first visits of some loops", lambda k, l: k >= 1 + cut % 3),
            ("a random subset", lambda k, l: bits >> (k % 10) & 1), ("one loop only", lambda k, l: l == bits % 3)]


def check(case, c):
    p = case["prog"]
    pr = P.Program(p)
    runs = []
    for a in case["args"]:
        a = [ref.from_json(x) for x in a]
        r = pr.run(a)
        if r is not None:
            runs.append((a, r))
    if not runs:
        raise Discard("no terminating run")
    d, _, got = P.analyze(p)
    v = P.harvest(d, p, got)
    im = inv_map(v, p["name"])
    if len(im) != len(pr.loops):
        raise Violation(f"{len(pr.loops)} loops but {len(im)} invariants")
    for a, r in runs:
        args = dict(zip([q[0] for q in p["params"]], a))
        seen = set()
        for what, sub in subsets(case):
            key = tuple(bool(sub(k, l)) for k, (l, _) in enumerate(r[0]))
            if key in seen:
                continue
            seen.add(key)
            ok, n, env = vcsearch.refutes(v, im, p["name"] + "_ps", args, r, sub, P.FNS, lambda n: n, a)
            if not ok:
                raise Violation(
                    f"the VC holds although test{tuple(a)} returns {r[1]!r}, which the postcondition rejects "
                    f"(invariants hold on {what}; {n} assignments tried):\n{P.source(p)}\nVC: {v.spec}")
            c.label("subset:" + what.split(" ")[0])
    ls = len({l for _, r in runs for l, _ in r[0]})
    c.nontrivial((ls or not pr.loops) and len(p["body"]) > 1)
    c.label(f"loops executed:{ls}", f"runs:{len(runs)}")



# ------------------------------------------------------------------ two calls on one driver
@st.composite
def chain_case(draw):
    p = draw(P.program(sound=True, name="first", ret="Int"))
    q = draw(P.program(sound=True, name="second", nparams=["Int"]))
    return dict(first=p, second=q, args=[draw(P.args_for(p)) for _ in range(4)], rename=draw(st.booleans()))


def check_chain(case, c):
    p, q = case["first"], case["second"]
    P1, P2 = P.Program(p), P.Program(q)
    runs = []
    for a in case["args"]:
        a = [ref.from_json(x) for x in a]
        r = P1.run(a)
        s = r and P2.run([r[1]])
        if s:
            runs.append((a, r, s))
    if not runs:
        raise Discard("no terminating run")
    pre = "actual_" if case["rename"] else ""
    d, _, got = P.analyze(p, prefix=pre)
    d, _, got2 = P.analyze(q, driver=d, actuals=[d.last_ret])
    v = P.harvest(d, p, got + got2)
    im1, im2 = inv_map(v, "first"), inv_map(v, "second")
    im = {**im1, **{n: i + 100 for n, i in im2.items()}}
    if len(im) != len(P1.loops) + len(P2.loops):
        raise Violation("the number of invariants is not the number of loops")
    for a, r, s in runs:
        ret1 = d.last_ret_names[0]
        trace = r[0] + [(l + 100, x) for l, x in s[0]]
        args = {**dict(zip([pre + n for n, _ in p["params"]], a)), ret1: r[1]}
        extra = {"first_ps": lambda vals: ref.same(vals[-1], r[1]) and len(vals) == len(a) + 1
                 and all(ref.same(x, y) for x, y in zip(vals, a))}
        ok, n, env = vcsearch.refutes(v, im, "second_ps", args, (trace, s[1]), lambda k, l: True, P.FNS, lambda n: n,
                                      [r[1]], extra=extra)
        if not ok:
            raise Violation(f"the VC holds although second(first{tuple(a)}) = second({r[1]}) returns {s[1]!r}, which the "
                            f"postcondition rejects:\n{P.source(p)}{P.source(q)}VC: {v.spec}")
    c.nontrivial(len(p["params"]) > 0)
    c.label(f"loops:{len(P1.loops)}+{len(P2.loops)}")


# ------------------------------------------------------------------ several calls of one function, and preconditions
@st.composite
def calls_case(draw):
    p = draw(P.program(sound=True, name="first", ret="Int", nparams=draw(st.sampled_from([["Int"], ["Int"], ["Int", "Int"]]))))
    q = draw(P.program(sound=True, name="second", nparams=["Int", "Int"]))
    return dict(first=p, second=q, args=[[draw(P.args_for(p)) for _ in range(2)] for _ in range(4)],
                pre=draw(st.sampled_from([None, None, [0, ">=", 0], [0, "<", 2], [1, ">=", 1]])), swap=draw(st.booleans()))


def holds(pre, vals):
    return pre is None or (vals[pre[0]] >= pre[2] if pre[1] == ">=" else vals[pre[0]] < pre[2])


def check_calls(case, c):
    p, q, pre = case["first"], case["second"], case["pre"]
    P1, P2 = P.Program(p), P.Program(q)
    names = [[f"{k}_{n}" for n, _ in p["params"]] for k in "ab"]
    runs = []
    for a, b in case["args"]:
        a, b = [[ref.from_json(x) for x in y] for y in (a, b)]
        if not holds(pre, [a[0], b[0]]):
            continue
        r, s = P1.run(a), P1.run(b)
        if not r or not s:
            continue
        u = P2.run([s[1], r[1]] if case["swap"] else [r[1], s[1]])
        if u:
            runs.append((a, b, r, s, u))
    if not runs:
        raise Discard("no terminating run")
    from metalift.frontend.python import Driver
    from metalift import ir as I
    with sut("analyze"):
        d = Driver()
        if pre:
            o = I.Int(names[pre[0]][0])
            d.add_precondition(o >= pre[2] if pre[1] == ">=" else o < pre[2])
    d, _, got = P.analyze(p, driver=d, prefix="a_")
    r1, f = d.last_ret, d.last_fn
    args2 = [I.create_object(build.ty(t), n) for n, (_, t) in zip(names[1], p["params"])]
    with sut("second call"):
        d.add_var_objects(args2)
        r2 = f(*args2)
    d, _, got2 = P.analyze(q, driver=d, actuals=[r2, r1] if case["swap"] else [r1, r2])
    v = P.harvest(d, p, got + got2)
    im1, im2 = inv_map(v, "first"), inv_map(v, "second")
    im = {**im1, **{n: i + 100 for n, i in im2.items()}}
    if len(im) != len(P1.loops) + len(P2.loops):
        raise Violation("the number of invariants is not the number of loops")
    n1, n2 = r1.var_name(), r2.var_name()
    for a, b, r, s, u in runs:
        env = {**dict(zip(names[0], a)), **dict(zip(names[1], b))}
        args = {**env, n1: r[1], n2: s[1]}

        def first_ps(vals):
            w = next((y for x, y in ((a, r[1]), (b, s[1])) if all(map(ref.same, x, vals))), None)
            return len(vals) == len(a) + 1 and w is not None and ref.same(vals[-1], w)
        trace = r[0] + s[0] + [(l + 100, x) for l, x in u[0]]
        ok, n, _ = vcsearch.refutes(v, im, "second_ps", args, (trace, u[1]), lambda k, l: True, P.FNS, lambda n: n,
                                    [s[1], r[1]] if case["swap"] else [r[1], s[1]], extra={"first_ps": first_ps})
        if not ok:
            raise Violation(f"the VC holds although first{tuple(a)} = {r[1]} and first{tuple(b)} = {s[1]}, and second on these returns "
                            f"{u[1]!r}, which the postcondition rejects (precondition {pre}):\n{P.source(p)}{P.source(q)}VC: {v.spec}")
        if a != b:
            # the second call on its own: the postcondition rejects exactly its result
            args = {**env, n1: r[1]}
            for what, sub in (("all", lambda k, l: True), ("no", lambda k, l: False), ("the first", lambda k, l: k < 2)):
                ok, n, _ = vcsearch.refutes(v, im, "first_ps", args, s, sub, P.FNS, lambda n: n, b, extra={"second_ps": lambda vals: True})
                if not ok:
                    raise Violation(f"the VC of two calls holds although first{tuple(b)} (the second call) returns {s[1]!r}, which the "
                                    f"postcondition rejects (invariants hold on {what} visits; precondition {pre}):\n{P.source(p)}VC: {v.spec}")
    c.nontrivial(any(not ref.same(r[1], s[1]) for _, _, r, s, _ in runs))
    c.label(f"loops:{len(P1.loops)}+{len(P2.loops)}", f"pre:{pre is not None}")


# ------------------------------------------------------------------ outside the subset: rejected, or right
RAW = [
    "y += {a}", "y -= x", "y = y % {c}", "y = x if x > {a} else y", "y, x = x, y", "y = x = {a}",
    "for j in range({c}):\n    y = y + j", "if x != {a}:\n    y = y + 1", "if not x > {a}:\n    y = y + 1",
    "while y < {c}:\n    y = y + 1\n    if y > {a}:\n        break",
    "while y < {c}:\n    y = y + 1\n    if y > {a}:\n        continue\n    y = y + 1",
    "xs[0] = {a}\ny = xs[0]", "xs = xs[0:1]\ny = len(xs)", "xs = [{a}, x]\ny = xs[1]", "xs = xs + xs\ny = len(xs)",
    "xs.insert(0, {a})\ny = xs[0]", "y = xs.pop()", "y = abs(x)", "y = max(x, {a})", "if x in xs:\n    y = y + 1",
    "assert x > {a}\ny = 1", "pass", "y = (lambda q: q + {a})(x)", "y = sum(xs)", "y = sum([q for q in xs])",
    "t: bool = True\nif t:\n    y = {a}", "y = x ** 2", "y = x << 1", "y = ~x", "y = x & {c}", "y = int(x > {a})", "y = +x",
    "def inner() -> int:\n    return 3\ny = inner()", "try:\n    y = {a}\nexcept Exception:\n    y = 0", "del y\ny = {a}",
    "while True:\n    y = {a}\n    return y", "xs.reverse()\ny = xs[0]", "xs.extend(xs)\ny = len(xs)", "xs.clear()\ny = len(xs)",
    "if xs == xs:\n    y = {a}", "if x:\n    y = {a}", "if x and y:\n    y = {a}", "y = x and y", "y = x or y", "if x is y:\n    y = {a}",
    "if x > 0 > y or x:\n    y = {a}", "if x > {a}: y = 1\nelif x > 0: y = 2\nelse: y = 3", "(y) = {a}", "y = (x := {a})",
    "xs.remove({a})\ny = len(xs)", "y = xs.index(x)", "y = xs.count(x)", "y = len((x, y, x))", "y = (x, y)[0] + (x, y)[1]",
    "t = (x, y)\nif x > {a}:\n    t = (y, x)\ny = t[0]", "y = [x, y][0]", "y = -x - -y", "print(x)\ny = {a}",
]


@st.composite
def raw_case(draw):
    txt = draw(st.sampled_from(RAW)).replace("{a}", str(draw(st.integers(0, 3)))).replace("{c}", str(draw(st.integers(1, 4))))
    k = draw(st.integers(0, 2))
    body = [["=", "y", ["+", ["v", "x"], ["i", draw(st.integers(0, 2))]]], ["raw", txt]]
    if k == 1:
        body = body[:1] + [["if", ["cmp", [">"], [["v", "x"], ["i", 1]]], body[1:], []]]
    elif k == 2:
        body = body[:1] + [["=", "i", ["i", 0]], ["while", ["cmp", ["<"], [["v", "i"], ["i", 2]]], body[1:] + [["=", "i", ["+", ["v", "i"], ["i", 1]]]]]]
    p = dict(name="test", params=[["x", "Int"], ["xs", P.LI]], ret="Int", body=body + [["ret", ["v", "y"]]], other=None)
    return dict(prog=p, raw=txt, args=[draw(P.args_for(p)) for _ in range(4)], cut=draw(st.integers(0, 12)), bits=draw(st.integers(0, 1023)))


def check_raw(case, c):
    import contextlib
    import io
    p = case["prog"]
    c.nontrivial()
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            d, _, got = P.analyze(p)
            v = P.harvest(d, p, got)
    except (Violation, SystemExit) as e:
        c.label("rejected")
        return
    pr = P.Program(p)
    im = inv_map(v, p["name"])
    for a in case["args"]:
        a = [ref.from_json(x) for x in a]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = pr.run(a)
        except Exception:
            continue
        if r is None or not isinstance(r[1], int):
            continue
        if len({l for l, _ in r[0]}) > len(im):
            continue
        args = dict(zip([q[0] for q in p["params"]], a))
        for what, sub in subsets(case)[:2]:
            ok, n, env = vcsearch.refutes(v, im, p["name"] + "_ps", args, r, sub, P.FNS, lambda n: n, a)
            if not ok:
                raise Violation(f"accepted, but the VC holds although test{tuple(a)} returns {r[1]!r}, which the postcondition "
                                f"rejects:\n{P.source(p)}\nVC: {v.spec}")
    c.label("accepted: " + case["raw"].split("\n")[0])


SUBS = [
    Sub("loops", case_for(True), check, 1600, 40000, rule="non-trivial: some loop head is visited and the body has several statements"),
    Sub("simple", simple_case, check, 2400, 40000, rule="small programs around one returned variable; non-trivial as for loops"),
    Sub("straight", case_for(False), check, 1000, 20000, rule="non-trivial: several statements"),
    Sub("chain", chain_case, check_chain, 500, 10000, rule="a second function is called on the first one's result; non-trivial: the first has parameters"),
    Sub("calls", calls_case, check_calls, 300, 10000,
        rule="one function called twice, another on the results, under a precondition; non-trivial: the results of the two calls differ"),
    Sub("unsupported", raw_case, check_raw, 400, 4000, rule="every case: a construct outside the subset has to be rejected or treated soundly"),
]
