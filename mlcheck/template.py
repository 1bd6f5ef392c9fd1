"""Synthesis templates: generated specs with ["choose", ...] nodes, and the language they describe."""
import itertools

from hypothesis import strategies as st

from . import build, gens, ref

HDR = {"call": 3}
NT_LIKE = ["v0", "rv", "v1", "v2"]


class TooBig(Exception):
    pass


@st.composite
def template(draw, o, vs, t, fns=(), budget=7):
    """a template of type t over vs: nested, shared and repeated choices"""
    pick = lambda n: draw(st.integers(0, n - 1))
    pool = []
    left = [budget]

    def types():
        return gens.scalar_types(o)

    def expr(t, d):
        """an expression whose holes are filled with choices"""
        if left[0] <= 0 or d <= 0:
            return gens.gen(draw, t, vs, o, min(d, 1), fns)
        holes = [["var", f"?{i}", x] for i, x in enumerate(types())]
        e = gens.gen(draw, t, vs + holes * 2, o, 1 + pick(2), fns)
        fill = {}

        def sub(s):
            if s[0] == "var" and s[1][0] == "?":
                # one choice for all occurrences (a shared choice object) or a new one each time
                if s[1] in fill and pick(3):
                    return fill[s[1]]
                c = choice(s[2], d - 1)
                fill.setdefault(s[1], c)
                return c
            if s[0] in ("var", "lit"):
                return s
            h = HDR.get(s[0], 1)
            return s[:h] + [sub(x) for x in s[h:]]
        return sub(e)

    def choice(t, d):
        old = [c for c, ct in pool if ref.tkey(ct) == ref.tkey(t)]
        if old and pick(3) == 0:
            return old[pick(len(old))]
        if left[0] <= 0:
            return gens.gen(draw, t, vs, o, 0, fns)
        left[0] -= 1
        n = [1, 2, 2, 3, 3, 5][pick(6)]
        args = []
        for _ in range(n):
            args.append(expr(t, d) if pick(4) else choice(t, d - 1) if d > 0 else expr(t, 0))
        c = ["choose"] + args
        pool.append((c, t))
        return c

    k = pick(5)
    return choice(t, 3) if k < 3 else expr(t, 3)


def count(s):
    if s[0] in ("var", "lit"):
        return 1
    n = 1
    if s[0] == "choose":
        return sum(count(x) for x in s[1:])
    for x in s[HDR.get(s[0], 1):]:
        if isinstance(x, list):
            n *= count(x)
    return n


def nested(s):
    """greatest number of choices above each other"""
    if s[0] in ("var", "lit"):
        return 0
    return (s[0] == "choose") + max([nested(x) for x in s[HDR.get(s[0], 1):]] + [0])


def resolutions(s):
    if s[0] in ("var", "lit"):
        return [s]
    if s[0] == "choose":
        return [r for x in s[1:] for r in resolutions(x)]
    h = HDR.get(s[0], 1)
    return [s[:h] + list(c) for c in itertools.product(*[resolutions(x) for x in s[h:]])]


def leaf(x):
    return (type(x).__name__, str(x) if isinstance(x, str) else x)


def fz(x):
    return tuple(map(fz, x)) if isinstance(x, list) else leaf(x)


def lang_size(rules, start, alts, seen=()):
    def size(x):
        return n(x)

    def n(x, path=()):
        a = alts(x)
        if a is not None:
            name, xs = a
            if name in path:
                raise TooBig("recursive")
            return sum(n(y, path + ((name,) if name else ())) for y in xs)
        if isinstance(x, list):
            r = 1
            for y in x:
                r *= n(y, path)
            return r
        return 1
    return n(start)


def language(x, alts):
    """the set of frozen s-expressions derived from x; alts(x) gives (name, alternatives) for a choice point"""
    memo = {}

    def go(x, path):
        a = alts(x)
        if a is not None:
            name, xs = a
            if name in path:
                raise TooBig("recursive")
            if name and name in memo:
                return memo[name]
            r = frozenset().union(*[go(y, path + ((name,) if name else ())) for y in xs])
            if name:
                memo[name] = r
            return r
        if isinstance(x, list):
            return frozenset(itertools.product(*[go(y, path) for y in x])) if x else frozenset([()])
        return frozenset([leaf(x)])
    return go(x, ())


def with_calls(draw, vc, synths, vs, o):
    """the condition combined with calls of the functions to synthesise"""
    for s in synths:
        if draw(st.integers(0, 4)) == 0:
            continue
        args = []
        for p in s[3]:
            same = [v for v in vs if ref.tkey(v[2]) == ref.tkey(p[2])]
            args.append(draw(st.sampled_from(same)) if same and draw(st.integers(0, 2)) else gens.gen(draw, p[2], vs, o, 1))
        c = ["call", s[0], s[1]] + args
        if s[1] != "Bool":
            c = ["eq", c, gens.gen(draw, s[1], vs, o, 1)]
        k = draw(st.integers(0, 3))
        vc = [["implies", c, vc], ["implies", vc, c], ["and", vc, c], ["or", ["not", c], vc]][k]
    return vc
