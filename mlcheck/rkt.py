"""A small Racket/Rosette evaluator for what metalift emits and for its runtime library.

Concrete evaluation only.  Values: int, bool, tuple (Racket lists), Python callables.
"""
import itertools
import re

TOK = re.compile(r'\s+|;[^\n]*|(#:[^\s()\[\]]+)|("(?:[^"\\]|\\.)*")|([()\[\]\'`,])|([^\s()\[\]"\'`,;]+)')


class RktError(Exception):
    """An error the Racket program itself would raise (or malformed program text)."""


class Sym(str):
    __slots__ = ()


def parse(text):
    text = re.sub(r"^#lang[^\n]*", "", text, flags=re.M)
    text = re.sub(r"#\|.*?\|#", "", text, flags=re.S)
    pos, toks = 0, []
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise RktError(f"bad token at {text[pos:pos+20]!r}")
        pos = m.end()
        t = m.group(1) or m.group(2) or m.group(3) or m.group(4)
        if t is not None:
            toks.append(t)
    it = iter(toks)
    out = []
    stack = [out]
    closers = []
    quotes = []
    for t in toks:
        if t in "([":
            n = []
            stack[-1].append(n)
            stack.append(n)
            closers.append(")" if t == "(" else "]")
        elif t in ")]":
            if not closers or closers.pop() != t:
                raise RktError("unbalanced parentheses")
            stack.pop()
        else:
            stack[-1].append(atom(t))
    if closers:
        raise RktError("unbalanced parentheses")
    return out


def atom(t):
    if re.fullmatch(r"[+-]?\d+", t):
        return int(t)
    if t in ("#t", "#true"):
        return True
    if t in ("#f", "#false"):
        return False
    if t.startswith('"'):
        return ["#str", t[1:-1]]
    return Sym(t)


def _int(*a):
    for x in a:
        if isinstance(x, bool) or not isinstance(x, int):
            raise RktError(f"contract violation: expected integer, got {x!r}")


def _lst(x):
    if not isinstance(x, tuple):
        raise RktError(f"contract violation: expected list, got {x!r}")
    return x


def equalp(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(equalp(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def _cmp(f):
    def g(*a):
        _int(*a)
        return all(f(x, y) for x, y in zip(a, a[1:]))
    return g


def _bools(a):
    # rosette's && || ! work on boolean?; anything but #f counts as true otherwise
    for x in a:
        if not isinstance(x, bool):
            raise RktError(f"expected boolean, got {x!r}")


def quotient(a, b):
    _int(a, b)
    if b == 0:
        raise RktError("quotient: undefined for 0")
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def remainder(a, b):
    return a - b * quotient(a, b)


def modulo(a, b):
    _int(a, b)
    if b == 0:
        raise RktError("modulo: undefined for 0")
    return a - b * (a // b)


def _ref(l, i):
    _lst(l), _int(i)
    if not 0 <= i < len(l):
        raise RktError("list-ref: index out of range")
    return l[i]


def _ltail(l, i):
    _lst(l), _int(i)
    if not 0 <= i <= len(l):
        raise RktError("list-tail: index out of range")
    return l[i:]


def _take(l, i):
    _lst(l), _int(i)
    if not 0 <= i <= len(l):
        raise RktError("take: index out of range")
    return l[:i]


def _mul(*a):
    _int(*a)
    r = 1
    for x in a:
        r *= x
        if abs(r) > 1 << 400:
            raise OverflowError
    return r


def _sub(a, *b):
    _int(a, *b)
    return a - sum(b) if b else -a


def _sum(*a):
    _int(*a)
    return sum(a)


def _car(l):
    if not _lst(l):
        raise RktError("car: empty")
    return l[0]


def _cdr(l):
    if not _lst(l):
        raise RktError("cdr: empty")
    return l[1:]


def _foldl(f, z, l):
    for x in _lst(l):
        z = f(x, z)
    return z


def _foldr(f, z, l):
    for x in reversed(_lst(l)):
        z = f(x, z)
    return z


def _listset(l, i, v):
    _ref(l, i)
    return l[:i] + (v,) + l[i + 1:]


def _allb(a):
    _bools(a)
    return all(a)


def _anyb(a):
    _bools(a)
    return any(a)


def _not(x):
    _bools([x])
    return not x


def _append(*ls):
    r = ()
    for l in ls:
        r += _lst(l)
    return r


def _sorted(l, f):
    import functools
    return tuple(sorted(_lst(l), key=functools.cmp_to_key(lambda a, b: -1 if f(a, b) else 1 if f(b, a) else 0)))


def _dedup(l):
    out = []
    for x in _lst(l):
        if not any(equalp(x, y) for y in out):
            out.append(x)
    return tuple(out)


PRIMS = {
    "+": _sum, "-": _sub, "*": _mul, "<": _cmp(lambda x, y: x < y), "<=": _cmp(lambda x, y: x <= y),
    ">": _cmp(lambda x, y: x > y), ">=": _cmp(lambda x, y: x >= y), "=": _cmp(lambda x, y: x == y),
    "equal?": equalp, "eq?": equalp, "eqv?": equalp,
    "&&": lambda *a: _allb(a), "||": lambda *a: _anyb(a), "!": _not,
    "not": lambda x: x is False, "=>": lambda a, b: (not _allb([a])) or _allb([b]),
    "<=>": lambda a, b: _allb([a]) == _allb([b]), "xor": lambda a, b: bool(a) != bool(b),
    "quotient": quotient, "remainder": remainder, "modulo": modulo,
    "length": lambda l: len(_lst(l)), "list": lambda *a: tuple(a), "cons": lambda a, l: (a,) + _lst(l),
    "append": _append,
    "car": _car, "first": _car, "cdr": _cdr, "rest": _cdr, "second": lambda l: _ref(l, 1),
    "last": lambda l: _car(_lst(l)[::-1]), "null?": lambda l: l == (), "empty?": lambda l: l == (),
    "list?": lambda l: isinstance(l, tuple), "pair?": lambda l: isinstance(l, tuple) and len(l) > 0,
    "cons?": lambda l: isinstance(l, tuple) and len(l) > 0,
    "list-ref": _ref, "list-tail": _ltail, "drop": _ltail, "take": _take, "list-set": _listset,
    "reverse": lambda l: _lst(l)[::-1],
    "map": lambda f, *ls: tuple(f(*x) for x in zip(*map(_lst, ls))),
    "filter": lambda f, l: tuple(x for x in _lst(l) if f(x) is not False),
    "foldl": _foldl, "foldr": _foldr, "apply": lambda f, *a: f(*a[:-1], *_lst(a[-1])),
    "ormap": lambda f, l: next((r for r in (f(x) for x in _lst(l)) if r is not False), False),
    "andmap": lambda f, l: all(f(x) is not False for x in _lst(l)),
    "member": lambda v, l: any(equalp(v, x) for x in _lst(l)),
    "max": lambda *a: (_int(*a), max(a))[1], "min": lambda *a: (_int(*a), min(a))[1],
    "abs": lambda a: (_int(a), abs(a))[1],
    "zero?": lambda a: (_int(a), a == 0)[1], "positive?": lambda a: (_int(a), a > 0)[1],
    "negative?": lambda a: (_int(a), a < 0)[1], "even?": lambda a: a % 2 == 0, "odd?": lambda a: a % 2 == 1,
    "add1": lambda a: _sum(a, 1), "sub1": lambda a: _sum(a, -1),
    "integer?": lambda a: isinstance(a, int) and not isinstance(a, bool),
    "boolean?": lambda a: isinstance(a, bool),
    "sort": lambda l, f: _sorted(l, f), "remove-duplicates": lambda l: _dedup(l),
    "void": lambda *a: None, "values": lambda a: a, "identity": lambda a: a,
    "range": lambda *a: tuple(range(*a)), "build-list": lambda n, f: tuple(f(i) for i in range(n)),
    "true": True, "false": False, "empty": (), "null": (),
}


class Steps:
    def __init__(self, n=400000):
        self.n = n


class StepLimit(Exception):
    pass


class Env:
    __slots__ = ("d", "up")

    def __init__(self, d, up=None):
        self.d, self.up = d, up

    def get(self, k):
        e = self
        while e is not None:
            if k in e.d:
                return e.d[k]
            e = e.up
        raise RktError(f"{k}: unbound identifier")

    def has(self, k):
        e = self
        while e is not None:
            if k in e.d:
                return True
            e = e.up
        return False


class Interp:
    def __init__(self, oracle=None):
        """oracle(name, alternatives, depth) resolves grammar choices, for define-grammar."""
        self.g = Env(dict(PRIMS))
        self.steps = Steps()
        self.grammars = {}
        self.asserts = []
        self.asserts_all = []
        self.symbolics = []
        self.forms = []

    # ---- top level
    def load(self, text):
        for f in parse(text):
            self.top(f)

    def top(self, f):
        if isinstance(f, list) and f and isinstance(f[0], str):
            h = f[0]
            if h in ("define", "define-bounded") and isinstance(f[1], list):
                self.g.d[f[1][0]] = self.fn(f[1][1:], f[2:], self.g)
                return
            if h == "define":
                self.g.d[f[1]] = self.ev(f[2], self.g)
                return
            if h in ("require", "provide", "define-syntax-rule"):
                return
            if h == "define-grammar":
                self.grammars[f[1][0]] = f
                return
        self.forms.append(f)

    def fn(self, params, body, env):
        rest = None
        if "." in params:
            k = params.index(".")
            rest = params[k + 1]
            params = params[:k]
        n = len(params)

        def call(*a):
            if (len(a) != n) if rest is None else len(a) < n:
                raise RktError(f"arity mismatch: expected {n}, got {len(a)}")
            d = dict(zip(params, a))
            if rest is not None:
                d[rest] = tuple(a[n:])
            e = Env(d, env)
            return self.body(body, e)
        return call

    def body(self, forms, env):
        r = None
        for f in forms:
            if isinstance(f, list) and f and f[0] == "define":
                if isinstance(f[1], list):
                    env.d[f[1][0]] = self.fn(f[1][1:], f[2:], env)
                else:
                    env.d[f[1]] = self.ev(f[2], env)
                r = None
            else:
                r = self.ev(f, env)
        return r

    def ev(self, e, env=None):
        env = env or self.g
        self.steps.n -= 1
        if self.steps.n < 0:
            raise StepLimit()
        if not isinstance(e, list):
            if isinstance(e, Sym):
                return env.get(e)
            return e
        if not e:
            raise RktError("missing procedure expression")
        h = e[0]
        if isinstance(h, Sym) and (h in SPECIAL) and not (h in env.d):
            return SPECIAL[h](self, e, env)
        f = self.ev(h, env)
        args, i = [], 1
        while i < len(e):
            if isinstance(e[i], Sym) and e[i].startswith("#:"):
                i += 2          # keyword argument
                continue
            args.append(self.ev(e[i], env))
            i += 1
        if not callable(f):
            raise RktError(f"application: not a procedure: {f!r} in {str(e)[:80]}")
        try:
            return f(*args)
        except TypeError as t:
            raise RktError(f"bad call {str(e)[:80]}: {t}")

    def run(self, text, env=None):
        fs = parse(text)
        if len(fs) != 1:
            raise RktError(f"expected one form, got {len(fs)}: {text[:100]}")
        self.steps.n = 400000  # shared with library closures
        d = Env(dict(env or {}), self.g)
        return self.ev(fs[0], d)


def s_if(I, e, env):
    if len(e) != 4:
        raise RktError("if: bad syntax")
    return I.ev(e[2] if I.ev(e[1], env) is not False else e[3], env)


def s_cond(I, e, env):
    for cl in e[1:]:
        if cl[0] == "else" or I.ev(cl[0], env) is not False:
            return I.body(cl[1:], Env({}, env)) if len(cl) > 1 else True
    return None


def s_and(I, e, env):
    r = True
    for x in e[1:]:
        r = I.ev(x, env)
        if r is False:
            return False
    return r


def s_or(I, e, env):
    for x in e[1:]:
        r = I.ev(x, env)
        if r is not False:
            return r
    return False


def s_let(I, e, env):
    if isinstance(e[1], Sym):  # named let
        name, bs, body = e[1], e[2], e[3:]
        ne = Env({}, env)
        ne.d[name] = I.fn([b[0] for b in bs], body, ne)
        return ne.d[name](*[I.ev(b[1], env) for b in bs])
    return I.body(e[2:], Env({b[0]: I.ev(b[1], env) for b in e[1]}, env))


def s_letstar(I, e, env):
    for b in e[1]:
        env = Env({b[0]: I.ev(b[1], env)}, env)
    return I.body(e[2:], Env({}, env))


def s_letrec(I, e, env):
    env = Env({}, env)
    for b in e[1]:
        env.d[b[0]] = I.ev(b[1], env)
    return I.body(e[2:], env)


def s_lambda(I, e, env):
    return I.fn(e[1], e[2:], env)


def pmatch(p, v, b):
    if isinstance(p, Sym):
        if p != "_":
            b[p] = v
        return True
    if not isinstance(p, list):
        return equalp(p, v)
    if p[0] == "list":
        ps = p[1:]
        if not isinstance(v, tuple):
            return False
        if len(ps) >= 2 and ps[-1] == "...":
            if len(v) < len(ps) - 2:
                return False
            k = len(ps) - 2
            if not all(pmatch(q, x, b) for q, x in zip(ps[:k], v)):
                return False
            if not isinstance(ps[-2], Sym):
                raise RktError("unsupported pattern")
            b[ps[-2]] = v[k:]
            return True
        return len(ps) == len(v) and all(pmatch(q, x, b) for q, x in zip(ps, v))
    if p[0] == "cons":
        return isinstance(v, tuple) and len(v) > 0 and pmatch(p[1], v[0], b) and pmatch(p[2], v[1:], b)
    raise RktError(f"unsupported pattern {p}")


def s_match(I, e, env, star=False):
    vs = [I.ev(x, env) for x in e[1]] if star else [I.ev(e[1], env)]
    for cl in e[2:]:
        ps = cl[0] if star else [cl[0]]
        b = {}
        if len(ps) == len(vs) and all(pmatch(p, v, b) for p, v in zip(ps, vs)):
            return I.body(cl[1:], Env(b, env))
    raise RktError("match: no matching clause")


def s_assert(I, e, env):
    r = I.ev(e[1], env)
    if r is False:
        raise RktError("assertion failed")
    return None


SPECIAL = {
    "if": s_if, "cond": s_cond, "and": s_and, "or": s_or, "let": s_let, "let*": s_letstar,
    "letrec": s_letrec, "lambda": s_lambda, "λ": s_lambda, "match": s_match,
    "match*": lambda I, e, env: s_match(I, e, env, True), "assert": s_assert,
    "begin": lambda I, e, env: I.body(e[1:], env),
    "when": lambda I, e, env: I.body(e[2:], env) if I.ev(e[1], env) is not False else None,
    "unless": lambda I, e, env: I.body(e[2:], env) if I.ev(e[1], env) is False else None,
}


def to_rkt(v):
    """reference value -> racket value"""
    if isinstance(v, bool) or isinstance(v, int):
        return v
    if isinstance(v, frozenset):
        return tuple(sorted((to_rkt(x) for x in v)))
    if isinstance(v, tuple):
        return tuple(to_rkt(x) for x in v)
    raise ValueError(v)
