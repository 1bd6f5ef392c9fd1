"""Reference semantics of the IR, written from the documentation of the operations and not from the
emitters.  Expressions are plain JSON ("specs"), so cases print, hash, shrink and replay:

  ["var",name,ty] ["lit",value,ty] [op,a,b..] for op in OPS, ["ite",c,a,b], ["tuple",..],
  ["tget",t,["lit",i,"Int"]], ["call",fn,ty,args..], ["callv",fnexpr,args..], ["let",var,e,body],
  ["lambda",ty,body,params..], ["fnref",name,fnty]

types: "Int" "Bool" "Matrix" "Tensor3D" ["List",t] ["Set",t] ["Tuple",[t..]] ["Fn",[ret,args..]]
values: int, bool, tuple (lists, matrices, tensors), frozenset, Tup
"""
import sys


class Undef(Exception):
    """The reference gives no meaning here (index out of range, division by zero ...)."""


class Hard(Undef):
    """Undefined even as an operand that does not matter (division, exhausted fuel)."""


class Tup(tuple):
    def __repr__(self):
        return "T" + tuple.__repr__(self)

    def __eq__(self, o):
        return isinstance(o, Tup) and tuple.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("T", tuple.__hash__(self)))


def tkey(t):
    return t if isinstance(t, str) else (t[0], tuple(map(tkey, t[1])) if t[0] in ("Tuple", "Fn") else tkey(t[1]))


def elem_type(t):
    if t == "Matrix":
        return ["List", "Int"]
    if t == "Tensor3D":
        return "Matrix"
    if t[0] == "List":
        return t[1]
    raise ValueError(t)


def to_json(v):
    if isinstance(v, Tup):
        return {"T": [to_json(x) for x in v]}
    if isinstance(v, tuple):
        return [to_json(x) for x in v]
    if isinstance(v, frozenset):
        return {"S": sorted((to_json(x) for x in v), key=repr)}
    return v


def from_json(j):
    if isinstance(j, dict):
        if "T" in j:
            return Tup(from_json(x) for x in j["T"])
        return frozenset(from_json(x) for x in j["S"])
    if isinstance(j, list):
        return tuple(from_json(x) for x in j)
    return j


def same(a, b):
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return isinstance(a, Tup) == isinstance(b, Tup) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    if type(a) is not type(b) and not (isinstance(a, int) and isinstance(b, int)):
        return False
    return a == b


def _rng(ok):
    if not ok:
        raise Undef("out of range")


def _get(l, i):
    _rng(0 <= i < len(l))
    return l[i]


def _tail(l, n):
    _rng(0 <= n <= len(l))
    return l[n:]


def _take(l, n):
    _rng(0 <= n <= len(l))
    return l[:n]


def _slice(l, s, e):
    _rng(0 <= s <= e <= len(l))
    return l[s:e]


def _slicel(l, s, n):
    _rng(0 <= s and 0 <= n and s + n <= len(l))
    return l[s:s + n]


def _rect(m):
    if m and any(len(r) != len(m[0]) for r in m):
        raise Undef("not rectangular")


def _transpose(m):
    _rect(m)
    if not m or not m[0]:
        raise Undef("empty matrix")
    return tuple(zip(*m))


def _cols(m, s, e):
    for r in m:
        _rng(0 <= s < e <= len(r))
    return tuple(r[s:e] for r in m)


def _prep_row(r, m):
    if len(r) == 0:  # matrices have no empty rows
        raise Undef("empty row")
    return (r,) + m


def isqrt_undef(n):
    raise Undef("integer_sqrt is a stand-in, not a square root")


LIB = {}
for p in ("list", "matrix", "tensor3d"):
    LIB[p + "_get"] = _get
    LIB[p + "_tail"] = _tail
    LIB[p + "_take"] = _take
    LIB[p + "_length"] = len
    LIB[p + "_append"] = lambda l, x: l + (x,)
    LIB[p + "_prepend"] = (lambda x, l: (x,) + l) if p == "list" else _prep_row
    LIB[p + "_empty"] = lambda: ()
for p in ("vec", "matrix_row", "tensor3d"):
    LIB[p + "_slice"] = _slice
    LIB[p + "_slice_with_length"] = _slicel
LIB["matrix_col_slice"] = _cols
LIB["matrix_col_slice_with_length"] = lambda m, s, n: _cols(m, s, s + n)
LIB["matrix_transpose"] = _transpose
LIB["list_concat"] = lambda a, b: a + b
LIB["list_eq"] = lambda a, b: same(a, b)
LIB["set-create"] = lambda: frozenset()
LIB["set-insert"] = lambda v, s: s | {v}
LIB["set-singleton"] = lambda v: frozenset([v])
LIB["set-union"] = lambda a, b: a | b
LIB["set-minus"] = lambda a, b: a - b
LIB["set-member"] = lambda v, s: v in s
LIB["set-subset"] = lambda a, b: a <= b
LIB["set-eq"] = lambda a, b: a == b
LIB["make-tuple"] = lambda *a: Tup(a)
LIB["tupleGet"] = lambda t, i: _get(t, i)


def div(a, b):
    """The emitters' targets (Rosette quotient, SMT div, Python //, C /) agree for a>=0, b>0."""
    if a < 0 or b <= 0:
        raise Hard("division outside the agreed domain")
    return a // b


def mod(a, b):
    if a < 0 or b <= 0:
        raise Hard("remainder outside the agreed domain")
    return a % b


class Fuel:
    def __init__(self, n=20000):
        self.n = n

    def tick(self):
        self.n -= 1
        if self.n < 0:
            raise Hard("fuel")


class Closure:
    def __init__(self, params, body, env):
        self.params, self.body, self.env = params, body, env


OPS = {"add", "sub", "mul", "div", "mod", "eq", "lt", "le", "gt", "ge", "and", "or", "not",
       "implies"}


def components(t):
    """Types of a tuple's components; build.unty gives them as one list."""
    if len(t) == 2 and isinstance(t[1], list) and t[1] and t[1][0] not in ("List", "Set", "Tuple", "Fn"):
        return t[1]
    return t[1:]


def default(t):
    if isinstance(t, str):
        return {"Int": 0, "Bool": False}.get(t, ())
    return frozenset() if t[0] == "Set" else Tup(default(x) for x in components(t)) if t[0] == "Tuple" else ()


def ev(e, env, fns=None, fuel=None, lib=LIB, shortcircuit=False, total=False):
    """env: name -> value; fns: name -> (params, body) or a Python callable.
    total: give undefined divisions and calls some value (one interpretation among those a solver may pick)."""
    fns = fns or {}
    fuel = fuel or Fuel()

    def call(name, args):
        f = fns.get(name)
        if f is None:
            f = lib.get(name)
        if f is None:
            raise KeyError(f"unknown function {name}")
        if callable(f):
            r = f(*args)
            if isinstance(r, tuple) and len(r) > 3000:
                raise Hard("too large")
            return r
        params, body = f
        return go(body, dict(zip(params, args)))

    def go(e, env):
        fuel.tick()
        op = e[0]
        if op == "var":
            if e[1] in env:
                return env[e[1]]
            if e[1] in fns or e[1] in lib:
                return ("fn", e[1])
            raise KeyError(f"unbound variable {e[1]}")
        if op == "lit":
            return e[1]
        if op == "fnref":
            return ("fn", e[1])
        if op == "ite":
            return go(e[2], env) if go(e[1], env) else go(e[3], env)
        if op == "and":
            return all_(e[1:], env, True)
        if op == "or":
            return all_(e[1:], env, False)
        if op == "implies":
            return all_([["not", e[1]], e[2]], env, False)
        if op == "not":
            return not go(e[1], env)
        if op == "let":
            v = go(e[2], env)
            return go(e[3], {**env, e[1][1]: v})
        if op == "lambda":
            return Closure([p[1] for p in e[3:]], e[2], env)
        if op == "call":
            args = [go(a, env) for a in e[3:]]
            try:
                return call(e[1], args)
            except Undef:
                if total:
                    return default(e[2])
                raise
        if op == "callv":
            f = go(e[1], env)
            args = [go(a, env) for a in e[2:]]
            if isinstance(f, Closure):
                return go(f.body, {**f.env, **dict(zip(f.params, args))})
            return call(f[1], args)
        a = [go(x, env) for x in e[1:]]
        if op == "add":
            r = sum(a)
            if abs(r) > 1 << 400:
                raise Hard("too large")
            return r
        if op == "sub":
            return a[0] - a[1]
        if op == "mul":
            r = 1
            for x in a:
                r *= x
                if abs(r) > 1 << 200:
                    raise Undef("too large")
            return r
        if op in ("div", "mod") and total:   # as in SMT-LIB, and 0 for a zero divisor
            if a[1] == 0:
                return 0
            m = a[0] % abs(a[1])
            return m if op == "mod" else (a[0] - m) // a[1]
        if op == "div":
            return div(*a)
        if op == "mod":
            return mod(*a)
        if op == "eq":
            return same(a[0], a[1])
        if op == "lt":
            return a[0] < a[1]
        if op == "le":
            return a[0] <= a[1]
        if op == "gt":
            return a[0] > a[1]
        if op == "ge":
            return a[0] >= a[1]
        if op == "tuple":
            return Tup(a)
        if op == "tget":
            return _get(a[0], a[1])
        raise ValueError(f"ev: {op}")

    def all_(es, env, unit):
        """and/or without an evaluation order: undefined operands only matter if nothing decides."""
        bad = None
        res = unit
        if shortcircuit:
            return next((not unit for x in es if go(x, env) != unit), unit)
        for x in es:
            try:
                if go(x, env) != unit:
                    res = not unit
            except Hard:
                raise
            except Undef as u:
                bad = u
        if bad and res == unit:
            raise bad
        return res

    try:
        return go(e, env)
    except RecursionError:
        raise Hard("fuel")


def walk(e):
    yield e
    if e[0] in ("var", "lit", "fnref"):
        return
    k = {"call": 3, "lambda": 2}.get(e[0], 1)
    for x in e[k:]:
        yield from walk(x)


def size(e):
    return sum(1 for _ in walk(e))
