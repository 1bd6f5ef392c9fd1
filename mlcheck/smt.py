"""A small SMT-LIB reader, sort checker and evaluator for what metalift emits.

Lists (datatype MLList) are Python tuples, TupleN values are ref.Tup, sets are frozensets.
Functions with a body are evaluated from their text; declared functions come from `interp`.
"""
import itertools
import re

from .ref import Tup, same

TOK = re.compile(r'\s+|;[^\n]*|(\|[^|]*\|)|("(?:[^"]|"")*")|([()])|([^\s()"|;]+)')


class SmtError(Exception):
    """Ill-formed or ill-sorted SMT text."""


class Limit(Exception):
    pass


def parse(text):
    pos = 0
    out = []
    stack = [out]
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise SmtError(f"bad token {text[pos:pos+20]!r}")
        pos = m.end()
        t = m.group(1) or m.group(2) or m.group(3) or m.group(4)
        if t is None:
            continue
        if t == "(":
            n = []
            stack[-1].append(n)
            stack.append(n)
        elif t == ")":
            if len(stack) == 1:
                raise SmtError("unbalanced )")
            stack.pop()
        else:
            if re.fullmatch(r"\d+", t):
                if len(t) > 1 and t[0] == "0":
                    raise SmtError(f"bad numeral {t}")
                stack[-1].append(int(t))
            else:
                if t[0] not in '|"' and not re.fullmatch(r"[A-Za-z~!@$%^&*_+=<>.?/\-:#][0-9A-Za-z~!@$%^&*_+=<>.?/\-:#]*", t):
                    raise SmtError(f"bad symbol {t!r}")
                stack[-1].append(t)
    if len(stack) != 1:
        raise SmtError("unbalanced (")
    return out


def sx(f):
    return "(" + " ".join(map(sx, f)) + ")" if isinstance(f, (list, tuple)) else str(f)


I, B = "Int", "Bool"


def freeze(s):
    return tuple(freeze(x) for x in s) if isinstance(s, (list, tuple)) else s


class Tok(tuple):
    pass


def ediv(a, b):
    if b == 0:
        raise Limit("div by zero")
    q = abs(a) // abs(b)
    # Euclidean: a = b*q + r, 0 <= r < |b|
    r = a % abs(b)
    return (a - r) // b


def emod(a, b):
    if b == 0:
        raise Limit("mod by zero")
    return a % abs(b)


ARITH = {
    "+": lambda *a: sum(a), "-": lambda a, *b: a - sum(b) if b else -a,
    "<": lambda *a: all(x < y for x, y in zip(a, a[1:])),
    "<=": lambda *a: all(x <= y for x, y in zip(a, a[1:])),
    ">": lambda *a: all(x > y for x, y in zip(a, a[1:])),
    ">=": lambda *a: all(x >= y for x, y in zip(a, a[1:])),
    "div": ediv, "mod": emod, "abs": abs,
}


def _mul(*a):
    r = 1
    for x in a:
        r *= x
        if abs(r) > 1 << 400:
            raise Limit("big")
    return r


ARITH["*"] = _mul
SETS = {
    "set.insert": lambda *a: a[-1] | set(a[:-1]), "set.singleton": lambda a: frozenset([a]),
    "set.union": lambda *a: frozenset().union(*a), "set.inter": lambda a, b: a & b,
    "set.minus": lambda a, b: a - b, "set.member": lambda v, s: v in s,
    "set.subset": lambda a, b: a <= b, "set.card": len,
}


class Smt:
    def __init__(self, text="", interp=None):
        self.sorts = {}          # define-sort name -> sort
        self.dts = {}            # datatype -> (params, {ctor: [(sel, sort)]})
        self.ctor = {}           # ctor -> (dt, params, [(sel, sort)])
        self.sel = {}            # sel -> (ctor, index, dt, params, sort)
        self.sig = {}            # fn -> ([argsorts], ret)
        self.defs = {}           # fn -> (params, body)
        self.consts = []         # declared constants/variables, in order
        self.asserts = []        # terms
        self.synths = {}
        self.commands = []
        self.interp = dict(interp or {})
        self.steps = 0
        self.max_steps = 300000
        self.order = []          # names in definition order
        if text:
            self.load(text)

    # ---------------------------------------------------------------- reading
    def load(self, text):
        for f in parse(text):
            self.command(f)

    def sort(self, s, params=()):
        s = freeze(s)
        if isinstance(s, str):
            if s in params or s in (I, B):
                return s
            if s in self.sorts:
                return self.sorts[s]
            if s in self.dts and not self.dts[s][0]:
                return s
            raise SmtError(f"unknown sort {s}")
        h = s[0]
        if h == "Set" and len(s) == 2:
            return ("Set", self.sort(s[1], params))
        if h == "Array" and len(s) == 3:
            return ("Array", self.sort(s[1], params), self.sort(s[2], params))
        if h in self.dts:
            if len(self.dts[h][0]) != len(s) - 1:
                raise SmtError(f"sort arity {sx(s)}")
            return (h,) + tuple(self.sort(x, params) for x in s[1:])
        raise SmtError(f"unknown sort {s}")

    def fresh(self, name):
        if name in self.sig or name in ARITH or name in SETS or name in self.ctor or name in self.sel:
            raise SmtError(f"symbol {name} declared twice")

    def command(self, f):
        self.commands.append(f[0])
        h = f[0]
        if h == "declare-datatypes":
            for (name, n), d in zip(f[1], f[2]):
                params, ctors = ((), d) if not (d and d[0] == "par") else (tuple(d[1]), d[2])
                self.dts[name] = (params, {})
                for c in ctors:
                    sels = [(s[0], None) for s in c[1:]]
                    self.dts[name][1][c[0]] = sels
                for c in ctors:
                    sels = [(s[0], self.sort(s[1], params)) for s in c[1:]]
                    self.dts[name][1][c[0]] = sels
                    self.ctor[c[0]] = (name, params, sels)
                    for i, (sn, ss) in enumerate(sels):
                        self.sel[sn] = (c[0], i, name, params, ss)
        elif h == "define-sort":
            if f[2]:
                raise SmtError("parametric define-sort unsupported")
            self.sorts[f[1]] = self.sort(f[3])
        elif h in ("declare-fun",):
            self.fresh(f[1])
            self.sig[f[1]] = ([self.sort(s) for s in f[2]], self.sort(f[3]))
            self.order.append(f[1])
            if not f[2]:
                self.consts.append(f[1])
        elif h in ("declare-const", "declare-var"):
            if len(f) != 3:
                raise SmtError(f"bad {h}")
            self.fresh(f[1])
            self.sig[f[1]] = ([], self.sort(f[2]))
            self.consts.append(f[1])
        elif h in ("define-fun", "define-fun-rec"):
            if len(f) != 5:
                raise SmtError(f"bad {h} {sx(f)[:100]}")
            name = f[1]
            self.fresh(name)
            ps = [(p[0], self.sort(p[1])) for p in f[2]]
            if len({p for p, _ in ps}) != len(ps):
                raise SmtError(f"duplicate parameter in {name}")
            ret = self.sort(f[3])
            if h == "define-fun-rec":
                self.sig[name] = ([s for _, s in ps], ret)
            got = self.check(f[4], dict(ps))
            if got != ret:
                raise SmtError(f"{name}: body has sort {sx(got)}, declared {sx(ret)}")
            self.sig[name] = ([s for _, s in ps], ret)
            self.defs[name] = ([p for p, _ in ps], f[4])
            self.order.append(name)
        elif h in ("assert", "constraint"):
            if len(f) != 2 or self.check(f[1], {}) != B:
                raise SmtError(f"{h} of a non-Boolean")
            self.asserts.append(f[1])
        elif h == "synth-fun":
            self.fresh(f[1])
            ps = [(p[0], self.sort(p[1])) for p in f[2]]
            ret = self.sort(f[3])
            self.sig[f[1]] = ([s for _, s in ps], ret)
            nts = {n[0]: self.sort(n[1]) for n in f[4]} if len(f) > 4 else {}
            rules = {}
            for r in (f[5] if len(f) > 5 else []):
                if self.sort(r[1]) != nts.get(r[0]):
                    raise SmtError(f"nonterminal {r[0]} sort mismatch")
                if not isinstance(r[2], list):
                    raise SmtError("rule list expected")
                for t in r[2]:
                    s = self.check(t, {**dict(ps), **nts})
                    if s != nts[r[0]]:
                        raise SmtError(f"production {sx(t)} of {r[0]} has sort {sx(s)}")
                rules[r[0]] = r[2]
            if set(rules) != set(nts):
                raise SmtError("nonterminals declared and defined differ")
            if nts and nts[f[4][0][0]] != ret:
                raise SmtError("start symbol sort")
            self.synths[f[1]] = dict(params=ps, ret=ret, nts=[n[0] for n in f[4]], rules=rules)
        elif h in ("set-logic", "set-option", "check-sat", "get-model", "check-synth", "set-info",
                   "exit", "define-sort"):
            pass
        else:
            raise SmtError(f"unknown command {h}")

    # ---------------------------------------------------------------- sorts
    def subst(self, s, m):
        if isinstance(s, str):
            return m.get(s, s)
        return (s[0],) + tuple(self.subst(x, m) for x in s[1:])

    def unify(self, pat, s, m, params):
        if isinstance(pat, str) and pat in params:
            if pat in m:
                return m[pat] == s
            m[pat] = s
            return True
        if isinstance(pat, str) or isinstance(s, str):
            return pat == s
        return len(pat) == len(s) and pat[0] == s[0] and all(
            self.unify(a, b, m, params) for a, b in zip(pat[1:], s[1:]))

    def check(self, t, env):
        if isinstance(t, int):
            return I
        if isinstance(t, str):
            if t in env:
                return env[t]
            if t in ("true", "false"):
                return B
            if t in self.sig:
                if self.sig[t][0]:
                    raise SmtError(f"{t} used without arguments")
                return self.sig[t][1]
            if t in self.ctor and not self.ctor[t][2] and not self.ctor[t][1]:
                return self.ctor[t][0]
            raise SmtError(f"undeclared symbol {t}")
        if not t:
            raise SmtError("empty application")
        h = t[0]
        if h == "as" and len(t) == 3:
            s = self.sort(t[2])
            if t[1] == "set.empty" and s[0] == "Set":
                return s
            if t[1] in self.ctor and s[0] == self.ctor[t[1]][0]:
                return s
            raise SmtError(f"bad {sx(t)}")
        if h == "let":
            return self.check(t[2], {**env, **{b[0]: self.check(b[1], env) for b in t[1]}})
        if h in ("forall", "exists"):
            if not t[1]:
                raise SmtError("empty quantifier")
            e = {**env, **{b[0]: self.sort(b[1]) for b in t[1]}}
            if self.check(t[2], e) != B:
                raise SmtError("quantified non-Boolean")
            return B
        if not isinstance(h, str):
            raise SmtError(f"bad head {sx(t)[:60]}")
        if h in env:
            raise SmtError(f"{h} applied but is a variable")
        a = [self.check(x, env) for x in t[1:]]
        if not a:
            raise SmtError(f"application without arguments ({h})")

        def need(ok):
            if not ok:
                raise SmtError(f"ill-sorted {sx(t)[:160]} with {[sx(x) for x in a]}")
        if h in ARITH:
            need(all(x == I for x in a))
            if h in ("div", "mod"):
                need(len(a) >= 2)
            elif h == "abs":
                need(len(a) == 1)
            elif h != "-":
                need(len(a) >= 2)
            return I if h in ("+", "-", "*", "div", "mod", "abs") else B
        if h in ("and", "or", "=>", "xor"):
            need(all(x == B for x in a) and len(a) >= 2)
            return B
        if h == "not":
            need(a == [B])
            return B
        if h in ("=", "distinct"):
            need(len(a) >= 2 and all(x == a[0] for x in a))
            return B
        if h == "ite":
            need(len(a) == 3 and a[0] == B and a[1] == a[2])
            return a[1]
        if h in SETS:
            if h == "set.singleton":
                need(len(a) == 1)
                return ("Set", a[0])
            if h == "set.insert":
                need(len(a) >= 2 and all(a[-1] == ("Set", x) for x in a[:-1]))
                return a[-1]
            if h == "set.member":
                need(len(a) == 2 and a[1] == ("Set", a[0]))
                return B
            if h == "set.card":
                need(len(a) == 1 and a[0][0] == "Set")
                return I
            need(len(a) >= 2 and all(x == a[0] and x[0] == "Set" for x in a))
            return B if h == "set.subset" else a[0]
        if h in self.ctor:
            dt, ps, sels = self.ctor[h]
            m = {}
            need(len(a) == len(sels) and all(self.unify(s, x, m, ps) for (_, s), x in zip(sels, a)))
            need(all(p in m for p in ps))
            return (dt,) + tuple(m[p] for p in ps) if ps else dt
        if h in self.sel:
            c, i, dt, ps, s = self.sel[h]
            need(len(a) == 1 and not isinstance(a[0], str) and a[0][0] == dt)
            return self.subst(s, dict(zip(ps, a[0][1:])))
        if h in self.sig:
            need(list(a) == list(self.sig[h][0]))
            return self.sig[h][1]
        raise SmtError(f"undeclared function {h}")

    # ---------------------------------------------------------------- values
    def call(self, name, args):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit("steps")
        if name in self.interp:
            return self.interp[name](*args)
        if name in self.defs:
            ps, body = self.defs[name]
            return self.eval(body, dict(zip(ps, args)))
        raise KeyError(f"no interpretation for {name}")

    def eval(self, t, env):
        if isinstance(t, int):
            return t
        if isinstance(t, str):
            if t in env:
                return env[t]
            if t == "true":
                return True
            if t == "false":
                return False
            return self.call(t, [])
        h = t[0]
        if h == "as":
            return frozenset() if t[1] == "set.empty" else ()
        if h == "let":
            return self.eval(t[2], {**env, **{b[0]: self.eval(b[1], env) for b in t[1]}})
        if h == "ite":
            return self.eval(t[2] if self.eval(t[1], env) else t[3], env)
        if h == "and":
            return all(self.eval(x, env) for x in t[1:])
        if h == "or":
            return any(self.eval(x, env) for x in t[1:])
        if h == "=>":
            return any(not self.eval(x, env) for x in t[1:-1]) or self.eval(t[-1], env)
        a = [self.eval(x, env) for x in t[1:]]
        if h == "not":
            return not a[0]
        if h == "xor":
            return sum(a) % 2 == 1
        if h == "=":
            return all(same(x, y) for x, y in zip(a, a[1:]))
        if h == "distinct":
            return all(not same(x, y) for x, y in itertools.combinations(a, 2))
        if h in ARITH:
            return ARITH[h](*a)
        if h in SETS:
            return SETS[h](*a)
        if h == "cons":
            return (a[0],) + a[1]
        if h == "head":
            if not a[0]:
                return 0
            return a[0][0]
        if h == "tail":
            return a[0][1:]
        if h in self.ctor:
            return Tup(a)
        if h in self.sel:
            return a[0][self.sel[h][1]]
        return self.call(h, a)
