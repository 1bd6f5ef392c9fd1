"""Programs of the Python subset: generator, rendering, execution with a loop-head trace, and the verification
condition the front end makes for them.

prog = {"name", "params": [[name, ty]..], "ret": ty, "body": [stmt..], "other": null | [stmt-like]}   (ty: see ref.py)
stmt = ["=", name, e] ["ann", name, ty, e] ["if", c, [..], [..]] ["while", c, [..]] ["ret", e]
       ["append", name, e] ["add", name, e] ["remove", name, e]
e    = ["v", name] ["i", n] ["+"|"-"|"*"|"//", a, b] ["neg", a] ["cmp", [ops], [operands]] ["and"|"or", a, b]
       ["idx", l, i] ["len", l] ["tup", ..] ["tidx", t, k] ["ucall", args..] ["empty"]
"""
import os
import re

from hypothesis import strategies as st

from . import build, env as menv, ref
from .runner import Discard, Violation, sut

LI = ["List", "Int"]
SI = ["Set", "Int"]
PYT = {"Int": "int", "Bool": "bool"}
UNINTERP = "uf"


def pyty(t):
    if isinstance(t, str):
        return PYT[t]
    return {"List": "List[int]", "Set": "Set[int]"}[t[0]]


# ---------------------------------------------------------------- rendering
def rex(e, ins=False):
    k = e[0]
    r = lambda x: rex(x, ins)
    if k == "v":
        return e[1]
    if k == "i":
        return str(e[1])
    if k == "//" and ins:
        return f"__dv({r(e[1])}, {r(e[2])})"
    if k == "*" and ins:
        return f"__mu({r(e[1])}, {r(e[2])})"
    if k in ("+", "-", "*", "//"):
        return f"({r(e[1])} {k} {r(e[2])})"
    if k == "neg":
        return f"(-{r(e[1])})"
    if k == "cmp":
        s = r(e[2][0])
        for o, x in zip(e[1], e[2][1:]):
            s += f" {o} {r(x)}"
        return f"({s})"
    if k in ("and", "or"):
        return f"({r(e[1])} {k} {r(e[2])})"
    if k == "idx":
        return f"__ix({r(e[1])}, {r(e[2])})" if ins else f"{r(e[1])}[{r(e[2])}]"
    if k == "len":
        return f"len({r(e[1])})"
    if k == "tup":
        return "(" + ", ".join(map(r, e[1:])) + ",)"
    if k == "tidx":
        return f"{r(e[1])}[{e[2]}]"
    if k == "ucall":
        return f"{UNINTERP}({', '.join(map(r, e[1:]))})"
    if k == "empty":
        return "[]"
    raise ValueError(k)


class Rend:
    def __init__(self, ins):
        self.ins = ins
        self.n = 0

    def stmts(self, ss, ind):
        return [l for s in ss for l in self.stmt(s, ind)]

    def stmt(self, s, ind):
        p = "    " * ind
        k = s[0]
        r = lambda x: rex(x, self.ins)
        if k == "=":
            return [f"{p}{s[1]} = {r(s[2])}"]
        if k == "ann":
            return [f"{p}{s[1]}: {pyty(s[2])} = {r(s[3])}"]
        if k == "ret":
            return [f"{p}return {r(s[1])}"]
        if k in ("append", "add", "remove"):
            return [f"{p}{s[1]}.{k}({r(s[2])})"]
        if k == "raw":
            return [p + l for l in s[1].split("\n")]
        if k == "if":
            out = [f"{p}if {r(s[1])}:"] + self.stmts(s[2], ind + 1)
            if s[3]:
                out += [f"{p}else:"] + self.stmts(s[3], ind + 1)
            return out
        if k == "while":
            n = self.n
            self.n += 1
            h = f"(__h({n}, locals()), {r(s[1])})[1]" if self.ins else r(s[1])
            out = [f"{p}while {h}:"] + self.stmts(s[2], ind + 1)
            if len(s) > 3:
                out += [f"{p}else:"] + self.stmts(s[3], ind + 1)
            return out
        raise ValueError(k)


def source(prog, ins=False):
    ps = ", ".join(f"{n}: {pyty(t)}" for n, t in prog["params"])
    out = ["from typing import List, Set"]
    if not ins:
        out += [f"def {UNINTERP}(a: int, b: int) -> int:", "    return a"]
        if prog.get("other"):  # another function using the same names at other types
            nm = prog["other"]
            out += [f"def other({nm}: List[int]) -> int:", f"    {nm}.append(1)", f"    return len({nm})"]
    out += [f"def {prog['name']}({ps}) -> {pyty(prog['ret'])}:"]
    out += Rend(ins).stmts(prog["body"], 1)
    return "\n".join(out) + "\n"


# ---------------------------------------------------------------- static facts
def names_e(e, acc):
    if e[0] == "v":
        acc.add(e[1])
    elif e[0] == "cmp":
        for x in e[2]:
            names_e(x, acc)
    else:
        for x in e[1:]:
            if isinstance(x, list):
                names_e(x, acc)
    return acc


def rw(ss, R, W):
    for s in ss:
        k = s[0]
        if k == "=":
            W.add(s[1])
            names_e(s[2], R)
        elif k == "ann":
            W.add(s[1])
            names_e(s[3], R)
        elif k == "ret":
            names_e(s[1], R)
        elif k in ("append", "add", "remove"):
            W.add(s[1])
            R.add(s[1])
            names_e(s[2], R)
        elif k == "if":
            names_e(s[1], R)
            rw(s[2], R, W)
            rw(s[3], R, W)
        elif k == "while":
            names_e(s[1], R)
            rw(s[2], R, W)
            for x in s[3:]:
                rw(x, R, W)


def loops(prog):
    """Per loop in textual order: names definitely assigned at its head, and its reads and writes."""
    out = []

    def go(ss, defd):
        defd = set(defd)
        for s in ss:
            if s[0] in ("=", "ann"):
                defd.add(s[1])
            elif s[0] == "if":
                a, b = go(s[2], defd), go(s[3], defd)
                defd |= (a & b) if not (rets(s[2]) or rets(s[3])) else (b if rets(s[2]) else a)
            elif s[0] == "while":
                R, W = set(), set()
                names_e(s[1], R)
                rw(s[2], R, W)
                for x in s[3:]:
                    rw(x, R, W)
                out.append(dict(defined=set(defd), reads=R, writes=W))
                go(s[2], defd)
                for x in s[3:]:
                    go(x, defd)
        return defd

    go(prog["body"], {p[0] for p in prog["params"]})
    return out


def names_s(ss, acc):
    """Every variable that occurs in the statements."""
    R, W = set(), set()
    rw(ss, R, W)
    acc |= R | W
    return acc


def rets(ss):
    for s in ss:
        if s[0] == "ret":
            return True
        if s[0] == "if" and s[3] and rets(s[2]) and rets(s[3]):
            return True
    return False


# ---------------------------------------------------------------- execution
class Stop(Exception):
    pass


def freeze(v):
    if isinstance(v, list):
        return tuple(v)
    if isinstance(v, (set, frozenset)):
        return frozenset(v)
    return v


def uf(a, b):
    return (a * 7 + b * 3 + a * b) % 11 - 4


def _dv(a, b):
    if a < 0 or b <= 0:
        raise Stop("division outside the agreed domain")
    return a // b


def _mu(a, b):
    if abs(a) > 10 ** 9 or abs(b) > 10 ** 9:
        raise Stop("too large")
    return a * b


def _ix(l, i):
    if i < 0 or i >= len(l):
        raise Stop("index")
    return l[i]


class Program:
    def __init__(self, prog, limit=60):
        self.prog = prog
        self.loops = loops(prog)
        self.limit = limit
        self.cache = {}
        g = {"__h": self._head, "__ix": _ix, "__dv": _dv, "__mu": _mu, UNINTERP: uf}
        exec(compile(source(prog, True), "<prog>", "exec"), g)
        self.f = g[prog["name"]]

    def _head(self, n, loc):
        if len(self.trace) >= self.limit:
            raise Stop("too many iterations")
        self.trace.append((n, {k: freeze(v) for k, v in loc.items() if k in self.loops[n]["defined"]}))

    def run(self, args):
        """(loop-head trace, result) or None when the run is outside the domain or too long."""
        k = tuple(args)
        if k in self.cache:
            return self.cache[k]
        self.trace = []
        try:
            r = self.f(*[list(a) if isinstance(a, tuple) else set(a) if isinstance(a, frozenset) else a for a in args])
            if r is None:
                raise Stop("no return")
            out = (self.trace, freeze(r))
        except (Stop, KeyError, OverflowError):
            out = None
        if out and any(isinstance(v, int) and abs(v) > 10 ** 9 for _, s in out[0] for v in s.values()):
            out = None
        self.cache[k] = out
        return out


# ---------------------------------------------------------------- the front end
class VC:
    pass


def path_for(prog, tag="p"):
    d = os.path.join(menv.scratch(), "progs")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{tag}{os.getpid()}.py")
    with open(p, "w") as f:
        f.write(source(prog))
    return p


def harvest(driver, prog, invs, fname=None):
    """Read the VC and predicates of an analysed function off the driver."""
    from metalift import ir as I
    from metalift.vc_util import and_objects

    v = VC()
    with sut("building the VC"):
        v.spec = build.spec(and_objects(*driver.asserts))
        v.vars = {x.args[0]: build.unty(x.type) for x in driver.var_tracker.all()}
        v.preds = {}
        v.grammars = []
        for p in driver.inv_tracker.predicates.values():
            n = len(invs)
            s = p.gen_Synth()
            if len(invs) > n:
                v.grammars.append(invs[-1])
            v.preds[s.args[0]] = [(a.args[0], build.unty(a.type)) for a in s.args[2:]]
    v.invs = invs
    return v


def analyze(prog, driver=None, tag="p", prefix="", actuals=None):
    from metalift.frontend.python import Driver
    from metalift import ir as I

    with sut("analyze"):
        d = driver or Driver()
        got = []

        def inv_g(writes, reads, in_scope, *a):
            got.append(tuple(tuple(o.var_name() for o in x) for x in (writes, reads, in_scope)))
            return I.Bool(True)

        def ps_g(writes, reads, in_scope, *a):
            return I.Bool(True)

        f = d.analyze(path_for(prog, tag), prog["name"], lambda: [], inv_g, ps_g, uninterp_fns=[UNINTERP])
        args = actuals
        if args is None:
            args = [I.create_object(build.ty(t), prefix + n) for n, t in prog["params"]]
            d.add_var_objects(args)
        ret = f(*args)
    d.last_ret, d.last_fn = ret, f
    d.last_ret_names = getattr(d, "last_ret_names", []) + [ret.var_name()]
    return d, args, got


# ---------------------------------------------------------------- evaluating a VC
FNS = {UNINTERP: uf}


UNDEF = object()    # argument without a meaning, for predicates that may not look at it (attribute `partial`)


def kleene(e, env, preds, fns):
    """Three-valued truth: None where the reference gives no meaning."""
    k = e[0]
    if k == "and":
        r = True
        for x in e[1:]:
            v = kleene(x, env, preds, fns)
            if v is False:
                return False
            if v is None:
                r = None
        return r
    if k == "or":
        r = False
        for x in e[1:]:
            v = kleene(x, env, preds, fns)
            if v is True:
                return True
            if v is None:
                r = None
        return r
    if k == "not":
        v = kleene(e[1], env, preds, fns)
        return None if v is None else not v
    if k == "implies":
        a = kleene(e[1], env, preds, fns)
        if a is False:
            return True
        b = kleene(e[2], env, preds, fns)
        if b is True:
            return True
        return b if a is True else None
    if k == "ite":
        c = kleene(e[1], env, preds, fns)
        if c is not None:
            return kleene(e[2 if c else 3], env, preds, fns)
        a, b = kleene(e[2], env, preds, fns), kleene(e[3], env, preds, fns)
        return a if a == b else None
    if k == "call" and e[1] in preds:
        q = preds[e[1]]
        vs = []
        for x in e[3:]:
            try:
                vs.append(ref.ev(x, env, fns, ref.Fuel(1_000_000), shortcircuit=True))
            except ref.Undef:
                if not getattr(q, "partial", False):
                    return None
                vs.append(UNDEF)
        return q(vs)
    try:
        return ref.ev(e, env, fns, ref.Fuel(1_000_000), shortcircuit=True)
    except ref.Undef:
        return None


def pred_calls(spec, names):
    return [x for x in ref.walk(spec) if x[0] == "call" and x[1] in names]


default = ref.default


# ---------------------------------------------------------------- generator
INTS = ["x", "y", "z", "i", "k", "acc", "count", "m2", "B", "val"]
LISTS = ["xs", "out_lst", "data", "w"]
SETS = ["s", "seen"]


class G:
    def __init__(self, draw, sound, loops=None):
        self.draw = draw
        self.sound = sound
        self.hasloops = draw(st.booleans()) or draw(st.booleans()) if loops is None else loops
        self.passign = draw(st.booleans()) and (sound or not self.hasloops)
        self.tuples = not self.hasloops and draw(st.booleans())
        self.bools = not self.hasloops and draw(st.booleans())
        self.lists = draw(st.booleans())
        self.sets = draw(st.integers(0, 3)) == 0
        # swarm: some programs concentrate on a few statement kinds
        self.focus = draw(st.sampled_from([None, None, "set", "append", "if"])) if self.hasloops or draw(st.booleans()) else None
        self.setops = draw(st.sampled_from([["add", "add", "remove"], ["remove"], ["add"]]))
        if self.focus == "set":
            self.sets = True
        if self.focus == "append":
            self.lists = True
        self.ucalls = draw(st.integers(0, 3)) == 0
        self.params = []
        self.used = set()
        self.nloops = 0
        self.budget = draw(st.integers(3, 12))

    def pick(self, xs):
        return self.draw(st.sampled_from(list(xs)))

    def chance(self, pct):
        return self.draw(st.integers(0, 99)) < pct

    def fresh(self, pool):
        c = [n for n in pool if n not in self.used]
        if not c:
            return None
        n = self.pick(c)
        self.used.add(n)
        return n

    def of(self, env, t):
        return [n for n, u in env.items() if u == t]

    def iexpr(self, env, d):
        opts = ["lit", "var", "var", "var"]
        if d > 0:
            opts += ["+", "-", "*", "+", "-", "//", "neg"]
            if self.of(env, LI):
                opts += ["len", "idx", "idx"]
            if self.ucalls:
                opts += ["ucall", "ucall"]
            if any(isinstance(t, list) and t[0] == "Tuple" for t in env.values()):
                opts += ["tidx", "tidx"]
        k = self.pick(opts)
        vs = self.of(env, "Int")
        if k == "var" and not vs:
            k = "lit"
        if k == "lit":
            n = self.draw(st.integers(-2, 5))
            return ["i", n] if n >= 0 else ["neg", ["i", -n]]
        if k == "var":
            return ["v", self.pick(vs)]
        if k in ("+", "-", "*"):
            return [k, self.iexpr(env, d - 1), self.iexpr(env, d - 1)]
        if k == "//":
            return [k, self.iexpr(env, d - 1), ["i", self.draw(st.integers(1, 3))]]
        if k == "neg":
            return [k, self.iexpr(env, d - 1)]
        if k == "len":
            return [k, ["v", self.pick(self.of(env, LI))]]
        if k == "idx":
            return [k, ["v", self.pick(self.of(env, LI))], self.iexpr(env, d - 1)]
        if k == "ucall":
            return [k, self.iexpr(env, d - 1), self.iexpr(env, d - 1)]
        t = self.pick([n for n, u in env.items() if isinstance(u, list) and u[0] == "Tuple"])
        return ["tidx", ["v", t], self.draw(st.integers(0, len(env[t][1]) - 1))]

    def bexpr(self, env, d):
        k = self.draw(st.integers(0, 9))
        if k < 2 and d > 0:
            return [self.pick(["and", "or"]), self.bexpr(env, d - 1), self.bexpr(env, d - 1)]
        if k == 2 and self.of(env, "Bool"):
            return ["v", self.pick(self.of(env, "Bool"))]
        n = 2 if self.chance(15) else 1
        return ["cmp", [self.pick(["<", "<=", "==", ">=", ">"]) for _ in range(n)],
                [self.iexpr(env, d - 1 if d > 0 else 0) for _ in range(n + 1)]]

    def expr(self, t, env, d=2):
        if t == "Int":
            return self.iexpr(env, d)
        if t == "Bool":
            return self.bexpr(env, d)
        if t == LI:
            if not self.hasmut and self.of(env, LI):
                return ["v", self.pick(self.of(env, LI))]
            return ["empty"]
        raise ValueError(t)

    def writable(self, env):
        ps = {p[0] for p in self.params}
        return {n: t for n, t in env.items() if self.passign or n not in ps}

    def block(self, env, depth, new, must):
        """-> statements; env is updated; must: the block has to end in a return."""
        out = []
        for _ in range(self.draw(st.integers(0 if must else 1, 3))):
            if self.budget <= 0:
                break
            ss = self.stmt(env, depth, new)
            out += ss
            if rets(out):
                return out
        if must:
            out.append(self.ret(env))
        elif not out:
            out = self.assign(env, False)
        return out

    def ret(self, env):
        t = self.rett
        if t == "Int":
            return ["ret", self.iexpr(env, 2)]
        vs = self.of(env, t)
        return ["ret", ["v", self.pick(vs)]]

    def assign(self, env, new):
        wr = self.writable(env)
        cand = [n for n, t in wr.items() if t in ("Int", "Bool") or (t == LI and not self.hasmut)]
        if new and (not cand or self.chance(40)):
            ts = ["Int", "Int"] + (["Bool"] if self.bools else []) + (["tup"] if self.tuples else []) + ([LI] if self.lists else [])
            t = self.pick(ts)
            if t == LI:
                n = self.fresh(LISTS)
                if n:
                    env[n] = LI
                    return [["ann", n, LI, ["empty"]]]
            n = self.fresh(INTS)
            if n is None:
                n = self.fresh([f"v{j}" for j in range(60)])
            if t == "tup":
                k = self.draw(st.integers(1, 3))
                e = ["tup"] + [self.iexpr(env, 1) for _ in range(k)]
                env[n] = ["Tuple", ["Int"] * k]
                return [["=", n, e]]
            if t == LI:
                t = "Int"
            e = self.expr(t, env)
            env[n] = t
            return [["ann", n, t, e] if self.chance(40) else ["=", n, e]]
        if not cand:
            n = self.pick([v for v, t in env.items() if t == "Int"] or [None])
            return [["=", n, ["v", n]]] if n and n in wr else [["=", "unused_", ["i", 0]]] if new else []
        n = self.pick(cand)
        return [["=", n, self.expr(env[n], env)]]

    def stmt(self, env, depth, new, k=None):
        self.budget -= 1
        opts = ["assign"] * 4 + ["if"] * (3 if depth > 0 else 0)
        if self.hasloops and depth > 0 and self.nloops < 3:
            opts += ["while"] * 3
        wr = self.writable(env)
        if self.hasmut and any(t == LI for t in wr.values()):
            opts += ["append"] * 2
        if self.hasmut and any(t == SI for t in wr.values()):
            opts += ["set"] * 2
        if k is None and self.focus in opts and self.chance(40):
            k = self.focus
        k = k or self.pick(opts)
        if k == "assign":
            return self.assign(env, new)
        if k == "append":
            return [["append", self.pick([n for n, t in wr.items() if t == LI]), self.iexpr(env, 1)]]
        if k == "set":
            cs = [i for i in self.counters if i]
            e = ["v", self.pick(cs)] if cs and self.chance(50) else self.iexpr(env, 1)
            return [[self.pick(self.setops), self.pick([n for n, t in wr.items() if t == SI]), e]]
        if k == "if":
            c = self.bexpr(env, 2)
            m = self.draw(st.integers(0, 9))
            if m == 0 and new and not self.inloop:  # a name first assigned in both branches
                n = self.fresh(INTS)
                if n:
                    a = ["=", n, self.iexpr(env, 2)]
                    b = ["=", n, self.iexpr(env, 2)]
                    env[n] = "Int"
                    return [["if", c, [a], [b]]]
            r1, r2 = self.chance(20), self.chance(15)
            # a name first assigned in a loop exists after it, which an enclosing branch must not do on its own
            ok = new or not self.inloop
            a = self.block(dict(env), depth - 1, r1 and ok, r1)
            b = self.block(dict(env), depth - 1, r2 and ok, r2) if r2 or self.chance(60) else []
            if not a:
                a = [self.ret(env)]
            return [["if", c, a, b]]
        # while
        pre = []
        i = None
        if self.chance(85):
            loc = [n for n, t in wr.items() if t == "Int" and n not in self.counters]
            if new and (not loc or self.chance(60)):
                i = self.fresh(INTS)
                if i:
                    env[i] = "Int"
            if i is None and loc:
                i = self.pick(loc)
        if i is None:
            c = self.bexpr(env, 2)
        else:
            pre = [["=", i, ["i", self.draw(st.sampled_from([0, 0, 0, 1, 2]))]]]
            lim = ["i", self.draw(st.sampled_from([2, 3, 1, 4, 0]))]
            if self.of(env, LI) and self.chance(40):
                lim = ["len", ["v", self.pick(self.of(env, LI))]]
            elif self.chance(30):
                others = [n for n in self.of(env, "Int") if n != i]
                if others:
                    lim = ["v", self.pick(others)]
            c = ["cmp", [self.pick(["<", "<", "<="])], [["v", i], lim]]
            if self.chance(15):
                c = ["and", c, self.bexpr(env, 1)]
        self.nloops += 1
        self.counters.append(i)
        was, self.inloop = self.inloop, True
        benv = dict(env)
        if self.chance(6):
            body = self.block(benv, depth - 1, new, True)
        else:
            body = self.block(benv, depth - 1, new, False)
            if i is not None and not rets(body):
                step = ["=", i, ["+", ["v", i], ["i", 1]]]
                body = [step] + body if self.chance(15) else body + [step]
        self.inloop = was
        self.counters.pop()
        if not body:
            body = [["=", i, ["+", ["v", i], ["i", 1]]]] if i else [self.ret(env)]
        els = []
        if self.chance(8):
            els = [self.assign(dict(env), False)]
            els = els if els[0] else []
        return pre + [["while", c, body] + els]


@st.composite
def program(draw, sound=True, loops=None, name="test", ret=None, nparams=None, mut=False):
    g = G(draw, sound, loops)
    if mut:
        g.lists = g.passign = True
        nparams = nparams or [LI, "Int", LI][:draw(st.integers(1, 3))]
    ps = []
    n = draw(st.integers(0 if not g.lists and not g.sets else 1, 3))
    for j in range(len(nparams) if nparams else n):
        t = nparams[j] if nparams else draw(st.sampled_from(["Int", "Int"] + ([LI, LI] if g.lists else []) + ([SI] * (4 if g.focus == "set" else 1) if g.sets else [])))
        n = g.fresh({"Int": INTS}.get(t, LISTS) if isinstance(t, str) else (LISTS if t == LI else SETS))
        if n:
            ps.append([n, t])
    if g.focus == "set" and not nparams and not any(t == SI for _, t in ps):
        ps.insert(draw(st.integers(0, len(ps))), [g.fresh(SETS), SI])
    g.params = ps
    env = dict((n, t) for n, t in ps)
    g.hasmut = mut or g.focus in ("set", "append") or draw(st.booleans())
    if g.focus in ("set", "append") and sound:
        g.passign = True
    g.inloop = False
    g.counters = []
    body = []
    g.rett = "Int"
    cand = []
    if g.lists:
        cand.append(LI)
        if not g.of(env, LI) or g.chance(50):
            n = g.fresh(LISTS)
            body.append(["ann", n, LI, ["empty"]])
            env[n] = LI
    if g.of(env, SI):
        cand.append(SI)
    if cand and not ret and g.chance(75 if g.focus in ("set", "append") else 35):
        g.rett = SI if g.focus == "set" and SI in cand else g.pick(cand)
    if g.hasloops:
        for _ in range(draw(st.integers(0, 2))):
            body += g.assign(env, True)
        if draw(st.integers(0, 9)) < 8:
            if draw(st.integers(0, 3)) == 0:
                body += g.stmt(env, 2, True, "if")
            if not rets(body):
                body += g.stmt(env, 3, True, "while")
    if not rets(body):
        body += g.block(env, 3, True, True)
    other = draw(st.sampled_from([None, None, "xs"] + [n for n in INTS[:4]]))
    return dict(name=name, params=ps, ret=g.rett, body=body, other=other)


@st.composite
def simple(draw, name="test"):
    """Small dense programs: one or two loops (or branches) around one or two updates of the returned variable."""
    pick = lambda *xs: draw(st.sampled_from(xs))
    rt = pick("Int", LI, SI, SI)
    r = {"Int": "acc", "L": "xs", "S": "s"}[rt if rt == "Int" else rt[0][0]]
    ps = [["n", "Int"], ["y", "Int"]][:pick(1, 1, 2)]
    env = {n: "Int" for n, _ in ps}
    pre = []
    if rt == SI or (rt == LI and pick(0, 1)):
        ps.insert(pick(0, len(ps)), [r, rt])
    elif rt == LI:
        pre.append(["ann", r, LI, ["empty"]])
    else:
        pre.append(["=", r, pick(["i", 0], ["v", "n"], ["neg", ["i", 1]])])
    env[r] = rt
    if pick(0, 0, 1):
        pre.append(["=", "k", ["i", pick(0, 1, 2)]])
        env["k"] = "Int"
    ints = lambda: ["v", pick(*[v for v, t in env.items() if t == "Int"])]

    def ie(d=1):
        o = pick("v", "v", "i", "+", "-", "*", "idx", "len", "//") if d else pick("v", "v", "i")
        if o == "v":
            return ints()
        if o in ("idx", "len"):
            if env[r] != LI:
                return ints()
            return ["len", ["v", r]] if o == "len" else ["idx", ["v", r], pick(["i", 0], ints())]
        if o == "//":
            return ["//", ie(0), ["i", pick(1, 2, 3)]]
        return ["i", pick(0, 1, 2, 3)] if o == "i" else [o, ie(0), ie(0)]

    def cond():
        return ["cmp", [pick("<", "<=", "==", ">", ">=")], [ie(), ie()]]

    def update(cnt):
        o = pick("r", "r", "r", "k")
        if o == "k" and "k" in env and cnt != "k":
            return [["=", "k", ie()]]
        if rt == LI:
            return [["append", r, ie()]]
        if rt == SI:
            return [[pick("add", "remove", "remove"), r, ["v", cnt] if cnt and pick(0, 1, 1) else ie()]]
        return [["=", r, ["+", ["v", r], ie()] if pick(0, 1, 1) else ie()]]

    def region(cnt, d):
        out = []
        for _ in range(pick(1, 1, 2)):
            o = pick("u", "u", "if", "early") if d else "u"
            if o == "u":
                out += update(cnt)
            elif o == "early":
                out.append(["if", cond(), [["ret", ["v", r]] if rt != "Int" else ["ret", ie()]], []])
            else:
                out.append(["if", cond(), region(cnt, d - 1), region(cnt, d - 1) if pick(0, 1) else []])
        return out

    def loop(i, d):
        env[i] = "Int"
        lim = pick(["i", 3], ["i", 2], ["v", "n"], ["i", 4])
        outer = set(env)
        body = region(i, 1)
        if d and pick(0, 0, 1):
            body += loop("j", 0)
        for n in set(env) - outer:  # may be unassigned after the loop
            del env[n]
        step = [["=", i, ["+", ["v", i], ["i", 1]]]]
        body = body + step if pick(0, 1, 1) else step + body
        return [["=", i, ["i", 0]], ["while", ["cmp", [pick("<", "<", "<=")], [["v", i], lim]], body]]

    shape = pick("loop", "loop", "loop", "ifloop", "loops", "branch")
    body = list(pre)
    if shape == "branch":
        body += region(None, 2)
    elif shape == "ifloop":
        body += [["=", "i", ["i", 0]], ["=", "j", ["i", 0]]]
        env.update(i="Int", j="Int")
        body += [["if", cond(), loop("i", 0), region(None, 1) if pick(0, 1) else []]]
    else:
        body += loop("i", 1)
        if shape == "loops":
            body += region(None, 1) + loop(pick("i", "q"), 0)
    if pick(0, 0, 1):
        body += region(None, 1)
    return dict(name=name, params=ps, ret=rt, body=body + [["ret", ["v", r]]], other=None)


def arg(t):
    if t == "Int":
        return st.integers(-3, 6)
    if t == LI:
        return st.lists(st.integers(-3, 5), max_size=4)
    return st.one_of(st.lists(st.integers(-2, 4), max_size=3, unique=True), st.integers(2, 7).map(lambda n: list(range(-2, n)))).map(
        lambda l: {"S": sorted(l)})


def args_for(prog):
    return st.tuples(*[arg(t) for _, t in prog["params"]]).map(list)
