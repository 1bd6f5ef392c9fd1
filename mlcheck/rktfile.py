"""A generated Rosette problem file: its symbols, definitions, grammars and queries, evaluated concretely."""
from . import rkt, rktlib, template


class Bad(Exception):
    """The file is not a well-formed problem."""


class Problem:
    def __init__(self, text, lib=None):
        self.text = text
        try:
            self.forms = rkt.parse(text)
        except rkt.RktError as e:
            raise Bad(f"unreadable: {e}")
        self.lib = lib or rktlib.interp
        self.symbols = {}        # name -> type, in order
        self.defs = []           # top-level definitions in order
        self.grammars = {}       # f_gram -> (params, start, alts)
        self.synths = []         # (name, forall, guarantee)
        self.verifies = []
        self.outputs = []        # (file, forms)
        self.bitwidth = None
        self.uninterp = {}       # name -> (argument types, result type)
        for f in self.forms:
            self.read(f)

    def read(self, f):
        if not (isinstance(f, list) and f and isinstance(f[0], str)):
            raise Bad(f"stray text {f!r}")
        h = f[0]
        if h in ("require", "provide", "current-solver", "sat?", "print-forms"):
            return
        if h == "define-symbolic":
            if isinstance(f[-1], list) and f[-1][:1] == ["~>"]:
                self.uninterp[str(f[1])] = ([str(x) for x in f[-1][1:-1]], str(f[-1][-1]))
                return
            for n in f[1:-1]:
                if n in self.symbols:
                    raise Bad(f"{n} declared twice")
                self.symbols[n] = str(f[-1])
            if f[-1] not in ("integer?", "boolean?"):
                raise Bad(f"symbol type {f[-1]}")
        elif h == "define-grammar":
            rules = {}
            for r in f[2:]:
                if r[0] in rules:
                    raise Bad(f"two rules for {r[0]}")
                rules[r[0]] = r[1]

            def alts(x, rules=rules):
                if isinstance(x, list) and len(x) == 1 and isinstance(x[0], str) and x[0] in rules:
                    return x[0], [rules[x[0]]]
                if isinstance(x, list) and x and x[0] == "choose":
                    return None, x[1:]
                return None
            if f[1][0] in self.grammars:
                raise Bad(f"two grammars {f[1][0]}")
            self.grammars[f[1][0]] = (f[1][1:], [f[2][0]], alts)
        elif h in ("define", "define-bounded"):
            if isinstance(f[1], rkt.Sym) and isinstance(f[2], list) and f[2][:1] == ["synthesize"]:
                kw = dict(zip(f[2][1::2], f[2][2::2]))
                if set(kw) != {"#:forall", "#:guarantee"}:
                    raise Bad(f"synthesize with {sorted(kw)}")
                self.synths.append((str(f[1]), kw["#:forall"], kw["#:guarantee"]))
            else:
                self.defs.append(f)
        elif h == "current-bitwidth":
            self.bitwidth = f[1]
        elif h == "verify":
            self.verifies.append(f)
        elif h == "with-output-to-file":
            self.outputs.append((f[1][1] if isinstance(f[1], list) and f[1][0] == "#str" else f[1], f[2:]))
        else:
            raise Bad(f"unexpected form {str(f)[:100]}")

    def name(self, f):
        return str(f[1][0] if isinstance(f[1], list) else f[1])

    def run(self, values, bodies, solutions=(), fns=()):
        """an evaluator with the symbols set to `values`, the grammars resolved to `bodies` (name_gram ->
        Racket text), and `solutions` (list of such dicts) for `evaluate`."""
        I = self.lib()
        I.steps.n = 400000
        I.asserted, I.assumed = [], []
        for n in self.symbols:
            if n not in values:
                raise KeyError(n)
            I.g.d[rkt.Sym(n)] = values[n]
        for g, (params, start, alts) in self.grammars.items():
            if g in bodies:
                I.g.d[rkt.Sym(g)] = I.fn(params, [rkt.parse(bodies[g])[0]], I.g)
        for n, (params, body) in dict(fns).items():
            I.g.d[rkt.Sym(n)] = I.fn(params, [rkt.parse(body)[0]], I.g)
        I.solutions = {f"sol{i}": s for i, s in enumerate(solutions)}
        I.problem = self
        seen = set()
        for f in self.defs:
            if self.name(f) in seen:
                raise Bad(f"{self.name(f)} defined twice")
            seen.add(self.name(f))
            I.top(f)
        return I

    def check(self, I, form):
        """-> (assumptions hold, assertions hold)"""
        I.asserted, I.assumed = [], []
        I.steps.n = 400000
        I.ev(form, I.g)
        return all(x is not False for x in I.assumed), all(x is not False for x in I.asserted)


def derives(x, target, alts, depth=0):
    """does the grammar derive the (parsed) target"""
    if depth > 200:
        raise Bad("recursive grammar")
    a = alts(x)
    if a is not None:
        return any(derives(y, target, alts, depth + 1) for y in a[1])
    if isinstance(x, list):
        return isinstance(target, list) and len(x) == len(target) and all(derives(p, q, alts, depth) for p, q in zip(x, target))
    return not isinstance(target, list) and template.leaf(x) == template.leaf(target)


def s_assert(I, e, env):
    r = I.ev(e[1], env)
    log = getattr(I, "asserted", None)
    if log is not None:
        log.append(r)
        return None
    if r is False:
        raise rkt.RktError("assertion failed")
    return None


def s_assume(I, e, env):
    I.assumed.append(I.ev(e[1], env))


def s_evaluate(I, e, env):
    s = I.solutions.get(str(e[2]))
    if s is None:
        raise rkt.RktError(f"no solution {e[2]}")
    old = {}
    for g, body in s.items():
        k = rkt.Sym(g)
        old[k] = I.g.d[k]
        I.g.d[k] = I.fn(I.problem.grammars[g][0], [rkt.parse(body)[0]], I.g)
    try:
        return I.ev(e[1], env)
    finally:
        I.g.d.update(old)


rkt.SPECIAL["assert"] = s_assert
rkt.SPECIAL["assume"] = s_assume
rkt.SPECIAL["evaluate"] = s_evaluate
