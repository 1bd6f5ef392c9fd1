"""End to end: what a driver reports is the function, and a right candidate is reported."""
import collections
import contextlib
import io
import os
import shlex
import shutil

from hypothesis import strategies as st

from .. import build, env as menv, fakes, fastmypy, llvmfront as LF, llvmir as L, pyfront as P, ref, rkt, rktfile, rktlib
from ..runner import Discard, Sub, Violation, sut

PROPERTY = "C26"
RULE = ("one or two functions per driver (branching programs, counting loops, calls of an uninterpreted function; chained calls and preconditions) "
        "in Python and in LLVM IR; the grammars offer right and wrong candidates, the solver is a stand-in that answers with a generated sequence of "
        "them, the verifier is the real cvc5. The reported expression must have the value the executed function returns on every sampled input that "
        "satisfies the precondition; wrong candidates must be rejected; the first right candidate must be accepted; the Rosette problem must hold for it")
ASSUMPTIONS = ["cvc5 is sound", "the stand-in solver prints candidates as Rosette does", "integers are mathematical"]
fastmypy.install()
HELPERS = {"dbl": ["fn", "dbl", "Int", ["add", ["var", "h", "Int"], ["var", "h", "Int"]], ["var", "h", "Int"]],
           "mx": ["rec", "mx", "Int", ["ite", ["ge", ["var", "h", "Int"], ["var", "k", "Int"]], ["var", "h", "Int"], ["var", "k", "Int"]],
                  ["var", "h", "Int"], ["var", "k", "Int"]],
           "uf": ["rec", "uf", "Int", None, ["var", "h", "Int"], ["var", "k", "Int"]]}
FNNAMES = ["test", "get_psnr", "f_ps", "total", "fail", "a_ps_b", "h2"]
REAL = shutil.which("cvc5")


def setup():
    LF.L.build_pass()


# ------------------------------------------------------------------ programs
def ev(e, env):
    """symbolic value of an expression of the source program"""
    k = e[0]
    r = lambda x: ev(x, env)
    if k == "v":
        return env[e[1]]
    if k == "i":
        return ["lit", e[1], "Int"]
    if k == "neg":
        return ["sub", ["lit", 0, "Int"], r(e[1])]
    if k == "ucall":
        return ["call", "uf", "Int", r(e[1]), r(e[2])]
    if k == "len":
        return ["call", "list_length", "Int", r(e[1])]
    if k == "empty":
        return ["call", "list_empty", LI]
    if k == "cmp":
        return [{"<": "lt", "<=": "le", "==": "eq", ">": "gt", ">=": "ge"}[e[1][0]], r(e[2][0]), r(e[2][1])]
    return [{"+": "add", "-": "sub", "*": "mul"}[k], r(e[1]), r(e[2])]


def sym(ss, env):
    for i, s in enumerate(ss):
        if s[0] in ("=", "ann"):
            env = {**env, s[1]: ev(s[-1], env)}
        elif s[0] == "append":
            env = {**env, s[1]: ["call", "list_append", LI, env[s[1]], ev(s[2], env)]}
        elif s[0] == "if":
            return ["ite", ev(s[1], env), sym(s[2] + ss[i + 1:], env), sym(s[3] + ss[i + 1:], env)]
        else:
            return ev(s[1], env)


@st.composite
def branching(draw, params, uf):
    pick = lambda *x: draw(st.sampled_from(x))
    names = list(params)
    lit = lambda: ["i", draw(st.integers(0, 5))]

    def ie(d=2):
        k = pick("v", "v", "i", "+", "-", "*", "neg", *(["u"] * 2 if uf else [])) if d else pick("v", "v", "i")
        if k == "v":
            return ["v", pick(*names)]
        if k == "i":
            return lit()
        if k == "*":
            return ["*", lit(), ie(d - 1)]
        if k == "neg":
            return ["neg", ie(d - 1)]
        if k == "u":
            return ["ucall", ie(d - 1), ie(d - 1)]
        return [k, ie(d - 1), ie(d - 1)]

    def cond():
        return ["cmp", [pick("<", "<=", "==", ">", ">=")], [ie(1), ie(1)]]

    def block(d, must):
        out = []
        for _ in range(draw(st.integers(0 if must else 1, 2))):
            k = pick("=", "if", "if") if d else "="
            if k == "=":
                out.append(["=", pick(*[n for n in names if n not in params] or ["t"]), ie()])
            else:
                r1, r2 = pick(0, 0, 1), pick(0, 0, 0, 1)
                a, b = block(d - 1, r1), block(d - 1, r2) if r2 or pick(0, 1) else []
                out.append(["if", cond(), a, b])
                if r1 and r2:
                    return out
        return out + ([["ret", ie()]] if must else [])

    body = []
    for n in ["t", "w"][:draw(st.integers(1, 2))]:
        body.append(["=", n, ie()])
        names.append(n)
    return body + block(2, True)


@st.composite
def fn(draw, name, nparams, uf, loop, pool=("n", "x", "b")):
    params = draw(st.permutations(pool))[:nparams]
    if not loop:
        body = draw(branching(params, uf))
        return dict(name=name, params=params, body=body, inv=None, right=sym(body, {p: ["var", p, "Int"] for p in params}))
    pick = lambda *x: draw(st.sampled_from(x))
    n = params[0]
    s0 = pick(["i", draw(st.integers(0, 3))], ["v", params[-1]])
    c, d = draw(st.integers(-2, 3)), draw(st.integers(0, 2))
    le = pick("<", "<", "<=")
    off = 1 if le == "<=" else 0
    step = ["=", "i", ["+", ["v", "i"], ["i", 1]]]
    acc = ["=", "acc", ["+", ["v", "acc"], ["i", c]] if c >= 0 else ["-", ["v", "acc"], ["i", -c]]]
    inner = [step, acc] if pick(0, 1) else [acc, step]
    body = [["=", "acc", s0], ["=", "i", ["i", 0]], ["while", ["cmp", [le], [["v", "i"], ["v", n]]], inner],
            ["ret", ["+", ["v", "acc"], ["i", d]]]]
    if pick(0, 0, 1):      # only on one path
        body = body[:2] + [["if", ["cmp", ["<"], [["v", n], ["i", 7]]], [body[2]], [["=", "acc", ["i", 9]]]], body[3]]
    v = lambda x: ["var", x, "Int"]
    lit = lambda x: ["lit", x, "Int"]
    N = ["add", v(n), lit(1)] if off else v(n)
    start = ev(s0, {p: v(p) for p in params})
    right = ["add", ["add", start, ["mul", lit(c), ["ite", ["gt", N, lit(0)], N, lit(0)]]], lit(d)]
    plain = ["add", ["add", start, ["mul", lit(c), N]], lit(d)]
    if body[2][0] == "if":
        right, plain = [["ite", ["lt", v(n), lit(7)], e, lit(9 + d)] for e in (right, plain)]
    inv = ["and", ["and", ["ge", v("i"), lit(0)], ["or", ["le", v("i"), N], ["eq", v("i"), lit(0)]]],
           ["eq", v("acc"), ["add", start, ["mul", lit(c), v("i")]]]]
    return dict(name=name, params=params, body=body, inv=inv, right=right, plain=plain)


LI = ["List", "Int"]


@st.composite
def data(draw, name, front):
    """loop-free programs over lists; in LLVM IR the only list to return is the one the caller provides"""
    pick = lambda *x: draw(st.sampled_from(x))
    params = [["xs", LI], ["n", "Int"]] if pick(0, 1) else [["n", "Int"], ["xs", LI], ["ys", LI]]
    types = dict(params)
    ret = pick("Int", LI, LI)
    body = [["ann", "out", LI, ["empty"]]] if ret == LI and (front == "llvm" or pick(0, 1)) else []
    if body:
        types["out"] = LI
    of = lambda t: [n for n, u in types.items() if u == t]

    def ie(d=1):
        k = pick("v", "i", "len", "+", "-", "len") if d else pick("v", "i", "len")
        if k == "v":
            return ["v", pick(*of("Int"))]
        if k == "i":
            return ["i", draw(st.integers(0, 4))]
        if k == "len":
            return ["len", ["v", pick(*of(LI))]]
        return [k, ie(d - 1), ie(d - 1)]

    def result():
        if ret == "Int":
            return ie()
        return ["v", "out" if front == "llvm" else pick(*of(LI))]

    def block(d):
        out = []
        for _ in range(draw(st.integers(0, 2))):
            k = pick("=", "append", "append", "if", "if", "early") if d else pick("=", "append")
            if k == "=":
                out.append(["=", "t", ie()])
            elif k == "append":
                out.append(["append", pick(*of(LI)), ie(0)])
            elif k == "if":
                out.append(["if", ["cmp", [pick("<", "<=", "==", ">", ">=")], [ie(), ie()]], block(d - 1) or [["=", "t", ie()]], block(d - 1)])
            else:
                out.append(["if", ["cmp", [pick("<", ">=")], [ie(), ie(0)]], block(d - 1) + [["ret", result()]], []])
        return out
    body = body + [["=", "t", ie(0)]]
    types["t"] = "Int"
    body = body + block(2) + [["ret", result()]]
    return dict(name=name, params=[p for p, _ in params], types=[u for _, u in params], ret=ret, body=body, inv=None,
                right=sym(body, {p: ["var", p, u] for p, u in params}))


def variants(draw, e):
    """the same value written differently"""
    if build.typ(e) != "Int":
        return e
    k = draw(st.integers(0, 4))
    if k == 0:
        return ["sub", ["call", "dbl", "Int", e], e]
    if k == 1:
        return ["call", "mx", "Int", e, e]
    if k == 2:
        return ["add", ["lit", 0, "Int"], e]
    return e


def mutate(draw, e):
    """one change somewhere"""
    spots = []

    def walk(x, path):
        if x[0] == "lit" or x[0] in ("lt", "le", "gt", "ge", "eq", "add", "sub", "ite"):
            spots.append(path)
        for i, y in enumerate(x[1:], 1):
            if isinstance(y, list) and y and isinstance(y[0], str) and not (x[0] == "call" and i < 3) and x[0] not in ("var", "lit"):
                walk(y, path + [i])
    walk(e, [])
    if not spots:
        if build.typ(e) == LI:
            return ["call", "list_append", LI, e, ["lit", 1, "Int"]]
        return ["add", e, ["lit", 1, "Int"]]
    p = draw(st.sampled_from(spots))

    def change(x):
        o = x[0]
        if o == "lit":
            return ["lit", x[1] + draw(st.sampled_from([-1, 1])), "Int"]
        if o in ("add", "sub"):
            return [{"add": "sub", "sub": "add"}[o], *x[1:]]
        if o == "ite":
            return draw(st.sampled_from([["ite", x[1], x[3], x[2]], x[2], x[3]]))
        return [draw(st.sampled_from([y for y in ("lt", "le", "gt", "ge", "eq") if y != o])), *x[1:]]

    def go(x, path):
        if not path:
            return change(x)
        y = list(x)
        y[path[0]] = go(x[path[0]], path[1:])
        return y
    return go(e, p)


def case_for(front, kind=None):
    @st.composite
    def case(draw):
        two = draw(st.integers(0, 2)) == 0 and not kind
        uf = draw(st.integers(0, 4)) == 0
        names = draw(st.lists(st.sampled_from(FNNAMES), min_size=2, max_size=2, unique=True))
        fns = []
        if kind:
            fns.append(draw(data(names[0], front)))
            uf = False
        for i in range(0 if kind else 1 + two):
            chained = front == "py" and i == 1
            fns.append(draw(fn(names[i], 1 if chained else draw(st.integers(1, 2)), uf, draw(st.booleans()),
                           # with one variable for both functions, the precondition would be for both
                           *([("p", "q")] if i and front == "llvm" else []))))
        for f in fns:
            ps = [variants(draw, f["right"])]
            for _ in range(draw(st.integers(0, 2))):
                ps.append(mutate(draw, f["right"]))
            if "plain" in f:
                ps.append(f["plain"])
            f["ps"] = draw(st.permutations(ps))
            if f["inv"]:
                f["invs"] = draw(st.permutations([f["inv"], ["ge", ["var", "i", "Int"], ["lit", 0, "Int"]], mutate(draw, f["inv"])][:draw(st.integers(1, 3))]))
        pre = None
        if draw(st.integers(0, 2)) == 0:
            pre = [draw(st.sampled_from([p for p, u in zip(fns[0]["params"], types(fns[0])) if u == "Int"])), draw(st.sampled_from(["ge", "lt"])), draw(st.integers(-1, 2))]
        seq = []
        for _ in range(1 if front == "py" else draw(st.integers(1, 3))):
            right = draw(st.booleans())
            seq.append([[f["ps"].index(next(p for p in f["ps"] if p not in mut(f))) if right else draw(st.integers(0, len(f["ps"]) - 1)),
                         (f["invs"].index(f["inv"]) if right else draw(st.integers(0, len(f["invs"]) - 1))) if f["inv"] else 0] for f in fns])
        return dict(front=front, fns=fns, pre=pre, seq=seq, uf=uf, prefix=draw(st.sampled_from(["", "", "in_"])) if front == "py" else "",
                    split=draw(st.booleans()), share=draw(st.booleans()), four=draw(st.booleans()), compact=draw(st.booleans()), bare=draw(st.booleans()),
                    inputs=draw(st.lists(st.lists(st.integers(-3, 9), min_size=2, max_size=2), min_size=4, max_size=10)))

    def mut(f):
        return [p for p in f["ps"] if p != f["right"] and strip(p) != f["right"]]
    return case


def strip(e):
    """the expression under variants()"""
    if e[0] == "sub" and e[1][:2] == ["call", "dbl"]:
        return e[2]
    if e[:2] == ["call", "mx"]:
        return e[3]
    if e[0] == "add" and e[1] == ["lit", 0, "Int"]:
        return e[2]
    return e


# ------------------------------------------------------------------ execution
def ret_type(f):
    return f.get("ret", "Int")


def execute(f, args):
    """an interpreter of the source program, independent of metalift"""
    env = dict(zip(f["params"], args))
    fuel = [200]

    def e(x):
        k = x[0]
        if k == "v":
            return env[x[1]]
        if k == "i":
            return x[1]
        if k == "neg":
            return -e(x[1])
        if k == "ucall":
            return ufv(e(x[1]), e(x[2]))
        if k == "len":
            return len(e(x[1]))
        if k == "empty":
            return ()
        if k == "cmp":
            a, b = map(e, x[2])
            return {"<": a < b, "<=": a <= b, "==": a == b, ">": a > b, ">=": a >= b}[x[1][0]]
        a, b = e(x[1]), e(x[2])
        return a + b if k == "+" else a - b if k == "-" else a * b

    def block(ss):
        for s in ss:
            if s[0] in ("=", "ann"):
                env[s[1]] = e(s[-1])
            elif s[0] == "append":
                env[s[1]] = env[s[1]] + (e(s[2]),)
            elif s[0] == "if":
                r = block(s[2] if e(s[1]) else s[3])
                if r is not None:
                    return r
            elif s[0] == "while":
                while e(s[1]):
                    fuel[0] -= 1
                    if fuel[0] < 0:
                        raise Discard("long run")
                    r = block(s[2])
                    if r is not None:
                        return r
            else:
                return e(s[1])
        return None
    return block(f["body"])


def ufv(a, b):
    return 13 * a - 7 * b + 1


TABLE = {n: ([p[1] for p in d[4:]], d[3]) for n, d in HELPERS.items() if d[3] is not None}


def value(spec, env):
    return ref.ev(spec, env, {"uf": ufv, **TABLE})


# ------------------------------------------------------------------ LLVM
def llvm(f):
    """the function as clang -O0 writes it"""
    out, n, cur = [], [0], []
    names = []

    def reg():
        n[0] += 1
        return f"%t{n[0]}"

    def lab(s):
        n[0] += 1
        return f"{s}{n[0]}"

    def e(x):
        k = x[0]
        if k == "i":
            return str(x[1])
        if k == "v":
            r = reg()
            out.append(f"  {r} = load i32, i32* %{slot(x[1])}")
            return r
        if k == "len":
            r, q = reg(), reg()
            out.append(f"  {r} = call i64 @{LF.SIZE}({LF.VEC}* %{slot(x[1][1])})")
            out.append(f"  {q} = trunc i64 {r} to i32")
            return q
        if k == "ucall":
            a, b = e(x[1]), e(x[2])
            r = reg()
            out.append(f"  {r} = call i32 @uf(i32 {a}, i32 {b})")
            return r
        a, b = ("0", e(x[1])) if k == "neg" else (e(x[1]), e(x[2]))
        r = reg()
        out.append(f"  {r} = { {'+': 'add', '-': 'sub', '*': 'mul', 'neg': 'sub'}[k]} i32 {a}, {b}")
        return r

    def c(x):
        a, b = map(e, x[2])
        r = reg()
        out.append(f"  {r} = icmp { {'<': 'slt', '<=': 'sle', '==': 'eq', '>': 'sgt', '>=': 'sge'}[x[1][0]]} i32 {a}, {b}")
        return r

    def slot(v):
        if v == "out":
            return "agg.result"
        return v + ".addr" if v in ints else v

    ints = [p for p, u in zip(f["params"], types(f)) if u == "Int"]
    sret = ret_type(f) == LI

    def collect(ss):
        for s in ss:
            if s[0] == "=" and s[1] not in names:
                names.append(s[1])
            for b in s[2:] if s[0] in ("if", "while") else []:
                collect(b)

    def block(ss):
        """-> does control reach the end?"""
        for s in ss:
            if s[0] == "=":
                out.append(f"  store i32 {e(s[2])}, i32* %{slot(s[1])}")
            elif s[0] == "ann":
                out.append(f"  call void @{LF.CTOR}({LF.VEC}* %agg.result)")
            elif s[0] == "append":
                out.append(f"  store i32 {e(s[2])}, i32* %ref.tmp")
                out.append(f"  call void @{LF.PUSH}({LF.VEC}* %{slot(s[1])}, i32* %ref.tmp)")
            elif s[0] == "ret":
                out.append("  ret void" if sret else f"  ret i32 {e(s[1])}")
                return False
            elif s[0] == "if":
                a, b, j = lab("if.then"), lab("if.else"), lab("if.end")
                out.append(f"  br i1 {c(s[1])}, label %{a}, label %{b if s[3] else j}")
                out.append(a + ":")
                x = block(s[2])
                if x:
                    out.append(f"  br label %{j}")
                y = True
                if s[3]:
                    out.append(b + ":")
                    y = block(s[3])
                    if y:
                        out.append(f"  br label %{j}")
                if not x and not y:
                    return False
                out.append(j + ":")
            else:
                h, b, j = lab("while.cond"), lab("while.body"), lab("while.end")
                out.append(f"  br label %{h}")
                out.append(h + ":")
                out.append(f"  br i1 {c(s[1])}, label %{b}, label %{j}")
                out.append(b + ":")
                if block(s[2]):
                    out.append(f"  br label %{h}")
                out.append(j + ":")
        return True

    collect(f["body"])
    for p in ints:
        out.append(f"  %{p}.addr = alloca i32, align 4")
    if len(ints) < len(f["params"]):
        out.append("  %ref.tmp = alloca i32, align 4")
    for v in names:
        if v not in f["params"]:
            out.append(f"  %{v} = alloca i32, align 4")
    for p in ints:
        out.append(f"  store i32 %{p}, i32* %{p}.addr, align 4")
    block(f["body"])
    ps = [f"i32 %{p}" if p in ints else f"{LF.VEC}* %{p}" for p in f["params"]]
    if sret:
        ps.insert(0, f"{LF.VEC}* sret({LF.VEC}) %agg.result")
    return f"define {'void' if sret else 'i32'} @{f['name']}(" + ", ".join(ps) + ") {\nentry:\n" + "\n".join(out) + "\n}\n"


# ------------------------------------------------------------------ the drivers
LISTOPS = {"list_length": "length", "list_append": "list-append", "list_empty": "list-empty"}


def show(s):
    o = s[0]
    if o == "var":
        return s[1]
    if o == "lit":
        return str(s[1])
    if o == "call" and s[1].startswith("list_"):
        return "(" + " ".join([LISTOPS[s[1]], *map(show, s[3:])]) + ")"
    if o == "tuple":
        return "(make-tuple " + " ".join(map(show, s[1:])) + ")"
    if o == "call":
        return "(" + " ".join([s[1], *map(show, s[3:])]) + ")"
    w = {"add": "+", "sub": "-", "mul": "*", "lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "equal?", "and": "&&", "or": "or", "ite": "if", "not": "!"}
    return "(" + " ".join([w[o], *map(show, s[1:])]) + ")"


def rename(s, m):
    if s[0] == "var":
        return ["var", m.get(s[1], s[1]), s[2]]
    return [rename(x, m) if isinstance(x, list) and x and isinstance(x[0], str) and x[0] != "Fn" else x for x in s]


def langs(case):
    """the target language of each function"""
    from metalift import ir as I
    used = ["dbl", "mx"] + (["uf"] if case["uf"] else [])
    if case["share"]:
        def lang():
            return [build.decl(HELPERS[n]) for n in used]
        return [lang] * len(case["fns"])
    parts = [used, []] if len(case["fns"]) == 2 else [used]
    return [lambda p=p: [build.decl(HELPERS[n]) for n in p] for p in parts]


def choose(I, alts, compact):
    return I.choose(*alts)


def check(case, c):
    from metalift import ir as I
    fns, pre = case["fns"], case["pre"]
    d = fakes.dir()
    for n in ("rc", "racket.sh", "cvc5.sh"):
        if os.path.exists(os.path.join(d, n)):
            os.unlink(os.path.join(d, n))
    for n in os.listdir(os.path.join(d, "synthesisLogs")):
        os.unlink(os.path.join(d, "synthesisLogs", n))
    fakes.put("cvc5.sh", f'timeout 1 {shlex.quote(REAL)} "$@" > out.tmp; r=$?; cat out.tmp; echo $r $(head -n 1 out.tmp) >> rc; exit $r\n')

    maps = []   # per function: formal -> name in the postcondition

    def ps_grammar(k):
        def g3(writes, reads, in_scope):
            if [o.var_name() for o in writes] != [fns[k]["name"] + "_rv"]:
                raise Violation(f"the postcondition's grammar gets writes {writes}")
            if sorted(o.var_name() for o in reads) != sorted(maps[k].values()):
                raise Violation(f"the postcondition's grammar gets reads {[str(o) for o in reads]}, expected {maps[k]}")
            rv = writes[0]
            alts = [I.create_object(build.ty(ret_type(fns[k])), build.expr(rename(p, maps[k]))) for p in fns[k]["ps"]]
            if len(alts) == 1 and case["bare"]:
                return rv == alts[0]
            if case["compact"]:
                return rv == choose(I, alts, True)
            return choose(I, [rv == a for a in alts], False)
        return wrap(g3)

    def inv_grammar(k):
        def g3(writes, reads, in_scope):
            if fns[k]["inv"] is None:
                raise Violation(f"an invariant is asked for {fns[k]['name']}, which has no loop")
            if sorted(o.var_name() for o in writes) != ["acc", "i"]:
                raise Violation(f"the invariant's grammar gets writes {[str(o) for o in writes]}")
            return choose(I, [I.Bool(build.expr(x)) for x in fns[k]["invs"]], False)
        return wrap(g3)

    def wrap(g3):
        if case["four"] or case["front"] == "llvm":
            return lambda writes, reads, in_scope, relaxed: g3(writes, reads, in_scope)
        return g3

    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        dr, fs = (python if case["front"] == "py" else llvm_driver)(case, maps, ps_grammar, inv_grammar)
        tracker = dr.inv_tracker if case["front"] == "py" else dr.pred_tracker
        preds = {q.name: [a.var_name() for a in q.args] for q in tracker.predicates.values()}

    # what the solver answers
    inv_of = {}
    for k, f in enumerate(fns):
        if f["inv"]:
            ns = [n for n in preds if n.startswith(f["name"] + "_inv")]
            if len(ns) != 1:
                raise Violation(f"{f['name']} has one loop but invariants {ns}")
            inv_of[k] = ns[0]
    defs = []
    for combo in case["seq"]:
        ds = {}
        for k, f in enumerate(fns):
            n = f["name"] + "_ps"
            if n not in preds:
                raise Violation(f"no postcondition {n} among {sorted(preds)}")
            ds[n] = ["eq", ["var", f["name"] + "_rv", ret_type(f)], rename(f["ps"][combo[k][0]], maps[k])]
            if f["inv"]:
                ds[inv_of[k]] = f["invs"][combo[k][1]]
        defs.append(ds)
    s = ""
    base = "test" if case["front"] == "py" else "job"
    for i, ds in enumerate(defs):
        lines = ["#t"]
        for n in preds:
            lines += [f"/tmp/x.rkt:{i}:0", f"'(define ({n} {' '.join(preds[n])})\n   {show(ds[n])})"]
        fakes.put(f"sol{i}", "\n".join(lines) + "\n")
        s += f"cp sol{i} sol.tmp; mv sol.tmp synthesisLogs/{base}_sol{i}\n"
    fakes.put("racket.sh", s)

    # right and wrong
    samples = []
    for a in case["inputs"]:
        if "types" in fns[0]:
            a = [tuple(range(a[0], a[0] + (a[1] + j) % 4)) if u == LI else a[j % 2] for j, u in enumerate(fns[0]["types"])]
        env0 = dict(zip(fns[0]["params"], a))
        if pre and not value([pre[1], ["var", pre[0], "Int"], ["lit", pre[2], "Int"]], env0):
            continue
        x = execute(fns[0], a[:len(fns[0]["params"])])
        row = [(env0, x)]
        if len(fns) == 2:
            b = [x] if case["front"] == "py" else a[::-1][:len(fns[1]["params"])]
            row.append((dict(zip(fns[1]["params"], b)), execute(fns[1], b)))
        samples.append(row)
    if not samples:
        raise Discard("no input satisfies the precondition")

    def wrong(combo):
        return any(not ref.same(value(f["ps"][combo[k][0]], row[k][0]), row[k][1]) for row in samples for k, f in enumerate(fns))

    def right(combo):
        return all(strip(f["ps"][combo[k][0]]) == f["right"] and (not f["inv"] or f["invs"][combo[k][1]] == f["inv"]) for k, f in enumerate(fns))

    must = next((i for i, q in enumerate(case["seq"]) if right(q)), None)
    kinds = ["wrong" if wrong(q) else "right" if right(q) else "?" for q in case["seq"]]
    desc = describe(case)

    from metalift.synthesis_common import VerificationFailed
    res = None
    try:
        with contextlib.redirect_stdout(out), fakes.fast():
            if case["front"] == "py":
                dr.synthesize()
            else:
                dr.synthesize("job", rounds_to_guess=len(case["seq"]) - 1, **(dict(uninterp_fns=["uf"]) if case["uf"] else {}))
        res = True
    except VerificationFailed:
        res = False
    except Violation:
        raise
    except Exception as e:  # noqa
        raise Violation(f"synthesis fails with {type(e).__name__}: {e}\n{desc}")
    finally:
        fakes.reap()
    rcs = open(os.path.join(d, "rc")).read().splitlines() if os.path.exists(os.path.join(d, "rc")) else []
    if not res:
        if must is not None:
            if any(r.startswith("124") or "unknown" in r for r in rcs):
                c.label("undecided")
                raise Discard("cvc5 does not decide the right candidate")
            smt = open(os.path.join(d, "synthesisLogs", f"{base}_{must}.smt")).read()
            raise Violation(f"candidate {must} is right, but verification fails (cvc5: {rcs}):\n{desc}\n{smt}")
        c.label("nothing verified")
    else:
        for k, (f, mf) in enumerate(zip(fns, fs)):
            got = mf.codegen(lambda e: e)
            sp = build.spec(got)
            for row in samples:
                e0, want = row[k]
                v = value(sp, {maps[k][n]: x for n, x in e0.items()})
                if not ref.same(v, want):
                    raise Violation(f"{f['name']}{tuple(e0.values())} returns {want}, but the reported {got!r} is {v} (candidates are {kinds}):\n{desc}")
        if all(x == "wrong" for x in kinds):
            raise Violation(f"all candidates are wrong, but one is reported:\n{desc}")
        if case["front"] == "llvm" and len(fns) == 1:
            with sut("get_actual_ps_fn_decl"):
                a = dr.get_actual_ps_fn_decl()
            if a.name() != fns[0]["name"] + "_ps" or build.unty(a.return_type()) != ret_type(fns[0]):
                raise Violation(f"get_actual_ps_fn_decl gives {a!r}\n{desc}")
            ps = [q.args[0] for q in a.arguments()]
            sp = build.spec(a.body())
            for row in samples:
                e0, want = row[0]
                if sorted(ps) != sorted(e0) or not ref.same(value(sp, e0), want):
                    raise Violation(f"get_actual_ps_fn_decl gives {a!r}, {fns[0]['name']}{tuple(e0.values())} is {want}\n{desc}")
    problem(case, c, base, defs, must, preds, desc)
    c.nontrivial(any(f["inv"] or len(f["body"]) > 2 for f in fns))
    c.label(f"fns:{len(fns)}", f"{'+'.join(kinds)} -> {'reported' if res else 'rejected'}", *(["loop"] if inv_of else []), *(["pre"] if pre else []))


def describe(case):
    return "\n".join(llvm(f) if case["front"] == "llvm" else source(f) for f in case["fns"]) + \
        f"precondition {case['pre']}, candidates {[[show(p) for p in f['ps']] for f in case['fns']]}, tried {case['seq']}"


def problem(case, c, base, defs, must, preds, desc):
    """the right candidate has to satisfy the Rosette problem"""
    import random
    if must is None:
        return
    text = open(os.path.join(fakes.dir(), "synthesisLogs", base + ".rkt")).read()
    bodies = {n + "_gram": show(s) for n, s in defs[must].items()}
    uf = [("uf", (["h", "k"], "(+ 1 (- (* 13 h) (* 7 k)))"))] if case["uf"] else []
    try:
        p = rktfile.Problem(text, lib=rktlib.model_interp)
        if set(p.grammars) != set(bodies):
            raise Violation(f"the Rosette problem has grammars {sorted(p.grammars)}, expected {sorted(bodies)}\n{desc}")
        for n, (params, start, alts) in p.grammars.items():
            if not rktfile.derives(start, rkt.parse(bodies[n])[0], alts):
                raise Violation(f"the grammar {n} does not offer {bodies[n]}\n{desc}\n{text[-3000:]}")
        for seed in range(3):
            r = random.Random(f"{case['inputs']}{seed}")
            vals = {n: (r.random() < 0.5) if t == "boolean?" else r.randint(0, 4) if n.endswith("-len") else r.randint(-3, 6)
                    for n, t in p.symbols.items()}
            i = p.run(vals, bodies, fns=uf)
            for _, _, g in p.synths[:1]:
                assumed, ok = p.check(i, g)
                if assumed and not ok:
                    raise Violation(f"the Rosette problem does not hold for the right candidate at {vals}\n{desc}\n{text[-3000:]}")
    except (rktfile.Bad, rkt.RktError) as e:
        raise Violation(f"the Rosette problem is malformed: {e}\n{desc}\n{text[-3000:]}")


def program(f):
    return dict(name=f["name"], params=[list(p) for p in zip(f["params"], types(f))], ret=f.get("ret", "Int"), body=f["body"], other=None)


def types(f):
    return f.get("types") or ["Int"] * len(f["params"])


def source(f):
    return P.source(program(f))


def precondition(dr, I, pre, name):
    o = I.Int(name)
    dr.add_precondition(o >= pre[2] if pre[1] == "ge" else o < pre[2])


def python(case, maps, ps_grammar, inv_grammar):
    from metalift.frontend.python import Driver
    from metalift import ir as I
    with sut("analyze"):
        dr = Driver()
        un = ["uf"] if case["uf"] else []
        dr.uninterp_fns = un
        fs, ret = [], None
        for k, (f, lang) in enumerate(zip(case["fns"], langs(case))):
            path = P.path_for(program(f), f"e{k}")
            fs.append(dr.analyze(path, f["name"], lang, inv_grammar(k), ps_grammar(k), uninterp_fns=un))
        for k, (f, mf) in enumerate(zip(case["fns"], fs)):
            if k == 0:
                args = [I.create_object(build.ty(u), case["prefix"] + p) for p, u in zip(f["params"], types(f))]
                dr.add_var_objects(args)
                if case["pre"]:
                    precondition(dr, I, case["pre"], case["prefix"] + case["pre"][0])
            else:
                args = [ret]
            maps.append(dict(zip(f["params"], [a.var_name() for a in args])))
            ret = mf(*args)
    return dr, fs


def llvm_driver(case, maps, ps_grammar, inv_grammar):
    from metalift.frontend import llvm as F
    from metalift import ir as I
    LF._cached_filt()
    ll, loops = LF.compile_("".join(llvm(f) for f in case["fns"]))
    base = os.path.join(menv.scratch(), f"e2e{os.getpid()}")
    with open(base + ".ll", "w") as fh:
        fh.write(ll)
    with open(base + ".loops", "w") as fh:
        fh.write(loops)
    with sut("analyze"):
        dr = F.Driver()
        fs = []
        for k, (f, lang) in enumerate(zip(case["fns"], langs(case))):
            g = collections.defaultdict(lambda k=k: F.InvGrammar(inv_grammar(k), [])) if f["inv"] or case["four"] else None
            fs.append(dr.analyze(base + ".ll", base + ".loops", f["name"], lang, g, ps_grammar(k)))
        for k, (f, mf) in enumerate(zip(case["fns"], fs)):
            args = [I.create_object(build.ty(u), p) for p, u in zip(f["params"], types(f))]
            dr.add_var_objects(args)
            if k == 0 and case["pre"]:
                precondition(dr, I, case["pre"], case["pre"][0])
            maps.append({p: p for p in f["params"]})
            mf(*args, **(dict(uninterp_fns=["uf"]) if case["uf"] else {}))
    return dr, fs


SUBS = [
    Sub("data", case_for("py", "data"), check, 240, 4000, rule="lists; non-trivial: several statements"),
    Sub("llvm data", case_for("llvm", "data"), check, 240, 4000, rule="vectors; non-trivial: several statements"),
    Sub("python", case_for("py"), check, 320, 6000, rule="non-trivial: a loop or several statements"),
    Sub("llvm", case_for("llvm"), check, 320, 6000, rule="non-trivial: a loop or several statements"),
]
