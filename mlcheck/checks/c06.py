"""The LLVM pass that adds empty blocks preserves results, and leaves no join entered by a conditional branch."""
from hypothesis import strategies as st

from .. import llvmir as L
from ..runner import Discard, Sub, Violation

PROPERTY = "C06"
RULE = ("random modules of functions with arbitrary control flow (branches with equal targets, self loops, irreducible "
        "loops, switches, phi nodes, unreachable blocks); the pass built from the working tree is run by opt with the "
        "verifier on; original and transformed function are interpreted on the same inputs and must visit the same "
        "blocks with the same phi values, make the same external calls and return the same result")
ASSUMPTIONS = ["the subset of LLVM IR interpreted: integers, allocas, phi, select, branches, switch, calls"]


def setup():
    L.build_pass()


# ------------------------------------------------------------------ generator: everything is drawn as small integers
@st.composite
def fn(draw, name, others):
    n = draw(st.integers(1, 8))
    names = ["entry"] + [f"b{i}" for i in range(1, n)]
    np = draw(st.integers(1, 3))
    params = [f"p{i}" for i in range(np)]
    R = lambda k: draw(st.integers(0, k - 1))
    terms = []
    for i in range(n):
        k = R(12)
        t = (lambda: names[1 + R(n - 1)]) if n > 1 else None
        if n == 1 or k == 0:
            terms.append(("ret",))
        elif k == 1 and R(3) == 0:
            terms.append(("unreachable",))
        elif k <= 3:
            terms.append(("br", t()))
        elif k == 4:
            terms.append(("switch", t(), [(v, t()) for v in draw(st.lists(st.integers(-2, 3), unique=True, max_size=3))]))
        else:
            a = t()
            terms.append(("cbr", a, a if R(5) == 0 else t()))
    succ = [{"ret": lambda t: [], "unreachable": lambda t: [], "br": lambda t: [t[1]], "cbr": lambda t: [t[1], t[2]],
             "switch": lambda t: [t[1]] + [b for _, b in t[2]]}[t[0]](t) for t in terms]
    preds = {b: [names[i] for i in range(n) for s in succ[i] if s == b] for b in names}
    cnt = [0]

    def fresh():
        cnt[0] += 1
        return f"%r{cnt[0]}"

    local = {}          # block -> registers usable at its end (i32)
    phis = {}
    body = {}
    base = ["%" + p for p in params]

    def pick(pool):
        return draw(st.sampled_from(pool)) if R(4) else str(draw(st.integers(-4, 6)))

    for b in names:
        ph = []
        if preds[b] and b != "entry" and R(3):
            ph = [fresh() for _ in range(1 + R(2))]
        phis[b] = ph
        pool = base + (local.get("entry", []) if b != "entry" else []) + ph
        ls = []
        if b == "entry":
            ls += ["%m0 = alloca i32, align 4", "%m1 = alloca i32, align 4"]
            ls += [f"store i32 {pick(pool)}, i32* %m0", f"store i32 {pick(pool)}, i32* %m1"]
        own = list(ph)
        for _ in range(R(4)):
            k = R(6)
            r = fresh()
            if k < 2:
                ls.append(f"{r} = {draw(st.sampled_from(['add', 'sub', 'mul']))} i32 {pick(pool + own)}, {pick(pool + own)}")
            elif k == 2:
                ls.append(f"{r} = load i32, i32* %m{R(2)}")
            elif k == 3:
                ls.append(f"store i32 {pick(pool + own)}, i32* %m{R(2)}")
                continue
            elif k == 4:
                ls.append(f"{r} = call i32 @ext(i32 {pick(pool + own)})")
            elif others:
                g, k = draw(st.sampled_from(others))
                ls.append(f"{r} = call i32 @{g}({', '.join('i32 ' + pick(pool + own) for _ in range(k))})")
            else:
                continue
            own.append(r)
        local[b] = own
        body[b] = (ls, pool + own)
    out = []
    for b, t in zip(names, terms):
        ls, pool = body[b]
        out.append(f"{b}:")
        for r in phis[b]:
            ins, memo = [], {}
            for p in preds[b]:
                if p not in memo:
                    memo[p] = pick(base + local.get("entry", []) + local[p])
                ins.append(f"[ {memo[p]}, %{p} ]")
            out.append(f"  {r} = phi i32 {', '.join(ins)}")
        out += ["  " + x for x in ls]
        if t[0] == "ret":
            out.append(f"  ret i32 {pick(pool)}")
        elif t[0] == "unreachable":
            out.append("  unreachable")
        elif t[0] == "br":
            out.append(f"  br label %{t[1]}")
        elif t[0] == "cbr":
            c = fresh()
            if R(8) == 0:
                c = draw(st.sampled_from(["true", "false"]))
            else:
                out.append(f"  {c} = icmp {draw(st.sampled_from(['slt', 'sle', 'eq', 'ne', 'sgt', 'ult']))} i32 {pick(pool)}, {pick(pool)}")
            out.append(f"  br i1 {c}, label %{t[1]}, label %{t[2]}")
        else:
            cs = " ".join(f"i32 {v}, label %{b}" for v, b in t[2])
            out.append(f"  switch i32 {pick(pool)}, label %{t[1]} [ {cs} ]")
    return (name, np), f"define i32 @{name}({', '.join('i32 %' + p for p in params)}) {{\n" + "\n".join(out) + "\n}\n"


@st.composite
def module(draw):
    fs, text = [], "declare i32 @ext(i32)\n"
    for i in range(draw(st.integers(1, 3))):
        f, t = draw(fn(f"f{i}", list(fs)))
        fs.append(f)
        text += t
    v = st.one_of(st.integers(-5, 8), st.sampled_from([-2 ** 31, 2 ** 31 - 1, 1000]))
    return dict(text=text, fns=[list(f) for f in fs],
                args=[[draw(st.lists(v, min_size=k, max_size=k)) for _ in range(5)] for _, k in fs])


def execute(fns, name, args, keep, fuel):
    """Everything observable: blocks visited with their phi values, external calls, result or how it got stuck."""
    log = []
    left = [fuel]

    def on_block(f, b, regs, phis):
        if b in keep[f.name]:
            left[0] -= 1
            if left[0] < 0:
                raise L.Stuck("fuel")
            log.append((f.name, b, tuple(phis)))

    def ext(x):
        log.append(("ext", x))
        return ((x * 7 + 3) % 11) - 4

    it = L.Interp(fns, {"ext": ext}, wrap=True, fuel=10 ** 6, on_block=on_block)
    try:
        log.append(("ret", it.run(name, list(args))[0]))
    except L.Stuck as e:
        log.append(("stuck", str(e)))
    return log


def joins(f):
    ps = f.preds()
    return [(b, s) for b in f.blocks if f.blocks[b][-1]["op"] == "cbr" for s in f.succs(b) if len(ps[s]) > 1]


def check(case, c):
    text = case["text"]
    try:
        old = L.parse(text)
    except ValueError as e:
        raise Discard("unparsable " + str(e)[:40])
    out, err = L.opt(text, "-addEmptyBlock", "-S")
    if out is None:
        ok, err0 = L.opt(text, "-S", load=False)
        if ok is None:
            raise RuntimeError("generated module is invalid: " + err0 + text)
        raise Violation(f"the pass fails on a valid module: {err}\n{text}")
    new = L.parse(out)
    if list(new) != list(old):
        raise Violation(f"functions {list(old)} became {list(new)}")
    keep = {n: set(f.blocks) for n, f in old.items()}
    n = 0
    for (name, _), argss in zip(case["fns"], case["args"]):
        f, g = old[name], new[name]
        if f.params != g.params or f.ret != g.ret:
            raise Violation(f"the signature of {name} changed")
        bad = joins(g)
        if bad:
            raise Violation(f"{name}: the conditional branch of {bad[0][0]} enters {bad[0][1]}, which has several predecessors:\n{text}\n->\n{out}")
        for a in argss:
            x, y = execute(old, name, a, keep, 60), execute(new, name, a, keep, 60)
            if x != y:
                k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                raise Violation(f"{name}{tuple(a)}: step {k} was {x[k:k + 1]} and is {y[k:k + 1]} after the pass:\n{text}\n->\n{out}")
            n += len(x)
        c.label(f"joins entered conditionally:{min(len(joins(f)), 4)}")
        if any(len(set(f.succs(b))) == 1 and f.blocks[b][-1]["op"] == "cbr" for b in f.blocks):
            c.label("equal targets")
    c.nontrivial(any(joins(old[nm]) for nm, _ in case["fns"]) and n > 4)


SUBS = [Sub("cfg", module, check, 3000, 60000, rule="non-trivial: some join is entered by a conditional branch before the pass")]
