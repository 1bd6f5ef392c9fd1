"""The SMT verification file decides exactly the verification condition."""
import os
import subprocess

from hypothesis import strategies as st

from metalift import ir as I
from metalift.synthesize_rosette import synthesize

from .. import build, env as menv, fakes, gens, ref, smt, smtlib, template
from ..runner import Discard, Sub, Violation, sut
from .c08 import smt_sort

PROPERTY = "C10"
RULE = ("verification tasks: target functions in any order (plain, recursive, taking a function argument, passing it on, uninterpreted), "
        "candidates (predicates, and functions passed to the higher-order ones) calling each other and the target functions, axioms and a "
        "condition; the file written by synthesize() while a stand-in cvc5 answers is read, sort-checked and evaluated: the last assertion "
        "is the negated condition on every generated assignment, the others are the axioms, every specialised function has its meaning")
ASSUMPTIONS = ["mini SMT-LIB sort checker/evaluator, cross-checked by cvc5 --parse-only", "a function takes at most one function argument",
               "higher-order functions receive named functions (lambdas cannot be read back)"]

O = gens.Opts(smt=True, tensor=False, divmod=False)
OINT = gens.Opts(smt=True, tensor=False, divmod=False, sets=False, tuples=False, matrix=False, lists=False)
LI = ["List", "Int"]
FN1, FN2, FNB = ["Fn", ["Int", "Int"]], ["Fn", ["Int", "Int", "Int"]], ["Fn", ["Bool", "Int"]]
PREDS = ["inv0", "f_ps", "test_inv1", "inv_total"]
HONAMES = ["map", "reduce", "select_rows", "apply2", "count_if", "vec_map", "zip_with", "keep"]
MNAMES = ["lm", "lr", "map_int_to_int", "select_two_args", "m0", "cmp"]
FPARAMS = ["f", "fn_arg", "select_two_args_arg", "p", "map_int_to_int"]


def lit(n):
    return ["lit", n, "Int"]


def call(n, t, *a):
    return ["call", n, t] + list(a)


def is_fn(t):
    return isinstance(t, list) and t[0] == "Fn"


def ln(l):
    return call("list_length" if l[2] == LI else "matrix_length", "Int", l)


def at0(l):
    return call("list_get", "Int", l, lit(0)) if l[2] == LI else call("matrix_get", LI, l, lit(0))


def tl(l):
    return call("list_tail" if l[2] == LI else "matrix_tail", l[2], l, lit(1))


@st.composite
def ho(draw, name, ft, prev):
    """a definition of a function with a parameter of type ft"""
    f = ["var", draw(st.sampled_from(FPARAMS)), ft]
    l, l2, m, k, b = ["var", "x", LI], ["var", "y", LI], ["var", "matrix_x", "Matrix"], ["var", "a", "Int"], ["var", "b", "Int"]
    extra = draw(st.integers(0, 2)) == 0
    ps = None

    def rec(ret, *a):
        """the recursive call with parameters in the order chosen below"""
        m = {p[1]: x for p, x in zip([q for q in ps], [q for q in ps])}
        for p, x in a:
            m[p[1]] = x
        return call(name, ret, *[m[p[1]] for p in ps])

    def order(*q):
        return list(draw(st.permutations(list(q) + [f] + ([k] if extra else []))))
    plus = (lambda e: ["add", e, k]) if extra else (lambda e: e)
    usable = [d for d in prev if any(ref.tkey(p[2]) == ref.tkey(ft) for p in d[4:])]
    if usable and draw(st.integers(0, 2)):
        g = draw(st.sampled_from(usable))
        nums = [p for p in g[4:] if p[2] == "Int"]
        lists = [p for p in g[4:] if p[2] == LI]
        mats = [p for p in g[4:] if p[2] == "Matrix"]

        def gcall(lx, mx):
            return call(g[1], g[2], *[f if p[2] == ft else (b if p[2] == "Int" else lx if p[2] == LI else mx) for p in g[4:]])
        if g[2] == LI and not mats and draw(st.booleans()):
            ps = order(m, *([b] if nums else []))
            body = ["ite", ["lt", ln(m), lit(1)], call("matrix_empty", "Matrix"),
                    call("matrix_prepend", "Matrix", gcall(at0(m), None), rec("Matrix", (m, tl(m))))]
            return ["rec", name, "Matrix", body] + ps
        ps = order(*([l] if lists else []), *([m] if mats else []), *([b] if nums else []))
        c = gcall(l, m)
        body, ret = c, g[2]
        if ret == "Int":
            body = plus(["add", c, lit(1)])
            if draw(st.booleans()):
                body = ["add", body, c]
        elif ret == LI:
            if draw(st.booleans()):
                body = ["ite", ["lt", ln(c), lit(2)], c, call("list_tail", LI, c, lit(1))]
                if draw(st.booleans()):
                    ret, body = "Int", plus(call("list_length", "Int", c))
        elif ret == "Bool":
            body = ["not", c]
        return [draw(st.sampled_from(["fn", "rec"])), name, ret, body] + ps
    if ft == FN1:
        s = draw(st.integers(0, 2))
        if s == 0:
            ps = order(l)
            body = ["ite", ["eq", ln(l), lit(0)], call("list_empty", LI),
                    call("list_prepend", LI, plus(["callv", f, at0(l)]), rec(LI, (l, tl(l))))]
            return ["rec", name, LI, body] + ps
        if s == 1:
            ps = order(b)
            return [draw(st.sampled_from(["fn", "rec"])), name, "Int", plus(["sub", ["callv", f, ["callv", f, b]], ["callv", f, lit(2)]])] + ps
        ps = order(l)
        body = ["ite", ["lt", ln(l), lit(1)], plus(lit(0)), ["add", ["callv", f, at0(l)], rec("Int", (l, tl(l)))]]
        return ["rec", name, "Int", body] + ps
    if ft == FN2:
        if draw(st.booleans()):
            ps = order(l)
            body = ["ite", ["lt", ln(l), lit(1)], plus(lit(0)), ["callv", f, at0(l), rec("Int", (l, tl(l)))]]
            return ["rec", name, "Int", body] + ps
        ps = order(l, l2)
        body = ["ite", ["or", ["lt", ln(l), lit(1)], ["not", ["eq", ln(l), ln(l2)]]], call("list_empty", LI),
                call("list_prepend", LI, plus(["callv", f, at0(l), at0(l2)]), rec(LI, (l, tl(l)), (l2, tl(l2))))]
        return ["rec", name, LI, body] + ps
    if draw(st.booleans()):
        ps = order(l)
        body = ["ite", ["lt", ln(l), lit(1)], call("list_empty", LI),
                ["ite", ["callv", f, at0(l)], call("list_prepend", LI, plus(at0(l)), rec(LI, (l, tl(l)))), rec(LI, (l, tl(l)))]]
        return ["rec", name, LI, body] + ps
    ps = order(l)
    body = ["ite", ["lt", ln(l), lit(1)], ["lit", True, "Bool"], ["and", ["callv", f, at0(l)], rec("Bool", (l, tl(l)))]]
    return ["rec", name, "Bool", body] + ps


def unshadow(d):
    """parameters named like a function the body calls get another name"""
    bad = {x[1] for x in ref.walk(d[3]) if x[0] == "call"} & {p[1] for p in d[4:]}

    def go(e):
        if e[0] == "var":
            return ["var", e[1] + "_v", e[2]] if e[1] in bad else e
        if e[0] == "lit":
            return e
        h = 3 if e[0] == "call" else 1
        return e[:h] + [go(x) for x in e[h:]]
    return d[:3] + [go(x) for x in d[3:]]


@st.composite
def case(draw, higher):
    o = O
    lib, sigs = [], []
    if draw(st.integers(0, 3)):
        # (half the time only functions over integers, which the passed functions can call)
        lib, sigs = draw(gens.decls(OINT if higher and draw(st.booleans()) else o, 3, names=["g", "h", "list_sum", "vec_map2", "helper", "iteration"],
                                argnames=gens.VAR_NAMES + ["g", "h", "helper"]))
        lib = [unshadow(d) for d in lib]
    vs = draw(gens.signature(o, 4, names=["a", "b", "x", "y", "n", "arg", "x1", "acc", "agg.result"]))
    unint = []
    for nm in draw(st.lists(st.sampled_from(["U", "opaque_fn"]), max_size=2, unique=True)):
        if draw(st.integers(0, 2)) == 0:
            ps = [["var", f"u{i}", draw(st.sampled_from(["Int", "Int", "Bool"]))] for i in range(draw(st.integers(1, 3)))]
            ret = draw(st.sampled_from(["Int", "Bool"]))
            unint.append([draw(st.sampled_from(["fn", "rec"])), nm, ret, None] + ps)
            sigs = sigs + [(nm, ret, [q[2] for q in ps])] * 2
    synths, hos, extra, mvars, axioms = [], [], [], [], []
    if higher:
        mn = draw(st.lists(st.sampled_from(MNAMES), min_size=1, max_size=3, unique=True))
        isigs = [s for s in sigs if all(t in ("Int", "Bool") for t in [s[1]] + s[2])]
        for n in mn:
            ft = draw(st.sampled_from([FN1, FN1, FN2, FNB]))
            ps = [["var", q, "Int"] for q in draw(st.sampled_from([["int_x", "int_y"], ["val", "val2"], ["a", "b"]]))[:len(ft[1]) - 1]]
            body = gens.gen(draw, ft[1][0], ps, OINT, draw(st.integers(1, 2)), isigs)
            if draw(st.integers(0, 3)):
                synths.append([n, ft[1][0], body, ps, True])
            else:
                lib.append([draw(st.sampled_from(["fn", "rec"])), n, ft[1][0], body] + ps)
            mvars.append(["var", n, ft])
        for n in draw(st.lists(st.sampled_from(HONAMES), min_size=1, max_size=4, unique=True)):
            hos.append(draw(ho(n, draw(st.sampled_from([v[2] for v in mvars])), hos)))
        lib += hos
        hsigs = [(d[1], d[2], [p[2] for p in d[4:]]) for d in hos]
        sigs = sigs + hsigs * 3
        if draw(st.integers(0, 3)) == 0:
            # a target function that uses a higher-order one with a fixed function
            l = ["var", "lst", LI]
            h = draw(st.sampled_from(hos))
            b = gens.gen(draw, h[2], [l, ["var", "k", "Int"]] + mvars, o, 1, [(h[1], h[2], [p[2] for p in h[4:]])] * 3)
            lib.append(["fn", "fixed_fn", h[2], b, l, ["var", "k", "Int"]])
            sigs = sigs + [("fixed_fn", h[2], [LI, "Int"])] * 2
    for nm in draw(st.lists(st.sampled_from(PREDS), min_size=1, max_size=3, unique=True)):
        ps = draw(st.permutations(vs))[:draw(st.integers(1, len(vs)))]
        t = "Bool" if draw(st.integers(0, 4)) else draw(st.sampled_from(gens.scalar_types(o)))
        fns = sigs + [(s[0], s[1], [v[2] for v in s[3]]) for s in synths if not s[4] or draw(st.integers(0, 3)) == 0]
        if higher and draw(st.integers(0, 2)):
            # a direct use of a higher-order function
            h = draw(st.sampled_from(hos))
            a = [gens.gen(draw, p[2], list(ps) + mvars, o, 1, sigs) for p in h[4:]]
            hc = call(h[1], h[2], *a)
            b = ["eq", gens.gen(draw, h[2], list(ps), o, 1), hc] if h[2] != "Bool" or draw(st.booleans()) else hc
            if draw(st.booleans()):
                b = [draw(st.sampled_from(["and", "or", "implies"])), gens.gen(draw, "Bool", list(ps) + mvars, o, 2, fns), b]
            t = "Bool"
        else:
            b = gens.gen(draw, t, list(ps) + mvars, o, draw(st.integers(1, 3)), fns)
        # a helper that is synthesised without being a predicate
        synths.append([nm, t, b, ps, draw(st.integers(0, 7)) == 0])
    plain = [s[:1] + s[1:] for s in synths if not any(s[0] == v[1] for v in mvars)]
    fns = [g for g in sigs if not any(isinstance(t, list) and t[0] == "Fn" for t in g[2])]
    vc = template.with_calls(draw, gens.gen(draw, "Bool", vs, o, 2, fns), plain, vs, o)
    for _ in range(draw(st.integers(0, 2)) if lib or unint else 0):
        ps = draw(gens.signature(o, 2, names=["q", "r", "axiom_x"]))
        d = draw(st.sampled_from(lib + unint))
        hc = call(d[1], d[2], *[gens.gen(draw, p[2], ps + mvars, o, 1, fns) for p in d[4:] if not isinstance(p[2], list) or p[2][0] != "Fn" or any(
            ref.tkey(v[2]) == ref.tkey(p[2]) for v in mvars)])
        axioms.append([["eq", hc, gens.gen(draw, d[2], ps + mvars, o, 2, sigs)], ps, draw(gens.envs(ps, 3, maxlen=2))])
    if hos and draw(st.booleans()):
        # an axiom about a higher-order function that leaves the function argument out
        h = draw(st.sampled_from(hos))
        ps = draw(gens.signature(o, 2, names=["q", "r", "axiom_x"]))
        osigs = [g for g in fns if g[0] != "fixed_fn"]
        hc = [call(h[1], h[2], *[gens.gen(draw, p[2], ps, o, 1, osigs) for p in h[4:] if not is_fn(p[2])]) for _ in range(2)]
        axioms.append([["eq", hc[0], gens.gen(draw, h[2], ps, o, 2, osigs) if draw(st.booleans()) else hc[1]], ps, draw(gens.envs(ps, 3, maxlen=2))])
    order = draw(st.permutations(range(len(lib) + len(unint) + len(axioms) + sum(1 for s in synths if s[4]))))
    return dict(lib=lib, unint=unint, synths=synths, vars=vs, vc=vc, axioms=axioms, order=order,
                sorder=draw(st.permutations(range(len(synths)))), envs=draw(gens.envs(vs, 6, maxlen=3)))


def plain_case():
    return case(False)


def higher_case():
    return case(True)


def model(name, ret):
    def f(*a):
        n = 1
        for i, x in enumerate(a):
            x = (5 if x else 2) if isinstance(x, bool) else x if isinstance(x, int) else sum((j + 2) * v for j, v in enumerate(x)) + len(x)
            n += (3 ** i + 1) * x
        return n if ret == "Int" else n < 9
    return f


def emit(case):
    """the verification file written for the case"""
    with sut("building"):
        lang = [build.decl(d) for d in case["lib"] + case["unint"]]
        lang += [I.Axiom(build.expr(a[0]), *[build.expr(v) for v in a[1]]) for a in case["axioms"]]
        lang += [I.FnDecl(s[0], build.ty(s[1]), None, *[build.expr(v) for v in s[3]]) for s in case["synths"] if s[4]]
        lang = [lang[i] for i in case["order"]]
        mk = lambda ss: [I.Synth(s[0], build.expr(s[2]), *[build.expr(v) for v in s[3]]) for s in ss]
        ss = [case["synths"][i] for i in case["sorder"]]
        ss = [s for s in ss if not s[4]] + [s for s in ss if s[4]]
        vc = build.expr(case["vc"])
        vs = {build.expr(v) for v in case["vars"]}
    fakes.put("racket.sh", "echo '#t' > sol.tmp; mv sol.tmp synthesisLogs/task_sol0\n")
    fakes.put("cvc5.sh", "echo unsat\n")
    f = os.path.join(fakes.dir(), "synthesisLogs", "task_0.smt")
    if os.path.exists(f):
        os.unlink(f)
    try:
        with fakes.fast(), sut("synthesize"):
            out = synthesize(basename="task", target_lang=lang, vars=vs, inv_and_ps=mk(ss), preds=[], vc=vc,
                       loop_and_ps_info=mk([s for s in ss if not s[4]]), cvc_path="cvc5", list_bound=2, log=False,
                       uninterp_fns=[d[1] for d in case["unint"]])
    finally:
        fakes.reap()
    return open(f).read(), out


def check(case, c):
    text, out = emit(case)
    k = text.rfind("(define-fun-rec matrix_transpose")
    own = text[text.find("\n\n", k):][:6000]
    S = smt.Smt(interp={**smtlib.MODEL, **{d[1]: model(d[1], d[2]) for d in case["unint"]}})
    try:
        S.load(text)
    except smt.SmtError as e:
        raise Violation(f"the verification file is ill-formed: {e}: {own}")
    if S.commands.count("check-sat") != 1 or S.commands.index("check-sat") < len(S.commands) - 2:
        raise Violation(f"check-sat: {S.commands[-4:]}")
    nlib = len(smtlib.base().lib_asserts)
    asserts = S.asserts[nlib:]
    axioms = instances(case)
    if len(asserts) != len(axioms) + 1:
        raise Violation(f"{len(asserts)} assertions for {len(axioms)} axioms and a condition: {own}")
    if S.commands[-3:-1] != ["assert", "check-sat"] and S.commands[-2:] != ["assert", "check-sat"]:
        raise Violation(f"the condition is not the last assertion: {S.commands[-4:]}")
    want_consts = {v[1]: smt_sort(v[2]) for v in case["vars"]}
    for n, s in want_consts.items():
        if S.sig.get(n) != ([], s):
            raise Violation(f"variable {n} is declared as {S.sig.get(n)}, its sort is {s}: {own}")
    extra = set(S.consts) - set(want_consts) - set(smtlib.base().sig)
    if extra:
        raise Violation(f"undocumented constants {extra}: {own}")
    for d in case["unint"]:
        if d[1] in S.defs or S.sig.get(d[1]) != ([smt_sort(p[2]) for p in d[4:]], smt_sort(d[2])):
            raise Violation(f"uninterpreted {d[1]} has signature {S.sig.get(d[1])}: {own}")
    table = {d[1]: model(d[1], d[2]) for d in case["unint"]}
    table.update(build.fn_table(case["lib"]))
    table.update({s[0]: ([v[1] for v in s[3]], s[2]) for s in case["synths"]})
    n = trues = 0
    types = {v[1]: v[2] for v in case["vars"]}
    for env in case["envs"]:
        env = {k: ref.from_json(v) for k, v in env.items()}
        want = val(case["vc"], env, table)
        if want is None:
            continue
        got = run(S, asserts[-1], env)
        if got is None:
            continue
        n += 1
        trues += want
        if got == want:
            raise Violation(f"the condition is {want} at {env} but the negated assertion is {got}: {own}")
        # each candidate on its own
        for s in case["synths"]:
            if all(ref.tkey(v[2]) == ref.tkey(types.get(v[1], "none")) for v in s[3]) and s[0] in S.sig:
                w = val(call(s[0], s[1], *s[3]), env, table)
                g = run(S, [s[0]] + [v[1] for v in s[3]], env) if w is not None else None
                if g is not None and not ref.same(g, w):
                    raise Violation(f"{s[0]} is {g!r} in the file, defined as {w!r} at {env}: {own}")
    # verification leaves the candidates as they are
    for f in out:
        s = [s for s in case["synths"] if s[0] == f.name()][0]
        with sut("reading the returned definitions"):
            body = build.spec(f.body())
        known = {d[1] for d in case["lib"] + case["unint"]} | {s[0] for s in case["synths"]}
        for x in ref.walk(body):
            if x[0] == "call" and x[1] not in known and x[1] not in ref.LIB:
                raise Violation(f"the returned {s[0]} calls {x[1]}, which nobody defined: {f.body()!r}")
        for env in case["envs"][:2]:
            env = {k: ref.from_json(v) for k, v in env.items()}
            if all(ref.tkey(v[2]) == ref.tkey(types.get(v[1], "none")) for v in s[3]):
                w = val(s[2], env, table)
                g = val(body, env, table) if w is not None else None
                if g is not None and not ref.same(g, w):
                    raise Violation(f"the returned {s[0]} is {g!r} at {env}, the candidate was {w!r}: {f.body()!r}")
    left = list(asserts[:-1])
    nax = 0
    for a, ps, envs in axioms:
        # the assertion for this axiom: same bound variables and same value everywhere
        ok = False
        envs = [{k: ref.from_json(v) for k, v in e.items()} for e in envs]
        ws = [val(a, e, table) for e in envs]
        cands = []
        for t in left:
            if t[0] != "forall" or [(b[0], S.sort(b[1])) for b in t[1]] != [(p[1], smt_sort(p[2])) for p in ps]:
                continue
            gs = [run(S, t[2], e) if w is not None else None for e, w in zip(envs, ws)]
            cands.append((t, gs))
            if all(g is None or g == w for g, w in zip(gs, ws)):
                ok = True
                left.remove(t)
                nax += sum(g is not None for g in gs)
                break
        if not ok:
            raise Violation(f"no assertion means the axiom {a}: values {ws}, candidates {cands}: {own}")
    if n and any(x[0] == "call" and x[1] in {s[0] for s in case["synths"]} for x in ref.walk(case["vc"])):
        c.nontrivial()
    c.label(f"synths:{len(case['synths'])}", f"judged:{n}", *(["axiom judged"] if nax else []), *(["uninterpreted"] if case["unint"] else []),
            *(["condition true"] if trues else []), *(["condition false"] if trues < n else []))
    used = {x[1] for s in case["synths"] for x in ref.walk(s[2]) if x[0] == "call"}
    for d in case["lib"]:
        if d[3] is not None and any(x[0] == "callv" for x in ref.walk(d[3])):
            c.label("direct:" + ("used" if d[1] in used else "not used by a candidate"))
        elif any(isinstance(p[2], list) and p[2][0] == "Fn" for p in d[4:]):
            c.label("indirect:" + ("used" if d[1] in used else "not used by a candidate"))


def omitted(a, hos):
    """the higher-order functions an axiom mentions without their function"""
    return [x[1] for x in ref.walk(a) if x[0] == "call" and x[1] in hos and len(x) - 3 < len(hos[x[1]]) - 4]


def instances(case):
    """the axioms, those that leave the function out once for every function it is used with"""
    hos = {d[1]: d for d in case["lib"] if any(is_fn(p[2]) for p in d[4:])}
    used = []

    def scan(e, bind):
        for x in ref.walk(e):
            if x[0] == "call" and x[1] in hos:
                f = [y[1] for y in x[3:] if is_fn(build.typ(y))]
                if not f:
                    continue
                k = (x[1], bind.get(f[0], f[0]))
                if k not in used:
                    used.append(k)
                    d = hos[x[1]]
                    scan(d[3], {p[1]: k[1] for p in d[4:] if is_fn(p[2])})
    for s in case["synths"]:
        scan(s[2], {})
    for d in case["lib"]:
        if d[1] not in hos:
            scan(d[3], {})
    full = [a for a in case["axioms"] if not omitted(a[0], hos)]
    # (which axioms come first matters: axioms with function arguments bring further versions in)
    out = []
    for a in [case["axioms"][i - len(case["lib"]) - len(case["unint"])] for i in case["order"]
              if len(case["lib"]) + len(case["unint"]) <= i < len(case["lib"]) + len(case["unint"]) + len(case["axioms"])]:
        om = omitted(a[0], hos)
        if not om:
            scan(a[0], {})
            out.append(a)
        for n, m in used:
            if n in om:
                out.append([insert(a[0], hos, m)] + a[1:])
    return out


def insert(e, hos, m):
    if e[0] in ("var", "lit"):
        return e
    h = 3 if e[0] == "call" else 1
    a = [insert(x, hos, m) for x in e[h:]]
    if e[0] == "call" and e[1] in hos and len(a) < len(hos[e[1]]) - 4:
        k = [i for i, p in enumerate(hos[e[1]][4:]) if is_fn(p[2])][0]
        a.insert(k, ["var", m, hos[e[1]][4:][k][2]])
    return e[:h] + a


def val(e, env, table):
    try:
        return ref.ev(e, env, table)
    except (ref.Undef, RecursionError):
        return None


def run(S, t, env):
    S.steps = 0
    try:
        return S.eval(t, env)
    except (smt.Limit, RecursionError):
        return None
    except KeyError as e:
        raise Violation(f"{smt.sx(t)[:300]} uses {e}")


def check_cvc(case, c):
    emit(case)
    f = os.path.join(fakes.dir(), "synthesisLogs", "task_0.smt")
    with open(f) as g:
        text = "(set-logic ALL)\n" + g.read()
    with open(f, "w") as g:
        g.write(text)
    path = os.environ["PATH"].split(":", 1)[1]
    r = subprocess.run(["cvc5", "--lang=smt2", "--parse-only", f], capture_output=True, text=True, timeout=120, env={**os.environ, "PATH": path})
    if "(error" in r.stdout + r.stderr or r.returncode:
        raise Violation(f"cvc5 rejects the verification file: {(r.stdout + r.stderr)[:300]}: {text[-5000:]}")
    c.nontrivial()


SUBS = [Sub("plain", plain_case, check, 1200, 30000, rule="non-trivial: the condition calls a candidate and is judged"),
        Sub("higher", higher_case, check, 1200, 30000, rule="non-trivial: the condition calls a candidate and is judged"),
        Sub("cvc5", higher_case, check_cvc, 120, 3000, rule="every case: the file is parsed by cvc5")]
