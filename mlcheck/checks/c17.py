"""The Rosette problem accepts a candidate for an input exactly when the verification condition holds."""
import os

from hypothesis import strategies as st

from metalift import ir as I
from metalift.rosette_translator import to_rosette

from .. import build, env as menv, gens, ref, rkt, rktfile, rktlib, template
from ..runner import Discard, Sub, Violation, sut
from .c15 import pick_resolution

PROPERTY = "C17"
RULE = ("synthesis tasks: 0-2 target functions, 1-3 templates, a verification condition calling them, 1-4 variables; the written problem "
        "is interpreted with the grammars resolved to chosen candidates and the symbols to chosen values: the query's guarantee holds "
        "exactly when the reference meaning of the condition does; with guessing rounds, the query of round i assumes exactly that some "
        "guessed function differs from every previous solution; the file also has one grammar and one definition per template, one query "
        "and one output per round")
ASSUMPTIONS = ["mini Racket evaluator; eq? compares lists element-wise as Rosette's does",
               "library operations bound to their reference meaning (C22 compares the library itself)",
               "the guessed functions' parameters are declared variables, as the emitted call requires"]

OPTS = [gens.Opts(nested=False, tensor=False), gens.Opts(tensor=False, matrix=False), gens.Opts(lists=False, matrix=False, tensor=False)]
PREDS = ["inv0", "f_ps", "test_inv1", "inv_total"]
NM = ["a", "b", "x", "y", "n", "arg", "x1", "acc", "agg.result"]
TYPES = ["Int", "Int", "Bool", ["List", "Int"], ["Set", "Int"], ["Tuple", ["Int", "Int"]], "Matrix"]


@st.composite
def case(draw):
    o = draw(st.sampled_from(OPTS))
    tys = [t for t in gens.scalar_types(o)]
    lib, sigs = draw(gens.decls(o, 2, names=["f", "g", "h", "list_sum", "vec_map2"])) if draw(st.booleans()) else ([], [])
    vs = draw(gens.signature(o, 4, names=NM))
    synths = []
    for nm in draw(st.lists(st.sampled_from(PREDS), min_size=1, max_size=3, unique=True)):
        # parameters are variables of the problem, possibly renamed
        ps = draw(st.permutations(vs))[:draw(st.integers(1, len(vs)))]
        t = "Bool" if draw(st.integers(0, 3)) else draw(st.sampled_from(tys))
        b = draw(template.template(o, ps, t, sigs, budget=4))
        synths.append([nm, t, b, ps])
    unint = []
    for nm in draw(st.lists(st.sampled_from(["U", "opaque_fn"]), max_size=2, unique=True)):
        if draw(st.booleans()):
            ps = [["var", f"u{i}", draw(st.sampled_from(["Int", "Int", "Bool"]))] for i in range(draw(st.integers(1, 3)))]
            ret = draw(st.sampled_from(["Int", "Bool"]))
            unint.append([draw(st.sampled_from(["fn", "rec"])), nm, ret, None] + ps)
            sigs = sigs + [(nm, ret, [q[2] for q in ps])] * 2
    bodyless = [i for i in range(len(synths)) if draw(st.integers(0, 3)) == 3]
    fns = sigs + [(s[0], s[1], [v[2] for v in s[3]]) for s in synths]
    vc = template.with_calls(draw, gens.gen(draw, "Bool", vs, o, 2 + draw(st.integers(0, 1)), fns), synths, vs, o)
    rounds = draw(st.sampled_from([0, 0, 1, 2, 3]))
    cands = [[draw(st.integers(0, 10**5)) for _ in synths] for _ in range(rounds + 2)]
    return dict(lib=lib, synths=synths, vars=vs, vc=vc, envs=draw(gens.envs(vs, 4, maxlen=2)), rounds=rounds, cands=cands,
                unint=unint, bodyless=bodyless,
                guess=draw(st.integers(0, 2**len(synths) - 1)), unbounded=draw(st.booleans()), verify=draw(st.integers(0, 5)) == 5,
                order=draw(st.permutations(range(len(synths)))))


def check(case, c):
    with sut("building"):
        lib = [build.decl(d) for d in case["lib"] + case["unint"]]
        lib += [build.decl(["rec", s[0], s[1], None] + s[3]) for i, s in enumerate(case["synths"]) if i in case["bodyless"]]
        syn = [I.Synth(s[0], build.expr(s[2]), *[build.expr(v) for v in s[3]]) for s in case["synths"]]
        vc = build.expr(case["vc"])
        vs = {build.expr(v) for v in case["vars"]}
        loops = [I.Synth(s[0], build.expr(s[2]), *[build.expr(v) for v in s[3]]) for s in case["synths"]]
    guess = [i for i in range(len(syn)) if case["guess"] >> i & 1] or [0]
    f = os.path.join(menv.scratch(), f"t{os.getpid()}.rkt")
    with sut("to_rosette"):
        to_rosette(basename="task", filename=f, target_lang=lib, vars=vs, inv_and_ps=syn, preds=[], vc=vc,
                   loop_and_ps_info=[loops[i] for i in case["order"] if i not in case["bodyless"]], rounds_to_guess=case["rounds"],
                   fns_to_guess=[syn[i] for i in guess], fn_defs_to_exclude=[], uninterp_fns=[d[1] for d in case["unint"]], unbounded_ints=case["unbounded"],
                   list_bound=2, write_choices_to={}, verify_mode=case["verify"])
    text = open(f).read()
    os.unlink(f)
    try:
        P = rktfile.Problem(text, lib=rktlib.model_interp)
        judge(case, c, P, guess)
    except rktfile.Bad as e:
        raise Violation(f"the problem file is malformed: {e}: {text[-2500:]}")
    except rkt.RktError as e:
        raise Violation(f"the problem file fails: {e}: {text[-2500:]}")


def judge(case, c, P, guess):
    want_synths = 0 if case["verify"] else case["rounds"] + 1
    if len(P.synths) != want_synths or len(P.verifies) != (1 if case["verify"] else 0):
        raise Violation(f"{len(P.synths)} synthesis and {len(P.verifies)} verification queries: {P.text[-1500:]}")
    if (P.bitwidth is False) != case["unbounded"]:
        raise Violation(f"bit width {P.bitwidth} for unbounded={case['unbounded']}")
    names = [s[0] for s in case["synths"]]
    defined = [P.name(f) for f in P.defs]
    for n in names + [d[1] for d in case["lib"]]:
        if defined.count(n) != 1:
            raise Violation(f"{n} is defined {defined.count(n)} times: {P.text[-2500:]}")
    if set(P.grammars) != {n + "_gram" for n in names}:
        raise Violation(f"grammars {sorted(P.grammars)} for {names}")
    rty = {"Int": "integer?", "Bool": "boolean?"}
    if P.uninterp != {d[1]: ([rty[q[2]] for q in d[4:]], rty[d[2]]) for d in case["unint"]}:
        raise Violation(f"uninterpreted functions {P.uninterp}, expected {case['unint']}")
    models = {d[1]: ([q[1] for q in d[4:]], model(d)) for d in case["unint"]}
    mtext = {n: (ps, build.expr(b).to_rosette()) for n, (ps, b) in models.items()}
    sols = []
    for k in case["cands"]:
        bodies, table = {}, {**build.fn_table(case["lib"]), **models}
        for s, i in zip(case["synths"], k):
            r, _ = pick_resolution(s[2], i)
            with sut("to_rosette"):
                t = build.expr(r).to_rosette()
            params, start, alts = P.grammars[s[0] + "_gram"]
            if not rktfile.derives(start, rkt.parse(t)[0], alts):
                raise Violation(f"the grammar of {s[0]} does not derive its candidate {t}: {P.text}")
            bodies[s[0] + "_gram"] = t
            table[s[0]] = ([v[1] for v in s[3]], r)
        sols.append((bodies, table))
    n = 0
    for env in case["envs"]:
        env = {k: ref.from_json(v) for k, v in env.items()}
        asg = assign(P, case["vars"], env)
        if asg is None:
            continue
        queries = [(f"round {i}", g, i) for i, (_, _, g) in enumerate(P.synths)] or [("verify", P.verifies[0][1], 0)]
        for what, form, i in queries:
            for bodies, table in sols:
                prev = sols[:i]
                try:
                    want = ref.ev(case["vc"], env, table)
                except ref.Undef:
                    continue
                try:
                    J = P.run(asg, bodies, [b for b, _ in prev], mtext)
                    assumed, asserted = P.check(J, form)
                except (rkt.StepLimit, RecursionError, OverflowError):
                    continue
                for v in case["vars"]:
                    if not rkt.equalp(J.g.get(rkt.Sym(v[1])), rkt.to_rkt(env[v[1]])):
                        raise KeyError(v)
                if asserted != want:
                    raise Violation(f"{what}: candidate {bodies} is {'accepted' if asserted else 'rejected'} but the condition is {want} "
                                    f"at {env}: {P.text[-2500:]}")
                try:
                    wa = all(any(not ref.same(ref.ev(call(case, q), env, table), ref.ev(call(case, q), env, t2)) for q in guess)
                             for _, t2 in prev)
                except ref.Undef:
                    continue
                if assumed != wa:
                    raise Violation(f"{what}: with previous solutions {[b for b, _ in prev]}, candidate {bodies} is "
                                    f"{'allowed' if assumed else 'excluded'} at {env}: {P.text[-2500:]}")
                n += 1
    outs = [o[0] for o in P.outputs]
    if outs != [f"synthesisLogs/task_sol{i}" for i in range(want_synths)]:
        raise Violation(f"solutions are written to {outs}")
    if n and any(x[0] == "call" and x[1] in names for x in ref.walk(case["vc"])):
        c.nontrivial()
    c.label(f"rounds:{case['rounds']}", f"synths:{len(names)}", f"judged:{min(n, 20) // 5 * 5}+", *(["verify"] if case["verify"] else []), *(["uninterpreted"] if case["unint"] else []), *(["bodyless"] if case["bodyless"] else []))


def model(d):
    """an arbitrary but argument-sensitive meaning of an uninterpreted function"""
    x = ["lit", 1, "Int"]
    for i, q in enumerate(d[4:]):
        v = ["ite", q, ["lit", 5, "Int"], ["lit", 2, "Int"]] if q[2] == "Bool" else q
        x = ["add", x, ["mul", ["lit", 3 ** i + 1, "Int"], v]]
    return x if d[2] == "Int" else ["lt", x, ["lit", 9, "Int"]]


def call(case, i):
    s = case["synths"][i]
    return ["call", s[0], s[1]] + s[3]


def assign(P, vs, env):
    """symbol values that make the declared variables take the values of env, or None: searched by structure
    (a symbol is set, and the variables are recomputed)"""
    from .c16 import Fast, names
    zero = {s: 0 if t == "integer?" else False for s, t in P.symbols.items()}
    out = dict(zero)
    for v in vs:
        want = rkt.to_rkt(env[v[1]])
        r = solve(P, v[1], want, zero)
        if r is None:
            return None
        out.update(r)
    return out


def solve(P, name, want, zero):
    from .c16 import Fast, names, leaves
    if name in P.symbols:
        return {name: want}
    defs = {P.name(f): f for f in P.defs}
    syms, todo, seen = [], [name], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in P.symbols:
            syms.append(x)
        elif x in defs:
            todo += sorted(names(defs[x][2:], set()))
    fast = Fast(P, name, zero)
    b = 2
    # lengths first: the symbols that change the number of leaves when everything is at its largest
    full = {s: b if P.symbols[s] == "integer?" else False for s in syms}

    def cnt(a):
        x = fast(a)
        return None if isinstance(x, rkt.RktError) else shape(x)
    uniq = {s: 10 + i if P.symbols[s] == "integer?" else False for i, s in enumerate(syms)}
    lens = [s for s in syms if P.symbols[s] == "integer?" and cnt({**full, s: 0}) != cnt(full)]
    elems = [s for s in syms if s not in lens]
    # try all length combinations, place elements by position
    import itertools
    if len(lens) == 1 and lens[0] in syms and cnt({**full, lens[0]: 0}) == ():
        pass
    for cmb in itertools.product(range(b + 1), repeat=len(lens)):
        a = {**uniq, **dict(zip(lens, cmb))}
        x = fast({s: a[s] for s in syms})
        if isinstance(x, rkt.RktError):
            continue
        if shape(x) != shape(want):
            continue
        vals = dict(a)
        where = {u: s for s, u in uniq.items() if s in elems}
        okk = True
        for u, w in zip(leaves(x), leaves(want)):
            if isinstance(u, bool):
                # booleans are found by trying
                continue
            if u not in where:
                okk = False
                break
            vals[where[u]] = w
        if not okk:
            continue
        bs = [s for s in elems if P.symbols[s] == "boolean?"]
        for bv in itertools.product([False, True], repeat=min(len(bs), 6)):
            y = fast({**vals, **dict(zip(bs, bv))})
            if not isinstance(y, rkt.RktError) and rkt.equalp(y, want):
                return {**vals, **dict(zip(bs, bv))}
    return None


def shape(v):
    return tuple(map(shape, v)) if isinstance(v, tuple) else "B" if isinstance(v, bool) else "I"


SUBS = [Sub("task", case, check, 900, 20000, rule="non-trivial: the condition calls a function to synthesise and at least one (candidate, input) is judged")]
