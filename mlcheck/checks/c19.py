"""A candidate printed by the SyGuS solver is read back as the same function."""
import os
import shlex
import subprocess

from hypothesis import strategies as st

from metalift import ir as I
from metalift.synthesis_common import SynthesisFailed, VerificationFailed
from metalift.synthesize_cvc5 import synthesize

from .. import build, fakes, gens, ref, rkt, smt, smtlib, template
from ..runner import Discard, Sub, Violation, sut
from . import c08, c10, c15

PROPERTY = "C19"
RULE = ("(read) 1-3 templates over the operators of the SyGuS back end, in a task with library functions and axioms; a derivation of each is "
        "printed the way cvc5 prints candidates (one line, negative literals as (- n), random sharing through nested, parallel or shadowing let) by a stand-in "
        "solver; the returned definitions must have the declared names, parameters and types and the value of the printed text on every input; "
        "(solver) small integer tasks solved by the real cvc5 end to end: what synthesis returns satisfies the condition on every sampled assignment")
ASSUMPTIONS = ["mini SMT-LIB evaluator", "no list operations (the SyGuS file does not include the list library)"]
LETS = ["_let_1", "_let_2", "_let_3", "_let_4"]


@st.composite
def case(draw):
    t = draw(c15.file_case())
    new = draw(st.sampled_from([{}, {}, {"inv0": "date"}, {"inv0": "id", "f_ps": "set_ps"}, {"f_ps": "tuple_ps"}, {"f_ps": "let_"}, {"test_inv1": "can"}]))
    t = rename(t, new)
    picks = draw(st.lists(st.integers(0, 40), min_size=4, max_size=16))
    return dict(t, picks=picks, lets=draw(st.integers(0, 4)), shadow=draw(st.lists(st.sampled_from(LETS), max_size=2)), parallel=draw(st.booleans()), order=draw(st.permutations(range(len(t["synths"])))),
                earlier=draw(st.booleans()), senvs=[draw(gens.envs(s[3], 5)) for s in t["synths"]], axiom=draw(st.integers(0, 3)) == 0)


OPO = gens.Opts(smt=True, tensor=False, lists=False, matrix=False)


@st.composite
def op_case(draw):
    e, vs, t, envs = draw(gens.op_expr(OPO, names=c15.NM))
    e = [e, ["choose", e, e], ["ite", ["choose", ["lit", True, "Bool"], ["lit", False, "Bool"]], e, e]][draw(st.integers(0, 2))]
    if not vs:
        vs, envs = [["var", "x", "Int"]], [dict(x=1)]
    return dict(lib=[], synths=[["inv0", t, e, vs, draw(st.integers(0, 9))]], vars=vs, vc=["lit", True, "Bool"], envs=[], order=[0], senvs=[envs],
                picks=draw(st.lists(st.integers(0, 40), min_size=4, max_size=8)), lets=draw(st.integers(0, 2)), shadow=[], parallel=False,
                earlier=False, axiom=False)


def rename(x, new):
    if isinstance(x, dict):
        return {k: rename(v, new) for k, v in x.items()}
    if isinstance(x, list):
        return [rename(v, new) for v in x]
    return new.get(x, x) if isinstance(x, str) else x


def atoms(x):
    if isinstance(x, list):
        return set().union(*[atoms(y) for y in x]) if x else set()
    return {x}


def show(x):
    return "(" + " ".join(show(y) for y in x) + ")" if isinstance(x, list) else str(x)


def subterms(x, pos=()):
    """positions of the proper compound terms of an s-expression"""
    out = []
    if isinstance(x, list) and x and x[0] not in ("as", "let"):
        for i, y in enumerate(x[1:], 1):
            if isinstance(y, list) and y and not (y[0] == "-" and len(y) == 2):
                out.append((pos + (i,), y))
                out += subterms(y, pos + (i,))
    return out


def replace(x, old, new):
    if x == old:
        return new
    if isinstance(x, list) and x[:1] == ["let"]:
        return x
    return [replace(y, old, new) for y in x] if isinstance(x, list) else x


def shadow(x, v, pick):
    """a let somewhere inside the term, of a name that is bound elsewhere too"""
    spots = [(p, y) for p, y in subterms(x) if subterms(y)]
    if not spots:
        return x
    p, y = spots[pick(len(spots))]
    z = subterms(y)[pick(len(subterms(y)))][1]
    return put(x, p, ["let", [[v, z]], replace(y, z, v)])


def put(x, pos, new):
    if not pos:
        return new
    return x[:pos[0]] + [put(x[pos[0]], pos[1:], new)] + x[pos[0] + 1:]


def share(x, n, pick, parallel):
    """the term with up to n subterms bound by lets; every occurrence of the subterm is replaced"""
    binds = []
    for v in LETS[:n]:
        subs = subterms(x)
        if not subs:
            break
        _, t = subs[pick(len(subs))]
        x = replace(x, t, v)
        binds.append((v, t))
    # a later term may use the variables of earlier ones, which are bound further outside
    out = x
    groups = []
    for v, t in reversed(binds):
        if parallel and groups and not any(v in atoms(u) for _, u in groups[-1]):
            groups[-1].append((v, t))
        else:
            groups.append([(v, t)])
    for g in groups:
        out = ["let", [[v, t] for v, t in g], out]
    return out


def check(case, c):
    with sut("building"):
        mk = lambda: [I.Synth(s[0], build.expr(s[2]), *[build.expr(v) for v in s[3]]) for s in case["synths"]]
        syn, loops = mk(), mk()
        lib = [build.decl(d) for d in case["lib"]]
        if case["axiom"]:
            lib.append(I.Axiom(build.expr(["eq", ["var", "q", "Int"], ["var", "q", "Int"]]), build.expr(["var", "q", "Int"])))
        vc = build.expr(case["vc"])
        vs = {build.expr(v) for v in case["vars"]}
    k = [0]

    def pick(n):
        k[0] += 1
        return case["picks"][k[0] % len(case["picks"])] % n
    bodies = {}
    for s in case["synths"]:
        r, _ = c15.pick_resolution(s[2], s[4])
        with sut("toSMT"):
            t = smt.parse(build.expr(r).toSMT())[0]
        # the candidates the solver found earlier are other resolutions
        r2, _ = c15.pick_resolution(s[2], s[4] // 2 + 1)
        with sut("toSMT"):
            t2 = smt.parse(build.expr(r2).toSMT())[0]
        for v in case["shadow"]:
            t = shadow(t, v, pick)
        bodies[s[0]] = (share(t, case["lets"], pick, case["parallel"]), share(t2, case["lets"], pick, case["parallel"]))
    lines = []
    for which in ([1] if case["earlier"] else []) + [0]:
        fs = [f"({n} {show(bodies[n][which])})" for n in [case["synths"][i][0] for i in case["order"]]]
        lines.append("(sygus-candidate " + " ".join(fs) + ")")
    fakes.put("sygus.sh", "".join(f"echo {shlex.quote(l)}\n" for l in lines) + "echo '('\n")
    fakes.put("cvc5.sh", 'case "$*" in *sygus*) . ./sygus.sh ;; *) echo unsat ;; esac\n')
    text = " then ".join(lines)
    try:
        with fakes.fast(), sut("reading " + text):
            out = synthesize("task", lib, vs, syn, [], vc, loops, "cvc5")
    finally:
        fakes.reap()
    if sorted(f.name() for f in out) != sorted(s[0] for s in case["synths"]):
        raise Violation(f"returned {[f.name() for f in out]} for {[s[0] for s in case['synths']]}: {text}")
    S = smt.Smt(interp=smtlib.MODEL)
    sl = open(os.path.join(fakes.dir(), "synthesisLogs", "task_0.sl")).read()
    try:
        S.load(sl[:sl.index("(synth-fun")])
        for s in case["synths"]:
            ps = " ".join(f"({v[1]} {show_sort(v[2])})" for v in s[3])
            S.load(f"(define-fun {s[0]} ({ps}) {show_sort(s[1])} {show(bodies[s[0]][0])})")
    except smt.SmtError as e:
        raise Discard(f"printed text not understood: {e}")  # C15 and C08 judge the text
    table = build.fn_table(case["lib"])
    judged = 0
    for s, envs in zip(case["synths"], case["senvs"]):
        f = [f for f in out if f.name() == s[0]][0]
        if [(v.args[0], ref.tkey(build.unty(v.type))) for v in f.arguments()] != [(v[1], ref.tkey(v[2])) for v in s[3]]:
            raise Violation(f"{s[0]} has parameters {f.arguments()}, declared {s[3]}: {text}")
        with sut("reading the returned definition"):
            body = build.spec(f.body())
            for what, t in (("return type", f.return_type()), ("body type", f.body().type)):
                if ref.tkey(build.unty(t)) != ref.tkey(s[1]):
                    raise Violation(f"{s[0]}: {what} {t}, declared {s[1]}: {f.body()!r} from {text}")
        for env in envs:
            env = {k: ref.from_json(v) for k, v in env.items()}
            got = c10.val(body, env, table)
            want = c10.run(S, [s[0]] + [v[1] for v in s[3]], env) if got is not None else None
            if want is None:
                continue
            judged += 1
            if not ref.same(got, want):
                raise Violation(f"{s[0]} was read back as {f.body()!r}, which is {got!r} at {env}; the text {show(bodies[s[0]][0])} is {want!r}")
    if judged:
        c.nontrivial()
    c.label(f"lets:{case['lets']}", f"synths:{len(case['synths'])}", *(["earlier"] if case["earlier"] else []),
            *{"op:" + x for s in case["synths"] for x in atoms(bodies[s[0]][0]) if isinstance(x, str) and not x[:1].isdigit() and x in OPS})


OPS = {"+", "-", "*", "<", "<=", ">", ">=", "and", "or", "=>", "not", "ite", "let", "=", "set.insert", "set.union", "set.minus", "set.subset", "set.member",
       "set.singleton", "set.empty", "div", "mod", "tuple2", "tuple3", "tuple2_get0", "tuple2_get1"}


def show_sort(t):
    return smt.sx(c08.smt_sort(t))


# ---- the real solver ---------------------------------------------------------------------------------

REAL = gens.Opts(smt=True, tensor=False, divmod=False, sets=False, lists=False, matrix=False, tuples=True)


@st.composite
def real_case(draw):
    """templates whose first resolution is the meaning the condition asks for"""
    lib, sigs = draw(gens.decls(gens.Opts(smt=True, tensor=False, divmod=False, sets=False, lists=False, matrix=False, tuples=False), 1, names=["f", "helper"]))
    lib = [["fn"] + d[1:] for d in lib if not any(x[0] == "call" and x[1] == d[1] for x in ref.walk(d[3]))]
    sigs = [s for s in sigs if any(d[1] == s[0] for d in lib)]
    synths, conds = [], []
    vs = draw(gens.signature(REAL, 3, names=c15.NM))
    for nm in draw(st.lists(st.sampled_from(["inv0", "f_ps", "g_ps"]), min_size=1, max_size=2, unique=True)):
        t = draw(st.sampled_from(["Bool", "Int", "Int"]))
        b = draw(template.template(REAL, vs, t, sigs, budget=4))
        k = draw(st.integers(0, 10**6))
        synths.append([nm, t, b, vs, k])
        r, _ = c15.pick_resolution(b, k)
        conds.append(["eq", ["call", nm, t] + vs, r])
    vc = conds[0] if len(conds) == 1 else ["and"] + conds
    return dict(lib=lib, synths=synths, vars=vs, vc=vc, envs=draw(gens.envs(vs, 6)))


def real_check(case, c):
    with sut("building"):
        mk = lambda: [I.Synth(s[0], build.expr(s[2]), *[build.expr(v) for v in s[3]]) for s in case["synths"]]
        syn, loops = mk(), mk()
        lib = [build.decl(d) for d in case["lib"]]
        vc = build.expr(case["vc"])
        vs = {build.expr(v) for v in case["vars"]}
    fakes.dir()
    real = [p for p in os.environ["PATH"].split(":") if "fakes" not in p and os.path.exists(os.path.join(p, "cvc5"))][0]
    d = fakes.dir()
    fakes.put("cvc5.sh", f'timeout 10 {real}/cvc5 "$@" > out.$$; r=$?; cat out.$$; [ $r = 124 ] && echo timeout >> timeouts; exit $r\n')
    for n in os.listdir(d):
        if n == "timeouts" or n.startswith("out."):
            os.unlink(os.path.join(d, n))
    try:
        with fakes.fast(), sut("synthesis with cvc5"):
            try:
                out = synthesize("task", lib, vs, syn, [], vc, loops, "cvc5")
            except (SynthesisFailed, VerificationFailed) as e:
                if os.path.exists(os.path.join(d, "timeouts")):
                    raise Discard("solver too slow")
                raise Violation(f"a solution exists but synthesis failed: {e}: {[l for l in open('synthesisLogs/task_0.sl').read().splitlines()[-60:]]}")
    finally:
        fakes.reap()
    table = build.fn_table(case["lib"])
    n = 0
    with sut("reading the returned definitions"):
        for f in out:
            table[f.name()] = ([v.args[0] for v in f.arguments()], build.spec(f.body()))
    for env in case["envs"]:
        v = c10.val(case["vc"], {k: ref.from_json(x) for k, x in env.items()}, table)
        if v is False:
            raise Violation(f"synthesis returned {out!r}, which does not satisfy the condition at {env}")
        n += v is not None
    if n:
        c.nontrivial()


SUBS = [
    Sub("read", case, check, quick=1500, thorough=30000, rule=RULE),
    Sub("operators", op_case, check, quick=700, thorough=15000, rule="every operator alike; non-trivial as above"),
    Sub("solver", real_case, real_check, quick=300, thorough=6000, rule=RULE),
]
