"""The SyGuS problem of a synthesis template is well-sorted and derives exactly the template's candidate programs."""
import os
import subprocess
import tempfile

from hypothesis import strategies as st

from metalift import ir as I
from metalift.smt_util import toSMT

from .. import build, env as menv, gens, ref, smt, smtlib, template
from ..runner import Discard, Sub, Violation, sut
from . import c08, c14

PROPERTY = "C15"
RULE = ("(grammar) typed templates with nested, shared and repeated choices; the synth-fun is sort-checked and the set of all terms its "
        "grammar derives is compared with the set obtained by resolving every choice, parameters and sorts in order; "
        "(file) the whole .sl problem: one synth-fun per template, every variable declared, and the constraint evaluated with a "
        "resolution of each template against the reference meaning of the verification condition; cvc5 parses a sample")
ASSUMPTIONS = ["grammars of at most 1500 derivations", "no list operations (the SyGuS file does not include the list library)",
               "mini SMT-LIB sort checker/evaluator, cross-checked by cvc5 --lang=sygus2 --parse-only"]

OPTS = [gens.Opts(lists=False, matrix=False, tensor=False, divmod=False), gens.Opts(lists=False, matrix=False, tensor=False),
        gens.Opts(lists=False, matrix=False, tensor=False, sets=False), gens.Opts(lists=False, matrix=False, tensor=False, tuples=False)]
LIST_OPTS = OPTS + [gens.Opts(tensor=False)]


def case():
    return c14.case(LIST_OPTS)


def base():
    S = smtlib.base()
    S.load("(define-fun f ((q Int)) Int (+ q 1)) (define-fun helper ((q Int) (r Int)) Bool (< q r))"
           "(define-fun-rec list_sum ((q (MLList Int))) Int (ite (< (list_length q) 1) 0 (list_sum (list_tail q 1))))")
    return S


def alts_of(rules, nts):
    def alts(x):
        if isinstance(x, str) and x in nts:
            return x, rules[x]
        return None
    return alts


def check(case, c):
    if case["name"] in ("f", "helper", "list_sum"):
        case = {**case, "name": "target"}
    n = c14.limits(case, c)
    with sut("building"):
        e = build.expr(case["body"])
        before = repr(e)
        s = I.Synth(case["name"], e, *[build.expr(v) for v in case["vars"]])
    with sut("Synth.toSMT"):
        text = s.toSMT()
        again = s.toSMT()
    if again != text:
        raise Violation(f"the grammar depends on earlier calls: {text} then {again}")
    if build.spec(e) != case["body"]:
        raise Violation(f"emitting the grammar changed the template {before} to {e!r}")
    S = base()
    try:
        S.load(text)
    except smt.SmtError as x:
        raise Violation(f"the synth-fun is ill-formed: {x}: {text[:800]}")
    if list(S.synths) != [case["name"]]:
        raise Violation(f"not one synth-fun: {text[:300]}")
    g = S.synths[case["name"]]
    sig = [(v[1], c08.smt_sort(v[2])) for v in case["vars"]]
    if g["params"] != sig or g["ret"] != c08.smt_sort(case["ty"]):
        raise Violation(f"signature {g['params']} -> {g['ret']}, expected {sig} -> {case['ty']}: {text[:300]}")
    clash = set(g["nts"]) & {v[1] for v in case["vars"]}
    if clash:
        raise Violation(f"parameter and nonterminal have the same name {sorted(clash)}: {text[:400]}")
    got = template.language(g["nts"][0], alts_of(g["rules"], set(g["nts"])))
    want = {}
    for r in template.resolutions(case["body"]):
        with sut("printing a resolved candidate"):
            t = build.expr(r).toSMT()
        want[template.fz(smt.parse(t)[0])] = t
    if got != set(want):
        miss = [t for k, t in want.items() if k not in got][:3]
        extra = [c14.show(x) for x in got if x not in want][:3]
        raise Violation(f"template {before}: grammar lacks {miss} and has the extra terms {extra}: {text}")
    c14.labels(case, c, n)


# ---- whole problem ------------------------------------------------------------------------------------

PREDS = ["inv0", "f_ps", "test_inv1"]


@st.composite
def file_case(draw):
    o = draw(st.sampled_from(OPTS))
    tys = [t for t in gens.scalar_types(o)]
    lib, sigs = draw(gens.decls(o, 2, names=["f", "g", "h", "helper"]))
    lib = [d for d in lib]
    synths = []
    for nm in draw(st.lists(st.sampled_from(PREDS), min_size=1, max_size=3, unique=True)):
        vs = draw(gens.signature(o, 3, names=NM))
        t = "Bool" if draw(st.integers(0, 3)) else draw(st.sampled_from(tys))
        b = draw(template.template(o, vs, t, sigs, budget=4))
        synths.append([nm, t, b, vs, draw(st.integers(0, 10**6))])
    vs = draw(gens.signature(o, 4, names=NM))
    fns = sigs + [(s[0], s[1], [v[2] for v in s[3]]) for s in synths]
    vc = template.with_calls(draw, gens.gen(draw, "Bool", vs, o, 2 + draw(st.integers(0, 1)), fns), synths, vs, o)
    return dict(lib=lib, synths=synths, vars=vs, vc=vc, envs=draw(gens.envs(vs, 5)))


NM = ["a", "b", "x", "y", "n", "arg", "x1", "acc"]


def pick_resolution(s, k):
    """the k-th resolution (mixed radix over the choices in order)"""
    if s[0] in ("var", "lit"):
        return s, k
    if s[0] == "choose":
        i = k % (len(s) - 1)
        return pick_resolution(s[1 + i], k // (len(s) - 1))
    h = template.HDR.get(s[0], 1)
    out = s[:h]
    for x in s[h:]:
        r, k = pick_resolution(x, k)
        out = out + [r]
    return out, k


def check_file(case, c, cvc=False):
    with sut("building"):
        lib = [build.decl(d) for d in case["lib"]]
        syn = [I.Synth(s[0], build.expr(s[2]), *[build.expr(v) for v in s[3]]) for s in case["synths"]]
        vc = build.expr(case["vc"])
        vs = {build.expr(v) for v in case["vars"]}
    f = tempfile.NamedTemporaryFile("w", suffix=".sl", dir=menv.scratch(), delete=False)
    f.close()
    try:
        with sut("smt_util.toSMT"):
            toSMT(lib, vs, syn, [], vc, f.name, [], [x.name() for x in lib], True)
        text = open(f.name).read()
        if cvc:
            r = subprocess.run(["cvc5", "--lang=sygus2", "--parse-only", f.name], capture_output=True, text=True, timeout=120)
            if "(error" in r.stdout + r.stderr or r.returncode:
                raise Violation(f"cvc5 rejects the problem: {(r.stdout + r.stderr)[:300]}: {text[-1500:]}")
            c.nontrivial()
            return
    finally:
        os.unlink(f.name)
    S = smt.Smt(interp=smtlib.MODEL)
    try:
        S.load(text)
    except smt.SmtError as x:
        raise Violation(f"the problem is ill-formed: {x}: {text[-1500:]}")
    if "check-synth" not in S.commands or S.commands.count("check-synth") != 1:
        raise Violation("no check-synth")
    if set(S.synths) != {s[0] for s in case["synths"]}:
        raise Violation(f"functions to synthesise: {sorted(S.synths)}")
    if {n: S.sig[n][1] for n in S.consts} != {v[1]: c08.smt_sort(v[2]) for v in case["vars"]}:
        raise Violation(f"declared variables {[(n, S.sig[n][1]) for n in S.consts]}, expected {case['vars']}")
    if len(S.asserts) != 1:
        raise Violation(f"{len(S.asserts)} constraints")
    table = build.fn_table(case["lib"])
    for s in case["synths"]:
        r, _ = pick_resolution(s[2], s[4])
        table[s[0]] = ([v[1] for v in s[3]], r)
        S.interp[s[0]] = (lambda ps, r: lambda *a: ref.ev(r, dict(zip(ps, a)), table))([v[1] for v in s[3]], r)
    n = 0
    for env in case["envs"]:
        env = {k: ref.from_json(v) for k, v in env.items()}
        try:
            want = ref.ev(case["vc"], env, table)
        except ref.Undef:
            continue
        try:
            got = c08.ev(S, S.asserts[0], env, "constraint")
        except ref.Undef:
            continue
        if got is None:
            continue
        n += 1
        if got != want:
            raise Violation(f"the constraint is {got} but the condition is {want} at {env}: {text[-1500:]}")
    if n and any(x[0] == "call" and x[1] in S.synths for x in ref.walk(case["vc"])):
        c.nontrivial()
    c.label(f"synths:{len(case['synths'])}", f"lib:{len(case['lib'])}", f"defined:{n}")


SUBS = [
    Sub("grammar", case, check, 2500, 60000, rule="non-trivial: the template has more than one resolution"),
    Sub("file", file_case, check_file, 1000, 20000, rule="non-trivial: the condition calls a function to synthesise and is defined somewhere"),
    Sub("cvc5", file_case, lambda case, c: check_file(case, c, True), 100, 3000, rule="every case: a whole problem parsed by cvc5"),
]
