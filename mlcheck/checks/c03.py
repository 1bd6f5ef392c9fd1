"""Analyses do not influence one another, and leave their arguments alone."""
from hypothesis import strategies as st

from .. import build, fastmypy, iso, llvmfront as F, llvmir as L, pyfront as P
from ..runner import Discard, Sub, Violation

PROPERTY = "C03"
RULE = ("random histories of analyses (programs, fresh or shared drivers, preconditions added, repeated analyses) followed by a target "
        "analysis on a fresh driver; the target's VC, predicates, variables and grammar arguments are compared with "
        "those of the same analysis done alone in a forked pristine process")
ASSUMPTIONS = ["process isolation by fork; every forked child starts with no analysis done"]
fastmypy.install()


def setup():
    """Import everything before forking: the children then start from one state, quickly."""
    import gc

    import metalift.frontend.llvm  # noqa
    import metalift.frontend.python  # noqa
    L.build_pass()
    gc.collect()
    gc.freeze()


@st.composite
def case(draw):
    n = draw(st.integers(1, 3))
    hist = []
    for _ in range(n):
        hist.append(dict(prog=draw(P.program(sound=True)), driver=draw(st.sampled_from(["new", "new", "shared"])),
                         pre=draw(st.booleans()), uninterp=draw(st.booleans())))
    t = draw(P.program(sound=True, mut=draw(st.booleans())))
    if draw(st.integers(0, 2)) == 0:
        t = hist[-1]["prog"]
    return dict(history=hist, target=t)


def result(prog):
    d, args, got = P.analyze(prog)
    v = P.harvest(d, prog, got)
    return dict(vc=v.spec, vars=dict(sorted(v.vars.items())), preds=v.preds, grammars=v.grammars,
                args=[build.spec(a) for a in args], posts=[build.spec(p) for p in d.postconditions])


def with_history(case):
    from metalift.frontend.python import Driver
    from metalift import ir as I
    shared = Driver()
    k = 0
    for h in case["history"]:
        d = shared if h["driver"] == "shared" else Driver()
        if h["pre"]:
            d.add_precondition(I.Int("pre") > I.Int(0))
        p = dict(h["prog"], name=f"fn{k}")
        k += 1
        try:
            P.analyze(p, driver=d)
        except Violation:
            pass
    return result(case["target"])


def check(case, c):
    a = iso.isolated(result, case["target"])
    b = iso.isolated(with_history, case)
    if a != b:
        if "ok" in a and "ok" in b:
            for k in a["ok"]:
                if a["ok"][k] != b["ok"][k]:
                    raise Violation(f"{k} depends on earlier analyses: alone {a['ok'][k]}, after others {b['ok'][k]}\n{P.source(case['target'])}")
        raise Violation(f"the analysis depends on earlier ones: alone {str(a)[:600]}; after others {str(b)[:600]}")
    if "ok" in a:
        want = [["var", n, t] for n, t in case["target"]["params"]]
        if a["ok"]["args"] != want:
            raise Violation(f"the analysis modified its arguments: {a['ok']['args']}\n{P.source(case['target'])}")
    c.nontrivial("ok" in a and (P.loops(case["target"]) or len(case["target"]["body"]) > 2))
    c.label("result" if "ok" in a else "rejected")


@st.composite
def llvm_case(draw):
    kinds = draw(st.sampled_from([(), (), ("v", "l"), ("s", "t", "Bool")]))
    prog = lambda n="test": draw(F.program(kinds=kinds, name=n, simple=draw(st.booleans())))
    scope = lambda: draw(st.sampled_from(["all", "none", []]))
    pre = lambda: draw(st.sampled_from([None, None, ["gt", ["var", "pre", "Int"], ["lit", 0, "Int"]]]))
    t = dict(progs=[prog()], scope=scope(), pre=pre())
    hist = []
    for _ in range(draw(st.integers(1, 2))):
        k = draw(st.integers(0, 4))
        hist.append(t if k == 0 else dict(progs=[prog("first"), prog()] if k == 1 else [prog()], scope=scope(), pre=pre()))
    return dict(history=hist, target=t)


def llvm_result(x):
    v = F.analyze(x["progs"], x["scope"], pre=x["pre"])
    return dict(vc=v.spec, vars=sorted(v.vars.items()), preds=v.preds, writes=v.writes, grammars=v.got, loops=v.heads)


def llvm_after(case):
    for h in case["history"]:
        try:
            llvm_result(h)
        except Violation:
            pass
    return llvm_result(case["target"])


def check_llvm(case, c):
    a = iso.isolated(llvm_result, case["target"])
    b = iso.isolated(llvm_after, case)
    text = case["target"]["progs"][0]["text"]
    if a != b and not ("violation" in a and "violation" in b):  # (the reasons contain names that LLVM makes unique)
        for k in a.get("ok", {}) if "ok" in b else []:
            if a["ok"][k] != b["ok"][k]:
                raise Violation(f"{k} depends on earlier analyses: alone {a['ok'][k]}, after others {b['ok'][k]}\n{text}")
        raise Violation(f"the analysis depends on earlier ones: alone {str(a)[:600]}; after others {str(b)[:600]}\n{text}")
    c.nontrivial("ok" in a and bool(a["ok"]["loops"]))
    c.label("result" if "ok" in a else "rejected")


SUBS = [Sub("history", case, check, 700, 14000, rule="non-trivial: the target has a loop or >2 statements"),
        Sub("llvm", llvm_case, check_llvm, 400, 8000, rule="the LLVM front end; drivers of the earlier analyses are others; non-trivial: the target has a loop")]
