"""Synthesis returns only verified candidates and always concludes."""
import contextlib
import os
import shlex
import signal
import time

from hypothesis import strategies as st

from metalift import ir as I
from metalift import synthesis_common as common
from metalift import synthesize_cvc5, synthesize_rosette

from .. import build, fakes, gens, llm, ref, rkt, rktfile, rktlib
from ..runner import CaseTimeout, Discard, Sub, Violation

PROPERTY = "C20"
RULE = ("histories of synthesis tasks in one process and directory; the solvers are stand-ins playing a generated script: solution files with "
        "candidates (marked by distinct constants) or #f, slow writing, floods of output, crashes, hanging after the outcome is decided, leftover "
        "solutions of earlier runs; per-candidate verdicts unsat/sat/unknown/error/nothing/killed. A model of the script gives the one allowed "
        "outcome; candidates returned, verifier calls and processes left running are observed")
ASSUMPTIONS = ["the solvers are replaced by scripted stand-ins", "a solution file is either empty or complete when it is read"]
LIMIT = 40  # seconds until a synthesis that has not concluded counts as hanging (the scripts take milliseconds)
REJECT = ["sat", "unsatkilled", "unknown", "", "error", "killed", "satmodel", "flood", "lateunsat", "timeout"]
X, Y, Z = ["var", "x", "Int"], ["var", "y", "Int"], ["var", "z", "Int"]
BUGS = (NameError, TypeError, AttributeError, LookupError, AssertionError, UnicodeError, RecursionError, OSError, StopIteration)


def verdict_script(v):
    """shell text with which the stand-in verifier answers"""
    return {"unsat": "echo unsat", "sat": "echo sat", "unknown": "echo unknown", "": ":", "error": "echo '(error \"not unsat\")'; exit 1",
            "killed": "kill -9 $$", "unsatkilled": "echo unsat; kill -9 $$", "satmodel": "echo sat; echo '('; echo '(define-fun x () Int 3)'; echo ')'; echo unsat",
            "flood": "echo unknown; head -c 200000 /dev/zero | tr '\\0' 'u'; head -c 200000 /dev/zero | tr '\\0' 'e' >&2",
            "lateunsat": "echo 'unknown (unsat)'; echo unsat", "timeout": "echo 'cvc5 interrupted by timeout.' >&2; exit 1"}[v]


def end_script(e):
    return {"ok": "exit 0", "crash": "echo 'sol0: unsat' >&2; exit 1", "killed": "kill -9 $$", "hang": "exec sleep 600", "code": "exit 143"}[e]


NOISE = {"none": ":", "out": "head -c 300000 /dev/zero | tr '\\0' 'o'", "err": "head -c 300000 /dev/zero | tr '\\0' 'e' >&2",
         "line": "echo note; echo warning: fail >&2", "pause": "sleep 0.03"}


@st.composite
def rosette_task(draw):
    rounds = draw(st.sampled_from([0, 0, 1, 1, 2, 3, 4]))
    n = draw(st.integers(0, rounds + 1))
    sols = [["cand", draw(st.sampled_from(REJECT * 2 + ["unsat"] * 9))] for _ in range(n)]
    if n <= rounds and draw(st.integers(0, 2)):
        sols.append(["none"])
    noise = [draw(st.sampled_from(["none", "none", "none", "out", "err", "line", "pause"])) for _ in range(len(sols) + 1)]
    slow = [draw(st.integers(0, 3)) == 0 for _ in sols]
    end = draw(st.sampled_from(["ok", "ok", "crash", "killed", "code", "hang", "hang"]))
    t = dict(kind="rosette", rounds=rounds, sols=sols, noise=noise, slow=slow, end=end, no_verify=draw(st.integers(0, 4)) == 0,
             name=draw(st.sampled_from(["task", "task", "test", "a.b", "f[0]", "task_1"])), stale=draw(st.integers(0, 3)),
             preds=draw(st.sampled_from([["inv0", "f_ps"], ["f_ps", "inv0"], ["f_ps"], ["fail_inv0", "fail_ps"], ["inv1", "inv0", "f_ps"]])),
             helper=draw(st.booleans()))
    if outcome(t)[2] is False and end == "hang":
        t["end"] = "ok"
    return t


@st.composite
def sygus_task(draw):
    """one invocation of the SyGuS solver: candidate lines, then the answer"""
    n = draw(st.integers(0, 3))
    lines = [["cand"] for _ in range(n)]
    for _ in range(draw(st.integers(0, 2))):
        lines.insert(draw(st.integers(0, len(lines))), [draw(st.sampled_from(["noise", "blank", "flood", "pause"]))])
    answer = draw(st.sampled_from((["solved"] * 4 if n else []) + ["fail", "infeasible", "eof"]))
    end = draw(st.sampled_from(["ok", "crash", "killed", "code", "hang"]))
    if answer == "eof" and end == "hang":
        end = "ok"
    return dict(kind="sygus", lines=lines, answer=answer, end=end, verdict=draw(st.sampled_from(REJECT + ["unsat"] * 9)),
                name=draw(st.sampled_from(["task", "test", "failsafe"])), helper=draw(st.booleans()), axiom=draw(st.integers(0, 3)) == 0,
                preds=draw(st.sampled_from([["inv0", "f_ps"], ["f_ps"], ["fail_inv0", "fail_ps"], ["inv1", "inv0", "f_ps"]])))


@st.composite
def check_task(draw):
    """verification of a given candidate by Rosette"""
    return dict(kind="check", answer=draw(st.sampled_from(["(unsat)", "(unsat)", "(unknown)", "(model\n [x 1])\n(unsat)", "", "unsat", "killed", "crash"])),
                helper=draw(st.booleans()), name=draw(st.sampled_from(["task", "a.b"])), preds=draw(st.sampled_from([["inv0", "f_ps"], ["f_ps"]])),
                env=[[draw(st.integers(-3, 3)) for _ in "xyz"] for _ in range(4)])


def history(t):
    return lambda: st.lists(t(), min_size=1, max_size=3).map(lambda ts: dict(tasks=ts))


# ------------------------------------------------------------------ the model
def outcome(t):
    """(result, index, decided): result "return"/"SynthesisFailed"/"VerificationFailed"/"error"; index of the returned candidate;
    decided: the outcome does not depend on how the solver process ends"""
    for i in range(t["rounds"] + 1):
        if i >= len(t["sols"]):
            return "error", None, False
        s = t["sols"][i]
        if s[0] == "none":
            return "SynthesisFailed", None, True
        if t["no_verify"] or s[1] == "unsat":
            return "return", i, True
    return "VerificationFailed", None, True


def mark(k, p):
    """the constant in candidate k of predicate number p"""
    return 10000 + 100 * k + p


def cand(name, k, p):
    """candidate k of a predicate: [relation, constant]"""
    return ["eq", Y, ["add", X, ["lit", mark(k, p), "Int"]]] if name.endswith("_ps") else ["le", X, ["lit", mark(k, p), "Int"]]


def text(e, eq):
    if e[0] == "lit":
        return str(e[1])
    if e[0] == "var":
        return e[1]
    return f"({ {'eq': eq, 'add': '+', 'le': '<='}[e[0]]} {text(e[1], eq)} {text(e[2], eq)})"


def params(name):
    return [X, Y] if name.endswith("_ps") else [X, Z, Y] if name == "inv1" else [X, Y]


def synths(t):
    out = []
    for p, n in enumerate(t["preds"]):
        ks = range(-1, 6)
        body = ["choose", *[cand(n, k, p) for k in ks]]
        out.append(I.Synth(n, build.expr(body), *[build.expr(v) for v in params(n)]))
    return out


def task(t):
    """arguments common to both drivers"""
    s = synths(t)
    calls = [I.Call(x.name(), I.Bool, *[build.expr(v) for v in params(x.name())]) for x in s]
    vc = I.Implies(calls[0], calls[-1]) if len(calls) > 1 else calls[0]
    lang = []
    if t["helper"]:
        lang.append(build.decl(["rec", "twice", "Int", ["add", X, X], X]))
        if t.get("axiom"):
            lang.append(I.Axiom(build.expr(["eq", ["call", "twice", "Int", X], ["add", X, X]]), build.expr(X)))
        vc = I.And(vc, build.expr(["eq", ["call", "twice", "Int", Z], ["add", Z, Z]]))
    return s, lang, vc, {build.expr(v) for v in (X, Y, Z)}


def solution(t, k):
    if t["sols"][k][0] == "none":
        return "#f\n"
    lines = ["#t"]
    for p, n in enumerate(t["preds"]):
        lines.append(f"/root/synthesisLogs/{t['name']}.rkt:{30 + p}:0")
        lines.append(f"'(define ({n} {' '.join(v[1] for v in params(n))})\n   {text(cand(n, k, p), 'equal?')})")
    return "\n".join(lines) + "\n"


def verifier(t, verdicts):
    """the stand-in verifier: finds the candidate in the file by its constants, logs it, and answers for it"""
    s = 'm=$(grep -oE "1[0-9]{4}" "$last" | sort -u | tr "\\n" " ")\necho "$m" >> calls\ncase "$m" in\n'
    for k, v in enumerate(verdicts):
        ms = " ".join(str(mark(k, p)) for p in range(len(t["preds"])))
        s += f'"{ms} ") {verdict_script(v)} ;;\n'
    return s + "*) echo sat ;;\nesac\n"


def calls():
    p = os.path.join(fakes.dir(), "calls")
    return [[int(x) for x in l.split()] for l in open(p).read().splitlines()] if os.path.exists(p) else []


def running():
    """processes of the stand-in solver that are still running, given a moment to end"""
    p = os.path.join(fakes.dir(), "pid")
    if not os.path.exists(p):
        return []
    pids = [int(x) for x in open(p).read().split()]
    end = time.time() + 3
    while True:
        live = []
        for i in pids:
            try:
                state = open(f"/proc/{i}/stat").read().rpartition(")")[2].split()[0]
            except (OSError, IndexError):
                continue
            if state not in "ZX":
                live.append(i)
        if not live or time.time() > end:
            return live
        time.sleep(0.01)


def conclude(what, f):
    """what the synthesis did: ("return", candidates) or (exception class name, exception)"""
    import io
    old = signal.getsignal(signal.SIGALRM)

    def alarm(*_):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, LIMIT)
    try:
        with fakes.fast(), contextlib.redirect_stdout(io.StringIO()):
            return "return", f()
    except CaseTimeout:
        raise Violation(f"{what}: no answer {LIMIT} s after the solver decided the outcome")
    except Exception as e:  # noqa
        return type(e).__name__, e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 60)
        signal.signal(signal.SIGALRM, old)


def agree(what, t, got, want, k):
    kind, val = got
    if want == "error":
        if kind == "return" or isinstance(val, BUGS):
            raise Violation(f"{what}: the solver ended without an answer, and synthesis gave {kind} {val!r}")
        return
    if kind != want:
        raise Violation(f"{what}: expected {want}{'' if k is None else ' of candidate %d' % k}, got {kind}: {val!r}")
    if want != "return":
        cls = getattr(common, want)
        if not isinstance(val, cls):
            raise Violation(f"{what}: {kind} is not metalift's exception")
        return
    if [f.name() for f in val] != t["preds"]:
        raise Violation(f"{what}: returned {[f.name() for f in val]} for {t['preds']}")
    for p, f in enumerate(val):
        n = f.name()
        if [v.args[0] for v in f.arguments()] != [v[1] for v in params(n)]:
            raise Violation(f"{what}: {n} has parameters {f.arguments()}")
        body = build.spec(f.body())
        m = mark(k, p)
        for x, y in ((0, m), (3, m + 3), (m, 0), (m + 1, 0), (m - 1, 5), (0, mark(k + 1, p)), (0, mark(k - 1, p))):
            env = dict(x=x, y=y, z=0)
            if ref.ev(body, env, {}) != ref.ev(cand(n, k, p), env, {}):
                raise Violation(f"{what}: returned {n} = {f.body()!r} is not candidate {k}, {cand(n, k, p)}")


def checks_made(what, t, want_calls):
    """the verifier must have been given exactly the candidates it had to judge, in order"""
    got = []
    for c in calls():
        if not got or got[-1] != c:
            got.append(c)
    want = [[mark(k, p) for p in range(len(t["preds"]))] for k in want_calls]
    if got != want:
        raise Violation(f"{what}: the verifier was given the candidates with constants {got}, expected {want}")


def start(t):
    d = fakes.dir()
    for n in ("calls", "pid", "racket.sh", "cvc5.sh", "verif.sh"):
        p = os.path.join(d, n)
        if os.path.exists(p):
            os.unlink(p)
    return d


def check(case, c):
    logs = os.path.join(fakes.dir(), "synthesisLogs")
    for n in os.listdir(logs):
        os.unlink(os.path.join(logs, n))
    try:
        for i, t in enumerate(case["tasks"]):
            what = f"task {i} ({t['kind']} {t['name']})"
            {"rosette": rosette, "sygus": sygus, "check": rosette_check, "llm": llm_task_check}[t["kind"]](what, t, c)
    finally:
        fakes.reap()
    c.label(f"tasks:{len(case['tasks'])}")


def rosette(what, t, c):
    d = start(t)
    logs = os.path.join(d, "synthesisLogs")
    name = t["name"]
    for i in range(t["stale"]):
        # leftovers of an earlier run; its candidates would be accepted
        with open(os.path.join(logs, f"{name}_sol{i}"), "w") as f:
            s = dict(t, sols=[["cand"]] * 6)
            f.write(solution(s, 5))
    s = "echo $$ >> pid\n"
    for i, x in enumerate(t["sols"]):
        f = shlex.quote(f"synthesisLogs/{name}_sol{i}")
        fakes.put(f"sol{i}", solution(t, i))
        s += NOISE[t["noise"][i]] + "\n"
        if t["slow"][i]:
            s += f": > {f}; sleep 0.03\n"
        s += f"cp sol{i} sol.tmp; mv sol.tmp {f}\n"
    s += NOISE[t["noise"][-1]] + "\n" + end_script(t["end"]) + "\n"
    fakes.put("racket.sh", s)
    vs = [x[1] for x in t["sols"] if x[0] == "cand"]
    fakes.put("cvc5.sh", verifier(t, vs + ["unsat"] * (6 - len(vs))))
    inv, lang, vc, vars = task(t)
    got = conclude(what, lambda: synthesize_rosette.synthesize(
        basename=name, target_lang=lang, vars=vars, inv_and_ps=inv, preds=[], vc=vc, loop_and_ps_info=synths(t), cvc_path="cvc5",
        no_verify=t["no_verify"], rounds_to_guess=t["rounds"], fns_to_guess=synths(t), log=bool(t["stale"] % 2), list_bound=2))
    want, k, decided = outcome(t)
    desc = f"{what}, script {t}"
    agree(desc, t, got, want, k)
    judged = [] if t["no_verify"] else [i for i, x in enumerate(t["sols"]) if x[0] == "cand" and (k is None or i <= k)]
    checks_made(desc, t, judged)
    live = running()
    for q in live:
        os.kill(q, 9)
    if live:
        raise Violation(f"{desc}: after the outcome {got[0]}, the solver is still running")
    n = open(os.path.join(logs, name + ".rkt")).read().count("(synthesize")
    if n != t["rounds"] + 1:
        raise Violation(f"{desc}: {n} synthesis queries for {t['rounds']} more rounds")
    c.label(f"outcome:{want}", f"end:{t['end']}", *(["rejections"] if len(judged) > 1 else []), *(["no_verify"] if t["no_verify"] else []))
    if len(judged) > 1 or want != "return" or "err" in t["noise"] or "out" in t["noise"] or t["end"] == "hang" or t["stale"]:
        c.nontrivial()


def sygus(what, t, c):
    start(t)
    s, k = "echo $$ >> pid\n", -1
    for l in t["lines"]:
        if l[0] == "cand":
            k += 1
            fs = " ".join(f"({n} {text(cand(n, k, p), '=')})" for p, n in enumerate(t["preds"]))
            s += f"echo '(sygus-candidate {fs})'\n"
        else:
            s += {"noise": "echo '; trying size 2'; echo oops >&2", "blank": "echo", "pause": "sleep 0.02",
                  "flood": "head -c 300000 /dev/zero | tr '\\0' 'e' >&2"}[l[0]] + "\n"
    if t["answer"] == "solved":
        s += "echo '('\n"
        for p, n in enumerate(t["preds"]):
            s += f"echo '(define-fun {n} ({' '.join('(%s Int)' % v[1] for v in params(n))}) Bool {text(cand(n, k, p), '=')})'\n"
        s += "echo ')'\n"
    elif t["answer"] != "eof":
        s += f"echo {t['answer']}\n"
    s += end_script(t["end"]) + "\n"
    fakes.put("sygus.sh", s)
    fakes.put("cvc5.sh", 'case "$*" in *sygus*) . ./sygus.sh ;; *) . ./verify.sh ;; esac\n')
    fakes.put("verify.sh", verifier(t, [t["verdict"]] * (k + 1)))
    inv, lang, vc, vars = task(t)
    got = conclude(what, lambda: synthesize_cvc5.synthesize(t["name"], lang, vars, inv, [], vc, synths(t), "cvc5"))
    want = "SynthesisFailed" if t["answer"] != "solved" else "return" if t["verdict"] == "unsat" else "VerificationFailed"
    desc = f"{what}, script {t}"
    agree(desc, t, got, want, k if want == "return" else None)
    checks_made(desc, t, [k] if t["answer"] == "solved" else [])
    live = running()
    for q in live:
        os.kill(q, 9)
    if live:
        raise Violation(f"{desc}: after the outcome {got[0]}, the solver is still running")
    c.label(f"outcome:{want}", f"end:{t['end']}", f"answer:{t['answer']}")
    if want != "return" or k > 0 or t["end"] != "ok" or len(t["lines"]) > k + 1:
        c.nontrivial()


def rosette_check(what, t, c):
    start(t)
    a = t["answer"]
    fakes.put("verif.sh", f"printf '%s\\n' {shlex.quote(a)}\n" if a not in ("killed", "crash", "") else {"killed": "kill -9 $$\n", "crash": "echo 'x' >&2; exit 1\n", "": ":\n"}[a])
    inv, lang, vc, vars = task(t)
    cs = [I.FnDeclRecursive(n, I.Bool, build.expr(cand(n, 0, p)), *[build.expr(v) for v in params(n)]) for p, n in enumerate(t["preds"])]
    got = conclude(what, lambda: common.verify_synth_result(
        t["name"], lang, vars, [], vc, synths(t), "cvc5", "./synthesisLogs/", cs, {f.name(): f.body() for f in cs}, common.generate_types(lang), 0, use_rosette=True))
    if got[0] != "return":
        raise Violation(f"{what}: verification by Rosette raised {got[1]!r}")
    ok = got[1][0] == "unsat"
    if ok != a.startswith("(unsat)"):
        raise Violation(f"{what}: Rosette answered {a!r} and the verdict is {got[1]}")
    f = os.path.join(fakes.dir(), "synthesisLogs", f"{t['name']}_0_verif.rkt")
    txt = open(f).read()
    try:
        P = rktfile.Problem(txt, lib=rktlib.model_interp)
        if len(P.verifies) != 1 or P.synths:
            raise Violation(f"{what}: {len(P.verifies)} verification queries: {txt[-1500:]}")
        for e in t["env"]:
            env = dict(zip("xyz", e))
            table = {n: ([v[1] for v in params(n)], cand(n, 0, p)) for p, n in enumerate(t["preds"])}
            table["twice"] = (["x"], ["add", X, X])
            w = ref.ev(build.spec(vc), env, table)
            J = P.run({k: v for k, v in env.items()}, {}, [], {})
            _, g = P.check(J, P.verifies[0][1])
            if g != w:
                raise Violation(f"{what}: the file asserts {g} where the condition is {w} at {env}: {txt[-2500:]}")
    except rktfile.Bad as e:
        raise Violation(f"{what}: the verification problem is malformed: {e}: {txt[-2500:]}")
    except rkt.RktError as e:
        raise Violation(f"{what}: the verification problem fails: {e}: {txt[-2500:]}")
    c.label(f"answer:{a[:10]}")
    c.nontrivial()


@st.composite
def llm_task(draw):
    """answers of a language model: programs, each followed by invariants for it, with the verifier's verdict for each pair"""
    maxps, maxinv = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    ps = []
    for _ in range(maxps):
        if draw(st.integers(0, 4)) == 0:
            ps.append(["bad", draw(st.sampled_from(BADANSWER)), []])
        else:
            ps.append(["ok", draw(st.integers(0, 2)), [["bad", draw(st.sampled_from(BADANSWER))] if draw(st.integers(0, 4)) == 0 else
                                   ["ok", draw(st.sampled_from(REJECT * 2 + ["unsat"] * 6))] for _ in range(maxinv)]])
    return dict(kind="llm", name=draw(st.sampled_from(["task", "collapse_ps", "normal_blend_8"])), maxps=maxps, maxinv=maxinv, ps=ps,
                double=draw(st.booleans()), method=draw(st.sampled_from(["smt"] * 7 + ["none"])))


BADANSWER = ["", "I cannot do that", "def f(x):\n    return x\n", "def g(x: int) -> int:\n    for q in x:\n        pass\n    return x\n",
             "def f(x: int) -> int:\n    return undefined_fn(x)\n", "def f(x: int) -> int:\n  return x +\n"]


def llm_task_check(what, t, c):
    start(t)
    P, U, S, dsl, _ = llm.modules()
    fakes.dir()
    name = t["name"]
    answers, pairs, result, verdicts = [], [], None, []
    for a, x in enumerate(t["ps"]):
        if result is not None:
            break
        if x[0] == "bad":
            answers.append(x[1])
            continue
        psm = 10000 + 100 * a
        lam = f"vec_map([x], lambda p: p + {psm})[0]" if x[1] == 1 else f"x + {psm}"
        answers.append(f"def {name}(x: int) -> int:\n    return {lam}\n")
        for b, y in enumerate(x[2]):
            if y[0] == "bad":
                answers.append(y[1])
                continue
            invm = psm + b + 1
            invs = [f"def invariant{n}(i: int, x: int, y: int) -> bool:\n    return y <= x + {invm} and i >= 0\n" for n in (("1", "2") if t["double"] else ("",))]
            answers.append("\n".join(invs))
            verdicts.append(([psm, invm], y[1]))
            if t["method"] == "none" or y[1] == "unsat":
                result = answers.index(next(z for z in answers if f" {psm}" in z))
                break
    s = 'm=$(grep -oE "1[0-9]{4}" "$last" | sort -u | tr "\\n" " ")\necho "$m" >> calls\ncp "$last" verified.smt\ncase "$m" in\n'
    for ms, v in verdicts:
        s += f'"{ms[0]} {ms[1]} ") {verdict_script(v)} ;;\n'
    fakes.put("cvc5.sh", s + "*) echo sat ;;\nesac\n")
    x, y, i = I.Int("x"), I.Int("y"), I.Int("i")
    names = [f"{name}_inv0", f"{name}_inv1"][:2 if t["double"] else 1]
    asserts = [I.Bool(I.Implies(I.Call(n, I.Bool, i.src, x.src, y.src), I.Call(f"{name}_ps", I.Bool, x.src, y.src))) for n in names]
    import types
    driver = types.SimpleNamespace(var_tracker=types.SimpleNamespace(all=lambda: {x.src, y.src, i.src}), asserts=asserts)
    if t["double"]:
        info = U.DoubleLoopInfo(i, x, [x], [x], [y], [y, x])
    else:
        info = U.SingleLoopInfo(i, [x], [y])
    asked = []

    def answer(model, messages):
        asked.append(messages)
        if len(asked) > len(answers):
            raise Violation(f"{what}: the model is asked for {len(asked)} answers in {t}, expected {len(answers)}")
        return answers[len(asked) - 1]
    old = S.get_solution_from_llm
    S.get_solution_from_llm = answer
    out = []
    try:
        from metalift.utils.tenspiler import constants as K
        got = conclude(what, lambda: S.run_llm_synthesis_algorithm(
            driver=driver, loop_info=info, output_var=y, source_code="int f(int x) { return y; }", benchmark_name=name,
            llm_model=S.LLMModel.GPT, dsl_fns=list(K.TENSPILER_FNS), dsl_fn_name_to_axioms={}, max_num_ps_sols=t["maxps"],
            max_num_inv_sols=t["maxinv"], verification_method=S.VerificationMethod(t["method"])))
    finally:
        S.get_solution_from_llm = old
    desc = f"{what}, script {t}"
    if (got[0] == "return") != (result is not None) or isinstance(got[1], BUGS):
        raise Violation(f"{desc}: {'a verified' if result is not None else 'no verified'} solution, and synthesis gave {got[0]} {got[1]!r}")
    if len(asked) != len(answers):
        raise Violation(f"{desc}: the model was asked for {len(asked)} answers, expected {len(answers)}")
    judged = [] if t["method"] == "none" else [ms for ms, _ in verdicts]
    if calls() != judged:
        raise Violation(f"{desc}: the verifier was given {calls()}, expected {judged}")
    if judged:
        file = open(os.path.join(fakes.dir(), "verified.smt")).read()
        for n in names + [f"{name}_ps"]:
            if f"({n} " not in file.split("(assert")[0] and f"define-fun {n} " not in file and f"define-fun-rec {n} " not in file:
                raise Violation(f"{desc}: {n} is not defined in the verified file\n{file[-1500:]}")
    c.label(f"llm:{got[0]}")
    if len(answers) > 2:
        c.nontrivial()


SUBS = [
    Sub("llm", history(llm_task), check, quick=240, thorough=4000, rule=RULE),
    Sub("rosette", history(rosette_task), check, quick=1200, thorough=15000, rule=RULE),
    Sub("sygus", history(sygus_task), check, quick=600, thorough=8000, rule=RULE),
    Sub("rosette-verify", history(check_task), check, quick=240, thorough=3000, rule=RULE),
]
