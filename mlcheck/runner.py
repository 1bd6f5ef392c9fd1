"""Drives the checks.

A check module (mlcheck/checks/<id>.py) declares

    PROPERTY = "P07"
    SUBS = [Sub(name, strategy_factory, check, quick=N, thorough=M), ...]

where `strategy_factory()` gives a Hypothesis strategy of JSON-able cases and `check(case, c)` runs the
code under test on one case against its oracle.  It raises Violation for a real violation; `c` is a
Case on which it records what the case exercised (c.nontrivial(), c.label("x")).  Any other exception is a
harness error (exit 2), except inside `with sut():`, which turns an exception of the code under test
into a Violation.
"""
import argparse
import collections
import concurrent.futures as futures
import concurrent.futures.process
import contextlib
import hashlib
import importlib
import io
import json
import resource
import multiprocessing
import os
import signal
import sys
import time
import traceback

from . import env

NPROC = int(os.environ.get("MLCHECK_PROCS", "8"))


class Violation(Exception):
    pass


class CaseTimeout(Exception):
    """A case took too long; inside sut() that is a violation (the code under test hangs)."""


MEMORY_LIMIT = int(3.7 * (1 << 30))
CASE_LIMIT = float(os.environ.get("MLCHECK_CASE_LIMIT", "60"))


def _alarm(*_):
    raise CaseTimeout(f"no answer within {CASE_LIMIT:.0f} s")


class Discard(Exception):
    """The case says nothing (e.g. outside the agreed domain); counted, never a verdict."""


@contextlib.contextmanager
def sut(what="", allow=()):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    except (Violation, Discard, MemoryError):
        raise
    except allow:
        raise
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        for fr in tb:
            if fr.filename.startswith(env.REPO):
                where = f"{os.path.relpath(fr.filename, env.REPO)}:{fr.name}"
        raise Violation(f"{what}: raised {type(e).__name__}: {str(e)[:300]} [{where}]") from e


class Case:
    def __init__(self):
        self.labels = []
        self.nt = False

    def nontrivial(self, flag=True):
        self.nt = self.nt or bool(flag)

    def label(self, *ls):
        self.labels.extend(ls)


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, rule="", budget=120.0,
                 machine=False, shards=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.budget = budget
        self.shards = shards


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def note(modname, subname, k):
    """Leave the case where the parent finds it should this process die on it."""
    with open(os.path.join(env.scratch(), f"case.{os.getpid()}"), "w") as f:
        f.write(json.dumps([modname, subname, k]))


def dead_case(ctx, pids):
    """The case on which a worker died, if a fresh process dies on it as well -> (sub, case, exit code) or None."""
    for pid in pids:
        p = os.path.join(env.scratch(), f"case.{pid}")
        if not os.path.exists(p):
            continue
        modname, subname, k = json.load(open(p))
        case = json.loads(k)

        def again():
            sub = [s for s in importlib.import_module(modname).SUBS if s.name == subname][0]
            signal.alarm(int(CASE_LIMIT) + 5)
            try:
                sub.check(case, Case())
            except BaseException:  # noqa
                pass
            os._exit(0)

        w = ctx.Process(target=again)
        w.start()
        w.join(CASE_LIMIT + 20)
        if w.exitcode not in (0, None, -signal.SIGALRM):
            return subname, case, w.exitcode
    return None


def _run_shard(job):
    """One Hypothesis run; returns a plain dict."""
    modname, subname, shard, n, seed, tier, budget, exclude = job
    mod = importlib.import_module(modname)
    sub = [s for s in mod.SUBS if s.name == subname][0]
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    t0 = time.time()
    st = dict(evaluations=0, discarded=0, skipped=0, nontrivial=0)
    labels = collections.Counter()
    distinct = set()
    samples = []
    failing = {}  # canon -> msg
    first_fail_t = [None]
    last = [None]

    def body(case):
        k = canon(case)
        now = time.time()
        if first_fail_t[0] is None:
            if now - t0 > budget:
                st["skipped"] += 1
                return
        elif now - first_fail_t[0] > 45:  # stop shrinking: only known failures fail from here on
            if k in failing:
                last[0] = (case, failing[k])
                raise Violation(failing[k])
            return
        c = Case()
        st["evaluations"] += 1
        note(modname, subname, k)
        signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
        try:
            sub.check(case, c)
        except (Discard, CaseTimeout, MemoryError) as e:
            st["discarded"] += 1
            if isinstance(e, CaseTimeout):
                st["timeouts"] = st.get("timeouts", 0) + 1
            return
        except Violation as v:
            if k in exclude:
                st["known"] = st.get("known", 0) + 1
                return
            if first_fail_t[0] is None:
                first_fail_t[0] = time.time()
            failing[k] = str(v)
            last[0] = (case, str(v))
            raise
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            if c.nt:
                distinct.add(hashlib.blake2b(k.encode(), digest_size=8).hexdigest())
                if len(samples) < 3 and len(k) < 3000:
                    samples.append(case)
            for l in c.labels:
                labels[l] += 1

    hseed = int.from_bytes(
        hashlib.blake2b(f"{seed}/{subname}/{shard}".encode(), digest_size=6).digest(), "big")
    err = None
    fail = None
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, resource.getrlimit(resource.RLIMIT_AS)[1]))
    try:
        test = hypothesis.seed(hseed)(
            settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                     phases=[Phase.generate, Phase.shrink],
                     suppress_health_check=list(HealthCheck), print_blob=False,
                     derandomize=False)(given(sub.strategy())(body)))
        with contextlib.redirect_stderr(io.StringIO()):
            test()
    except Violation as v:
        fail = last[0] or (None, str(v))
    except BaseException as e:  # noqa
        if failing:  # e.g. Flaky: the code under test behaved differently on a second run
            k = min(failing, key=len)
            fail = (json.loads(k), failing[k] + f" (not reproduced on an immediate re-run: {type(e).__name__})")
        elif isinstance(e, KeyboardInterrupt):
            raise
        else:
            err = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
    return dict(sub=subname, shard=shard, st=st, labels=dict(labels), distinct=sorted(distinct),
                samples=samples, fail=fail, err=err, wall=time.time() - t0)


def load_known():
    p = os.path.join(env.VERIF, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)["findings"]
    return []


def write_replay(pid, sub, case, msg):
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b((pid + sub + canon(case)).encode(), digest_size=5).hexdigest()
    p = os.path.join(d, f"{pid}-{sub}-{h}.json")
    with open(p, "w") as f:
        json.dump(dict(property=pid, sub=sub, case=case, message=msg,
                       command=f"./check {pid} --replay {p}"), f, indent=1, default=str)
    return p


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if os.environ.get("MLCHECK_HS") != "1":  # set orders in the code under test: a function of the seed
        os.environ["MLCHECK_HS"] = "1"
        os.environ["PYTHONHASHSEED"] = str(a.seed % 4000000000)
        os.execv(sys.executable, [sys.executable, "-m", "mlcheck"] + (argv or sys.argv[1:]))
    t0 = time.time()
    pid = a.property
    env.scratch()  # before the workers start
    env.bootstrap()
    modname = f"mlcheck.checks.{pid.lower()}"
    try:
        mod = importlib.import_module(modname)
    except Violation as v:
        print(f"import of the code under test failed: {v}")
        return 2
    assert mod.PROPERTY == pid
    if hasattr(mod, "setup"):
        try:
            mod.setup()
        except Violation as v:
            p = write_replay(pid, "setup", None, str(v))
            print(f"  {v}")
            print(f"VIOLATION property={pid} replay={p}")
            return 1
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        if r["sub"] == "setup":
            print("setup passed")
            return 0
        sub = [s for s in mod.SUBS if s.name == r["sub"]][0]
        try:
            sub.check(r["case"], Case())
        except Violation as v:
            print(f"  {v}")
            print(f"VIOLATION property={pid} replay={a.replay}")
            return 1
        except Discard as d:
            print("case discarded:", d)
        print("replay: property held")
        return 0

    # listed findings: each is probed, reported if it still fails, and its exact case excluded
    exclude = collections.defaultdict(set)
    known_lines = []
    for k in load_known():
        if k["property"] != pid or k.get("status") != "known":
            continue
        sub = [s for s in mod.SUBS if s.name == k["sub"]][0]
        exclude[k["sub"]].add(canon(k["case"]))
        try:
            sub.check(k["case"], Case())
        except Violation as v:
            known_lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
        except Discard:
            pass
    for l in known_lines:
        print(l)

    jobs = []
    for s in mod.SUBS:
        if a.sub and s.name != a.sub:
            continue
        n = int((s.quick if a.tier == "quick" else s.thorough) * a.scale)
        shards = s.shards or NPROC
        if n < shards * 5:
            shards = max(1, n // 5)
        per = max(1, n // shards)
        budget = s.budget if a.tier == "quick" else 600
        for i in range(shards):
            jobs.append((modname, s.name, i, per, a.seed, a.tier, budget, exclude[s.name]))
    jobs.sort(key=lambda j: j[2])
    results = []
    fails = []
    ctx = multiprocessing.get_context("fork")
    errs = []
    if len(jobs) == 1 or NPROC == 1:
        it = map(_run_shard, jobs)
        pool = None
    else:
        pool = futures.ProcessPoolExecutor(NPROC, mp_context=ctx)
        fs = [pool.submit(_run_shard, j) for j in jobs]
        workers = dict(pool._processes)
        it = (f.result() for f in futures.as_completed(fs))
    try:
        for r in it:
            results.append(r)
            if r["err"]:
                errs.append(r)
            if r["fail"]:
                fails.append(r)
                break
    except futures.process.BrokenProcessPool:  # a worker died
        time.sleep(0.5)
        dead = dead_case(ctx, [p for p, w in workers.items() if w.exitcode not in (0, None, -signal.SIGTERM)])
        if dead:
            fails.append(dict(sub=dead[0], fail=(dead[1], f"the process running the code under test dies (exit code {dead[2]})")))
        else:
            errs.append(dict(sub="?", err="a worker process died: " + str({p: w.exitcode for p, w in workers.items()})))
    finally:
        if pool:
            pool.shutdown(wait=False, cancel_futures=True)
            for w in workers.values():
                w.kill()
    subs = {}
    for s in mod.SUBS:
        rs = [r for r in results if r["sub"] == s.name]
        lab = collections.Counter()
        dist = set()
        ev = collections.Counter()
        samples = []
        for r in rs:
            lab.update(r["labels"])
            dist.update(r["distinct"])
            ev.update(r["st"])
            samples += r["samples"][:1]
        subs[s.name] = dict(evaluations=ev["evaluations"], discarded=ev["discarded"], timeouts=ev["timeouts"],
                            skipped_over_budget=ev["skipped"], distinct_nontrivial=len(dist),
                            classes=dict(sorted(lab.items())), rule=s.rule,
                            cpu_s=round(sum(r["wall"] for r in rs), 1), samples=samples[:3])
    evd = dict(
        property=pid, tier=a.tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=sum(x["evaluations"] for x in subs.values()),
            distinct_nontrivial=sum(x["distinct_nontrivial"] for x in subs.values()),
            rule=getattr(mod, "RULE", "") + " | " + "; ".join(f"{s.name}: {s.rule}" for s in mod.SUBS),
            samples=[dict(sub=n, case=c) for n, x in subs.items() for c in x["samples"][:2]],
            per_subcheck=subs, known_findings=known_lines,
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2), violations=len(fails))
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evd, f, indent=1, default=str)
    if a.v or True:
        for n, x in subs.items():
            print(f"{pid}/{n}: {x['evaluations']} cases, {x['distinct_nontrivial']} distinct non-trivial, "
                  f"{x['discarded']} discarded, {x['skipped_over_budget']} over budget, {x['cpu_s']} cpu s "
                  + (json.dumps(x["classes"]) if a.v else ""))
    if fails:
        for r in fails:
            case, msg = r["fail"]
            p = write_replay(pid, r["sub"], case, msg)
            print(f"  {r['sub']}: {msg}")
            print(f"  case: {canon(case)[:1500]}")
            print(f"VIOLATION property={pid} replay={p}")
        return 1
    if errs:
        print("harness error:\n" + errs[0]["sub"] + "\n" + errs[0]["err"])
        return 2
    vac = [n for n, x in subs.items() if x["evaluations"] and x["distinct_nontrivial"] < 2]
    if vac and not a.sub and a.scale >= 1:
        print("harness error: vacuous subcheck(s)", vac)
        return 2
    print(f"{pid}: held on everything explored ({evd['coverage']['evaluations']} cases, {evd['wall_s']} s)")
    return 0
