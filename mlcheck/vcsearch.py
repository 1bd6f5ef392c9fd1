"""Soundness/completeness of a verification condition against recorded executions (shared by both front ends).

A run is (trace, result): trace = [(loop number, {variable: value})..] of loop-head visits.
"""
import contextlib
import itertools

from . import ref
from .pyfront import UNDEF, default, kleene, pred_calls


def head(pred_args, vals, state, alias):
    """Do the actual predicate arguments describe this recorded state?  Names the state lacks are free."""
    r = True
    for (n, _), v in zip(pred_args, vals):
        n = alias(n)
        if n not in state:
            continue
        if v is UNDEF:
            r = None
        elif not ref.same(v, state[n]):
            return False
    return r


def any3(xs):
    r = False
    for x in xs:
        if x:
            return True
        if x is None:
            r = None
    return r


def sources(v, inv_names, argnames, alias):
    """VC variable -> [(loop, source variable)] from the places where it is passed to an invariant."""
    out = {}
    for c in pred_calls(v.spec, inv_names):
        l = inv_names[c[1]]
        for (n, _), a in zip(v.preds[c[1]], c[3:]):
            if a[0] == "var" and a[1] not in argnames:
                s = out.setdefault(a[1], [])
                if (l, alias(n)) not in s:
                    s.append((l, alias(n)))
    return out


def free_vars(spec):
    return {x[1]: ["Tuple"] + list(ref.components(x[2])) if x[2][0] == "Tuple" else x[2] for x in ref.walk(spec) if x[0] == "var"}


def candidates(free, args, srcs, last, first=None, extra=(), cap=600):
    """Assignments that give each VC variable a value it had at the latest visit of a loop it belongs to."""
    names, pools = [], []
    for n, t in sorted(free.items(), key=lambda p: p[0]):
        if n in args:
            continue
        pool = []
        for l, s in srcs.get(n, []):
            if l in last and s in last[l] and not any(ref.same(last[l][s], x) for x in pool):
                pool.append(last[l][s])
        names.append(n)
        pools.append(pool or [default(t)])
    base = dict(args)
    for combo in itertools.islice(itertools.product(*pools), cap):
        yield {**base, **dict(zip(names, combo))}


def with_preds(fns, preds):
    """Predicates as functions, for those that occur inside values (conditions of merged variables)."""
    def fn(q):
        def f(*vals):
            r = q(list(vals))
            if r is None:
                raise ref.Undef("predicate")
            return r
        return f
    return {**fns, **{n: fn(q) for n, q in preds.items()}}


def refutes(v, inv_names, ps_name, args, run, subset, fns, alias, argvals, retpos=-1, cap=600, extra=None):
    """Some assignment must falsify the VC when invariant n holds exactly on the visits in `subset` and the
    postcondition rejects exactly this run's result.  -> (found, number of assignments tried)"""
    trace, result = run
    allowed = {}
    for k, (l, stt) in enumerate(trace):
        if subset(k, l):
            allowed.setdefault(l, []).append(stt)
    last = {}
    for l, stt in trace:
        if not any(all(ref.same(stt[n], o[n]) for n in stt if n in o) for o in allowed.get(l, [])):
            break
        last[l] = stt
    preds = {}
    for name, l in inv_names.items():
        def inv(vals, l=l, pa=v.preds[name]):
            return any3(head(pa, vals, s, alias) for s in allowed.get(l, []))
        inv.partial = True
        preds[name] = inv

    def ps(vals):
        r = vals[retpos]
        rest = vals[:retpos] if retpos == -1 else vals[:retpos] + vals[retpos + 1:]
        return not (ref.same(r, result) and all(ref.same(a, b) for a, b in zip(rest, argvals)))

    preds[ps_name] = ps
    preds.update(extra or {})
    fns = with_preds(fns, preds)
    n = 0
    srcs = sources(v, inv_names, args, alias)
    for env in candidates(free_vars(v.spec), args, srcs, last, cap=cap):
        n += 1
        r = kleene(v.spec, env, preds, fns)
        if r is None:   # depends on operations of paths not taken: any meaning of them has to do
            with contextlib.suppress(ref.Undef):
                r = ref.ev(v.spec, env, fns, ref.Fuel(5_000_000), total=True)
        if r is False:
            return True, n, env
    return False, n, None
