"""The Rosette grammar of a synthesis template derives exactly the template's candidate programs."""
from hypothesis import strategies as st

from metalift import ir as I

from .. import build, gens, rkt, template
from ..runner import Discard, Sub, Violation, sut

PROPERTY = "C14"
RULE = ("typed templates with nested, shared and repeated choices over all operators; the define-grammar text is parsed and the "
        "set of all programs it derives is compared with the set of programs obtained by resolving every choice of the template "
        "(each printed by itself), parameters in order; choosing arbitrarily gives a member of that set")
ASSUMPTIONS = ["grammars of at most 1500 derivations and 8 nested choices", "printing a choice-free expression is checked by C07"]

OPTS = [gens.Opts(nested=True), gens.Opts(tensor=False, matrix=False), gens.Opts(sets=False, matrix=False, tensor=False, tuples=False),
        gens.Opts(lists=False, matrix=False, tensor=False)]
NAMES = gens.VAR_NAMES
FNS = [("f", "Int", ["Int"]), ("helper", "Bool", ["Int", "Int"]), ("list_sum", "Int", [["List", "Int"]])]


@st.composite
def case(draw, opts=OPTS):
    o = draw(st.sampled_from(opts))
    vs = draw(gens.signature(o, names=draw(st.sampled_from([NAMES, NAMES, NAMES + template.NT_LIKE]))))
    t = draw(st.sampled_from(gens.scalar_types(o)))
    fns = FNS if draw(st.booleans()) else []
    if not o.lists:
        fns = [f for f in fns if f[0] != "list_sum"]
    return dict(name=draw(st.sampled_from(gens.FN_NAMES)), vars=vs, ty=t, body=draw(template.template(o, vs, t, fns)),
                choices=draw(st.booleans()))


def limits(case, c):
    s = case["body"]
    n = template.count(s)
    if n > 1500 or template.nested(s) > 8:
        raise Discard("too many derivations")
    return n


def labels(case, c, n):
    s = case["body"]
    chs = [repr(x) for x in subs(s) if x[0] == "choose"]
    if n > 1:
        c.nontrivial()
    c.label("derivations:" + ("1" if n == 1 else "2-9" if n < 10 else "10-99" if n < 100 else "100+"),
            *(["shared"] if len(set(chs)) < len(chs) else []), f"nested:{template.nested(s)}")


def subs(s):
    yield s
    if s[0] not in ("var", "lit"):
        for x in s[template.HDR.get(s[0], 1):]:
            yield from subs(x)


def read_grammar(text, name):
    """-> (params, alts)"""
    try:
        fs = rkt.parse(text)
    except rkt.RktError as e:
        raise Violation(f"the grammar is not one Racket form: {e}: {text[:500]}")
    if len(fs) != 1 or not isinstance(fs[0], list) or fs[0][:1] != ["define-grammar"]:
        raise Violation(f"not one define-grammar: {text[:500]}")
    g = fs[0]
    head = g[1]
    if head[0] != name + "_gram":
        raise Violation(f"the grammar is called {head[0]}")
    rules = {}
    for r in g[2:]:
        if len(r) != 2:
            raise Violation(f"bad rule {r}")
        if r[0] in rules:
            raise Violation(f"two rules for {r[0]}")
        rules[r[0]] = r[1]
    if not rules:
        raise Violation("the grammar has no rules")
    clash = set(rules) & set(head[1:])
    if clash:
        raise Violation(f"parameter and rule have the same name {sorted(clash)}: {text[:400]}")

    def alts(x):
        if isinstance(x, list) and len(x) == 1 and isinstance(x[0], str) and x[0] in rules:
            return x[0], [rules[x[0]]]
        if isinstance(x, list) and x and x[0] == "choose":
            return None, x[1:]
        return None
    return head[1:], [g[2][0]], alts


def check(case, c):
    n = limits(case, c)
    with sut("building"):
        e = build.expr(case["body"])
        before = repr(e)
        s = I.Synth(case["name"], e, *[build.expr(v) for v in case["vars"]])
    ch = {} if case["choices"] else None
    with sut("Synth.to_rosette"):
        text = s.to_rosette(ch)
        again = s.to_rosette({} if case["choices"] else None)
    if again != text:
        raise Violation(f"the grammar depends on earlier calls: {text} then {again}")
    if repr(e) != before or build.spec(e) != case["body"]:
        raise Violation(f"emitting the grammar changed the template {before} to {e!r}")
    params, start, alts = read_grammar(text, case["name"])
    if params != [v[1] for v in case["vars"]]:
        raise Violation(f"grammar parameters {params}, template parameters {[v[1] for v in case['vars']]}")
    got = template.language(start, alts)
    res = template.resolutions(case["body"])
    want = {}
    for r in res:
        with sut("printing a resolved candidate"):
            t = build.expr(r).to_rosette()
        want[template.fz(rkt.parse(t)[0])] = t
    if got != set(want):
        miss = [t for k, t in want.items() if k not in got][:3]
        extra = [show(x) for x in got if x not in want][:3]
        raise Violation(f"template {before}: grammar lacks {miss} and has the extra programs {extra}: {text}")
    with sut("chooseArbitrarily"):
        a = build.spec(e.chooseArbitrarily())
    if a not in res:
        raise Violation(f"choosing arbitrarily from {before} gives {a}, which is not one of its candidates")
    labels(case, c, n)


def show(x):
    return "(" + " ".join(map(show, x)) + ")" if isinstance(x, tuple) and not (len(x) == 2 and isinstance(x[0], str)) else str(x[1])


SUBS = [Sub("grammar", case, check, 2500, 60000, rule="non-trivial: the template has more than one resolution")]
