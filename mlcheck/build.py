"""Spec <-> metalift IR.  Import only after env.bootstrap()."""
import typing

from metalift import ir as I

from . import ref

BIN = {"add": I.Add, "sub": I.Sub, "mul": I.Mul, "div": I.Div, "mod": I.Mod, "eq": I.Eq, "lt": I.Lt,
       "le": I.Le, "gt": I.Gt, "ge": I.Ge, "and": I.And, "or": I.Or, "not": I.Not,
       "implies": I.Implies, "ite": I.Ite}
NAME = {v: k for k, v in BIN.items()}


def ty(t):
    if t == "Int":
        return I.Int
    if t == "Bool":
        return I.Bool
    if t == "Matrix":
        return I.Matrix[I.Int]
    if t == "Tensor3D":
        return I.Tensor3D[I.Int]
    if t[0] == "List":
        return I.List[ty(t[1])]
    if t[0] == "Set":
        return I.Set[ty(t[1])]
    if t[0] == "Tuple":
        return I.make_tuple_type(*[ty(x) for x in t[1]])
    if t[0] == "Fn":
        return I.make_fn_type(*[ty(x) for x in t[1]])
    raise ValueError(t)


def unty(t):
    if t is I.Int or t is int:
        return "Int"
    if t is I.Bool:
        return "Bool"
    o = typing.get_origin(t)
    a = typing.get_args(t)
    if o is I.Matrix or t is I.Matrix:
        return "Matrix"
    if o is I.Tensor3D or t is I.Tensor3D:
        return "Tensor3D"
    if o is I.List:
        return ["List", unty(a[0])]
    if o is I.Set:
        return ["Set", unty(a[0])]
    if o is I.Tuple or o is I.Fn:
        inner = typing.get_args(a[0]) if typing.get_origin(a[0]) is tuple else a[0]
        if len(inner) == 1 and isinstance(inner[0], tuple):
            inner = inner[0]
        return ["Tuple" if o is I.Tuple else "Fn", [unty(x) for x in inner]]
    raise ValueError(f"unty {t!r}")


def make_ctx():
    return {}


def expr(s, fns=None):
    """spec -> metalift Expr, using the raw constructors.  fns: name -> FnDecl (for fnref)."""
    op = s[0]
    b = lambda x: expr(x, fns)
    if op == "var":
        return I.Var(s[1], ty(s[2]))
    if op == "lit":
        return I.Lit(s[1], ty(s[2]))
    if op == "call":
        return I.Call(s[1], ty(s[2]), *[b(x) for x in s[3:]])
    if op == "callv":
        return I.CallValue(b(s[1]), *[b(x) for x in s[2:]])
    if op == "tuple":
        return I.TupleExpr(*[b(x) for x in s[1:]])
    if op == "tget":
        return I.Call("tupleGet", ty(typ(s)), b(s[1]), b(s[2]))
    if op == "let":
        return I.Let(b(s[1]), b(s[2]), b(s[3]))
    if op == "lambda":
        return I.Lambda(ty(s[1]), b(s[2]), *[b(x) for x in s[3:]])
    if op == "fnref":
        if fns and s[1] in fns:
            return fns[s[1]]
        return I.Var(s[1], ty(s[2]))
    if op == "choose":
        return I.Choose(*[b(x) for x in s[1:]])
    return BIN[op](*[b(x) for x in s[1:]])


def typ(s):
    op = s[0]
    if op in ("var", "lit", "call", "fnref"):
        return s[2]
    if op in ("add", "sub", "mul", "div", "mod"):
        return "Int"
    if op in ("eq", "lt", "le", "gt", "ge", "and", "or", "not", "implies"):
        return "Bool"
    if op == "ite":
        return typ(s[2])
    if op == "tuple":
        return ["Tuple", [typ(x) for x in s[1:]]]
    if op == "tget":
        return typ(s[1])[1][s[2][1]]
    if op == "let":
        return typ(s[3])
    if op == "callv":
        return typ(s[1])[1][0]
    if op == "choose":
        return typ(s[1])
    if op == "lambda":
        return ["Fn", [s[1]] + [p[2] for p in s[3:]]]
    raise ValueError(op)


def spec(e):
    """metalift Expr/Object -> spec, reading the public structure."""
    if isinstance(e, I.Object):
        return spec(e.src)
    if isinstance(e, bool):
        return ["lit", e, "Bool"]
    if isinstance(e, int):
        return ["lit", e, "Int"]
    if isinstance(e, I.Var):
        return ["var", e.args[0], unty(e.type)]
    if isinstance(e, I.Lit):
        return ["lit", e.args[0], unty(e.type)]
    if isinstance(e, (I.FnDecl, I.FnDeclRecursive)):
        return ["fnref", e.args[0], unty(e.type)]
    if isinstance(e, I.CallValue):
        return ["callv"] + [spec(x) for x in e.args]
    if isinstance(e, I.Call):
        if e.args[0] == "tupleGet":
            return ["tget", spec(e.args[1]), spec(e.args[2])]
        if e.args[0] == "make-tuple":
            return ["tuple"] + [spec(x) for x in e.args[1:]]
        if e.args[0] == "ite":
            return ["ite"] + [spec(x) for x in e.args[1:]]
        return ["call", e.args[0], unty(e.type)] + [spec(x) for x in e.args[1:]]
    if isinstance(e, I.TupleExpr):
        return ["tuple"] + [spec(x) for x in e.args]
    if isinstance(e, I.TupleGet):
        return ["tget"] + [spec(x) for x in e.args]
    if isinstance(e, I.Let):
        return ["let"] + [spec(x) for x in e.args]
    if isinstance(e, I.Choose):
        return ["choose"] + [spec(x) for x in e.args]
    if isinstance(e, I.Lambda):
        return ["lambda", unty(e.type)[1][0]] + [spec(x) for x in e.args]
    for c, n in NAME.items():
        if isinstance(e, c):
            return [n] + [spec(x) for x in e.args]
    raise ValueError(f"spec: {type(e)} {e!r}")


def decl(d):
    """d = [kind, name, ret, body, params..]; kind 'rec' or 'fn'; body None = uninterpreted."""
    cls = I.FnDeclRecursive if d[0] == "rec" else I.FnDecl
    return cls(d[1], ty(d[2]), None if d[3] is None else expr(d[3]), *[expr(p) for p in d[4:]])


def undecl(f):
    k = "rec" if isinstance(f, I.FnDeclRecursive) else "fn"
    return [k, f.args[0], unty(f.return_type()), spec(f.args[1])] + [spec(p) for p in f.args[2:]]


def fn_table(decls):
    return {d[1]: ([p[1] for p in d[4:]], d[3]) for d in decls if d[3] is not None}
