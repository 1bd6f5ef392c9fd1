"""The block-normalising pass built from the repository, and a parser and interpreter of the LLVM IR subset used here."""
import os
import re
import subprocess

from . import env
from .runner import Violation

BIN = "/usr/lib/llvm-14/bin"
OPT = os.path.join(BIN, "opt")
_so = None


def build_pass():
    """Compile llvm-pass from the working tree into the scratch directory; called once, before the workers start."""
    global _so
    d = os.path.join(env.scratch(), "pass")
    e = {**os.environ, "CC": "/usr/bin/gcc", "CXX": "/usr/bin/g++"}
    for cmd in (["cmake", "-S", os.path.join(env.REPO, "llvm-pass"), "-B", d, "-DLLVM_DIR=/usr/lib/llvm-14/cmake"],
                ["cmake", "--build", d, "-j8"]):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
        if r.returncode:
            raise RuntimeError("building the pass failed:\n" + r.stdout[-3000:])
    for dp, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(".so") and "EmptyBlock" in f:
                _so = os.path.join(dp, f)
    if _so is None:
        raise RuntimeError("the pass was not built")


def opt(text, *flags, load=True):
    """Run opt on a module given as text -> (output, error text)."""
    if load and _so is None:
        build_pass()
    a = [OPT, "-enable-new-pm=0"] + (["-load", _so] if load else []) + list(flags) + ["-"]
    r = subprocess.run(a, input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=50)
    if r.returncode:
        return None, r.stderr[:1500]
    return r.stdout, None


# ---------------------------------------------------------------- parsing
class Fn:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret
        self.blocks = {}        # name -> [instruction]

    def succs(self, b):
        t = self.blocks[b][-1]
        if t["op"] == "br":
            return [t["to"]]
        if t["op"] == "cbr":
            return [t["then"], t["else"]]
        if t["op"] == "switch":
            return [t["default"]] + [x for _, x in t["cases"]]
        return []

    def preds(self):
        p = {b: set() for b in self.blocks}
        for b in self.blocks:
            for s in self.succs(b):
                p[s].add(b)
        return p


def split(s):
    """Split at top-level commas."""
    out, depth, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q and ch in "([{<":
            depth += 1
        if not q and ch in ")]}>":
            depth -= 1
        if ch == "," and depth == 0 and not q:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def unq(n):
    return n[1:-1] if n.startswith('"') else n


def val(tok):
    """'%x' -> ('reg', 'x'); '5' -> ('const', 5)"""
    tok = tok.strip()
    if tok.startswith("%"):
        return ("reg", unq(tok[1:]))
    if tok in ("true", "false"):
        return ("const", tok == "true")
    return ("const", int(tok))


def tyval(s):
    """'i32 %x' -> (type, value)"""
    m = re.match(r'(.*\S)\s+(%(?:"[^"]*"|[\w.$-]+)|-?\d+|true|false)$', s.strip())
    if not m:
        raise ValueError(s)
    return m.group(1), val(m.group(2))


def lab(s):
    m = re.match(r'label\s+%("[^"]*"|[\w.$-]+)$', s.strip())
    return unq(m.group(1))


def parse_instr(l):
    m = re.match(r'%("[^"]*"|[\w.$-]+)\s*=\s*(.*)$', l)
    res, body = (unq(m.group(1)), m.group(2)) if m else (None, l)
    op, _, rest = body.partition(" ")
    rest = re.sub(r'(, ![\w.]+ !\d+)+$', "", rest.strip())
    i = dict(op=op, res=res, text=l)
    if op == "alloca":
        i["ty"] = split(rest)[0]
    elif op == "load":
        a = split(rest)
        i["ty"], i["ptr"] = a[0], tyval(a[1])[1]
    elif op == "store":
        a = split(rest)
        (i["ty"], i["val"]), i["ptr"] = tyval(a[0]), tyval(a[1])[1]
    elif op in ("add", "sub", "mul", "sdiv", "srem"):
        rest = re.sub(r"^((nsw|nuw|exact) )*", "", rest)
        a = split(rest)
        i["ty"], x = tyval(a[0])
        i["args"] = [x, val(a[1])]
    elif op == "icmp":
        i["pred"], _, rest = rest.partition(" ")
        a = split(rest)
        i["ty"], x = tyval(a[0])
        i["args"] = [x, val(a[1])]
    elif op in ("bitcast", "sext", "zext", "trunc"):
        a, b = rest.rsplit(" to ", 1)
        i["ty"], i["arg"] = tyval(a)
        i["to"] = b
    elif op == "select":
        i["args"] = [tyval(x)[1] for x in split(rest)]
    elif op == "phi":
        ty, _, r = rest.partition("[")
        i["ty"] = ty.strip()
        i["in"] = []
        for v, b in re.findall(r"\[\s*([^,\]]+),\s*%(\"[^\"]*\"|[\w.$-]+)\s*\]", "[" + r):
            i["in"].append((val(v), unq(b)))
    elif op in ("call", "tail"):
        i["op"] = "call"
        m = re.match(r'(?:call )?(.*?)@("[^"]*"|[\w.$-]+)\((.*)\)[^)]*$', rest)
        i["ty"], i["fn"] = m.group(1).strip(), unq(m.group(2))
        i["args"] = [tyval(re.sub(r" (noundef|nonnull|align \d+|dereferenceable\(\d+\)|sret(\([^)]*\))?)", "", x)) for x in split(m.group(3))]
    elif op == "br":
        a = split(rest)
        if len(a) == 1:
            i["to"] = lab(a[0])
        else:
            i["op"] = "cbr"
            i["cond"], i["then"], i["else"] = tyval(a[0])[1], lab(a[1]), lab(a[2])
    elif op == "switch":
        m = re.match(r"(.*?), label (%\S+) \[(.*)\]$", rest, re.S)
        i["ty"], i["cond"] = tyval(m.group(1))
        i["default"] = unq(m.group(2)[1:])
        i["cases"] = [(int(v), unq(b)) for v, b in re.findall(r"i\d+ (-?\d+), label %(\"[^\"]*\"|[\w.$-]+)", m.group(3))]
    elif op == "ret":
        i["val"] = None if rest == "void" else tyval(rest)[1]
    elif op == "unreachable":
        pass
    else:
        raise ValueError(l)
    return i


def parse(text):
    fns, cur, blk = {}, None, None
    lines = text.split("\n")
    k = 0
    while k < len(lines):
        l = lines[k].strip()
        k += 1
        l = re.sub(r"\s*;[^\"]*$", "", l) if not l.startswith(";") else ""
        if l.startswith("switch ") and "]" not in l:
            while "]" not in l:
                l += " " + lines[k].strip()
                k += 1
        if l.startswith("define"):
            m = re.match(r'define (.*?)@("[^"]*"|[\w.$-]+)\((.*)\)[^)]*\{$', l)
            ps = [re.sub(r" (noundef|nonnull|align \d+|dereferenceable\(\d+\)|noalias|sret(\([^)]*\))?)", "", x) for x in split(m.group(3))]
            cur = Fn(unq(m.group(2)), [(tyval(x)[0], tyval(x)[1][1]) for x in ps], m.group(1).strip().split(" ")[-1])
            fns[cur.name] = cur
            blk = None
        elif l == "}":
            cur = None
        elif cur is not None and l:
            m = re.match(r'("[^"]*"|[\w.$-]+):$', l)
            if m:
                blk = unq(m.group(1))
                cur.blocks[blk] = []
                continue
            if blk is None:
                blk = "<entry>"
                cur.blocks[blk] = []
            cur.blocks[blk].append(parse_instr(l))
    return fns


# ---------------------------------------------------------------- execution
class Ptr:
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v


class Elem:
    """Pointer to an element of a vector."""
    __slots__ = ("p", "i")

    def __init__(self, p, i):
        self.p, self.i = p, i

    @property
    def v(self):
        return self.p.v[self.i]

    @v.setter
    def v(self, x):
        l = list(self.p.v)
        l[self.i] = x
        self.p.v = tuple(l)


class Stuck(Exception):
    """Undefined behaviour, or the fuel is used up."""


def width(t):
    m = re.match(r"i(\d+)$", t)
    return int(m.group(1)) if m else 0


LIMIT = 2 ** 31


class Interp:
    """wrap: two's complement arithmetic; otherwise mathematical integers, stuck beyond 32 bits."""

    def __init__(self, fns, externals=None, wrap=False, fuel=200, on_block=None):
        self.fns, self.ext, self.wrap, self.fuel, self.on_block = fns, externals or {}, wrap, fuel, on_block

    def norm(self, ty, x):
        if isinstance(x, bool) or not isinstance(x, int):
            return x
        w = width(ty)
        if self.wrap and w:
            x &= (1 << w) - 1
            return x - (1 << w) if x >> (w - 1) and w > 1 else (bool(x) if w == 1 else x)
        if abs(x) >= LIMIT:
            raise Stuck("overflow")
        return x

    def run(self, name, args):
        f = self.fns[name]
        regs = {n: a for (t, n), a in zip(f.params, args)}
        blk, prev = next(iter(f.blocks)), None

        def get(v):
            if v[0] == "const":
                return v[1]
            if v[1] not in regs:
                raise Stuck("undefined register " + v[1])
            return regs[v[1]]

        while True:
            self.fuel -= 1
            if self.fuel < 0:
                raise Stuck("fuel")
            ins = f.blocks[blk]
            phis = [i for i in ins if i["op"] == "phi"]
            vals = []
            for i in phis:
                m = [v for v, b in i["in"] if b == prev]
                if not m:
                    raise Violation(f"the phi node {i['text']} has no entry for the predecessor {prev}")
                vals.append(get(m[0]))
            for i, v in zip(phis, vals):
                regs[i["res"]] = v
            if self.on_block:
                self.on_block(f, blk, regs, [regs[i["res"]] for i in phis])
            nxt = None
            for i in ins[len(phis):]:
                op = i["op"]
                if op == "alloca":
                    regs[i["res"]] = Ptr()
                elif op == "load":
                    x = get(i["ptr"]).v
                    if x is None:
                        raise Stuck("uninitialised")
                    regs[i["res"]] = x
                elif op == "store":
                    get(i["ptr"]).v = get(i["val"])
                elif op in ("add", "sub", "mul"):
                    a, b = (get(x) for x in i["args"])
                    regs[i["res"]] = self.norm(i["ty"], a + b if op == "add" else a - b if op == "sub" else a * b)
                elif op in ("sdiv", "srem"):
                    a, b = (get(x) for x in i["args"])
                    if b == 0 or (not self.wrap and (a < 0 or b < 0)):
                        raise Stuck("division")
                    q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                    regs[i["res"]] = self.norm(i["ty"], q if op == "sdiv" else a - b * q)
                elif op == "icmp":
                    a, b = (get(x) for x in i["args"])
                    p = i["pred"]
                    if p[0] == "u":
                        if not self.wrap and (a < 0 or b < 0):
                            raise Stuck("unsigned comparison of a negative number")
                        m = (1 << (width(i["ty"]) or 64)) - 1
                        a, b, p = a & m, b & m, "s" + p[1:]
                    regs[i["res"]] = {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}[p]
                elif op in ("sext", "bitcast"):
                    regs[i["res"]] = get(i["arg"])
                elif op == "zext":
                    x = get(i["arg"])
                    regs[i["res"]] = int(x) if isinstance(x, bool) else x & ((1 << width(i["ty"])) - 1)
                elif op == "trunc":
                    regs[i["res"]] = self.norm(i["to"], get(i["arg"]))
                elif op == "select":
                    c, a, b = (get(x) for x in i["args"])
                    regs[i["res"]] = a if c else b
                elif op == "call":
                    a = [get(v) for _, v in i["args"]]
                    g = self.ext.get(i["fn"])
                    if g is not None:
                        r = g(*a)
                    elif i["fn"] in self.fns:
                        r = self.run(i["fn"], a)[0]
                    else:
                        raise Stuck("unknown function")
                    if i["res"] is not None:
                        regs[i["res"]] = r
                elif op == "br":
                    nxt = i["to"]
                elif op == "cbr":
                    nxt = i["then"] if get(i["cond"]) else i["else"]
                elif op == "switch":
                    x = get(i["cond"])
                    nxt = next((b for v, b in i["cases"] if v == x), i["default"])
                elif op == "ret":
                    return (None if i["val"] is None else get(i["val"])), regs
                elif op == "unreachable":
                    raise Stuck("unreachable")
                else:
                    raise ValueError(op)
            prev, blk = blk, nxt
