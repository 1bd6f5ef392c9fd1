"""Functions in the LLVM front end's instruction set: generator (clang -O0 style and arbitrary control flow), execution
with a loop-head trace, and the verification condition the front end makes for them.

prog = {"text": module, "fn": symbol, "name": demangled name, "params": [[name, type]..], "vars": {alloca: type},
        "ret": type, "style": ..}
"""
import collections
import contextlib
import glob
import os
import re
import subprocess

from hypothesis import strategies as st

from . import build, env as menv, llvmir as L, ref
from .pyfront import uf
from .runner import Violation, sut

LI, SI, TI, MI = ["List", "Int"], ["Set", "Int"], ["Tuple", "Int", "Int"], ["List", ["List", "Int"]]
VEC = '%"class.std::__1::vector"'
V = "_ZNSt3__16vectorIiNS_9allocatorIiEEE"
CTOR, PUSH, SIZE, AT = V + "C1Ev", V + "9push_backERKi", "_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv", V + "ixEm"
DTOR = V + "D1Ev"
MAT = '%"class.std::__1::vector.0"'
M = "_ZNSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEE"
MCTOR, MPUSH, MSIZE, MAT_AT = M + "C1Ev", M + "9push_backERKS3_", "_ZNKSt3__16vectorINS0_IiNS_9allocatorIiEEEENS1_IS3_EEE4sizeEv", M + "ixEm"
MDTOR, RPUSH = M + "D1Ev", V + "9push_backEOi"
CLEAR, POP, HELPER, BUMP = V + "5clearEv", V + "8pop_backEv", "_Z6helperRNSt3__16vectorIiNS_9allocatorIiEEEE", "_Z4bumpPi"
SQRT, EXP = "_Z12integer_sqrti", "_Z11integer_expi"
DECLS = f"""%struct.list = type {{ i32 }}
%struct.set = type {{ i32 }}
%struct.tup = type {{ i32 }}
{VEC} = type {{ i32 }}
declare %struct.list* @newList()
declare i32 @listLength(%struct.list*)
declare i32 @listGet(%struct.list*, i32)
declare %struct.list* @listAppend(%struct.list*, i32)
declare %struct.set* @set_create()
declare %struct.set* @set_add(%struct.set*, i32)
declare %struct.set* @set_remove(%struct.set*, i32)
declare i32 @set_contains(%struct.set*, i32)
declare %struct.tup* @_Z9MakeTupleIJiiEEP3tupIJDpT_EES2_(i32, i32)
declare i32 @_Z8tupleGetIJiiEEiP3tupIJDpT_EEi(%struct.tup*, i32)
declare i32 @uf(i32, i32)
declare void @{CTOR}({VEC}*)
declare void @{DTOR}({VEC}*)
declare void @{PUSH}({VEC}*, i32*)
declare i64 @{SIZE}({VEC}*)
declare i32* @{AT}({VEC}*, i64)
{MAT} = type {{ {VEC}* }}
declare void @{RPUSH}({VEC}*, i32*)
declare void @{MCTOR}({MAT}*)
declare void @{MDTOR}({MAT}*)
declare void @{MPUSH}({MAT}*, {VEC}*)
declare i64 @{MSIZE}({MAT}*)
declare {VEC}* @{MAT_AT}({MAT}*, i64)
declare void @{CLEAR}({VEC}*)
declare void @{POP}({VEC}*)
declare void @{HELPER}({VEC}*)
declare void @{BUMP}(i32*)
declare i32 @{SQRT}(i32)
declare i32 @{EXP}(i32)
"""
TY = {"Int": "i32", "Bool": "i1", "l": "%struct.list*", "s": "%struct.set*", "t": "%struct.tup*", "v": VEC, "m": MAT}
MLT = {"Int": "Int", "Bool": "Bool", "l": LI, "s": SI, "t": TI, "v": LI, "m": MI}
NAMES = {"Int": ["x", "y", "z", "i", "acc", "x_1", "i_1"], "Bool": ["b", "flag"], "l": ["out", "lst"], "s": ["seen"],
         "t": ["pair"], "v": ["vec", "res"], "m": ["mat", "grid"]}
BLK = ["for.cond", "for.body", "for.inc", "while.cond", "while.body", "do.body", "if.then", "if.else", "cleanup", "latch.x", "bb",
       "my_latch", "loop", "header"]


# ---------------------------------------------------------------- generator
class G:
    def __init__(self, draw, kinds, name="test", loops=True, style=None, params=None):
        self.draw, self.kinds, self.loops = draw, kinds, loops
        self.nreg = 0
        self.blocks, self.cur = [], None
        self.used = {}
        self.refs = False       # writes through pointers?
        self.budget = draw(st.integers(3, 14))
        self.depth = 0
        self.targets = []       # (continue block, break block)
        self.name = name
        pool = {k: list(v) for k, v in NAMES.items()}
        self.params, self.vars = [], {}
        pn = ["n", "m", "k"]
        if params is None:
            params = []
            for _ in range(draw(st.integers(0, 3))):
                params.append(draw(st.sampled_from(["Int"] * 3 + [k for k in kinds if k not in ("t",)])))
        pnames = {"Int": ["n", "m", "a"], "Bool": ["p", "q", "c0"], "l": ["ls", "data", "in"], "s": ["st", "ss", "sq"],
                  "v": ["in", "arg", "vv"], "m": ["base", "active", "mm"]}
        taken = set()
        for k in params:
            nm = next(x for x in pnames[k] if x not in taken)
            taken.add(nm)
            self.params.append((nm, k))
        if draw(st.booleans()):
            self.params.reverse()
        for _ in range(draw(st.integers(1, 4))):
            k = draw(st.sampled_from(["Int"] * 3 + kinds))
            if pool[k]:
                self.vars[pool[k].pop(0)] = k
        if not any(k == "Int" for k in self.vars.values()):
            self.vars["x"] = "Int"
        rk = ["Int"] * 3 + [k for k in kinds if k in ("l", "s", "v", "m", "m", "Bool")]
        self.ret = draw(st.sampled_from(rk))
        self.sret = self.ret in ("v", "m")
        if self.sret:
            self.vars["agg.result"] = self.ret
        self.nrvo = self.sret and draw(st.booleans())
        self.scoped = {}        # vectors declared inside loops
        self.live = []          # those in scope
        self.counters = []
        self.retstyle = draw(st.sampled_from(["multi", "slot"])) if not self.sret else "slot"

    def R(self, k):
        return self.draw(st.integers(0, k - 1))

    def pick(self, xs):
        return self.draw(st.sampled_from(xs))

    # -- emission
    def block(self, base=None):
        base = base or self.pick(BLK)
        self.used[base] = self.used.get(base, 0) + 1
        return base if self.used[base] == 1 else f"{base}{self.used[base]}"

    def start(self, name):
        self.blocks.append((name, []))
        self.cur = self.blocks[-1][1]

    def out(self, l):
        self.cur.append(l)

    def term(self, l):
        self.out(l)
        self.cur = None

    def reg(self):
        self.nreg += 1
        return f"%t{self.nreg}"

    def op(self, l):
        r = self.reg()
        self.out(f"{r} = {l}")
        return r

    def has(self, k):
        return [n for n, t in self.vars.items() if t == k] + [n for n in self.live if self.scoped[n] == k]

    def obj(self, k):
        """A register holding a list / set / tuple, or the vector pointer."""
        xs = [("v", n) for n in self.has(k)] + [("p", n) for n, t in self.params if t == k]
        if not xs:
            return None
        w, n = self.pick(xs)
        if w == "p" or k in ("v", "m"):
            return "%" + n
        return self.op(f"load {TY[k]}, {TY[k]}* %{n}")

    def index(self, d=1):
        k = self.R(12) if "m" in self.kinds else 11
        if k < 4:
            return str(self.R(4) // 3)
        if k < 10 and self.counters:
            r = self.op(f"load i32, i32* %{self.pick(self.counters)}")
        else:
            r = self.int(d)
        return self.op(f"sext i32 {r} to i64")

    def row(self):
        """A pointer to a vector, sometimes a row of a matrix."""
        m = self.obj("m") if self.R(3) else None
        if m is None:
            return self.obj("v")
        return self.op(f"call {VEC}* @{MAT_AT}({MAT}* {m}, i64 {self.index()})")

    def int(self, d=2):
        k = self.R(14) if d > 0 else self.R(5)
        if k == 0:
            return str(self.draw(st.integers(-2, 5)))
        if k < 4:
            xs = [("v", n) for n in self.has("Int")] + [("p", n) for n, t in self.params if t == "Int"]
            w, n = self.pick(xs)
            return "%" + n if w == "p" else self.op(f"load i32, i32* %{n}" + self.pick(["", ", align 4"]))
        if k < 9:
            o = self.pick(["add", "add", "add", "sub", "mul"])
            a, b = self.int(d - 1), self.int(d - 1)
            return self.op(f"{o} {self.pick(['nsw ', ''])}i32 {a}, {b}")
        if k == 9:
            a = self.int(d - 1)
            return self.op(f"{self.pick(['sdiv', 'srem'])} i32 {a}, {self.pick(['2', '3'])}")
        if k == 10:
            if self.R(2):
                return self.op(f"call i32 @{self.pick([SQRT, EXP])}(i32 {self.int(d - 1)})")
            return self.op(f"call i32 @uf(i32 {self.int(d - 1)}, i32 {self.int(d - 1)})")
        kind = self.pick(self.kinds + ["Int"])
        if kind == "m" and self.R(3) == 0 and self.obj("m"):
            r = self.op(f"call i64 @{MSIZE}({MAT}* {self.obj('m')})")
            return self.op(f"trunc i64 {r} to i32")
        o = self.row() if kind in ("v", "m") else self.obj(kind) if kind in ("l", "t") else None
        if o is None:
            return self.int(0)
        if kind == "l":
            if self.R(2):
                return self.op(f"call i32 @listLength({TY['l']} {o})")
            i = self.int(d - 1)
            return self.op(f"call i32 @listGet({TY['l']} {o}, i32 {i})")
        if kind == "t":
            return self.op(f"call i32 @_Z8tupleGetIJiiEEiP3tupIJDpT_EEi({TY['t']} {o}, i32 {self.R(2)})")
        if self.R(2):
            r = self.op(f"call i64 @{SIZE}({VEC}* {o})")
            return self.op(f"trunc i64 {r} to i32")
        r = self.op(f"call i32* @{AT}({VEC}* {o}, i64 {self.index(d - 1)})")
        return self.op(f"load i32, i32* {r}")

    def cond(self):
        """An i1 value."""
        k = self.R(8)
        bs = [("v", n) for n in self.has("Bool")] + [("p", n) for n, t in self.params if t == "Bool"]
        if k == 0 and bs:
            w, n = self.pick(bs)
            return "%" + n if w == "p" else self.op(f"load i1, i1* %{n}")
        if k == 1 and "s" in self.kinds and self.obj("s"):
            o = self.obj("s")
            r = self.op(f"call i32 @set_contains({TY['s']} {o}, i32 {self.int(1)})")
            return self.op(f"icmp {self.pick(['ne', 'eq'])} i32 {r}, 0")
        if k == 2 and "v" in self.kinds and self.obj("v"):
            o = self.obj("v")
            i = self.int(1)
            i = self.op(f"sext i32 {i} to i64")
            r = self.op(f"call i64 @{SIZE}({VEC}* {o})")
            return self.op(f"icmp ult i64 {i}, {r}")
        a, b = self.int(1), self.int(1)
        return self.op(f"icmp {self.pick(['slt', 'slt', 'sle', 'sgt', 'sge', 'eq', 'ne'])} i32 {a}, {b}")

    def branch(self, t, f, d=1):
        """Branch on a condition with short-circuit operators, as clang lowers them."""
        if d and self.R(5) == 0:
            mid = self.block()
            if self.R(2):
                self.branch(mid, f, d - 1)
            else:
                self.branch(t, mid, d - 1)
            self.start(mid)
            self.branch(t, f, d - 1)
        elif d and self.R(6) == 0:
            self.branch(f, t, d - 1)
        else:
            c = self.cond() if self.R(30) else self.pick(["true", "false"])
            self.term(f"br i1 {c}, label %{t}, label %{f}")

    def assign(self):
        n = self.pick(list(self.vars) + self.live * 2 + ([p for p, t in self.params if t in ("v", "m")] if self.writeparams else []))
        k = {**dict(self.params), **self.vars, **self.scoped}[n]
        if self.unknown and k in ("Int", "v") and self.R(4) == 3:
            f = BUMP if k == "Int" else self.pick([CLEAR, POP, HELPER])
            self.out(f"call void @{f}({TY[k]}* %{n})")
            self.refs = True
        elif k == "Int" and self.R(60) == 59:     # int *r = &n; *r = x;
            x = self.int()
            self.out(f"store i32* %{n}, i32** %ref")
            r = self.op("load i32*, i32** %ref")
            self.out(f"store i32 {x}, i32* {r}")
            self.refs = True
        elif k == "Int":
            x = self.int()
            self.out(f"store i32 {x}, i32* %{n}")
        elif k == "Bool":
            c = self.cond() if self.R(4) else self.pick(["true", "false"])
            self.out(f"store i1 {c}, i1* %{n}")
        elif k == "m" and self.R(25) == 24:     # m[i].push_back(x)
            self.refs = True
            xs = self.has("Int")
            r = self.op(f"call {VEC}* @{MAT_AT}({MAT}* %{n}, i64 {self.index()})")
            self.out(f"call void @{PUSH}({VEC}* {r}, i32* %{self.pick(xs)})")
        elif k == "m":
            r = self.row()
            if r is None:
                return
            self.out(f"call void @{MPUSH}({MAT}* %{n}, {VEC}* {r})")
        elif k == "v" and self.R(40) == 39:     # v[i] = x
            i, x = self.int(1), self.int(1)
            i = self.op(f"sext i32 {i} to i64")
            r = self.op(f"call i32* @{AT}({VEC}* %{n}, i64 {i})")
            self.out(f"store i32 {x}, i32* {r}")
            self.refs = True
        elif k == "v":
            if self.R(2):
                x = self.int(1)
                self.out(f"store i32 {x}, i32* %tmp")
                src = "%tmp"
            else:
                xs = self.has("Int")
                src = "%" + self.pick(xs)
            self.out(f"call void @{self.pick([PUSH, PUSH, RPUSH])}({VEC}* %{n}, i32* {src})")
        else:
            o = self.obj(k) if self.R(6) else None
            if k == "t":
                r = self.op(f"call {TY['t']} @_Z9MakeTupleIJiiEEP3tupIJDpT_EES2_(i32 {self.int(1)}, i32 {self.int(1)})")
            elif o is None:
                r = self.op(f"call {TY[k]} @{'newList' if k == 'l' else 'set_create'}()")
            elif self.R(6) == 0:
                r = o
            else:
                f = "listAppend" if k == "l" else self.pick(["set_add", "set_add", "set_remove"])
                r = self.op(f"call {TY[k]} @{f}({TY[k]} {o}, i32 {self.int(1)})")
            self.out(f"store {TY[k]} {r}, {TY[k]}* %{n}")

    def value(self):
        k = self.ret
        if k == "Int":
            return self.int()
        if k == "Bool":
            return self.cond()
        return self.obj(k) or self.op(f"call {TY[k]} @{'newList' if k == 'l' else 'set_create'}()")

    def do_return(self):
        if self.sret:
            self.term(f"br label %{self.retblock()}")
        elif self.retstyle == "multi":
            x = self.value()
            self.term(f"ret {TY[self.ret]} {x}")
        else:
            x = self.value()
            self.out(f"store {TY[self.ret]} {x}, {TY[self.ret]}* %retval")
            self.term(f"br label %{self.retblock()}")

    def retblock(self):
        if not hasattr(self, "retb"):
            self.retb = self.block("return")
        return self.retb

    def step(self, n):
        r = self.op(f"load i32, i32* %{n}")
        r = self.op(f"add nsw i32 {r}, 1")
        self.out(f"store i32 {r}, i32* %{n}")

    def stmts(self, n):
        for _ in range(n):
            if self.cur is None or self.budget <= 0:
                return
            self.budget -= 1
            k = self.R(12)
            if k < 5 or self.depth >= 3:
                self.assign()
            elif k < 8:
                t, e = self.block("if.then"), self.block("if.end")
                f = self.block("if.else") if self.R(2) else e
                self.depth += 1
                self.branch(t, f)
                self.start(t)
                self.stmts(1 + self.R(2))
                if self.cur is not None:
                    self.term(f"br label %{e}")
                if f != e:
                    self.start(f)
                    self.stmts(1 + self.R(2))
                    if self.cur is not None:
                        self.term(f"br label %{e}")
                self.depth -= 1
                self.start(e)
            elif k < 10 and self.loops:
                self.loop()
            elif k == 10 and self.targets:
                c, b = self.targets[-1]
                if self.R(2) and self.depth:
                    self.term(f"br label %{self.pick([c, b])}")
                else:
                    m = self.block()
                    self.branch(self.pick([c, b]), m)
                    self.start(m)
            elif k == 11 and self.depth and self.R(3) == 0:
                self.do_return()
            else:
                self.assign()

    def loop(self):
        kind = self.pick(["while", "while", "for", "do"])
        self.depth += 1
        i = self.pick(self.has("Int"))
        counted = self.R(8) > 0
        if counted and (kind == "for" or self.R(2)):
            self.out(f"store i32 {self.pick(['0', '0', '1', '-1'])}, i32* %{i}")
        cond, body, end = self.block(), self.block(), self.block()
        inc = self.block() if kind == "for" else None

        was = counted
        if was:
            self.counters.append(i)
        local = f"row_vec{len(self.scoped) or ''}" if "m" in self.kinds and self.R(5) > 1 else None

        def enter():
            if local:
                lk = self.scoped[local] = self.pick(["v"] * 3 + ["m"])
                self.live.append(local)
                self.out(f"call void @{CTOR if lk == 'v' else MCTOR}({TY[lk]}* %{local})")

        def leave():
            if not local:
                return
            lk = self.scoped[local]
            ms = self.has("m") if lk == "v" else []
            if self.cur is not None and ms and self.R(4):
                self.out(f"call void @{MPUSH}({MAT}* %{self.pick(ms)}, {VEC}* %{local})")
            if self.cur is not None:
                self.out(f"call void @{DTOR if lk == 'v' else MDTOR}({TY[lk]}* %{local})")
            self.live.remove(local)

        def test(t, f):
            if counted and self.R(6):
                r = self.op(f"load i32, i32* %{i}")
                bounds = [str(self.draw(st.integers(1, 4)))] + ["%" + n for n, t in self.params if t == "Int"]
                ms = [n for n, t in self.params if t == "m"]
                if ms and self.R(3):
                    m = self.pick(ms)
                    s = self.op(f"call {VEC}* @{MAT_AT}({MAT}* %{m}, i64 0)") if self.counters[:-1] or self.R(3) == 0 else None
                    s = self.op(f"call i64 @{SIZE}({VEC}* {s})") if s else self.op(f"call i64 @{MSIZE}({MAT}* %{m})")
                    s = self.op(f"trunc i64 {s} to i32")
                    self.term("br i1 " + self.op(f"icmp slt i32 {r}, {s}") + f", label %{t}, label %{f}")
                    return
                self.term("br i1 " + self.op(f"icmp {self.pick(['slt', 'slt', 'sle', 'ne'])} i32 {r}, {self.pick(bounds)}")
                          + f", label %{t}, label %{f}")
            else:
                self.branch(t, f)

        if kind == "do":
            self.term(f"br label %{body}")
            self.start(body)
            self.targets.append((cond, end))
            enter()
            self.stmts(1 + self.R(3))
            leave()
            self.targets.pop()
            if self.cur is not None:
                self.term(f"br label %{cond}")
            self.start(cond)
            if counted:
                self.step(i)
            test(body, end)
        else:
            self.term(f"br label %{cond}")
            self.start(cond)
            test(body, end)
            self.start(body)
            if counted and kind == "while" and self.R(2):
                self.step(i)
                counted = False
            self.targets.append((inc or cond, end))
            enter()
            self.stmts(1 + self.R(3))
            leave()
            self.targets.pop()
            if self.cur is not None:
                if counted and kind == "while":
                    self.step(i)
                self.term(f"br label %{inc or cond}")
            if inc:
                self.start(inc)
                self.step(i)
                self.term(f"br label %{cond}")
        if was:
            self.counters.pop()
        self.depth -= 1
        self.start(end)

    # -- arbitrary control flow
    def cfg(self):
        n = 2 + self.R(6)
        names = [self.block() for _ in range(n)]
        self.term(f"br label %{names[0]}")
        for j, b in enumerate(names):
            self.start(b)
            for _ in range(self.R(3)):
                self.assign()
            if self.R(3) == 0:
                self.step(self.pick(self.has("Int")))
            k = self.R(10)
            if k < 2 or (j == n - 1 and k < 8):
                self.do_return()
            elif k < 5:
                t = self.pick(names[j + 1:] or names) if self.R(8) else self.pick(names)
                self.term(f"br label %{t}")
            else:
                t, f = self.pick(names), self.pick(names[j + 1:] or names) if self.R(4) else self.pick(names)
                if names.index(t) <= j and self.R(4):
                    i = self.pick(self.has("Int"))
                    self.step(i)
                    r = self.op(f"load i32, i32* %{i}")
                    c = self.op(f"icmp slt i32 {r}, {self.draw(st.integers(1, 4))}")
                else:
                    c = self.cond()
                self.term(f"br i1 {c}, label %{t}, label %{f}")

    def finish(self, cfg):
        self.start("entry")
        head = self.cur
        if cfg:
            pre = self.budget
        if self.nrvo:
            self.out(f"%agg.raw = bitcast {TY[self.ret]}* %agg.result to i8*")
            self.out("store i8* %agg.raw, i8** %result.ptr, align 8")
            self.out("store i1 false, i1* %nrvo, align 1")
        for n, k in self.vars.items():
            if k == "Int":
                self.out(f"store i32 {self.pick(['0', '0', '1', '2'] + ['%' + p for p, t in self.params if t == 'Int'])}, i32* %{n}")
            elif k == "Bool":
                self.out(f"store i1 {self.pick(['true', 'false'])}, i1* %{n}")
            elif k == "l":
                src = [p for p, t in self.params if t == "l"]
                r = "%" + self.pick(src) if src and self.R(2) else self.op("call %struct.list* @newList()")
                self.out(f"store %struct.list* {r}, %struct.list** %{n}")
            elif k == "s":
                src = [p for p, t in self.params if t == "s"]
                r = "%" + self.pick(src) if src and self.R(2) else self.op("call %struct.set* @set_create()")
                self.out(f"store %struct.set* {r}, %struct.set** %{n}")
            elif k == "t":
                r = self.op("call %struct.tup* @_Z9MakeTupleIJiiEEP3tupIJDpT_EES2_(i32 0, i32 1)")
                self.out(f"store %struct.tup* {r}, %struct.tup** %{n}")
            elif k in ("v", "m"):
                self.out(f"call void @{CTOR if k == 'v' else MCTOR}({TY[k]}* %{n})")
        if cfg:
            self.cfg()
        else:
            self.stmts(12)
            if self.cur is not None:
                self.do_return()
        if hasattr(self, "retb"):
            self.start(self.retb)
            for n in self.has("v"):
                if n != "agg.result" and self.R(2):
                    self.out(f"call void @{DTOR}({VEC}* %{n})")
            if self.nrvo:
                self.out("store i1 true, i1* %nrvo, align 1")
                r = self.op("load i1, i1* %nrvo, align 1")
                d, e = self.block("nrvo.unused"), self.block("nrvo.skipdtor")
                self.term(f"br i1 {r}, label %{e}, label %{d}")
                self.start(d)
                self.out(f"call void @{DTOR if self.ret == 'v' else MDTOR}({TY[self.ret]}* %agg.result)")
                self.term(f"br label %{e}")
                self.start(e)
            if self.sret:
                self.term("ret void")
            else:
                r = self.op(f"load {TY[self.ret]}, {TY[self.ret]}* %retval")
                self.term(f"ret {TY[self.ret]} {r}")
        al = []
        if self.retstyle == "slot" and not self.sret:
            al.append(f"%retval = alloca {TY[self.ret]}, align 4")
        for n, k in self.vars.items():
            if n != "agg.result":
                al.append(f"%{n} = alloca {TY[k]}" + self.pick(["", ", align 4"]))
        al += [f"%{n} = alloca {TY[k]}, align 8" for n, k in self.scoped.items()]
        if self.nrvo:
            al += ["%result.ptr = alloca i8*, align 8", "%nrvo = alloca i1, align 1"]
        al.append("%tmp = alloca i32, align 4")
        if self.refs:
            al.append("%ref = alloca i32*, align 8")
        head[:0] = al
        ps = [f"{TY[k]}{'*' if k in ('v', 'm') else ''} %{n}" for n, k in self.params]
        if self.sret:
            ps.insert(0, f"{TY[self.ret]}* sret({TY[self.ret]}) %agg.result")
        fn = self.draw(st.sampled_from([self.name, f"_Z{len(self.name)}{self.name}" + ("v" if not self.params else "i" * len(self.params))]))
        text = f"define {'void' if self.sret else TY[self.ret]} @{fn}({', '.join(ps)}) {{\n"
        for b, ls in self.blocks:
            text += f"{b}:\n" + "".join(f"  {l}\n" for l in ls)
        text += "}\n"
        return dict(text=text, fn=fn, name=self.name, params=[[n, MLT[k]] for n, k in self.params],
                    kinds=[k for _, k in self.params], matrix=self.pick(["Matrix", "List"]) if "m" in self.kinds else None, ret=MLT[self.ret], sret=self.sret, refs=self.refs,
                    vars={n: MLT[k] for n, k in {**self.vars, **self.scoped}.items()})


@st.composite
def program(draw, kinds=(), loops=True, cfg=False, name="test", simple=False, params=None, writeparams=False, unknown=False):
    """writeparams: vectors passed by value may be changed;  unknown: functions without a model change variables"""
    g = G(draw, list(kinds), name=name, loops=loops, params=params)
    g.writeparams, g.unknown = writeparams, unknown
    if simple:
        g.budget = draw(st.integers(2, 6))
    return g.finish(cfg)


def arg(t):
    i = st.integers(-2, 5)
    if t == "Int":
        return i
    if t == "Bool":
        return st.booleans()
    if t[0] == "Set":
        return st.lists(i, max_size=3, unique=True).map(lambda v: {"S": sorted(v)})
    if t == MI:
        return st.one_of(*[st.tuples(st.integers(1, 3), st.integers(1, 3)).flatmap(
            lambda rc: st.lists(st.lists(i, min_size=rc[1], max_size=rc[1]), min_size=rc[0], max_size=rc[0]))] * 3,
            st.lists(st.lists(i, max_size=3), max_size=3))
    return st.lists(i, max_size=4)


def args_for(p):
    return st.tuples(*[arg(t) for _, t in p["params"]]).map(list)


# ---------------------------------------------------------------- functions compiled by clang
def compiled():
    """Names of the modules that come with the repository, as clang and the pass left them."""
    return sorted(os.path.relpath(f, menv.REPO)[:-3] for f in glob.glob(os.path.join(menv.REPO, "benchmarks", "**", "*.ll"), recursive=True)
                  if os.path.exists(f[:-3] + ".loops"))


def from_module(path, cache={}):
    """prog for the function that such a module is about"""
    if path not in cache:
        full = os.path.join(menv.REPO, path)
        name = os.path.basename(path)
        with open(full + ".ll") as fh:
            m = re.search(rf"^define [^\n]*@(_Z{len(name)}{name}\w*)\([^\n]*\{{\n.*?^\}}\n", fh.read(), re.S | re.M)
        text = re.sub(r"\) #\d+ personality [^\n]*\{", ") {", m.group(0))
        f = L.parse(text)[m.group(1)]
        sig = subprocess.run(["c++filt", m.group(1)], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
        vec = "std::__1::vector<int, std::__1::allocator<int> >"
        kind = {"int": "Int", vec: "v", f"std::__1::vector<{vec}, std::__1::allocator<{vec} > >": "m"}
        kinds = [kind[x] for x in L.split(sig[sig.index("(") + 1:-1])]
        sret = f.params[0][1] == "agg.result"
        ps = [n for _, n in f.params[sret:]]
        calls = [i for b in f.blocks.values() for i in b if i["op"] == "call"]
        ctor = {i["args"][0][1][1]: i["fn"] for i in calls if i["fn"] in (CTOR, MCTOR)}
        vs = {i["res"]: MLT["v" if ctor.get(i["res"]) == CTOR else "m" if i["res"] in ctor else "Int"] for i in f.blocks["entry"]
              if i["op"] == "alloca" and (i["ty"] == "i32" or i["res"] in ctor)}
        if sret:
            vs["agg.result"] = MLT["v" if ctor["agg.result"] == CTOR else "m"]
        vs.pop("retval", None)
        cache[path] = dict(text=text, fn=m.group(1), name=name, params=[[n, MLT[k]] for n, k in zip(ps, kinds)], kinds=kinds,
                           ret=vs["agg.result"] if sret else "Int", sret=sret, refs=False, vars=vs, matrix="Matrix", path=full)
    return cache[path]


# ---------------------------------------------------------------- execution
def _get(l, i):
    if i < 0 or i >= len(l):
        raise L.Stuck("index")
    return l[i]


def _push(v, x):
    v.v = v.v + (x.v,)


def _set(p, x):
    p.v = x


def _ctor(v):
    v.v = ()


EXT = {
    "newList": lambda: (), "listLength": len, "listGet": _get, "listAppend": lambda l, x: l + (x,),
    "set_create": frozenset, "set_add": lambda s, x: s | {x}, "set_remove": lambda s, x: s - {x},
    "set_contains": lambda s, x: int(x in s), "uf": uf,
    "_Z9MakeTupleIJiiEEP3tupIJDpT_EES2_": lambda a, b: ref.Tup((a, b)),
    "_Z8tupleGetIJiiEEiP3tupIJDpT_EEi": lambda t, i: t[i],
    CTOR: _ctor, DTOR: lambda v: None, PUSH: _push, SIZE: lambda v: len(v.v),
    AT: lambda v, i: (_get(v.v, i), L.Elem(v, i))[1], RPUSH: _push,
    MCTOR: _ctor, MDTOR: lambda v: None, MPUSH: _push, MSIZE: lambda v: len(v.v),
    MAT_AT: lambda v, i: (_get(v.v, i), L.Elem(v, i))[1],
    CLEAR: _ctor, POP: lambda v: _set(v, v.v[:-1]) if v.v else _get((), 0), HELPER: lambda v: _set(v, v.v + (7,)),
    BUMP: lambda p: _set(p, p.v + 1),
    SQRT: lambda x: uf(x, 17), EXP: lambda x: uf(x, 23),
}
FNS = {"uf": uf, "integer_sqrt": EXT[SQRT], "integer_exp": EXT[EXP]}


def dominators(f):
    names = list(f.blocks)
    preds = f.preds()
    reach = set()
    todo = [names[0]]
    while todo:
        b = todo.pop()
        if b not in reach:
            reach.add(b)
            todo += f.succs(b)
    dom = {b: set(reach) for b in reach}
    dom[names[0]] = {names[0]}
    ch = True
    while ch:
        ch = False
        for b in names[1:]:
            if b in reach:
                n = {b} | set.intersection(*[dom[p] for p in preds[b] if p in reach])
                if n != dom[b]:
                    dom[b], ch = n, True
    return reach, dom


def stored(f, b):
    out = set()
    for i in f.blocks[b]:
        if i["op"] == "store":
            out.add(i["ptr"][1])
        elif i["op"] == "call" and i["fn"] in (PUSH, MPUSH, RPUSH):
            out.add(i["args"][0][1][1])
    return out


def loop_writes(f):
    """header -> variables stored to (or pushed onto) inside its natural loop"""
    reach, dom = dominators(f)
    preds = f.preds()
    out = {}
    for b in reach:
        for h in f.succs(b):
            if h in dom[b]:
                body, todo = {h}, [b]
                while todo:
                    x = todo.pop()
                    if x not in body:
                        body.add(x)
                        todo += [q for q in preds[x] if q in reach]
                w = out.setdefault(h, set())
                for x in body:
                    w |= stored(f, x)
    return out


def headers(f):
    """Natural loop headers, and whether the control flow is reducible."""
    reach, dom = dominators(f)
    back = {(b, s) for b in reach for s in f.succs(b) if s in dom[b]}
    heads = [b for b in f.blocks if any(s == b for _, s in back)]
    color = {}

    def cyclic(b):
        color[b] = 1
        for s in f.succs(b):
            if (b, s) in back:
                continue
            if color.get(s) == 1 or (s not in color and cyclic(s)):
                return True
        color[b] = 2
        return False

    return heads, not cyclic(next(iter(f.blocks)))


class Program:
    def __init__(self, prog, limit=60):
        self.prog = prog
        self.fns = L.parse(prog["text"])
        self.f = self.fns[prog["fn"]]
        self.heads, self.reducible = headers(self.f)
        self.limit = limit
        self.cache = {}

    def run(self, args):
        """(trace of (header, state), result) or None"""
        k = tuple(args)
        if k in self.cache:
            return self.cache[k]
        p = self.prog
        trace = []
        a, named = [], {}
        for v, kind, (n, _) in zip(args, p["kinds"], p["params"]):
            a.append(L.Ptr(v) if kind in ("v", "m") else v)
            named[n] = v
        res = L.Ptr()
        if p["sret"]:
            a.insert(0, res)

        def on_block(f, b, regs, phis):
            if b in self.heads:
                s = dict(named)
                for n in list(p["vars"]) + ["retval", "tmp"] + [q[0] for q in p["params"]]:
                    c = regs.get(n)
                    if isinstance(c, L.Ptr) and c.v is not None:
                        s[n] = c.v
                trace.append((b, s))
                if len(trace) > self.limit:
                    raise L.Stuck("fuel")

        it = L.Interp(self.fns, EXT, fuel=400, on_block=on_block)
        try:
            r = it.run(p["fn"], a)[0]
            out = (trace, res.v if p["sret"] else r)
        except L.Stuck:
            out = None
        if out and any(isinstance(v, int) and abs(v) > 10 ** 9 for _, s in out[0] for v in s.values()):
            out = None
        self.cache[k] = out
        return out


# ---------------------------------------------------------------- the front end
FLAGS = ["-addEmptyBlock", "-lowerinvoke", "--unreachableblockelim", "-instnamer", "-S"]


def compile_(text):
    """As compile-add-blocks does: (normalised module, loop analysis)."""
    ll, err = L.opt(DECLS + text, *FLAGS)
    if ll is None:
        raise RuntimeError("opt: " + err + text)
    loops, err = L.opt(ll, "-analyze", "-loops", load=False)
    if loops is None:
        raise RuntimeError("opt: " + err)
    return ll.replace(f"sret({VEC})", "sret").replace(f"sret({MAT})", "sret"), loops


class VC:
    pass


def flat(t):
    t = build.unty(t)
    if t == "Matrix":
        return MI
    return ["Tuple"] + list(ref.components(t)) if t[0] == "Tuple" else t


def _cached_filt(cache={}):
    """c++filt is a pure function of the name: remember its answers (it is started once per call instruction)."""
    from metalift.frontend import llvm as F

    if not hasattr(F.get_full_demangled_name, "_vf"):
        orig = F.get_full_demangled_name

        def g(n):
            if n not in cache:
                cache[n] = orig(n)
            return cache[n]
        g._vf = True
        F.get_full_demangled_name = g


CONTEXTS = []


@contextlib.contextmanager
def fresh_context(on):
    """Tuple types carry meaning in their name's suffix, which LLVM changes when an earlier module of the process used it."""
    from metalift.frontend import llvm as F

    orig = F.llvm.parse_assembly
    if on:
        def parse(text):
            CONTEXTS.append(F.llvm.create_context())   # must outlive everything parsed in it
            return orig(text, CONTEXTS[-1])
        F.llvm.parse_assembly = parse
    try:
        yield
    finally:
        F.llvm.parse_assembly = orig


def analyze(progs, scope="all", pre=None, override=None):
    """Analyse functions one after the other with one driver -> the verification condition.
    scope: "all" | "none" (no grammar) | list of names;  pre: spec of a precondition;  override: InvGrammar.override_args"""
    from metalift.frontend import llvm as F
    from metalift import ir as I
    from metalift.vc_util import and_objects

    def obj(p, n, t):
        """Matrices passed as arguments may be declared in two ways."""
        if t == MI and (p["matrix"] == "Matrix" or n not in [q for q, _ in p["params"]]):
            t = "Matrix"
        return I.create_object(build.ty(t), n)

    _cached_filt()
    v = VC()
    v.got = []
    d = F.Driver()
    base = progs[0].get("path")
    if base is None:
        ll, loops = compile_("".join(p["text"] for p in progs))
        base = os.path.join(menv.scratch(), f"ll{os.getpid()}")
        with open(base + ".ll", "w") as fh:
            fh.write(ll)
        with open(base + ".loops", "w") as fh:
            fh.write(loops)
    v.heads = {}
    with sut("analyze"), fresh_context(any("tup" in p["text"] for p in progs)):
        if pre is not None:
            d.add_precondition(I.create_object(I.Bool, build.expr(pre)))
        for p in progs:
            def grammar(name):
                def g(writes, reads, in_scope, relaxed=False):
                    v.got.append((name,) + tuple(tuple(o.var_name() for o in x) for x in (writes, reads, in_scope)))
                    return I.Bool(True)
                return g

            class Grammars(collections.defaultdict):    # as the drivers use it, but knowing the name
                def __missing__(self, name):
                    over = [obj(p, n, ["Tuple", t[1:]] if t[0] == "Tuple" else t) for n, t in override or []]
                    self[name] = F.InvGrammar(grammar(name), names, over)
                    return self[name]

            names = list(p["vars"]) + ["retval"] if scope == "all" else scope
            gr = {} if scope == "none" else Grammars()
            ps_g = grammar(p["name"] + "_ps")
            f = d.analyze(base + ".ll", base + ".loops", p["name"], lambda: [], gr, ps_g)
            args = [obj(p, n, t) for n, t in p["params"]]
            d.add_var_objects(args)
            f(*args, uninterp_fns=["uf"])
            for k, l in enumerate(f.loops):
                v.heads[f"{p['name']}_inv{k}"] = (p["name"], l.header.name)
        v.spec = build.spec(and_objects(*d.asserts))
        v.vars = {x.args[0]: flat(x.type) for x in d.var_tracker.all()}
        v.preds, v.writes = {}, {}
        for q in d.pred_tracker.predicates.values():
            v.preds[q.name] = [(a.var_name(), flat(a.type)) for a in q.args]
            v.writes[q.name] = [a.var_name() for a in q.writes]
            if scope != "none":
                s = q.gen_synth(False)
                sargs = [a.args[0] for a in s.args[2:]]
                if sargs != [n for n, _ in v.preds[q.name]]:
                    raise Violation(f"{q.name}: synthesised over {sargs} but called with {v.preds[q.name]}")
    return v
