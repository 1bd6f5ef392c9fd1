From 6f3ca3879c4bc3e9f15ceafbcb58af2d9b5f5f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 01/98] fix: FnDecl.toSMT no longer calls the nonexistent toSMT
 of parameter types

---
 metalift/ir.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 5d91056..ab718ec 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -3229,8 +3229,6 @@ class FnDecl(Expr):
                 else:
                     declarations.append((a.args[0], a.type))
 
-            args = " ".join("(%s %s)" % (d[0], d[1].toSMT()) for d in declarations)  # type: ignore
-
             args = " ".join(
                 "(%s %s)" % (d[0], d[1].toSMTType(get_args(d[1]))) for d in declarations  # type: ignore
             )
-- 
2.43.0


From a47944b9cf3fb6308272ee34017dd738c48a70cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 02/98] fix: emit negative integer literals as (- n) in SMT-LIB

---
 metalift/ir.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index ab718ec..ba67a03 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1910,6 +1910,9 @@ class Lit(Expr):
     def toSMT(self) -> str:
         if self.type == Bool:
             return "true" if self.args[0] else "false"
+        elif isinstance(self.args[0], int) and self.args[0] < 0:
+            # SMT-LIB has no negative numerals
+            return f"(- {-self.args[0]})"
         else:
             return str(self.args[0])
 
-- 
2.43.0


From c82adbd1a547ba70b7eedd36a9ad266a8afb1b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 03/98] fix: emit tupleGet in SMT for any tuple-typed
 expression, not only variables

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index ba67a03..16a0853 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -2536,7 +2536,7 @@ class Call(Expr):
                 elif isinstance(self.args[idx + 1], Tuple):
                     retVal.append(f"tuple{self.args[idx + 1].length}_get{index}")
                 elif (
-                    isinstance(self.args[idx + 1], Var)
+                    isinstance(self.args[idx + 1], Expr)
                     and get_origin(self.args[idx + 1].type) == Tuple
                 ):
                     length = len(get_args(get_args(self.args[idx + 1].type)[0]))
-- 
2.43.0


From 6d02dc0a71d71f889841edc63daa95dd51fbe120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 04/98] fix: parenthesise operators in emitted Python so
 nesting keeps its meaning

---
 metalift/ir.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 16a0853..266cf13 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1951,7 +1951,7 @@ class Add(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{' + '.join([arg.to_python() for arg in self.args])}"
+        return f"({' + '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Add(self)
@@ -2007,7 +2007,7 @@ class Mul(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{' * '.join([arg.to_python() for arg in self.args])}"
+        return f"({' * '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Mul(self)
@@ -2102,7 +2102,7 @@ class Eq(Expr):
 
     def to_python(self) -> str:
         # TODO: might need more handling for lists
-        return f"{self.e1().to_python()} == {self.e2().to_python()}"
+        return f"({self.e1().to_python()} == {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Eq(self)
@@ -2133,7 +2133,7 @@ class Lt(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} < {self.e2().to_python()}"
+        return f"({self.e1().to_python()} < {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Lt(self)
@@ -2164,7 +2164,7 @@ class Le(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} <= {self.e2().to_python()}"
+        return f"({self.e1().to_python()} <= {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Le(self)
@@ -2195,7 +2195,7 @@ class Gt(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} > {self.e2().to_python()}"
+        return f"({self.e1().to_python()} > {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Gt(self)
@@ -2226,7 +2226,7 @@ class Ge(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} >= {self.e2().to_python()}"
+        return f"({self.e1().to_python()} >= {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Ge(self)
@@ -2253,7 +2253,7 @@ class And(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return " and ".join([arg.to_python() for arg in self.args])
+        return f"({' and '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_And(self)
@@ -2281,7 +2281,7 @@ class Or(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return " or ".join([arg.to_python() for arg in self.args])
+        return f"({' or '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Or(self)
@@ -2305,7 +2305,7 @@ class Not(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"not {self.args[0].to_python()}"
+        return f"(not {self.args[0].to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Not(self)
-- 
2.43.0


From 9d29f40e47d6cc241176462e78400e64c7635a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 05/98] fix: emit one-element tuples as tuples in Python

---
 metalift/ir.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 266cf13..10ceb8f 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -2773,7 +2773,8 @@ class TupleExpr(Expr):
         return "(tuple%d %s)" % (len(self.args), args)
 
     def to_python(self) -> str:
-        return f"({', '.join([arg.to_python() for arg in self.args])})"
+        # the trailing comma keeps one-element tuples tuples
+        return f"({' '.join([f'{arg.to_python()},' for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_TupleExpr(self)
-- 
2.43.0


From 14f7c28b38a2df2646d5cc8c99a54b64bea1b4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:43 +0000
Subject: [PATCH 06/98] fix: take the types of in-scope variables from the
 analyzed function only

---
 metalift/frontend/python.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 3f75076..c7c56cd 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -201,6 +201,17 @@ class RWVarsVisitor(TraverserVisitor):
             a.accept(self)
 
 
+# collects all the names that appear in a piece of AST
+class NameExprVisitor(TraverserVisitor):
+    names: List[NameExpr]
+
+    def __init__(self) -> None:
+        self.names = []
+
+    def visit_name_expr(self, o: NameExpr) -> None:
+        self.names.append(o)
+
+
 class Predicate:
     args: List[Object]
     writes: List[Object]
@@ -447,10 +458,13 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         self, vars: Dict[str, Object], types: Dict[MypyExpr, MypyType]
     ) -> Set[MypyVar]:
         r = set()
-        for v in vars.keys():
-            for k, t in types.items():
-                if isinstance(k, NameExpr) and k.name == v:
-                    r.add((v, t))
+        # types covers the whole build: only look at the names in the function being analyzed
+        visitor = NameExprVisitor()
+        self.ast.accept(visitor)
+        for k in visitor.names:
+            t = types.get(k)
+            if k.name in vars and t is not None:
+                r.add((k.name, t))
         return r
 
     def visit_while_stmt(self, o: WhileStmt) -> None:
-- 
2.43.0


From a482d43a33715116ac176aa90cf5319fd8d3d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:43 +0000
Subject: [PATCH 07/98] fix: do not share analysis state between calls through
 mutable default arguments

---
 metalift/frontend/python.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index c7c56cd..256e455 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -106,14 +106,14 @@ class State:
 
     def __init__(
         self,
-        precond: List[Bool] = list(),
-        vars: Dict[str, Object] = dict(),
-        asserts: List[Bool] = list(),
+        precond: Optional[List[Bool]] = None,
+        vars: Optional[Dict[str, Object]] = None,
+        asserts: Optional[List[Bool]] = None,
         has_returned: bool = False,
     ) -> None:
-        self.precond = precond
-        self.vars = vars
-        self.asserts = asserts
+        self.precond = precond if precond is not None else []
+        self.vars = vars if vars is not None else {}
+        self.asserts = asserts if asserts is not None else []
         self.has_returned = has_returned if not has_returned else has_returned
 
     def read(self, var: str) -> Object:
-- 
2.43.0


From 23071b88a33e47aeab31a3b5352557288a202a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 08/98] fix: keep every link of a chained comparison

---
 metalift/frontend/python.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 256e455..0c07879 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -700,8 +700,9 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         operands = [e.accept(self) for e in o.operands]
         e = self.process_comparison(o.operators[0], operands[0], operands[1])
         for i in range(1, len(o.operators)):
-            e = e and self.process_comparison(
-                o.operators[i], operands[i], operands[i + 1]
+            e = and_objects(
+                e,
+                self.process_comparison(o.operators[i], operands[i], operands[i + 1]),
             )
         return e
 
-- 
2.43.0


From aa9e7c929d5b8a53dc8aafc3279013175146d143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 09/98] fix: list and set updates write the variable they are
 called on and leave the arguments alone

---
 metalift/frontend/python.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 0c07879..6c5adbc 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -783,6 +783,13 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             return 0 - cast(Int, expr)
         raise Exception(f"Unsupported unary operator '{o.op}'")
 
+    # Records the new value of the variable that a mutating method is called on.
+    def _write_callee(self, o: CallExpr, val: Object) -> None:
+        callee = o.callee.expr  # type: ignore
+        if not isinstance(callee, NameExpr):
+            raise Exception("Only variables can be modified!")
+        self.state.write(callee.name, val)
+
     def visit_call_expr(self, o: CallExpr) -> Object:
         if is_func_call_with_name(o, "len"):
             assert len(o.args) == 1
@@ -797,9 +804,9 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
                 raise Exception(".append only supported on lists!")
             assert len(o.args) == 1
             elem_to_append = o.args[0].accept(self)
-            var_name = callee_expr.var_name()
-            list_after_append = callee_expr.append(elem_to_append)
-            self.state.write(var_name, list_after_append)
+            # List.append modifies the object, which may also be an argument of the function
+            list_after_append = copy.deepcopy(callee_expr).append(elem_to_append)
+            self._write_callee(o, list_after_append)
             return list_after_append
         elif is_method_call_with_name(o, "add") or is_method_call_with_name(
             o, "remove"
@@ -819,7 +826,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             set_after_modification = call(
                 func_call_name, callee_expr.type, callee_expr, singleton_set
             )
-            self.state.write(callee_expr.var_name(), set_after_modification)
+            self._write_callee(o, set_after_modification)
             return set_after_modification
         elif is_func_call(o) and get_fn_name(o) in self.uninterp_fns:
             # Uninterpreted functions
-- 
2.43.0


From 5c2ede555a885335717bc67bc93a1c4437890298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 10/98] fix: compare values structurally when merging the
 branches of an if

---
 metalift/frontend/python.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 6c5adbc..5c51932 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -661,7 +661,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             # at this point we know that all vars exist in both c_state and a_state
             for v, c_e in c_state.vars.items():
                 a_e = a_state.vars[v]
-                if c_e != a_e:
+                # != is overloaded to build an expression
+                if not Object.__eq__(c_e, a_e):
                     self.state.vars[v] = ite(cond, c_e, a_e)
                 else:
                     self.state.vars[v] = c_e
-- 
2.43.0


From 01f1452b342e66e7962930bc58e64ee257e585c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 11/98] fix: keep the asserts and path conditions of if
 branches

---
 metalift/frontend/python.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 5c51932..da685ce 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -446,6 +446,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
 
     def visit_block(self, o: Block) -> None:
         for s in o.body:
+            if self.state.has_returned:  # the rest is unreachable
+                break
             s.accept(self)
 
     def visit_expression_stmt(self, o: ExpressionStmt) -> None:
@@ -640,17 +642,31 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         c_state = consequent.state
         a_state = alternate.state
 
-        for e in c_state.asserts + a_state.asserts:
-            if e not in self.state.asserts:
-                self.state.asserts.append(e)
+        # both branches start with the asserts made before the if
+        num_asserts = len(self.state.asserts)
+        self.state.asserts += c_state.asserts[num_asserts:]
+        self.state.asserts += a_state.asserts[num_asserts:]
+
+        # what is known at the end of a branch besides its condition
+        num_precond = len(self.state.precond) + 1
+        c_facts = c_state.precond[num_precond:]
+        a_facts = a_state.precond[num_precond:]
 
         if c_state.has_returned and a_state.has_returned:
+            self.state.has_returned = True
             return
         elif c_state.has_returned and not a_state.has_returned:
             self.state.vars = a_state.vars
+            self.state.precond = a_state.precond
         elif not c_state.has_returned and a_state.has_returned:
             self.state.vars = c_state.vars
+            self.state.precond = c_state.precond
         else:  # both have not returned, need to merge
+            if c_facts:
+                self.state.precond.append(implies(cond, and_objects(*c_facts)))
+            if a_facts:
+                self.state.precond.append(implies(cond.Not(), and_objects(*a_facts)))
+
             for v in set().union(c_state.vars, a_state.vars):
                 if v not in self.state.vars and (
                     (v not in c_state.vars and v in a_state.vars)
-- 
2.43.0


From d4ef6d9bd8958f64a1bc8adbc83e246e352105ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 12/98] fix: keep the asserts made in loop bodies and visit
 them under the loop condition

---
 metalift/frontend/python.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index da685ce..f92a1ca 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -523,6 +523,14 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             self.driver.add_var_object(new_value)
             self.state.write(var[0], new_value)
 
+        # the body runs when the condition and the invariant hold
+        cond = o.expr.accept(self)
+        # if not isinstance(cond, Bool):
+        #     raise Exception(
+        #         "The condition of a while loop must evaluate to a boolean object!"
+        #     )
+        body_state = copy.deepcopy(self.state)
+        body_state.precond += [cast(Bool, cond), inv.call(self.state)]
         body_visitor = VCVisitor(  # type: ignore  # ignore the abstract expr visit methods that aren't implemented for now in VCVisitor
             self.driver,
             self.fn_name,
@@ -530,7 +538,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             self.ast,
             self.args,
             self.ret_val,
-            copy.deepcopy(self.state),
+            body_state,
             self.invariants,
             self.var_tracker,
             self.pred_tracker,
@@ -541,19 +549,14 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         )
         o.body.accept(body_visitor)
 
+        # includes the asserts for the returns and loops in the body
+        self.state.asserts = body_visitor.state.asserts
+
         # inv is preserved
-        cond = o.expr.accept(self)
-        # if not isinstance(cond, Bool):
-        #     raise Exception(
-        #         "The condition of a while loop must evaluate to a boolean object!"
-        #     )
-        c = (
-            and_objects(*self.state.precond, cast(Bool, cond), inv.call(self.state))
-            if self.state.precond
-            else and_objects(cast(Bool, cond), inv.call(self.state))
-        )
-        self.state.asserts.append(implies(c, inv.call(body_visitor.state)))
-        print(f"inv is preserved: {self.state.asserts[-1]}")
+        if not body_visitor.state.has_returned:
+            c = and_objects(*body_visitor.state.precond)
+            self.state.asserts.append(implies(c, inv.call(body_visitor.state)))
+            print(f"inv is preserved: {self.state.asserts[-1]}")
 
         # the invariant is true from this point on
         self.state.precond.append(
-- 
2.43.0


From f3244bf89316f91dd63e8e7d1d5c98b1fd6ca368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 13/98] fix: give variables modified by a loop fresh symbols

---
 metalift/frontend/python.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index f92a1ca..23c59d2 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -519,7 +519,9 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
 
         # havoc the modified vars
         for var in v.writes:
-            new_value = create_object(to_object_type(var[1]), var[0])
+            # distinct from the value before the loop, which may still be referred to
+            new_name = self.driver.fresh_name(var[0])
+            new_value = create_object(to_object_type(var[1]), new_name)
             self.driver.add_var_object(new_value)
             self.state.write(var[0], new_value)
 
@@ -878,6 +880,15 @@ class Driver:
     def variable(self, name: str, type: ObjectT) -> Var:
         return self.var_tracker.variable(name, type)
 
+    # returns a name that is not used by any variable yet, name itself if possible
+    def fresh_name(self, name: str) -> str:
+        new_name = name
+        i = 0
+        while new_name in self.var_tracker.var_to_type:
+            i += 1
+            new_name = f"{name}_{i}"
+        return new_name
+
     def add_var_object(self, var_object: Object) -> None:
         # TODO: extract this check to a more generic function
         if not isinstance(var_object.src, Var):
-- 
2.43.0


From a3e84426a4819c88fbfb9b94e03a54bbb7845c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 14/98] fix: pass the arguments before the result to an earlier
 call's postcondition

---
 metalift/frontend/python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 23c59d2..b3fbb52 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -1035,7 +1035,7 @@ class MetaliftFunc:
         ret_val = create_object(object_type, f"{self.name}_rv")
         self.driver.add_var_object(ret_val)
 
-        ps = call(f"{self.name}_ps", Bool, ret_val, *args)
+        ps = call(f"{self.name}_ps", Bool, *args, ret_val)
 
         self.driver.postconditions.append(cast(Bool, ps))
 
-- 
2.43.0


From 540a6f2c3de3f6236e2ba779fea08d8d6aa962f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 15/98] fix: do not ignore the else block of a while loop

---
 metalift/frontend/python.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index b3fbb52..bf70800 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -565,6 +565,10 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             and_objects(cast(Bool, cond).Not(), inv.call(self.state))
         )
 
+        # there is no break, so the else block of a loop always runs when the loop is done
+        if o.else_body:
+            o.else_body.accept(self)
+
     def visit_return_stmt(self, o: ReturnStmt) -> None:
         assert o.expr is not None
         # precond -> ps(...)
-- 
2.43.0


From 34752992cef7988a6e96e94049e4d4a1d5e2a5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 16/98] fix: name the arguments of loop invariants after the
 formal parameters

---
 metalift/frontend/python.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index bf70800..8401b98 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -484,10 +484,14 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
 
         print(f"loop writes: {writes}, reads: {reads}, scope: {in_scope}")
 
+        # the state uses the names of the formals, which can differ from those of the actual args
         assert None not in self.fn_type.arg_names
-        formals = list(
-            zip(cast(List[str], self.fn_type.arg_names), self.fn_type.arg_types)
-        )
+        formals = [
+            create_object(actual.type, name)
+            for name, actual in zip(
+                cast(List[str], self.fn_type.arg_names), self.args
+            )
+        ]
 
         write_objects = [
             create_object(to_object_type(type), name) for name, type in writes
@@ -501,7 +505,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         inv = self.pred_tracker.invariant(
             fn_name=self.fn_name,
             o=o,
-            args=self.args,
+            args=formals,
             writes=write_objects,
             reads=read_objects,
             in_scope=in_scope_objects,
-- 
2.43.0


From 08dcc979f38dc12e0d3a0ffc219d0bbd409951b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:09 +0000
Subject: [PATCH 17/98] fix: create tuple objects with their component types

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 10ceb8f..f28b2b9 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -660,7 +660,7 @@ def create_object(
         if len(contained_types) != 1:
             raise Exception("NYI: multiple contained types")
 
-        if object_cls is Fn:
+        if object_cls is Fn or object_cls is Tuple:
             return object_cls(get_args(contained_types[0]), value)  # type: ignore
         else:
             return object_cls(*contained_types, value)  # type: ignore
-- 
2.43.0


From e2fe25f744f13837f9408c6889f4e1eeda6057a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:09 +0000
Subject: [PATCH 18/98] fix: set membership builds set-member of the value and
 the set

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index f28b2b9..1528a12 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1663,7 +1663,7 @@ class Set(Generic[T], Object):
     def __contains__(self, value: Object) -> Bool:
         if value.type != self.containedT:
             return Bool(False)
-        return cast(Bool, call("set-pointer_varsber", Bool, self, value))
+        return cast(Bool, call("set-member", Bool, value, self))
 
     def __eq__(self, s: "Set") -> Bool:  # type: ignore
         return Bool(Eq(self.src, s.src))
-- 
2.43.0


From 052c3f4c540952648a6fffc743d1e9018fc32483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:09 +0000
Subject: [PATCH 19/98] fix: reject a full slice instead of building a tail
 from None

---
 metalift/ir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 1528a12..c3ee1bc 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1109,7 +1109,7 @@ class List(Generic[T], Object):
             index = Int(index)
         if isinstance(index, slice):
             (start, stop, step) = (index.start, index.stop, index.step)
-            if stop is None and step is None:
+            if start is not None and stop is None and step is None:
                 if isinstance(start, int):
                     start = Int(start)
                 if self.is_matrix:
@@ -1119,7 +1119,7 @@ class List(Generic[T], Object):
                 else:
                     fn_name = "list_tail"
                 return call(fn_name, self.type, self, start)  # type: ignore
-            elif start is None and step is None:
+            elif start is None and stop is not None and step is None:
                 if isinstance(stop, int):
                     stop = Int(stop)
                 if self.is_matrix:
-- 
2.43.0


From c6a315e7a479e270f7cbe0b8a39d29d548e30c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:09 +0000
Subject: [PATCH 20/98] fix: accept Python booleans in Bool.And and Bool.Or

---
 metalift/ir.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index c3ee1bc..f66c99f 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -868,11 +868,13 @@ class Bool(Object):
     def And(self, *args: Union["Bool", bool]) -> "Bool":
         if len(args) == 0:
             raise Exception(f"Arg list must be non-empty: {args}")
+        args = [Bool(a) if isinstance(a, bool) else a for a in args]  # type: ignore
         return Bool(And(*get_object_exprs(self, *args)))  # type: ignore
 
     def Or(self, *args: Union["Bool", bool]) -> "Bool":
         if len(args) == 0:
             raise Exception(f"Arg list must be non-empty: {args}")
+        args = [Bool(a) if isinstance(a, bool) else a for a in args]  # type: ignore
         return Bool(Or(*get_object_exprs(self, *args)))  # type: ignore
 
     def Not(self) -> "Bool":
-- 
2.43.0


From 9c8172b879ff8c0c120982a557363ab7d0a7801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:09 +0000
Subject: [PATCH 21/98] fix: make an integer literal from a Python boolean
 operand of Int

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index f66c99f..cfa7265 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -916,7 +916,7 @@ class Int(Object):
         if value is None:
             src = Var("v", Int)
         elif isinstance(value, int):
-            src = IntLit(value)
+            src = IntLit(int(value))
         elif isinstance(value, Expr):
             if value.type != Int:
                 raise TypeError(f"Cannot create Int from {value.type}")
-- 
2.43.0


From e8e1bd18274f98c5eaa0ca1c816e360f24c1997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:09 +0000
Subject: [PATCH 22/98] fix: tell matrix and tensor types apart from lists in
 type checks

---
 metalift/ir.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index cfa7265..90a5f04 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1540,9 +1540,9 @@ class Matrix(List[T], Generic[T], Object):
     def cls_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
         contained_type = type_args[0]
         if isinstance(contained_type, _GenericAlias):
-            return f"List {get_origin(contained_type).cls_str(get_args(contained_type))}"  # type: ignore
+            return f"Matrix {get_origin(contained_type).cls_str(get_args(contained_type))}"  # type: ignore
         else:
-            return f"List {contained_type.cls_str()}"
+            return f"Matrix {contained_type.cls_str()}"
 
 
 class Tensor3D(List[T], Generic[T], Object):
@@ -1600,6 +1600,10 @@ class Tensor3D(List[T], Generic[T], Object):
         self.src = call("tensor3d_append", self.type, self, value).src
         return self
 
+    @staticmethod
+    def cls_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
+        return f"Tensor3D {get_type_str(type_args[0])}"
+
 
 class Set(Generic[T], Object):
     def __init__(
-- 
2.43.0


From 6daff61f13de57a27013a19fe961dfad6d94cd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:09 +0000
Subject: [PATCH 23/98] fix: build the negated equality for != of lists and
 sets

---
 metalift/ir.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 90a5f04..891acb8 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1213,6 +1213,9 @@ class List(Generic[T], Object):
         else:
             return cast(Bool, call("list_eq", Bool, self, other))
 
+    def __ne__(self, other: "List") -> Bool:  # type: ignore
+        return (self == other).Not()
+
     def __repr__(self) -> str:
         return f"{self.src}"
 
@@ -1675,6 +1678,9 @@ class Set(Generic[T], Object):
         return Bool(Eq(self.src, s.src))
         # return cast(Bool, call("set-eq", Bool, self, s))
 
+    def __ne__(self, s: "Set") -> Bool:  # type: ignore
+        return (self == s).Not()
+
     @staticmethod
     def empty(containedT: ObjectContainedT) -> "Set":  # type: ignore
         return Set(containedT, Call("set-create", Set[containedT]))  # type: ignore
-- 
2.43.0


From f2e0b2909476f56c7890f4c6e736ef0b8f6bb223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:56 +0000
Subject: [PATCH 24/98] fix: expressions of different types are not equal

---
 metalift/ir.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 891acb8..44400f7 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -306,8 +306,7 @@ class Expr:
         elif isinstance(other, Expr):
             if (
                 type(self) != type(other)
-                # or self.type.erase() #TODO: add them back
-                # != other.type.erase()
+                or self.type != other.type
                 or len(self.args) != len(other.args)
             ):
                 return False
-- 
2.43.0


From a4ca0322b34d9ac236352fa1f121f4df6a0bec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:56 +0000
Subject: [PATCH 25/98] fix: give tuple projections and lambdas their types
 again

---
 metalift/ir.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 44400f7..a7437c3 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -151,7 +151,7 @@ class Expr:
         elif isinstance(self, Let):
             return Let(*[f(a) for a in self.args])
         elif isinstance(self, Lambda):
-            return Lambda(self.type.args[0], *[f(a) for a in self.args])  # type: ignore
+            return Lambda(get_fn_return_type(self.type), *[f(a) for a in self.args])
         elif isinstance(self, Choose):
             return Choose(*[f(a) for a in self.args])
         elif isinstance(self, TupleGet):
@@ -267,7 +267,7 @@ class Expr:
                 elif isinstance(e, Let):
                     return Let(*newArgs)
                 elif isinstance(e, Lambda):
-                    return Lambda(e.type.args[0], *newArgs)  # type: ignore
+                    return Lambda(get_fn_return_type(e.type), *newArgs)
                 elif isinstance(e, CallValue):
                     return CallValue(*newArgs)
                 else:
@@ -2793,8 +2793,8 @@ class TupleExpr(Expr):
 
 class TupleGet(Expr):
     def __init__(self, t: Expr, i: Expr) -> None:
-        # TODO: type.args no longer exist. need proper fix
-        Expr.__init__(self, t.type.args[i.args[0]], [t, i])  # type: ignore
+        contained_types = get_args(get_args(t.type)[0])
+        Expr.__init__(self, contained_types[i.args[0]], [t, i])
 
     def t(self) -> Expr:
         return self.args[0]  # type: ignore
@@ -2812,7 +2812,7 @@ class TupleGet(Expr):
     def toSMT(self) -> str:
         # example: generate (tuple2_get0 t)
         return "(tuple%d_get%d %s)" % (
-            len(self.args[0].type.args),
+            len(get_args(get_args(self.args[0].type)[0])),
             self.args[1].args[0],
             self.args[0].toSMT(),
         )  # args[1] must be an int literal
@@ -3132,7 +3132,7 @@ class FnDeclRecursive(Expr):
 
 class Lambda(Expr):
     def __init__(self, returnT: ObjectT, body: Expr, *args: Expr) -> None:
-        Expr.__init__(self, FnT(returnT, *[a.type for a in args]), [body, *args])  # type: ignore
+        Expr.__init__(self, make_fn_type(returnT, *[a.type for a in args]), [body, *args])  # type: ignore
 
     def body(self) -> Expr:
         return self.args[0]  # type: ignore
-- 
2.43.0


From 1cdf5f6b03bb2346de8f81f17d20967d18c93d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:56 +0000
Subject: [PATCH 26/98] fix: subtracting from a difference builds a nested
 difference

---
 metalift/ir.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index a7437c3..37e2c51 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -589,10 +589,7 @@ class Expr:
             return Add(self, other)
 
     def __sub__(self, other: "Expr") -> "Sub":
-        if isinstance(self, Sub):
-            return Sub(*self.args, other)
-        else:
-            return Sub(self, other)
+        return Sub(self, other)
 
     def __mul__(self, other: "Expr") -> "Mul":
         if isinstance(self, Mul):
-- 
2.43.0


From fc5d5035a425b6af845802889e441d78e2d1b678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 27/98] fix: choose arbitrarily inside nested choices too

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 37e2c51..8964578 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -3014,7 +3014,7 @@ class Choose(Expr):
         return retT
 
     def chooseArbitrarily(self) -> "Expr":
-        return self.args[0]  # type: ignore
+        return self.args[0].chooseArbitrarily()  # type: ignore
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Choose(self)
-- 
2.43.0


From 8b0ec909d6b25c895dd8c42222fd3654131371f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 28/98] fix: tolerate a variable equated three times when
 collecting equalities

---
 metalift/ir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 8964578..8667344 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -511,7 +511,7 @@ class Expr:
             ):
                 if self.args[0].args[0] in into or self.args[0].args[0] in conflicts:
                     conflicts[self.args[0].args[0]] = True
-                    del into[self.args[0].args[0]]
+                    into.pop(self.args[0].args[0], None)
                 else:
                     into[self.args[0].args[0]] = self.args[1]
             elif isinstance(self.args[1], Var) and (
@@ -519,7 +519,7 @@ class Expr:
             ):
                 if self.args[1].args[0] in into or self.args[1].args[0] in conflicts:
                     conflicts[self.args[1].args[0]] = True
-                    del into[self.args[1].args[0]]
+                    into.pop(self.args[1].args[0], None)
                 else:
                     into[self.args[1].args[0]] = self.args[0]
         elif isinstance(self, And):
-- 
2.43.0


From d789a8a0464f338349b4e311ea2a60600c56d864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:30 +0000
Subject: [PATCH 29/98] fix: optimise equalities with current variable counts

---
 metalift/ir.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 8667344..197b4d4 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -575,6 +575,16 @@ class Expr:
 
             self = self.rewrite(rewrites)
 
+            # the rewriting changes how often the remaining variables occur
+            new_counts: Dict[str, int] = {}
+            self.count_variable_uses(new_counts)
+            counts = {
+                key: counts.get(key, 0)
+                - local_counts.get(key, 0)
+                + new_counts.get(key, 0)
+                for key in counts.keys() | new_counts.keys()
+            }
+
         return self.map_args(
             lambda a: a.optimize_useless_equality(counts, new_vars)
             if isinstance(a, Expr)
-- 
2.43.0


From 28c71b3dd30b270d69535a9af07526d88587c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:30 +0000
Subject: [PATCH 30/98] fix: use assumed equalities only where the implication
 is asserted

---
 metalift/ir.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 197b4d4..116ae9a 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -541,7 +541,10 @@ class Expr:
             )
 
     def optimize_useless_equality(
-        self, counts: Dict[str, int], new_vars: typing.Set["Var"]
+        self,
+        counts: Dict[str, int],
+        new_vars: typing.Set["Var"],
+        positive: bool = True,
     ) -> "Expr":
         if isinstance(self, Eq):
             replacement_var = Var("useless_equality_%d" % len(new_vars), Bool)
@@ -554,7 +557,9 @@ class Expr:
             elif isinstance(self.args[0], Var) and isinstance(self.args[1], Var):
                 if self.args[0].args[0] == self.args[1].args[0]:
                     return BoolLit(True)
-        elif isinstance(self, Implies):
+        elif isinstance(self, Implies) and positive:
+            # eliminating a variable is only sound where it is universally
+            # quantified, i.e. where the implication occurs positively
             local_counts: Dict[str, int] = {}
             self.count_variable_uses(local_counts)
 
@@ -585,11 +590,22 @@ class Expr:
                 for key in counts.keys() | new_counts.keys()
             }
 
-        return self.map_args(
-            lambda a: a.optimize_useless_equality(counts, new_vars)
+        if isinstance(self, (And, Or)):
+            first_positive = 0
+        elif isinstance(self, (Implies, Ite)):
+            first_positive = 1
+        else:
+            first_positive = len(self.args)
+        optimized = [
+            a.optimize_useless_equality(
+                counts, new_vars, positive and i >= first_positive
+            )
             if isinstance(a, Expr)
             else a
-        ).simplify()
+            for i, a in enumerate(self.args)
+        ]
+        remaining = iter(optimized)
+        return self.map_args(lambda a: next(remaining)).simplify()
 
     # convenience methods
     def __add__(self, other: "Expr") -> "Add":
-- 
2.43.0


From db162fec9bca176ae7912997c330f930e40952d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:30 +0000
Subject: [PATCH 31/98] fix: optimise the condition itself before Rosette
 synthesis

---
 metalift/synthesize_rosette.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 475f9cb..3a0484f 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -578,9 +578,9 @@ def synthesize(
         while True:
             expr_count: Dict[str, int] = {}
 
-            vc.src.count_variable_uses(expr_count)  # type: ignore
+            vc.count_variable_uses(expr_count)
 
-            vc = vc.src.optimize_useless_equality(expr_count, new_vars)  # type: ignore
+            vc = vc.optimize_useless_equality(expr_count, new_vars)
 
             if vc.toSMT() == prev_vc:
                 break  # run to fixpoint
-- 
2.43.0


From be842944266145c1967dd2451a974c8503963af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 32/98] fix: do not rewrite variables in terms of each other
 forever

---
 metalift/ir.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 116ae9a..1d273ef 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -578,6 +578,14 @@ class Expr:
                     if rewrite_var in counts_rhs and counts_rhs[rewrite_var] > 1:
                         del rewrites[rewrite_var]
 
+            # a replacement must not mention a variable that is being replaced
+            # (including itself), otherwise rewriting never reaches a fixpoint
+            for rewrite_var in list(rewrites.keys()):
+                mentioned: Dict[str, int] = {}
+                rewrites[rewrite_var].count_variable_uses(mentioned)
+                if any(v in rewrites for v in mentioned):
+                    del rewrites[rewrite_var]
+
             self = self.rewrite(rewrites)
 
             # the rewriting changes how often the remaining variables occur
-- 
2.43.0


From e5d5efb2b435bbe348f7c1a925ea787147cc98e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 33/98] fix: keep grammar nonterminals distinct from the
 variables of the template

---
 metalift/ir.py | 70 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 15 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 1d273ef..7d7f0da 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -215,13 +215,17 @@ class Expr:
         commonExprs: typing.List[Union["Expr", Any]],
         mode: PrintMode,
         skipTop: bool = False,
+        prefix: str = "v",
     ) -> Union["Expr", ValueRef]:
         # skipTop is used to ignore the top-level match when simplifying a common expr
         if all([not Expr.__eq__(e, expr) for expr in commonExprs]) or skipTop:  # type: ignore
             if isinstance(e, Expr):
-                newArgs = [Expr.replaceExprs(arg, commonExprs, mode) for arg in e.args]
+                newArgs = [
+                    Expr.replaceExprs(arg, commonExprs, mode, prefix=prefix)
+                    for arg in e.args
+                ]
                 if isinstance(e, Object):
-                    return Expr.replaceExprs(e.src, commonExprs, mode)
+                    return Expr.replaceExprs(e.src, commonExprs, mode, prefix=prefix)
                 if isinstance(e, Var):
                     return Var(typing.cast(str, newArgs[0]), e.type)
                 elif isinstance(e, Lit):
@@ -277,9 +281,9 @@ class Expr:
         else:
             assert isinstance(e, Expr)
             if mode == PrintMode.Rosette:
-                return Var("(v%d)" % commonExprs.index(e), e.type)
+                return Var("(%s%d)" % (prefix, commonExprs.index(e)), e.type)
             else:
-                return Var("v%d" % commonExprs.index(e), e.type)
+                return Var("%s%d" % (prefix, commonExprs.index(e)), e.type)
 
     def __repr__(self) -> str:
         fn: Callable[[Union[ValueRef, Var]], Any] = (
@@ -2897,9 +2901,34 @@ class Synth(Expr):
     def set_body(self, body: Expr) -> None:
         self.args[1] = body
 
+    def nonterminal_names(self) -> pyTuple[str, str]:
+        """Name of the grammar's start symbol and prefix of its other nonterminals,
+        chosen such that no variable of the template is captured by the grammar."""
+        var_names: typing.Set[str] = set()
+
+        def collect(e: Any) -> None:
+            if isinstance(e, Var):
+                var_names.add(e.name())
+            elif isinstance(e, ValueRef):
+                var_names.add(e.name)
+            elif isinstance(e, Expr):
+                for arg in e.args:
+                    collect(arg)
+
+        for arg in self.args[1:]:
+            collect(arg)
+
+        start, prefix = "rv", "v"
+        while start in var_names:
+            start += "_"
+        while any(re.fullmatch(prefix + r"\d+", name) for name in var_names):
+            prefix += "_"
+        return start, prefix
+
     def to_rosette(
         self, writeChoicesTo: typing.Optional[Dict[str, "Expr"]] = None
     ) -> str:
+        start, prefix = self.nonterminal_names()
         cnts = Expr.findCommonExprs(self.args[1], [])
         commonExprs = list(
             filter(
@@ -2907,11 +2936,15 @@ class Synth(Expr):
                 [expr_cnt_tup[0] for expr_cnt_tup in cnts],
             )
         )
-        rewritten = Expr.replaceExprs(self.args[1], commonExprs, PrintMode.Rosette)
+        rewritten = Expr.replaceExprs(
+            self.args[1], commonExprs, PrintMode.Rosette, prefix=prefix
+        )
 
         # rewrite common exprs to use each other
         commonExprs = [
-            Expr.replaceExprs(e, commonExprs, PrintMode.Rosette, skipTop=True)
+            Expr.replaceExprs(
+                e, commonExprs, PrintMode.Rosette, skipTop=True, prefix=prefix
+            )
             for e in commonExprs
         ]
 
@@ -2924,20 +2957,21 @@ class Synth(Expr):
             for a in self.args[2:]
         )
 
-        defs = "[rv (choose %s)]\n" % rewritten.to_rosette()
+        defs = "[%s (choose %s)]\n" % (start, rewritten.to_rosette())
 
         if writeChoicesTo != None:
             for i, e in enumerate(commonExprs):
-                writeChoicesTo[f"v{i}"] = e  # type: ignore
+                writeChoicesTo[f"{prefix}{i}"] = e  # type: ignore
 
         defs = defs + "\n".join(
-            "%s %s)]" % ("[v%d (choose" % i, e.to_rosette())
+            "%s %s)]" % ("[%s%d (choose" % (prefix, i), e.to_rosette())
             for i, e in enumerate(commonExprs)
         )
 
         return "(define-grammar (%s_gram %s)\n %s\n)" % (self.args[0], args, defs)
 
     def toSMT(self) -> str:
+        start, prefix = self.nonterminal_names()
         cnts = Expr.findCommonExprs(self.args[1], [])
         commonExprs = list(
             filter(
@@ -2945,11 +2979,15 @@ class Synth(Expr):
                 [expr_cnt_tup[0] for expr_cnt_tup in cnts],
             )
         )
-        rewritten = Expr.replaceExprs(self.args[1], commonExprs, PrintMode.SMT)
+        rewritten = Expr.replaceExprs(
+            self.args[1], commonExprs, PrintMode.SMT, prefix=prefix
+        )
 
         # rewrite common exprs to use each other
         commonExprs = [
-            Expr.replaceExprs(e, commonExprs, PrintMode.SMT, skipTop=True)
+            Expr.replaceExprs(
+                e, commonExprs, PrintMode.SMT, skipTop=True, prefix=prefix
+            )
             for e in commonExprs
         ]
 
@@ -2960,14 +2998,16 @@ class Synth(Expr):
             expr_smt_type = expr_type.toSMTType(get_args(expr_type))  # type: ignore
             common_exprs_types.append(expr_smt_type)
 
-        decls = "((rv %s) %s)" % (
+        decls = "((%s %s) %s)" % (
+            start,
             return_type,
             " ".join(
-                "(%s %s)" % ("v%d" % i, smt_type)
+                "(%s %s)" % ("%s%d" % (prefix, i), smt_type)
                 for i, smt_type in enumerate(common_exprs_types)
             ),
         )
-        defs = "(rv %s %s)\n" % (
+        defs = "(%s %s %s)\n" % (
+            start,
             return_type,
             rewritten.toSMT()
             if isinstance(rewritten, Choose)
@@ -2976,7 +3016,7 @@ class Synth(Expr):
         defs = defs + "\n".join(
             "(%s %s %s)"
             % (
-                "v%d" % i,
+                "%s%d" % (prefix, i),
                 common_exprs_types[i],
                 e.toSMT() if isinstance(e, Choose) else f"({e.toSMT()})",
             )
-- 
2.43.0


From 88d896693951150cdf5150f4971874392092b85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:29 +0000
Subject: [PATCH 34/98] fix: map over the arguments of synthesis templates

---
 metalift/ir.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 7d7f0da..553397e 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -178,6 +178,12 @@ class Expr:
                 f(self.body()),
                 *[f(a) for a in self.arguments()],
             )
+        elif isinstance(self, Synth):
+            return Synth(
+                self.name(),
+                f(self.body()),
+                *[f(a) for a in self.arguments()],
+            )
         elif isinstance(self, Axiom):
             return Axiom(f(self.e()), *[f(var) for var in self.vars()])
         else:
-- 
2.43.0


From 14bf4559249823dddcb0b3ba4372635d9bab75d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 35/98] fix: a matrix variable with list bound 1 can have a row

---
 metalift/rosette_translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/rosette_translator.py b/metalift/rosette_translator.py
index 8d41724..8e2e10e 100644
--- a/metalift/rosette_translator.py
+++ b/metalift/rosette_translator.py
@@ -51,7 +51,7 @@ def gen_var(v: Expr, decls: List[str], vars_all: List[str], list_bound: int) ->
             gen_var(Var(t, element_type), decls, vars_all, list_bound)
         lsts: List[str] = [
             f"(list {' '.join(tmp[i : i + list_bound])})"
-            for i in range(0, len(tmp) - 1, list_bound)
+            for i in range(0, len(tmp), list_bound)
         ]
         decl = f"(define {v.args[0]} (take (list {' '.join(lsts)}) {len_name}))"
         decls.append(decl)
-- 
2.43.0


From 75e821e0e8f557c9f61f1d8faa7d0034641edb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 36/98] fix: declare symbolic variables of tuple type

---
 metalift/rosette_translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/rosette_translator.py b/metalift/rosette_translator.py
index 8e2e10e..f926362 100644
--- a/metalift/rosette_translator.py
+++ b/metalift/rosette_translator.py
@@ -98,7 +98,7 @@ def gen_var(v: Expr, decls: List[str], vars_all: List[str], list_bound: int) ->
             )
     elif is_tuple_type(v.type):
         elem_names = []
-        for i, t in enumerate(typing.get_args(v.type)):
+        for i, t in enumerate(typing.get_args(typing.get_args(v.type)[0])):
             elem_name = v.args[0] + "_TUPLE-" + str(i)
             gen_var(Var(elem_name, t), decls, vars_all, list_bound)
             elem_names.append(elem_name)
-- 
2.43.0


From 228c7ff6d71c2395ad6291f39cc7f9d7477b6e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 37/98] fix: read back list-append from Rosette solutions

---
 metalift/synthesize_rosette.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 3a0484f..3952009 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -170,7 +170,7 @@ def to_expr(
             return Call(
                 "list_append",
                 mlList[elem.type],  # type: ignore
-                toExpr(ast[1], fnsType, varType, choices),
+                list_expr,
                 elem,
             )
         elif ast[0] == "matrix-append":
-- 
2.43.0


From 6bd74014aec2afe77b338fa550173d8865ceff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 38/98] fix: resolve nested unresolved nonterminals of a
 Rosette solution

---
 metalift/synthesize_rosette.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 3952009..a0ae426 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -495,19 +495,11 @@ def to_expr(
 
                 if isinstance(expr, Var):
                     if expr.name().startswith("(") and expr.name()[1:-1] in choices:
-                        return choices[expr.name()[1:-1]].args[0]
+                        return replace_choices(choices[expr.name()[1:-1]].args[0])
                     return expr
                 return expr.map_args(replace_choices)
 
-            picked: Expr = choices[ast[0]].args[0]
-            while (
-                # picked.kind == Expr.Kind.Var
-                isinstance(picked, Var)
-                and picked.args[0].startswith("(")
-                and picked.args[0][1:-1] in choices
-            ):
-                picked = choices[picked.args[0][1:-1]].args[0]
-            return picked.map_args(replace_choices)
+            return replace_choices(choices[ast[0]].args[0])
         else:
             raise Exception(f"Unexpected function name: {ast[0]}")
     else:
-- 
2.43.0


From 2068a7a3ee2e91e3ef899589611c913a67515bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 39/98] fix: element type of a matrix read back from Rosette

---
 metalift/synthesize_rosette.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index a0ae426..9ef6eee 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -45,6 +45,7 @@ from metalift.ir import (
     Var,
     get_fn_return_type,
     get_list_element_type,
+    is_matrix_type,
 )
 from metalift.rosette_translator import to_rosette
 from metalift.synthesis_common import (
@@ -228,9 +229,12 @@ def to_expr(
             )
         elif ast[0] == "matrix-ref-noerr":
             list_expr = to_expr(ast[1], fnsType, varType, choices)
+            row_type = get_list_element_type(list_expr.type)
+            if is_matrix_type(list_expr.type):
+                row_type = mlList[row_type]  # type: ignore
             return Call(
                 "matrix_get",
-                get_list_element_type(list_expr.type),
+                row_type,
                 list_expr,
                 to_expr(ast[2], fnsType, varType, choices),
             )
-- 
2.43.0


From 9907a9594d5e338885aa6518740a0e28248b806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 40/98] fix: read back tensor slices from Rosette solutions

---
 metalift/synthesize_rosette.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 9ef6eee..73589db 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -354,6 +354,24 @@ def to_expr(
                 to_expr(ast[2], fnsType, varType, choices),
                 to_expr(ast[3], fnsType, varType, choices),
             )
+        elif ast[0] == "tensor3d-slice-noerr":
+            tensor_expr = to_expr(ast[1], fnsType, varType, choices)
+            return Call(
+                "tensor3d_slice",
+                tensor_expr.type,
+                tensor_expr,
+                to_expr(ast[2], fnsType, varType, choices),
+                to_expr(ast[3], fnsType, varType, choices),
+            )
+        elif ast[0] == "tensor3d-slice-with-length-noerr":
+            tensor_expr = to_expr(ast[1], fnsType, varType, choices)
+            return Call(
+                "tensor3d_slice_with_length",
+                tensor_expr.type,
+                tensor_expr,
+                to_expr(ast[2], fnsType, varType, choices),
+                to_expr(ast[3], fnsType, varType, choices),
+            )
         elif ast[0] == "matrix-transpose-noerr":
             matrix_expr = to_expr(ast[1], fnsType, varType, choices)
             return Call("matrix_transpose", matrix_expr.type, matrix_expr)
-- 
2.43.0


From ee7f680ca392ceed68685e39f9e462d6febce693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 41/98] fix: conditionals between matrices read back from
 Rosette

---
 metalift/synthesize_rosette.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 73589db..cf7d11b 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -1,3 +1,4 @@
+import copy
 import os
 import subprocess
 import time
@@ -92,6 +93,10 @@ def convert_expr(expr: Any) -> Expr:
     return expr
 
 
+def to_smt_type(ty: ObjectT) -> str:
+    return ty.toSMTType(typing.get_args(ty))  # type: ignore
+
+
 def to_expr(
     ast: typing.List[Any],
     fnsType: Dict[Any, Any],
@@ -138,6 +143,10 @@ def to_expr(
                 v1.type = v2.type
             if v2.type == None:
                 v2.type = v1.type
+            if v1.type != v2.type and to_smt_type(v1.type) == to_smt_type(v2.type):
+                # e.g. matrices and nested lists are the same to the solvers
+                v2 = copy.copy(v2)
+                v2.type = v1.type
 
             return Ite(
                 to_expr(ast[1], fnsType, varType, choices),
-- 
2.43.0


From 7303c230131027c2b6493cc1d65ae60dd5402f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 42/98] fix: type of an empty tensor read back from Rosette

---
 metalift/synthesize_rosette.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index cf7d11b..75ce6ee 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -41,6 +41,7 @@ from metalift.ir import (
     Sub,
     Synth,
     Target,
+    Tensor3D,
     TupleExpr,
     TupleGet,
     Var,
@@ -173,7 +174,7 @@ def to_expr(
         elif ast[0] == "matrix-empty":
             return Call("matrix_empty", mlList[mlList[Int]])
         elif ast[0] == "tensor3d-empty":
-            return Call("tensor3d_empty", mlList[mlList[mlList[Int]]])
+            return Call("tensor3d_empty", Tensor3D[Int])
         elif ast[0] == "list-append":
             list_expr = to_expr(ast[1], fnsType, varType, choices)
             elem = to_expr(ast[2], fnsType, varType, choices)
-- 
2.43.0


From 514a2ef07cbc8d47d4170f34ad54ca973f41aef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 43/98] fix: declare uninterpreted functions in the SMT
 verification file

---
 metalift/smt_util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index 56ddef2..83d9fe8 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -451,10 +451,15 @@ def toSMT(
                     )
             in_calls_to_renamed_fn_name = new_in_calls_to_renamed_fn_name
 
+        synthesized_names = {cand.name() for cand in inv_and_ps}
         for t in target_lang:
             if t in rewritten_fn_decls:
                 continue
-            if (isinstance(t, FnDecl) or isinstance(t, FnDecl)) and t.body() is None:
+            if (
+                isinstance(t, (FnDecl, FnDeclRecursive))
+                and t.body() is None
+                and t.name() in synthesized_names
+            ):
                 continue
             elif isinstance(t, Axiom):
                 axioms.append(t)
-- 
2.43.0


From f89722d5c30876f2df39710a3d2707c892d91b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 44/98] fix: leave unused higher-order functions out of the SMT
 verification file

---
 metalift/smt_util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index 83d9fe8..e385151 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -461,6 +461,11 @@ def toSMT(
                 and t.name() in synthesized_names
             ):
                 continue
+            elif not isinstance(t, Axiom) and any(
+                is_fn_decl_type(arg.type) for arg in t.arguments()
+            ):
+                # Only the versions specialized to a function argument can be defined.
+                continue
             elif isinstance(t, Axiom):
                 axioms.append(t)
             else:
-- 
2.43.0


From 3266505e68c5153a0bfee0902341c1965a4fe6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 45/98] fix: specialize higher-order functions to exactly the
 functions they are called with

---
 metalift/smt_util.py | 483 ++++++++++++-------------------------------
 1 file changed, 132 insertions(+), 351 deletions(-)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index e385151..9c20627 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -1,6 +1,6 @@
 import importlib.resources as resources
 import typing
-from typing import Any, Union, get_args
+from typing import Any, Sequence, Union, get_args
 
 import networkx as nx
 
@@ -8,121 +8,22 @@ from metalift import utils
 from metalift.ir import *
 
 
-def get_direct_calls(
-    target_lang: list[FnDecl | FnDeclRecursive],
-) -> dict[str, set[str]]:
-    """Returns a mapping from function names to a set of function names that call them."""
-
-    def get_fn_direct_calls(
-        expr: Expr | Any, fn_call: str, direct_calls: dict[str, set[str]]
-    ) -> Expr:
-        if not isinstance(expr, Expr):
-            return expr
-        if isinstance(expr, Call):
-            if expr.name() != fn_call:
-                if expr.name() not in direct_calls:
-                    direct_calls[expr.name()] = set()
-                direct_calls[expr.name()].add(fn_call)
-        return expr.map_args(
-            lambda expr: get_fn_direct_calls(expr, fn_call, direct_calls)
-        )
-
-    direct_calls: dict[str, set[str]] = {}
-    for fn_decl in target_lang:
-        fn_decl.map_args(
-            lambda expr: get_fn_direct_calls(expr, fn_decl.name(), direct_calls)
-        )
-    return direct_calls
-
-
-def get_direct_in_calls(
-    fn_decls: list[FnDecl | FnDeclRecursive],
-    in_calls: list[tuple[str, str]],
-) -> list[tuple[str, str]]:
-    """Sometimes, only indirect in calls are provided. For example, matrix selection two args takes in select_two_args_arg argument, and it is used in selection_two_args as well.
-
-    At the time of this function being invoked, in_calls should only have
-    (matrix_selection_two_args, select_two_args_arg), but we want in_calls to have (selection_two_args, select_two_args_arg) as well.
-    """
-
-    def get_fn_direct_in_calls(
-        *,
-        expr: Expr | Any,
-        fn_call: str,
-        in_call: str,
-        direct_in_calls: list[tuple[str, str]],
-    ) -> Expr:
-        if not isinstance(expr, Expr):
-            return expr
-        if isinstance(expr, Call):
-            if any(is_fn_decl_type(arg.type) for arg in expr.arguments()):
-                # Then this is a higher order function
-                fn_call = expr.name()
-            for arg in expr.arguments():
-                arg.map_args(
-                    lambda arg: get_fn_direct_in_calls(
-                        expr=arg,
-                        fn_call=expr.name(),
-                        in_call=in_call,
-                        direct_in_calls=direct_in_calls,
-                    )
-                )
-        elif isinstance(expr, CallValue):
-            direct_in_calls.append((fn_call, in_call))
-        return expr.map_args(
-            lambda expr: get_fn_direct_in_calls(
-                expr=expr,
-                fn_call=fn_call,
-                in_call=in_call,
-                direct_in_calls=direct_in_calls,
-            )
-        )
-
-    fn_name_to_in_calls: dict[str, set[str]] = {}
-    for fn_name, in_call in in_calls:
-        if fn_name not in fn_name_to_in_calls:
-            fn_name_to_in_calls[fn_name] = set()
-        fn_name_to_in_calls[fn_name].add(in_call)
-
-    direct_in_calls: list[tuple[str, str]] = []
-    for fn_decl in fn_decls:
-        relevant_in_calls = fn_name_to_in_calls.get(fn_decl.name(), set())
-        for in_call in relevant_in_calls:
-            fn_decl.map_args(
-                lambda expr: get_fn_direct_in_calls(
-                    expr=expr,
-                    fn_call=fn_decl.name(),
-                    in_call=in_call,
-                    direct_in_calls=direct_in_calls,
-                )
-            )
-    return direct_in_calls
-
-
 def get_dependent_fn_names(
     expr: Any, all_fn_names: List[str], dependent_fn_names: List[str]
 ) -> None:
-    if isinstance(expr, str) and expr in all_fn_names:
-        dependent_fn_names.append(expr)
-        return
-    elif isinstance(expr, Expr):
+    if isinstance(expr, Expr):
+        if isinstance(expr, Call) and expr.name() in all_fn_names:
+            dependent_fn_names.append(expr.name())
         for arg in expr.args:
             get_dependent_fn_names(arg, all_fn_names, dependent_fn_names)
 
 
 def topological_sort(
-    fn_decls_and_axioms: List[Union[FnDecl, FnDeclRecursive, Axiom]]
-) -> List[Union[FnDecl, FnDeclRecursive, Axiom]]:
+    fn_decls: Sequence[Union[FnDecl, FnDeclRecursive, Synth]]
+) -> List[Union[FnDecl, FnDeclRecursive, Synth]]:
     # First we construct a DAG
     graph = nx.DiGraph()
     edges: List[Tuple[str, str]] = []
-    axioms: List[Axiom] = []
-    fn_decls: List[Union[FnDecl, FnDeclRecursive]] = []
-    for f in fn_decls_and_axioms:
-        if isinstance(f, FnDeclRecursive) or isinstance(f, FnDecl):
-            fn_decls.append(f)
-        else:
-            axioms.append(f)
 
     all_fn_names = [fn_decl.name() for fn_decl in fn_decls]
     for fn_decl in fn_decls:
@@ -144,7 +45,7 @@ def topological_sort(
     independent_fn_decls = [
         fn_name_to_decl[fn_name] for fn_name in independent_fn_names
     ]
-    return dependent_fn_decls + independent_fn_decls + axioms
+    return dependent_fn_decls + independent_fn_decls
 
 
 def filter_args(argList: typing.List[Expr]) -> typing.List[Expr]:
@@ -155,19 +56,6 @@ def filter_args(argList: typing.List[Expr]) -> typing.List[Expr]:
     return newArgs
 
 
-def filter_fn_args(expr: Expr) -> Expr:
-    if (not isinstance(expr, Expr)) or isinstance(expr, Var) or isinstance(expr, Lit):
-        return expr
-    if isinstance(expr, Call):
-        new_args = []
-        for arg in expr.arguments():
-            if not is_fn_decl_type(arg.type):
-                new_args.append(filter_fn_args(arg))
-        return Call(expr.name(), expr.type, *new_args)
-    else:
-        return expr.map_args(lambda x: filter_fn_args(x))
-
-
 def replace_fn_name(
     *,
     expr: Expr,
@@ -226,81 +114,114 @@ def augment_arguments(
         )
 
 
-def replace_fn_name_with_in_call(
-    *, expr: Expr, new_fn_name: str, fn_name: str, in_call: str
-) -> Expr:
-    if (not isinstance(expr, Expr)) or isinstance(expr, Var) or isinstance(expr, Lit):
-        return expr
-    if isinstance(expr, Call):
-        final_fn_name = expr.name()
-        if expr.name() == fn_name and any(
-            is_fn_decl_type(arg.type) and arg.name() == in_call
-            for arg in expr.arguments()
-        ):
-            final_fn_name = new_fn_name
-        return Call(
-            final_fn_name,
-            expr.type,
-            *[
-                replace_fn_name_with_in_call(
-                    expr=arg, new_fn_name=new_fn_name, fn_name=fn_name, in_call=in_call
-                )
-                for arg in expr.arguments()
-            ],
-        )
-    else:
-        return expr.map_args(
-            lambda x: replace_fn_name_with_in_call(
-                expr=x, new_fn_name=new_fn_name, fn_name=fn_name, in_call=in_call
-            )
-        )
-
+class FnSpecializer:
+    """
+    SMT-LIB functions cannot take functions as arguments. We therefore replace every call
+    that passes functions by a call to a version of the callee that is specialized to
+    exactly these functions, and collect the definitions of these versions.
+    """
 
-def filter_body(
-    *, fun_def: Expr, new_fn_call: str, fn_call: str, in_call: Optional[str] = None
-) -> Expr:
-    if (
-        (not isinstance(fun_def, Expr))
-        or isinstance(fun_def, Var)
-        or isinstance(fun_def, Lit)
-    ):
-        return fun_def
-    if isinstance(fun_def, Call):
-        new_args = []
-        for arg in fun_def.arguments():
-            if not is_fn_decl_type(arg.type):
-                new_args.append(
-                    filter_body(
-                        fun_def=arg,
-                        new_fn_call=new_fn_call,
-                        fn_call=fn_call,
-                        in_call=in_call,
-                    )
-                )
-        fn_name = fun_def.name()
-        if fn_call == fn_name:
-            fn_name = new_fn_call
-        return Call(fn_name, fun_def.type, *new_args)
-    elif isinstance(fun_def, CallValue):
-        new_args = []
-        for arg in fun_def.arguments():
-            new_args.append(
-                filter_body(
-                    fun_def=arg,
-                    new_fn_call=new_fn_call,
-                    fn_call=fn_call,
-                    in_call=in_call,
-                )
+    def __init__(self, fn_decls: Sequence[Union[FnDecl, FnDeclRecursive]]) -> None:
+        self.higher_order_fns = {
+            fn_decl.name(): fn_decl
+            for fn_decl in fn_decls
+            if any(is_fn_decl_type(arg.type) for arg in fn_decl.arguments())
+        }
+        # Specialized versions, by the name of the higher-order function and the names of
+        # the functions passed to it.
+        self.specialized_fns: Dict[
+            tuple[str, tuple[str, ...]], Union[FnDecl, FnDeclRecursive]
+        ] = {}
+
+    def specialize(self, fn_name: str, in_calls: tuple[str, ...]) -> str:
+        """Returns the name of the version of the function that calls the given functions."""
+        specialized_name = "_".join([fn_name, *in_calls])
+        if (fn_name, in_calls) not in self.specialized_fns:
+            fn_decl = self.higher_order_fns[fn_name]
+            fn_args = [a for a in fn_decl.arguments() if is_fn_decl_type(a.type)]
+            specialized_fn = fn_decl.__class__(
+                specialized_name,
+                fn_decl.return_type(),
+                fn_decl.body(),
+                *filter_args(fn_decl.arguments()),
             )
-        if in_call is None:
-            raise Exception("in call is None!")
-        return Call(in_call, fun_def.type, *new_args)
-    else:
-        return fun_def.map_args(
-            lambda x: filter_body(
-                fun_def=x, new_fn_call=new_fn_call, fn_call=fn_call, in_call=in_call
+            # Registered before the body is rewritten, because the body may be recursive.
+            self.specialized_fns[(fn_name, in_calls)] = specialized_fn
+            bindings = {a.name(): in_call for a, in_call in zip(fn_args, in_calls)}
+            specialized_fn.set_body(self.rewrite(fn_decl.body(), bindings))
+        return specialized_name
+
+    def rewrite(
+        self,
+        expr: Any,
+        bindings: Dict[str, str] = {},
+        omitted_in_calls: tuple[str, ...] = (),
+    ) -> Any:
+        """
+        bindings maps function parameters to the functions they stand for. Calls of
+        higher-order functions without function arguments get omitted_in_calls instead.
+        """
+        if (
+            (not isinstance(expr, Expr))
+            or isinstance(expr, Var)
+            or isinstance(expr, Lit)
+        ):
+            return expr
+        if isinstance(expr, CallValue):
+            fn_name = expr.value().name()
+            return Call(
+                bindings.get(fn_name, fn_name),
+                expr.type,
+                *[
+                    self.rewrite(arg, bindings, omitted_in_calls)
+                    for arg in expr.arguments()
+                ],
             )
+        if isinstance(expr, Call):
+            fn_name = expr.name()
+            in_calls = tuple(
+                bindings.get(arg.name(), arg.name())
+                for arg in expr.arguments()
+                if is_fn_decl_type(arg.type)
+            )
+            new_args = [
+                self.rewrite(arg, bindings, omitted_in_calls)
+                for arg in filter_args(expr.arguments())
+            ]
+            if fn_name in self.higher_order_fns:
+                fn_name = self.specialize(fn_name, in_calls or omitted_in_calls)
+            return Call(fn_name, expr.type, *new_args)
+        return expr.map_args(lambda a: self.rewrite(a, bindings, omitted_in_calls))
+
+    def rewrite_axiom(self, axiom: Axiom) -> List[Axiom]:
+        """
+        Axioms may leave the function arguments of a higher-order function out. Such an
+        axiom holds for every version of that function.
+        """
+        omitted_fn_names: typing.Set[str] = set()
+
+        def collect_omitted(expr: Any) -> Any:
+            if isinstance(expr, Expr):
+                if (
+                    isinstance(expr, Call)
+                    and expr.name() in self.higher_order_fns
+                    and not any(is_fn_decl_type(arg.type) for arg in expr.arguments())
+                ):
+                    omitted_fn_names.add(expr.name())
+                for arg in expr.args:
+                    collect_omitted(arg)
+
+        collect_omitted(axiom)
+        if len(omitted_fn_names) == 0:
+            return [self.rewrite(axiom)]
+        all_in_calls = dict.fromkeys(
+            in_calls
+            for fn_name, in_calls in self.specialized_fns
+            if fn_name in omitted_fn_names
         )
+        return [
+            self.rewrite(axiom, omitted_in_calls=in_calls) for in_calls in all_in_calls
+        ]
 
 
 def toSMT(
@@ -322,170 +243,30 @@ def toSMT(
             out.write(resources.read_text(utils, "list-axioms.smt"))
             # out.write(resources.read_text(utils, "map-axioms.smt"))
 
-        early_candidates_names = set()
-
-        fn_decls: list[FnDecl | FnDeclRecursive] = []
-        axioms: list[Axiom] = []
-        target_lang = topological_sort(target_lang)
-
-        direct_calls = get_direct_calls(
-            [fn_decl for fn_decl in target_lang if not isinstance(fn_decl, Axiom)]
-        )
-        direct_in_calls = get_direct_in_calls(
-            fn_decls=[
-                fn_decl for fn_decl in target_lang if not isinstance(fn_decl, Axiom)
-            ],
-            in_calls=in_calls,
-        )
-
-        rewritten_fn_decls: set[Expr] = set()
-        in_calls_to_renamed_fn_name: dict[tuple[str, str], str] = {}
-        # First, we want to replace all the direct in calls.
-        for t in target_lang:
-            if (
-                isinstance(t, FnDeclRecursive) or isinstance(t, FnDecl)
-            ) and t.name() in fn_calls:
-                for i in direct_in_calls:
-                    if i[0] == t.name():
-                        rewritten_fn_decls.add(t)
-                        early_candidates_names.add(i[1])
-                        # If we are doing the first round, then it means we are rewritting
-                        # functions that have direct calls to the inlined function. An example
-                        # of such a function is selection_two_args.
-                        new_fn_name = f"{t.name()}_{i[1]}"
-                        new_body = filter_body(
-                            fun_def=t.body(),
-                            new_fn_call=new_fn_name,
-                            fn_call=i[0],
-                            in_call=i[1],
-                        )
-                        # remove function type args
-                        new_args = filter_args(t.arguments())
-
-                        in_calls_to_renamed_fn_name[(t.name(), i[1])] = new_fn_name
-                        fn_decls.append(
-                            FnDeclRecursive(
-                                new_fn_name,
-                                t.return_type(),
-                                new_body,
-                                *new_args,
-                            )
-                            if isinstance(t, FnDeclRecursive)
-                            else FnDecl(
-                                new_fn_name,
-                                t.return_type(),
-                                new_body,
-                                *new_args,
-                            )
-                        )
-        # Now, we start iteratively replacing function calls with the inlined-function-rewritten versions.
-        while len(in_calls_to_renamed_fn_name) > 0:
-            # We need to rename all such functions in the synthesized ones.
-            for idx, cand in enumerate(inv_and_ps):
-                for (
-                    fn_name,
-                    in_call,
-                ), new_fn_name in in_calls_to_renamed_fn_name.items():
-                    new_body = replace_fn_name_with_in_call(
-                        expr=cand.body(),
-                        new_fn_name=new_fn_name,
-                        fn_name=fn_name,
-                        in_call=in_call,
-                    )
-                    cand.set_body(new_body)
-                inv_and_ps[idx] = cand
-
-            new_in_calls_to_renamed_fn_name: dict[tuple[str, str], str] = {}
-            for idx, t in enumerate(target_lang):
-                if isinstance(t, Axiom):
-                    axiom = t
-                    for (
-                        fn_name,
-                        in_call,
-                    ), new_fn_name in in_calls_to_renamed_fn_name.items():
-                        axiom = replace_fn_name(
-                            expr=axiom, new_fn_name=new_fn_name, fn_name=fn_name
-                        )
-                        axiom = filter_fn_args(axiom)
-                    target_lang[idx] = axiom
-
-            for (fn_name, in_call), new_fn_name in in_calls_to_renamed_fn_name.items():
-                fn_callers = direct_calls.get(fn_name, set())
-                for t in target_lang:
-                    if isinstance(t, Axiom):
-                        continue
-                    if t.name() not in fn_callers:
-                        continue
-                    new_body = filter_body(
-                        fun_def=t.body(),
-                        new_fn_call=new_fn_name,
-                        fn_call=fn_name,
-                        in_call=None,
-                    )
-
-                    new_fn_name = f"{t.name()}_{new_fn_name}"
-                    new_body = filter_body(
-                        fun_def=new_body,
-                        new_fn_call=new_fn_name,
-                        fn_call=t.name(),
-                        in_call=None,
-                    )
-                    new_args = filter_args(t.arguments())
-
-                    new_in_calls_to_renamed_fn_name[(t.name(), in_call)] = new_fn_name
-                    rewritten_fn_decls.add(t)
-                    fn_decls.append(
-                        FnDeclRecursive(
-                            new_fn_name,
-                            t.return_type(),
-                            new_body,
-                            *new_args,
-                        )
-                        if isinstance(t, FnDeclRecursive)
-                        else FnDecl(
-                            new_fn_name,
-                            t.return_type(),
-                            new_body,
-                            *new_args,
-                        )
-                    )
-            in_calls_to_renamed_fn_name = new_in_calls_to_renamed_fn_name
+        target_fns = [t for t in target_lang if not isinstance(t, Axiom)]
+        specializer = FnSpecializer(target_fns)
 
+        candidates = [specializer.rewrite(cand) for cand in inv_and_ps]
+        vc = specializer.rewrite(vc)
         synthesized_names = {cand.name() for cand in inv_and_ps}
-        for t in target_lang:
-            if t in rewritten_fn_decls:
-                continue
-            if (
-                isinstance(t, (FnDecl, FnDeclRecursive))
-                and t.body() is None
-                and t.name() in synthesized_names
-            ):
-                continue
-            elif not isinstance(t, Axiom) and any(
-                is_fn_decl_type(arg.type) for arg in t.arguments()
-            ):
-                # Only the versions specialized to a function argument can be defined.
-                continue
-            elif isinstance(t, Axiom):
-                axioms.append(t)
-            else:
-                out.write("\n" + t.toSMT() + "\n")
-
-        vc = filter_fn_args(vc)
-
-        early_candidates: list[FnDeclRecursive | Synth] = []
-        candidates: list[FnDeclRecursive | Synth] = []
-        for cand in inv_and_ps:
-            cand = filter_fn_args(cand)
-            if cand.name() in early_candidates_names:
-                early_candidates.append(cand)
-            else:
-                candidates.append(cand)
-        candidates = topological_sort(candidates)
-        out.write("\n\n".join(["\n%s\n" % cand.toSMT() for cand in early_candidates]))
-        out.write("\n\n".join(["\n%s\n" % inlined.toSMT() for inlined in fn_decls]))
+        fn_decls: list[FnDecl | FnDeclRecursive | Synth] = [
+            specializer.rewrite(t)
+            for t in target_fns
+            if t.name() not in specializer.higher_order_fns
+            # Functions to be synthesized are defined by their candidates.
+            and not (t.body() is None and t.name() in synthesized_names)
+        ]
+        axioms = [
+            rewritten
+            for t in target_lang
+            if isinstance(t, Axiom)
+            for rewritten in specializer.rewrite_axiom(t)
+        ]
+        fn_decls = topological_sort(
+            [*fn_decls, *specializer.specialized_fns.values(), *candidates]
+        )
+        out.write("\n\n".join(["\n%s\n" % fn_decl.toSMT() for fn_decl in fn_decls]))
         out.write("\n\n".join(["\n%s\n" % axiom.toSMT() for axiom in axioms]))
-        out.write("\n\n".join(["\n%s\n" % cand.toSMT() for cand in candidates]))
 
         declarations: typing.List[tuple[str, ObjectT]] = []
         for v in vars:
-- 
2.43.0


From 57d9c429cb5b35bbc67a8e010f5a33bc72484d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 46/98] fix: delete leftover solutions whatever characters the
 task name contains

---
 metalift/synthesize_rosette.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 75ce6ee..ab21a04 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -1,4 +1,5 @@
 import copy
+import glob
 import os
 import subprocess
 import time
@@ -643,7 +644,7 @@ def synthesize(
     last_processed_sol_idx = -1
 
     # before we start synthesis, we need to delete all previous solutions.
-    for sol_file in Path(synth_dir).glob(f"{basename}_sol*"):
+    for sol_file in Path(synth_dir).glob(f"{glob.escape(basename)}_sol*"):
         sol_file.unlink()
     proc_synthesis = subprocess.Popen(
         ["racket", synth_file],
-- 
2.43.0


From 110c7f3dab9fc4f75b8d7c320993a0daf64ba4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 47/98] fix: conclude and stop Rosette whatever it answers

Rosette ending without a solution made synthesize() loop for ever or fail with a
NameError, failures left the process running, and a full pipe blocked it.
---
 metalift/synthesize_rosette.py | 91 +++++++++++++++++++++++++---------
 1 file changed, 67 insertions(+), 24 deletions(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index ab21a04..c45be64 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -641,27 +641,78 @@ def synthesize(
 
     synth_names = to_synthesize(loop_and_ps_info, target_lang)
 
-    last_processed_sol_idx = -1
-
     # before we start synthesis, we need to delete all previous solutions.
     for sol_file in Path(synth_dir).glob(f"{glob.escape(basename)}_sol*"):
         sol_file.unlink()
-    proc_synthesis = subprocess.Popen(
-        ["racket", synth_file],
-        stdout=subprocess.PIPE,
-        stderr=subprocess.PIPE,
-    )
+    # nothing reads the output while Rosette runs, so it must not go to pipes
+    error_log = Path(f"{synth_dir}/{basename}_errors")
+    with open(error_log, "wb") as err_out:
+        proc_synthesis = subprocess.Popen(
+            ["racket", synth_file],
+            stdout=subprocess.DEVNULL,
+            stderr=err_out,
+        )
     process_tracker.all_processes.append(proc_synthesis)
+    try:
+        return check_solutions(
+            proc_synthesis=proc_synthesis,
+            error_log=error_log,
+            basename=basename,
+            target_lang=target_lang,
+            vars=vars,
+            inv_and_ps=inv_and_ps,
+            preds=preds,
+            vc=vc,
+            loop_and_ps_info=loop_and_ps_info,
+            cvc_path=cvc_path,
+            uid=uid,
+            no_verify=no_verify,
+            log=log,
+            rounds_to_guess=rounds_to_guess,
+            synth_dir=synth_dir,
+            synth_names=synth_names,
+            choices=choices,
+        )
+    finally:
+        # whatever the outcome is, no more solutions are needed
+        proc_synthesis.terminate()
+        proc_synthesis.wait()
+
+
+def check_solutions(
+    proc_synthesis: "subprocess.Popen[bytes]",
+    error_log: Path,
+    basename: str,
+    target_lang: typing.Sequence[Union[FnDeclRecursive, FnDecl, Axiom]],
+    vars: typing.Set[Var],
+    inv_and_ps: typing.List[Synth],
+    preds: typing.List[Expr],
+    vc: Expr,
+    loop_and_ps_info: typing.Sequence[Union[CodeInfo, Expr]],
+    cvc_path: str,
+    uid: int,
+    no_verify: bool,
+    log: bool,
+    rounds_to_guess: int,
+    synth_dir: str,
+    synth_names: typing.List[str],
+    choices: Dict[str, Dict[str, Expr]],
+) -> typing.List[FnDeclRecursive]:
+    """Verifies the solutions in the order in which Rosette writes them, and returns the first one that holds."""
     # both last_processed_sol_idx and rounds_to_guess are 0-indexed
-    while (
-        exit_code := proc_synthesis.poll()
-    ) is None or last_processed_sol_idx + 1 < rounds_to_guess + 1:
-        time.sleep(2)
+    last_processed_sol_idx = -1
+    while last_processed_sol_idx < rounds_to_guess:
+        # a process that has ended by now has written all its solutions
+        exit_code = proc_synthesis.poll()
 
         curr_sol_idx = last_processed_sol_idx + 1
         curr_sol_file = Path(f"{synth_dir}/{basename}_sol{curr_sol_idx}")
-        curr_sol_exists = curr_sol_file.is_file()
+        # Rosette creates the file before it prints the solution
+        curr_sol_exists = curr_sol_file.is_file() and curr_sol_file.stat().st_size > 0
         if not curr_sol_exists:
+            if exit_code is not None:
+                break
+            time.sleep(2)
             continue
 
         with open(curr_sol_file, "r") as f:
@@ -802,8 +853,6 @@ def synthesize(
                         else:
                             print(codegen(body))
                         print("\n\n")
-            # Kill the process, since we have already found the solution
-            proc_synthesis.terminate()
             return candidates_smt
         else:
             if log:
@@ -818,13 +867,7 @@ def synthesize(
 
         last_processed_sol_idx = curr_sol_idx
 
-        # exit_code = proc_synthesis.poll()
-
-    # Now we have exited out of the while loop
-    if exit_code != 0:
-        if len(result_synth) > 0 and result_synth[0] == "#f":
-            raise SynthesisFailed(f"Synthesis failed: exit code {exit_code}")
-        else:
-            raise Exception(
-                f"Rosette failed: exit code {exit_code}\n" + "\n".join(err_synth)
-            )
+    # Rosette has ended without writing the next solution
+    with open(error_log, "r", errors="replace") as f:
+        err_synth = f.read()
+    raise Exception(f"Rosette failed: exit code {exit_code}\n{err_synth}")
-- 
2.43.0


From 78ad8d2f9093c40152519f581c7c83956f525c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 48/98] fix: conclude when cvc5 ends without a solution

---
 metalift/synthesize_cvc5.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 7aaeb2a..eb777b7 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -298,7 +298,8 @@ def synthesize(
         logfileVerif = typing.cast(IO[bytes], proc.stdout)
         while True:
             line = logfileVerif.readline().decode("utf-8")
-            if "fail" in line:
+            if line == "" or line.strip() in ("fail", "infeasible"):
+                # no (more) output, or no solution
                 break
             elif "sygus-candidate" in line:
                 print("Current PS and INV Guess:", line.strip())
@@ -337,10 +338,6 @@ def synthesize(
                     )
                     print("\n".join(verifyLogs))
                     raise VerificationFailed("Verification failed")
-            else:
-                code = proc.poll()
-                if code is not None and code > 0:
-                    break
 
         raise SynthesisFailed("SyGuS failed")
     finally:
-- 
2.43.0


From d0b7267a3f9e1369f8c98906f0e1ae7ebd620411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 49/98] fix: never let cvc5 block on its error output

---
 metalift/synthesize_cvc5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index eb777b7..3b60489 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -288,7 +288,7 @@ def synthesize(
     proc = subprocess.Popen(
         [cvcPath, "--lang=sygus2", "--output=sygus", "--no-sygus-pbe", sygusFile],
         stdout=subprocess.PIPE,
-        stderr=subprocess.PIPE,
+        stderr=subprocess.DEVNULL,
     )
 
     process_tracker.all_processes.append(proc)
-- 
2.43.0


From 1a80ed94cd608eebbe43754b1a84ce8c67485d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 50/98] fix: accept axioms in the target language of a SyGuS
 task

---
 metalift/synthesize_cvc5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 3b60489..a883eb3 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -280,7 +280,7 @@ def synthesize(
         vc,
         sygusFile,
         [],
-        [f.name() for f in targetLang],
+        [f.name() for f in targetLang if not isinstance(f, Axiom)],
         True,
     )
 
-- 
2.43.0


From 978ce6789fb1c3a503f131218a69f7dd7694d7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 51/98] fix: pass the problem to Rosette as its verifier

---
 metalift/synthesis_common.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/metalift/synthesis_common.py b/metalift/synthesis_common.py
index 4f93ffb..dc62ca8 100644
--- a/metalift/synthesis_common.py
+++ b/metalift/synthesis_common.py
@@ -170,15 +170,18 @@ def verify_synth_result(
         verifFile = synthDir + basename + f"_{uid}" + ".smt"
     if use_rosette:
         to_rosette(
-            verifFile,
-            targetLang,
-            vars,
-            candidatesSMT,
-            preds,  # type: ignore
-            vc,
-            [],
-            [],
-            True,
+            basename=basename,
+            filename=verifFile,
+            target_lang=targetLang,
+            vars=vars,
+            inv_and_ps=candidatesSMT,
+            preds=preds,  # type: ignore
+            vc=vc,
+            loop_and_ps_info=[],
+            rounds_to_guess=0,
+            fns_to_guess=[],
+            fn_defs_to_exclude=[],
+            unbounded_ints=True,
             list_bound=4,  # TODO: bench to find what this value should be
             verify_mode=True,
         )
-- 
2.43.0


From 4b6798419cae5498fdc34df81c45c4c75345fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 52/98] fix: read operators with more than two operands back
 from cvc5

---
 metalift/synthesize_cvc5.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index a883eb3..995d6d6 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -122,13 +122,16 @@ def toExpr(
         "or": Or,
         "=>": Implies,
     }
+    expr_nary = {"+", "*", "and", "or"}
     expr_uni = {"not": Not}
     if isinstance(ast, list):
         if ast[0] in expr_bi.keys():
-            if len(ast) == 3:
+            if len(ast) == 3 or (len(ast) > 3 and ast[0] in expr_nary):
                 return expr_bi[ast[0]](
-                    toExpr(ast[1], funName, returnType, varType, letVars),
-                    toExpr(ast[2], funName, returnType, varType, letVars),
+                    *[
+                        toExpr(arg, funName, returnType, varType, letVars)
+                        for arg in ast[1:]
+                    ]
                 )
             elif len(ast) == 2 and ast[0] == "-":
                 return expr_bi[ast[0]](
-- 
2.43.0


From 4b399c856e6010d5efac984a2a051dd0095300fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 53/98] fix: read div and mod back from cvc5

---
 metalift/synthesize_cvc5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 995d6d6..5c09b63 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -14,6 +14,7 @@ from metalift.ir import (
     Bool,
     BoolLit,
     Call,
+    Div,
     Eq,
     Expr,
     FnDecl,
@@ -26,6 +27,7 @@ from metalift.ir import (
     Ite,
     Le,
     Lt,
+    Mod,
     Mul,
     Not,
     ObjectT,
@@ -114,6 +116,8 @@ def toExpr(
         "+": Add,
         "-": Sub,
         "*": Mul,
+        "div": Div,
+        "mod": Mod,
         "<": Lt,
         "<=": Le,
         ">": Gt,
-- 
2.43.0


From 39bc201908b1268fc9050a8753771a17d4d78f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 54/98] fix: read every binding of a let back from cvc5

---
 metalift/synthesize_cvc5.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 5c09b63..bab23a9 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -160,9 +160,8 @@ def toExpr(
             )
         elif ast[0] == "let":
             newLetVars = dict(letVars)
-            newLetVars[ast[1][0][0]] = toExpr(
-                ast[1][0][1], funName, returnType, varType, letVars
-            )
+            for name, value in ast[1]:
+                newLetVars[name] = toExpr(value, funName, returnType, varType, letVars)
             return toExpr(ast[2], funName, returnType, varType, newLetVars)
         elif ast[0] == "ite":
             return Ite(
-- 
2.43.0


From 917923bc72f14acb6b38f2b6b0387b7a352f9b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 55/98] fix: read tuples back from cvc5 as tuple expressions

---
 metalift/synthesize_cvc5.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index bab23a9..3b5e894 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -34,7 +34,7 @@ from metalift.ir import (
     Or,
 )
 from metalift.ir import Set as mlSet
-from metalift.ir import Sub, Synth, TupleGet, Var, get_fn_return_type, make_tuple_type
+from metalift.ir import Sub, Synth, TupleExpr, TupleGet, Var, get_fn_return_type
 from metalift.smt_util import toSMT
 from metalift.synthesis_common import (
     SynthesisFailed,
@@ -182,15 +182,7 @@ def toExpr(
                     arg_eval.append(
                         toExpr(ast[alen], funName, returnType, varType, letVars)
                     )
-                return Call(
-                    "tuple%d" % (len(ast) - 1),
-                    make_tuple_type(
-                        arg_eval[0].type,
-                        arg_eval[1].type,
-                        *[e.type for e in arg_eval[2:]],
-                    ),
-                    *arg_eval,
-                )
+                return TupleExpr(*arg_eval)
         elif ast[0] == "as" and ast[1] == "set.empty":
             return Call("set-create", mlSet[Int])  # TODO: parse the type
         elif ast[0] == "set.insert":
-- 
2.43.0


From 02cbaf95721e4c974ff0887c4212fef693ed5bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 56/98] fix: match cvc5 candidates with functions by their
 exact name

---
 metalift/synthesize_cvc5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 3b5e894..eef39e2 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -87,7 +87,7 @@ def generateCandidates(
     for ce in invAndPs:
         name = ce.name()
         for a in ast[0]:
-            if name in a:
+            if isinstance(a, list) and a[0] == name:
                 args = {}
                 for v in ce.arguments():
                     args[v.args[0]] = v.type
-- 
2.43.0


From 77c60c3dbbbb290f0f39da26412d50b2d1896d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:00 +0000
Subject: [PATCH 57/98] fix: read a negated integer in a solution as an
 expression

---
 llmlift_scripts/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 05ee5c5..34af985 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -428,7 +428,7 @@ def mypy_node_to_ir(
                     raise Exception(
                         f"Unary operator - is only supported on integers, not {types[node]}"
                     )
-                return Sub(Int(0), node_expr)
+                return Sub(Int(0).src, node_expr)
             else:
                 raise Exception(f"Unary operator {node.op} is not supported")
         elif isinstance(node, IntExpr):
-- 
2.43.0


From 735f8776f337aacdc801ce36a23664646ee1496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:00 +0000
Subject: [PATCH 58/98] fix: keep the elements of a list written in a solution

---
 llmlift_scripts/parser.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 34af985..77341d2 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -435,7 +435,16 @@ def mypy_node_to_ir(
             return create_object(Int, node.value).src
         elif isinstance(node, ListExpr):
             node_type = mypy_type_to_ir_type(types[node])
-            return node_type.empty(get_args(node_type)[0]).src
+            list_expr = node_type.empty(get_args(node_type)[0]).src
+            append_fn = (
+                "matrix_append" if is_nested_list_type(node_type) else "list_append"
+            )
+            for item in node.items:
+                item_expr = parse_node(item)
+                if item_expr.type != get_args(node_type)[0]:
+                    raise Exception(f"Elements of {types[node]} must be of one type")
+                list_expr = call(append_fn, node_type, list_expr, item_expr).src
+            return list_expr
         elif isinstance(node, ConditionalExpr):
             return ite(
                 parse_node(node.cond),
-- 
2.43.0


From d8516eaf0760560b051c9908f019cdbbdbab211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:00 +0000
Subject: [PATCH 59/98] fix: read True and False as values and reject names
 from outside a solution

---
 llmlift_scripts/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 77341d2..4671b4b 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -9,6 +9,7 @@ from mypy import build
 from mypy.defaults import PYTHON3_VERSION
 from mypy.modulefinder import BuildSource
 from mypy.nodes import (
+    LDEF,
     AssignmentStmt,
     Block,
     CallExpr,
@@ -377,7 +378,10 @@ def mypy_node_to_ir(
                     )
                 return call(func_name, ret_ir_type, *arg_exprs).src
         elif isinstance(node, NameExpr):
-            # Nothing can go wrong with a name expression (which are basically variables)
+            if node.fullname in {"builtins.True", "builtins.False"}:
+                return Bool(node.name == "True").src
+            if node.kind != LDEF and not isinstance(node.node, FuncDef):
+                raise Exception(f"{node.name} is not an argument of the function")
             ir_type = mypy_type_to_ir_type(types[node])
             return create_object(ir_type, node.name).src
         # TODO: check not
-- 
2.43.0


From f3b7b91b2b54c14ea5390ca446dd86a6f969656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:00 +0000
Subject: [PATCH 60/98] fix: pass the arguments of a call in a solution to the
 parameters they belong to

---
 llmlift_scripts/parser.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 4671b4b..8cf0047 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -9,6 +9,8 @@ from mypy import build
 from mypy.defaults import PYTHON3_VERSION
 from mypy.modulefinder import BuildSource
 from mypy.nodes import (
+    ARG_NAMED,
+    ARG_POS,
     LDEF,
     AssignmentStmt,
     Block,
@@ -306,7 +308,7 @@ def mypy_node_to_ir(
 
                 # First we check if this function is a python built-in function
                 if func_name == "len":
-                    if len(node.args) != 1:
+                    if len(node.args) != 1 or node.arg_kinds[0] != ARG_POS:
                         raise Exception("len() takes exactly one argument")
                     arg_expr = parse_node(node.args[0])
                     if is_matrix_type(arg_expr.type) or is_nested_list_type(
@@ -333,10 +335,24 @@ def mypy_node_to_ir(
                         f"Incorrect number of arguments for function {func_name}. Required {expected_num_args} but got {actual_num_args}"
                     )
 
+                # Match the arguments with the parameters
+                args_by_name: dict[str, Node] = {}
+                for idx, arg in enumerate(node.args):
+                    if node.arg_kinds[idx] == ARG_POS:
+                        arg_name = arg_names[idx]
+                    elif node.arg_kinds[idx] == ARG_NAMED:
+                        arg_name = node.arg_names[idx]
+                    else:
+                        raise Exception("Starred arguments are not supported")
+                    if arg_name not in arg_names or arg_name in args_by_name:
+                        raise Exception(f"Incorrect arguments for function {func_name}")
+                    args_by_name[arg_name] = arg
+                args = [args_by_name[arg_name] for arg_name in arg_names]
+
                 # Check argument types and make argument objects
                 arg_exprs: List[Expr] = []
                 for idx, (arg, expected_ir_type, expected_type) in enumerate(
-                    zip(node.args, arguments_ir_types, func_type.arg_types)
+                    zip(args, arguments_ir_types, func_type.arg_types)
                 ):
                     # We check if the IR types match but throw errors with python types.
                     # This is because multiple python types can map to the same IR type.
@@ -369,6 +385,14 @@ def mypy_node_to_ir(
                         fn_decls.append(arg_expr)
                         in_calls.append((func_name, arg_fn_name))
                     arg_exprs.append(arg_expr)
+                if node.callee.fullname.startswith("target_code."):
+                    # The arguments of the rewritten functions are sorted by name
+                    arg_exprs = [
+                        arg_expr
+                        for _, arg_expr in sorted(
+                            zip(arg_names, arg_exprs), key=lambda x: x[0]
+                        )
+                    ]
 
                 # Check return type. Again we compare IR types but throw errors using python types.
                 actual_ret_ir_type = mypy_type_to_ir_type(types[node])
-- 
2.43.0


From 4da37139c4a3a5b3c62f801fcb8ead80aaffc91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:00 +0000
Subject: [PATCH 61/98] fix: reject solutions with unannotated or starred
 arguments or that redefine the DSL

---
 llmlift_scripts/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 8cf0047..a5738a3 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -178,12 +178,16 @@ def mypy_parse(
     func_sign: dict[str, tuple[Type | None, ObjectT | None, list[str]]] = {}
     for func_def in [*target_func_defs, *get_dsl_func_defs()]:
         func_ir_type = mypy_type_to_ir_type(func_def.type)
+        if func_def.name in func_sign:
+            raise Exception(f"Function {func_def.name} is defined more than once")
+        if any(arg.kind.is_star() for arg in func_def.arguments):
+            raise Exception(f"Function {func_def.name} has starred arguments")
         if func_ir_type is None:
             raise Exception(f"Function {func_def.name} has no type information")
 
         arg_ir_types = func_ir_type.argument_types(get_args(func_ir_type))
         ret_ir_type = func_ir_type.return_type(get_args(func_ir_type))
-        if any(arg_ir_types) is None:
+        if any(arg_ir_type is None for arg_ir_type in arg_ir_types):
             raise Exception(
                 f"Function {func_def.name} has arguments with no type information"
             )
-- 
2.43.0


From 5043ecea3162af945bb93fb0571c5b7570d31c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:00 +0000
Subject: [PATCH 62/98] fix: reject slices with a step and negative indices in
 solutions

---
 llmlift_scripts/parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index a5738a3..da65fe6 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -519,6 +519,14 @@ def mypy_node_to_ir(
         elif isinstance(node, IndexExpr):
             base_expr = parse_node(node.base)
             base_object = create_object(base_expr.type, base_expr)
+            indices = [node.index]
+            if isinstance(node.index, SliceExpr):
+                if node.index.stride is not None:
+                    raise Exception("Slices with a step are not supported")
+                indices = [node.index.begin_index, node.index.end_index]
+            for index in indices:
+                if isinstance(index, UnaryExpr) and isinstance(index.expr, IntExpr):
+                    raise Exception("Negative indices are not supported")
             if isinstance(node.index, SliceExpr):
                 # Parse begin index
                 if node.index.begin_index is None:
-- 
2.43.0


From a75952c0210e950452c30f2acf0b939681b7c485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:00 +0000
Subject: [PATCH 63/98] fix: reject calls in solutions whose callee is not a
 name

---
 llmlift_scripts/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index da65fe6..778a25a 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -405,6 +405,8 @@ def mypy_node_to_ir(
                         f"Expected return type {func_type.ret_type} but got {types[node]} for {func_name}"
                     )
                 return call(func_name, ret_ir_type, *arg_exprs).src
+            else:
+                raise Exception("Only functions can be called by their names")
         elif isinstance(node, NameExpr):
             if node.fullname in {"builtins.True", "builtins.False"}:
                 return Bool(node.name == "True").src
-- 
2.43.0


From 53e08eefbbd7c00516c66d8fa67b19b31ccfc713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:00 +0000
Subject: [PATCH 64/98] fix: keep the grouping of ite() calls that are
 rewritten as conditional expressions

---
 llmlift_scripts/utils.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/llmlift_scripts/utils.py b/llmlift_scripts/utils.py
index ec4fd2b..0a43abc 100644
--- a/llmlift_scripts/utils.py
+++ b/llmlift_scripts/utils.py
@@ -36,14 +36,29 @@ def extract_all_python_functions(s: str) -> list[str]:
 def replace_ite(ps_sol: str) -> str:
     """Replace ite() with the Python ternary operator."""
 
-    def repl_func(match):
-        cond = match.group(1).strip()
-        a = match.group(2).strip()
-        b = match.group(3).strip()
-        return f"{a} if {cond} else {b}"
+    match = re.search(r"\bite\(", ps_sol)
+    if match is None:
+        return ps_sol
 
-    ite_pattern = r"ite\(([^,]+),\s*([^,]+),\s*([^)]+)\)"
-    return re.sub(ite_pattern, repl_func, ps_sol)
+    # Split the arguments at the commas that are not nested in brackets
+    args: list[str] = []
+    depth = 0
+    start = match.end()
+    for end in range(start, len(ps_sol)):
+        char = ps_sol[end]
+        if depth == 0 and char in ",)":
+            args.append(ps_sol[start:end])
+            start = end + 1
+            if char == ")":
+                break
+        elif char in "([{":
+            depth += 1
+        elif char in ")]}":
+            depth -= 1
+    if len(args) != 3:
+        return ps_sol[: match.end()] + replace_ite(ps_sol[match.end() :])
+    cond, a, b = (replace_ite(arg).strip() for arg in args)
+    return f"{ps_sol[:match.start()]}(({a}) if ({cond}) else ({b})){replace_ite(ps_sol[start:])}"
 
 
 def get_inv_args(
-- 
2.43.0


From 0c5c410b53ef2d711c2cefb3bef2a6a925c44906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 65/98] fix: reject solutions whose value is not of the
 declared type

---
 llmlift_scripts/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 778a25a..7ac540c 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -261,12 +261,17 @@ def mypy_node_to_ir(
             if isinstance(node, FuncDef):
                 # Sort the variables by name so that the order is consistent
                 variables = sorted(variables, key=lambda x: x.var_name())
+            body = parse_node(node.body)
+            if body.type != ret_ir_type:
+                raise Exception(
+                    f"{node.name} must return {ret_ir_type} but returns {body.type}"
+                )
             # Because we are not sure if the function is recursive, we opt to always use the recursive definition
             # If the function is expressed as a lambda expression, then the name will be "<lambda>"
             return fn_decl_recursive(
                 node.name,
                 ret_ir_type,
-                parse_node(node.body),
+                body,
                 *variables,
             )
         elif isinstance(node, Block):
-- 
2.43.0


From 4c366427ce7ddf1af76882f2235f40ea2ce6f603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 66/98] fix: read values that mypy narrows to a literal

---
 llmlift_scripts/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 7ac540c..846e9cb 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -34,7 +34,7 @@ from mypy.nodes import (
     UnaryExpr,
 )
 from mypy.options import Options
-from mypy.types import AnyType, CallableType, Instance
+from mypy.types import AnyType, CallableType, Instance, LiteralType
 from mypy.types import Type as MypyType
 from mypy.types import TypeList, UnboundType
 
@@ -103,6 +103,8 @@ def mypy_type_to_ir_type(mypy_type: Optional[MypyType]) -> Optional[ObjectT]:
             return Bool
         elif mypy_type.type.fullname == "builtins.list":
             return List[mypy_type_to_ir_type(mypy_type.args[0])]
+    elif isinstance(mypy_type, LiteralType):
+        return mypy_type_to_ir_type(mypy_type.fallback)
     elif isinstance(mypy_type, CallableType):
         arg_types = (mypy_type_to_ir_type(arg) for arg in mypy_type.arg_types)
         ret_type = mypy_type_to_ir_type(mypy_type.ret_type)
-- 
2.43.0


From be6e79c0c2655eb1a4b84fe957c2fe2ef007b4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 67/98] fix: read values that mypy gives a union of literals

---
 llmlift_scripts/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 846e9cb..4bdfe3b 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -36,7 +36,7 @@ from mypy.nodes import (
 from mypy.options import Options
 from mypy.types import AnyType, CallableType, Instance, LiteralType
 from mypy.types import Type as MypyType
-from mypy.types import TypeList, UnboundType
+from mypy.types import TypeList, UnboundType, UnionType
 
 from metalift.ir import (
     Add,
@@ -105,6 +105,11 @@ def mypy_type_to_ir_type(mypy_type: Optional[MypyType]) -> Optional[ObjectT]:
             return List[mypy_type_to_ir_type(mypy_type.args[0])]
     elif isinstance(mypy_type, LiteralType):
         return mypy_type_to_ir_type(mypy_type.fallback)
+    elif isinstance(mypy_type, UnionType):
+        ir_types = [mypy_type_to_ir_type(item) for item in mypy_type.items]
+        if any(ir_type != ir_types[0] for ir_type in ir_types):
+            raise Exception(f"{mypy_type} is not supported")
+        return ir_types[0]
     elif isinstance(mypy_type, CallableType):
         arg_types = (mypy_type_to_ir_type(arg) for arg in mypy_type.arg_types)
         ret_type = mypy_type_to_ir_type(mypy_type.ret_type)
-- 
2.43.0


From 0800ebdba964508cce64fae713593b06e97d528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 68/98] fix: read a list concatenation in a solution as an
 expression

---
 llmlift_scripts/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 4bdfe3b..c3f7ad2 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -451,7 +451,7 @@ def mypy_node_to_ir(
                 and not is_nested_list_type(right_expr.type)
             ):
                 if op == "+":
-                    return call("list_concat", List[Int], left_expr, right_expr)
+                    return call("list_concat", List[Int], left_expr, right_expr).src
                 else:
                     raise Exception(
                         f"Binary operation is not supported {op} on types {types[node.left]} and {types[node.right]}"
-- 
2.43.0


From e81104a54201d7ad7dbdea9e2a935ce651352271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 69/98] fix: only list the lambda expressions of a solution as
 its definitions

---
 llmlift_scripts/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index c3f7ad2..8bee9fd 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -392,13 +392,13 @@ def mypy_node_to_ir(
                                 lambda_exprs[arg_expr] = arg_fn_name
                             arg_expr = copy.deepcopy(arg_expr)
                             arg_expr.set_name(arg_fn_name)
+                            fn_decls.append(arg_expr)
                         elif isinstance(arg, NameExpr):
                             arg_fn_name = cast(NameExpr, arg).name
                         else:
                             raise Exception(
                                 f"Function argument must be a lambda expression or a function name, but {arg.name} is of type {arg.type}"
                             )
-                        fn_decls.append(arg_expr)
                         in_calls.append((func_name, arg_fn_name))
                     arg_exprs.append(arg_expr)
                 if node.callee.fullname.startswith("target_code."):
-- 
2.43.0


From 512cb1e1fbe02d77c4fcdc67b4c45179df65eb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 70/98] fix: reject a function passed by name whose definition
 takes its arguments in another order

---
 llmlift_scripts/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 8bee9fd..3720bd3 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -395,6 +395,13 @@ def mypy_node_to_ir(
                             fn_decls.append(arg_expr)
                         elif isinstance(arg, NameExpr):
                             arg_fn_name = cast(NameExpr, arg).name
+                            # The arguments of the rewritten functions are sorted by name
+                            if arg.fullname.startswith("target_code."):
+                                _, _, fn_arg_names = func_sign[arg_fn_name]
+                                if fn_arg_names != sorted(fn_arg_names):
+                                    raise Exception(
+                                        f"Arguments of {arg_fn_name} must be in alphabetical order"
+                                    )
                         else:
                             raise Exception(
                                 f"Function argument must be a lambda expression or a function name, but {arg.name} is of type {arg.type}"
-- 
2.43.0


From 33d8a57d1a017858264e60488ed8f52e23a5b063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 71/98] fix: accept an LLM solution only when the SMT solver
 proves it

---
 llmlift_scripts/synthesis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index a08cf27..8acaebe 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -296,7 +296,7 @@ def verify_benchmark_smt(
     dsl_fns: list[FnDecl | FnDeclRecursive],
     vc: Expr,
     dsl_fn_name_to_axioms: dict[str, list[Axiom]],
-) -> None:
+) -> bool:
     """Verify the benchmark using SMT."""
     SYNTHESIS_LOGS_DIR.mkdir(exist_ok=True)
     verify_file = SYNTHESIS_LOGS_DIR / f"verify_{benchmark_name}.smt"
@@ -341,7 +341,7 @@ def verify_benchmark_smt(
         proc_output = verify_proc.stdout
         result_verify = proc_output.decode("utf-8").split("\n")[0]
         print(result_verify)
-        return True
+        return result_verify == "unsat"
 
 
 def run_llm_synthesis_algorithm(
-- 
2.43.0


From 873dda9c79d743ed2215c4f8c504962c65324e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 72/98] fix: conclude LLM synthesis when verification is turned
 off

---
 llmlift_scripts/synthesis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index 8acaebe..657307e 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -549,6 +549,7 @@ def run_llm_synthesis_algorithm(
                 )
             elif verification_method == VerificationMethod.NONE:
                 print("Skpping verification...")
+                verified = True
             else:
                 raise Exception(
                     f"Unsupported verification method {verification_method}"
-- 
2.43.0


From d861fc96e5e53f244b47adb5a0cdce3714be6596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 73/98] fix: give the parser the text of a Claude answer

---
 llmlift_scripts/synthesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index 657307e..9ba8f35 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -581,7 +581,7 @@ def get_solution_from_claude(messages: list[dict[str, Any]]) -> str:
         messages=messages,
     )
     raw_solutions = extract_all_python_functions(message.content[0].text)
-    return [replace_ite(raw_solution) for raw_solution in raw_solutions]
+    return "\n\n".join(replace_ite(raw_solution) for raw_solution in raw_solutions)
 
 
 def get_solution_from_gpt(messages: list[dict[str, Any]]) -> str:
-- 
2.43.0


From bf542d450ccf0aac47cd6f6fa83d38be06a16db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:15 +0000
Subject: [PATCH 74/98] fix: emit calls of functions named integer_... to
 Rosette

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 553397e..f533cf6 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -379,7 +379,7 @@ class Expr:
             return "integer-sqrt-noerr"
         elif fn_name == "integer_exp":
             return "integer-exp-noerr"
-        raise Exception(f"Unsupported integer function {fn_name}")
+        return None
 
     @staticmethod
     def get_list_fn(expr: Union["Call", "CallValue"]) -> Optional[str]:
-- 
2.43.0


From be40a6230cc8547b5a54dbd23580a190325dc667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:15 +0000
Subject: [PATCH 75/98] fix: group the sum in the Python text of
 integer_sqrt_helper

---
 llmlift_scripts/dsl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llmlift_scripts/dsl.py b/llmlift_scripts/dsl.py
index e55ab78..5a1d4ed 100644
--- a/llmlift_scripts/dsl.py
+++ b/llmlift_scripts/dsl.py
@@ -20,7 +20,7 @@ def integer_sqrt_helper(n: int, guess: int) -> int:
         else (
             guess
             if guess == (n // guess)
-            else integer_sqrt_helper(n, (guess + (n // guess) // 2))
+            else integer_sqrt_helper(n, (guess + (n // guess)) // 2)
         )
     )
 
-- 
2.43.0


From 04e888f1c796a9feb825f33b09e3daa45de886db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:15 +0000
Subject: [PATCH 76/98] fix: do not state the element-wise axioms for the empty
 prefix

---
 metalift/utils/tenspiler/axioms.py | 38 +++++++++++++++---------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/metalift/utils/tenspiler/axioms.py b/metalift/utils/tenspiler/axioms.py
index aa2324e..df74a3a 100644
--- a/metalift/utils/tenspiler/axioms.py
+++ b/metalift/utils/tenspiler/axioms.py
@@ -40,7 +40,7 @@ rand = Int("rand")
 
 def vec_elemwise_add_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_add(a[:index], b[:index])
         == call_vec_elemwise_add(a[1:index], b[1:index]).prepend(a[0] + b[0]),
     )
@@ -48,7 +48,7 @@ def vec_elemwise_add_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def vec_elemwise_mul_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_mul(a[:index], b[:index])
         == call_vec_elemwise_mul(a[1:index], b[1:index]).prepend(a[0] * b[0]),
     )
@@ -56,7 +56,7 @@ def vec_elemwise_mul_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def scalar_vec_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_scalar_vec_sub(i, a[:index])
         == call_scalar_vec_sub(i, a[1:index]).prepend(i - a[0]),
     )
@@ -64,7 +64,7 @@ def scalar_vec_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_scalar_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_sub(i, a[:index])
         == call_vec_scalar_sub(i, a[1:index]).prepend(a[0] - i),
     )
@@ -72,7 +72,7 @@ def vec_scalar_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_scalar_add_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_add(i, a[:index])
         == call_vec_scalar_add(i, a[1:index]).prepend(i + a[0]),
     )
@@ -80,7 +80,7 @@ def vec_scalar_add_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def scalar_vec_div_axiom(i: int, a: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_scalar_vec_div(i, a[:index])
         == call_scalar_vec_div(i, a[1:index]).prepend(i // a[0]),
     )
@@ -88,7 +88,7 @@ def scalar_vec_div_axiom(i: int, a: mlList[int], index: int) -> Bool:
 
 def vec_scalar_mul_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_mul(i, a[:index])
         == call_vec_scalar_mul(i, a[1:index]).prepend(i * a[0]),
     )
@@ -96,7 +96,7 @@ def vec_scalar_mul_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_elemwise_sub_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_sub(a[:index], b[:index])
         == call_vec_elemwise_sub(a[1:index], b[1:index]).prepend(a[0] - b[0]),
     )
@@ -124,7 +124,7 @@ def reduce_max_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
 
 def vec_scalar_div_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_div(i, a[:index])
         == call_vec_scalar_div(i, a[1:index]).prepend(a[0] // i),
     )
@@ -132,7 +132,7 @@ def vec_scalar_div_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_elemwise_div_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_div(a[:index], b[:index])
         == call_vec_elemwise_div(a[1:index], b[1:index]).prepend(a[0] // b[0]),
     )
@@ -140,7 +140,7 @@ def vec_elemwise_div_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def matrix_elemwise_add_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_elemwise_add(x[:index], y[:index])
         == call_matrix_elemwise_add(x[1:index], y[1:index]).prepend(
             call_vec_elemwise_add(x[0], y[0])
@@ -150,7 +150,7 @@ def matrix_elemwise_add_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 
 def matrix_elemwise_sub_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_elemwise_sub(x[:index], y[:index])
         == call_matrix_elemwise_sub(x[1:index], y[1:index]).prepend(
             call_vec_elemwise_sub(x[0], y[0])
@@ -160,7 +160,7 @@ def matrix_elemwise_sub_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 
 def matrix_scalar_mul_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_scalar_mul(i, x[:index])
         == call_matrix_scalar_mul(i, x[1:index]).prepend(call_vec_scalar_mul(i, x[0])),
     )
@@ -168,7 +168,7 @@ def matrix_scalar_mul_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_vec_mul_axiom(x: Matrix[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_vec_mul(x[:index], b)
         == call_matrix_vec_mul(x[1:index], b).prepend(
             call_reduce_sum(call_vec_elemwise_mul(x[0], b))
@@ -178,7 +178,7 @@ def matrix_vec_mul_axiom(x: Matrix[int], b: mlList[int], index: int) -> Bool:
 
 def matrix_elemwise_mul_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_elemwise_mul(x[:index], y[:index])
         == call_matrix_elemwise_mul(x[1:index], y[1:index]).prepend(
             call_vec_elemwise_mul(x[0], y[0])
@@ -188,7 +188,7 @@ def matrix_elemwise_mul_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 
 def matrix_scalar_div_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_scalar_div(i, x[:index])
         == call_matrix_scalar_div(i, x[1:index]).prepend(call_vec_scalar_div(i, x[0])),
     )
@@ -196,7 +196,7 @@ def matrix_scalar_div_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_scalar_sub_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_scalar_sub(i, x[:index])
         == call_matrix_scalar_sub(i, x[1:index]).prepend(call_vec_scalar_sub(i, x[0])),
     )
@@ -204,7 +204,7 @@ def matrix_scalar_sub_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_selection_two_args_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_selection(x[:index], y[:index])
         == call_matrix_selection(x[1:index], y[1:index]).prepend(
             call_selection(x[0], y[0])
@@ -216,7 +216,7 @@ def dissolve_matrix_selection_two_args_axiom(
     x: Matrix[int], y: Matrix[int], opacity: int, rand: int, index: int
 ) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_dissolve_matrix_selection(x[:index], y[:index], opacity, rand)
         == call_dissolve_matrix_selection(
             x[1:index], y[1:index], opacity, rand
-- 
2.43.0


From 62f971149a2dea67f84f77a15766494155a8a187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:29 +0000
Subject: [PATCH 77/98] fix: end the transposition of a matrix at its last
 column

---
 llmlift_scripts/dsl.py                       | 6 +++++-
 metalift/utils/list-axioms.smt               | 2 +-
 metalift/utils/tenspiler/tenspiler_common.py | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/llmlift_scripts/dsl.py b/llmlift_scripts/dsl.py
index 5a1d4ed..6ebc586 100644
--- a/llmlift_scripts/dsl.py
+++ b/llmlift_scripts/dsl.py
@@ -141,7 +141,11 @@ def matrix_selection_two_args(
 
 
 def matrix_transpose(matrix: List[List[int]]) -> List[List[int]]:
-    return [] if len(matrix) < 1 else [firsts(matrix), *matrix_transpose(rests(matrix))]
+    return (
+        []
+        if len(matrix) < 1 or len(matrix[0]) < 1
+        else [firsts(matrix), *matrix_transpose(rests(matrix))]
+    )
 
 
 def matrix_vec_mul(matrix_x: List[List[int]], x: List[int]) -> List[int]:
diff --git a/metalift/utils/list-axioms.smt b/metalift/utils/list-axioms.smt
index dccd1be..4c35d4e 100644
--- a/metalift/utils/list-axioms.smt
+++ b/metalift/utils/list-axioms.smt
@@ -199,4 +199,4 @@
 (ite (< (matrix_length matrix) 1) matrix_empty (matrix_col_slice matrix 1 (list_length (matrix_get matrix 0)))))
 
 (define-fun-rec matrix_transpose ((matrix (MLList (MLList Int)))) (MLList (MLList Int))
-(ite (< (matrix_length matrix) 1) matrix_empty (matrix_prepend (firsts matrix) (matrix_transpose (rests matrix)))))
+(ite (or (< (matrix_length matrix) 1) (< (list_length (matrix_get matrix 0)) 1)) matrix_empty (matrix_prepend (firsts matrix) (matrix_transpose (rests matrix)))))
diff --git a/metalift/utils/tenspiler/tenspiler_common.py b/metalift/utils/tenspiler/tenspiler_common.py
index f3a18e9..41eac5c 100644
--- a/metalift/utils/tenspiler/tenspiler_common.py
+++ b/metalift/utils/tenspiler/tenspiler_common.py
@@ -2232,7 +2232,7 @@ rests_body = ite(
 )
 rests_fn_decl = fn_decl_recursive("rests", Matrix[Int], rests_body, matrix)
 matrix_transpose_body = ite(
-    matrix.len() < 1,
+    or_objects(matrix.len() < 1, matrix[0].len() < 1),
     Matrix.empty(Int),
     call("rests", Matrix[Int], matrix)
     .transpose()
-- 
2.43.0


From 5e29c1d997672605bae6b8d9837f18ab382dad7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:01 +0000
Subject: [PATCH 78/98] fix: give both edges of a branch their own entry in phi
 nodes when they lead to the same block

---
 llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp b/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp
index dcb6007..7ba0660 100644
--- a/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp
+++ b/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp
@@ -42,6 +42,17 @@ namespace
       return bb;
     }
 
+    // replaces a single entry per PHI node: if both branches lead to the same block there are two
+    void replaceOnePhiUse(BasicBlock * succ, BasicBlock * oldBB, BasicBlock * newBB)
+    {
+      for (auto &phi : succ->phis())
+      {
+        int i = phi.getBasicBlockIndex(oldBB);
+        if (i >= 0)
+          phi.setIncomingBlock(i, newBB);
+      }
+    }
+
     virtual bool runOnFunction(Function &F)
     {
       std::map<BranchInst*, BranchInst*> toReplace;
@@ -57,8 +68,8 @@ namespace
               BasicBlock * trueBB = createBB(F, op->getSuccessor(0));
               BasicBlock * falseBB = createBB(F, op->getSuccessor(1));
 
-              op->getSuccessor(0)->replacePhiUsesWith(&B, trueBB);
-              op->getSuccessor(1)->replacePhiUsesWith(&B, falseBB);
+              replaceOnePhiUse(op->getSuccessor(0), &B, trueBB);
+              replaceOnePhiUse(op->getSuccessor(1), &B, falseBB);
 
               BranchInst *br = BranchInst::Create(trueBB, falseBB, op->getCondition());
               toReplace.insert(std::pair<BranchInst*, BranchInst*>(op, br));
-- 
2.43.0


From 1a63046ba7427f2dd268dcc8e18bb03da9fb5273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:11 +0000
Subject: [PATCH 79/98] fix: recognise list and set types that LLVM renamed
 because an earlier module uses the same name

---
 metalift/ir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index f533cf6..2e37d38 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -668,7 +668,7 @@ def parse_type_ref_to_obj(t: TypeRef) -> ObjectT:
         return Int
     elif ty_str in {"i1", "i8", "i8*"}:
         return Bool
-    elif ty_str in {"%struct.list*", "%struct.list**"}:
+    elif re.fullmatch(r"%struct\.list(\.\d+)?\*\*?", ty_str):
         # TODO: add generic type support
         # TODO: retire struct.list and use STL?
         return List[Int]
@@ -679,7 +679,7 @@ def parse_type_ref_to_obj(t: TypeRef) -> ObjectT:
     elif re.match('%"class.std::__1::vector"*', ty_str):
         return List[List[Int]]
 
-    elif ty_str in {"%struct.set*"}:
+    elif re.fullmatch(r"%struct\.set(\.\d+)?\*", ty_str):
         # TODO : how to support different contained types
         return Set[Int]
     elif ty_str in {"%struct.tup*"}:
-- 
2.43.0


From 156ab198778f81f9d60cafdc647d67b09badccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 80/98] fix: give variables modified by a loop of LLVM code
 fresh symbols

---
 metalift/frontend/llvm.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 6cdb40b..b7b621c 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1181,12 +1181,14 @@ class VCVisitor:
         header_loops = self.find_header_loops(block.name)
         for loop in header_loops:
             primitive_havocs, pointer_havocs = self.get_havocs(block.name, loop)
+            # The new values are distinct from the ones before the loop, which may still be referred to
             for havoc in primitive_havocs:
-                self.write_var_to_block(block.name, havoc.var_name(), havoc)
+                new_value = self.driver.fresh_var_object(havoc)
+                self.write_var_to_block(block.name, havoc.var_name(), new_value)
             for havoc in pointer_havocs:
-                self.store_var_to_block(block.name, havoc.var_name(), havoc)
+                new_value = self.driver.fresh_var_object(havoc)
+                self.store_var_to_block(block.name, havoc.var_name(), new_value)
             havocs = primitive_havocs + pointer_havocs
-            self.driver.add_var_objects(havocs)
             inv_name = f"{self.fn_name}_inv{self.loops.index(loop)}"
 
             # TODO: extract this logic to be better
@@ -1534,6 +1536,17 @@ class Driver:
             raise Exception("source is not variable!")
         self.var_tracker.variable(var_object.var_name(), var_object.type)
 
+    # adds and returns a variable like var_object whose name is not used by any variable yet, its own name if possible
+    def fresh_var_object(self, var_object: Object) -> Object:
+        new_name = var_object.var_name()
+        i = 0
+        while new_name in self.var_tracker.var_to_type:
+            i += 1
+            new_name = f"{var_object.var_name()}_{i}"
+        new_object = create_object(var_object.type, new_name)
+        self.add_var_object(new_object)
+        return new_object
+
     def add_var_objects(self, var_objects: List[Object]) -> None:
         for var_object in var_objects:
             self.add_var_object(var_object)
-- 
2.43.0


From 5f385e1fbf72e68c99a68cd8316c1adb286221eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 81/98] fix: pass the vector a function returns through sret to
 the postcondition, and keep its type when elements are added

---
 metalift/frontend/llvm.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index b7b621c..c439a3f 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -226,7 +226,7 @@ def vector_append(
 
     assign_val = call(
         fn_name,
-        parse_type_ref_to_obj(args[0].type),
+        lst.type,
         lst,
         value,
     )
@@ -1406,14 +1406,10 @@ class VCVisitor:
         ret_void = len(ops) == 0
         ret_val: Optional[Object] = None
         if ret_void and self.fn_sret_arg is not None:
-            # We have to fetch the current type because the return type might have changed from the
-            # beginning.
+            # We have to fetch the current value, whose type might have changed from the beginning.
             # This is because for list type, at first we assume it's an int list. We only infer the
             # corret type later on after we parse the functions.
-            ret_val_type = self.load_var_from_block(
-                block_name, self.fn_sret_arg.var_name()
-            ).type
-            ret_val = create_object(ret_val_type, self.fn_sret_arg.var_name())
+            ret_val = self.load_var_from_block(block_name, self.fn_sret_arg.var_name())
         elif not ret_void:
             if not ops[0].type.is_pointer:
                 ret_val = self.read_operand_from_block(block_name, ops[0])
-- 
2.43.0


From bf2be5c61baa204306260110664d8024b93def21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 82/98] fix: reject LLVM functions whose control flow is
 irreducible instead of leaving blocks out of the verification condition

---
 metalift/frontend/llvm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index c439a3f..c1eab73 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1744,6 +1744,11 @@ class MetaliftFunc:
                 ):
                     v.visit_llvm_block(b)
                     done = False
+        for b in self.fn_blocks.values():
+            if not v.fn_blocks_states[b.name].processed:
+                raise Exception(
+                    f"Unsupported control flow: block {b.name} is in a loop with several entries"
+                )
 
         # TODO: now we should update the return type
         # if sret_obj is not None:
-- 
2.43.0


From 5a9b547a77c9c116f4005e14505127dfca7e8c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 83/98] fix: find out the latches of a loop from LLVM's mark,
 not from the name of a block

---
 metalift/frontend/llvm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index c1eab73..a38bf8a 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -531,7 +531,11 @@ def parse_loops(loops_filepath: str, raw_fn_name: str) -> List[RawLoopInfo]:
                     exit_names.append(name)
                 if "<latch>" in b:
                     latch_names.append(name)
-                if "<header>" not in b and "<exiting>" not in b and "latch" not in b:
+                if (
+                    "<header>" not in b
+                    and "<exiting>" not in b
+                    and "<latch>" not in b
+                ):
                     body_names.append(name)
             if len(header_names) > 1:
                 raise Exception(f"Detected more than one header block! {header_names}")
-- 
2.43.0


From cf55713540631e6f50b53408f40dd3521a04376e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 84/98] fix: build the integer that set_contains returns
 instead of a Python boolean

---
 metalift/frontend/llvm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index a38bf8a..eeca1a9 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -35,6 +35,7 @@ from metalift.ir import (
     get_object_exprs,
     implies,
     is_pointer_type,
+    ite,
     make_tuple_type,
     parse_type_ref_to_obj,
 )
@@ -101,7 +102,9 @@ def set_contains(
     assert len(args) == 2
     s = state.read_or_load_operand(args[0])
     item = state.read_or_load_operand(args[1])
-    return ReturnValue(item in s, None)  # type: ignore
+    # the in operator would turn the result into a Python boolean; set_contains returns an int
+    contains = s.__contains__(item)  # type: ignore
+    return ReturnValue(ite(contains, Int(1), Int(0)), None)
 
 
 def new_list(
-- 
2.43.0


From 7e1f66d43d72de53ae84221c35f134aae6520b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 85/98] fix: do not modify the list that listAppend is called
 on

---
 metalift/frontend/llvm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index eeca1a9..d5697ff 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -157,7 +157,8 @@ def list_append(
     lst = state.read_or_load_operand(args[0])
     value = state.read_or_load_operand(args[1])
     return ReturnValue(
-        lst.append(value),  # type: ignore
+        # append works in place, but listAppend returns a new list
+        copy.deepcopy(lst).append(value),  # type: ignore
         None,
     )
 
-- 
2.43.0


From 1e2b1439fa10459e1ed4bc2c2e4def334325a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 86/98] fix: assume earlier postconditions of LLVM functions
 only where their return is reached

---
 metalift/frontend/llvm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index d5697ff..f479ae4 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1450,7 +1450,8 @@ class VCVisitor:
             blk_state.asserts.append(implies(and_objects(*blk_state.precond), ps))
         else:
             blk_state.asserts.append(ps)
-        self.driver.postconditions.append(ps)
+        # A function with several returns only satisfies the postcondition of the one it takes
+        self.driver.postconditions.append(blk_state.asserts[-1])
         print(f"ps: {blk_state.asserts[-1]}")
         blk_state.has_returned = True
 
-- 
2.43.0


From fac4c9b0b53a67038210f070590ecf55f4e72061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 87/98] fix: reject writes through pointers and references in
 LLVM code, which were lost

---
 metalift/frontend/llvm.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index f479ae4..de7c6ed 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -178,6 +178,13 @@ def list_concat(
     )
 
 
+# raises an exception if writing to a pointer changes a variable that is known by another name,
+# e.g., an element of a vector or the object a reference refers to
+def check_is_variable(pointer: ValueRef) -> None:
+    if re.match(r'%("[^"]*"|\S+) = (?!alloca )', str(pointer).strip()):
+        raise Exception(f"Unsupported write through a pointer: {pointer}")
+
+
 def new_vector(
     state: "State",
     global_vars: Dict[str, str],
@@ -217,6 +224,7 @@ def vector_append(
     *args: ValueRef,
 ) -> ReturnValue:
     assert len(args) == 2
+    check_is_variable(args[0])
     assign_var_name: str = args[0].name
 
     lst = state.read_or_load_operand(args[0])
@@ -1305,6 +1313,7 @@ class VCVisitor:
             value_to_store = self.read_operand_from_block(block_name, ops[0])
         else:
             value_to_store = self.load_operand_from_block(block_name, ops[0])
+        check_is_variable(ops[1])
         self.store_operand_to_block(block_name, ops[1], value_to_store)
 
     def visit_add_instruction(self, block_name: str, o: ValueRef) -> None:
-- 
2.43.0


From 0bc8d7505eb9461eab816189d9980c362d8cec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 88/98] fix: look up invariant grammars such that default
 factories are used

---
 metalift/frontend/llvm.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index de7c6ed..a8d32d2 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1032,6 +1032,13 @@ class VCVisitor:
         pointer_havocs.sort(key=lambda obj: obj.var_name())
         return primitive_havocs, pointer_havocs
 
+    def get_inv_grammar(self, inv_name: str) -> Optional[InvGrammar]:
+        try:
+            # unlike get, this makes use of the factory of a defaultdict
+            return self.inv_grammars[inv_name]
+        except KeyError:
+            return None
+
     # Functions to step through the blocks
     def preprocess(self, block: ValueRef) -> None:
         """Preprocess the entry block of the entire function. This includes setting up the postcondition, as well as writing all the arguments to the state of the entry block."""
@@ -1213,7 +1220,7 @@ class VCVisitor:
                 in_scope_objs.append(create_object(var_obj.type, var_name))
             for var_name, var_obj in blk_state.pointer_vars.items():
                 in_scope_objs.append(create_object(var_obj.type, var_name))
-            inv_grammar = self.inv_grammars.get(inv_name)
+            inv_grammar = self.get_inv_grammar(inv_name)
             if inv_grammar is not None:
                 in_scope_objs = [
                     obj
@@ -1250,7 +1257,7 @@ class VCVisitor:
                 in_scope_objs.append(create_object(var_obj.type, var_name))
             for var_name, var_obj in blk_state.pointer_vars.items():
                 in_scope_objs.append(create_object(var_obj.type, var_name))
-            inv_grammar = self.inv_grammars.get(inv_name)
+            inv_grammar = self.get_inv_grammar(inv_name)
             if inv_grammar is not None:
                 in_scope_objs = [
                     obj
-- 
2.43.0


From 5258fb5eadc3b63e66429cd3d772c26f68098e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 89/98] fix: give sets and tuples default values that do not
 refer to an undeclared variable

---
 metalift/ir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 2e37d38..d01c565 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1673,7 +1673,7 @@ class Set(Generic[T], Object):
 
     @staticmethod
     def default_value() -> "Set[Int]":
-        return Set(Int)
+        return Set.empty(Int)
 
     def add(self, value: Object) -> "Set":  # type: ignore
         if value.type != self.containedT:
@@ -1783,7 +1783,7 @@ class Tuple(Generic[TupleContainedT], Object):
 
     @staticmethod
     def default_value() -> "Tuple[tuple[Int, Int]]":
-        return Tuple((Int, Int), None)  # type: ignore
+        return make_tuple(Int(0), Int(0))
 
     @staticmethod
     def toSMTType(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
-- 
2.43.0


From 56528980a778396ed11905059a58200dbbfdae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 90/98] fix: python: pass relaxed to grammars that take it

Most grammars, including those of the drivers in tests/python, take four arguments.
---
 metalift/frontend/python.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 8401b98..e943149 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -1,4 +1,5 @@
 import copy
+import inspect
 import re
 from typing import Any, Callable, Dict, List, Optional, Set, Tuple, TypeVar, Union, cast
 
@@ -248,8 +249,14 @@ class Predicate:
         call_ret = call(self.name, Bool, *[state.read(v.var_name()) for v in self.args])
         return cast(Bool, call_ret)
 
-    def gen_Synth(self) -> Synth:
-        body = self.grammar(self.writes, self.reads, self.in_scope).src
+    def gen_Synth(self, relaxed: bool = False) -> Synth:
+        args = [self.writes, self.reads, self.in_scope, relaxed]
+        try:
+            inspect.signature(self.grammar).bind(*args)
+        except TypeError:
+            # the grammar has no use for the last argument
+            args = args[:-1]
+        body = self.grammar(*args).src
         return Synth(self.name, body, *get_object_exprs(*self.args))
 
 
-- 
2.43.0


From 0b04c31c86d58a3cb2e88f346c3a17918184bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 91/98] fix: python: results of several calls of one function
 are different values

---
 metalift/frontend/python.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index e943149..e503081 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -1047,7 +1047,10 @@ class MetaliftFunc:
         self.driver.asserts += v.state.asserts
 
         object_type = to_object_type(cast(CallableType, self.ast.type).ret_type)
-        ret_val = create_object(object_type, f"{self.name}_rv")
+        # the function may have been called before, with other arguments
+        ret_val = create_object(
+            object_type, self.driver.fresh_name(f"{self.name}_rv")
+        )
         self.driver.add_var_object(ret_val)
 
         ps = call(f"{self.name}_ps", Bool, *args, ret_val)
-- 
2.43.0


From 59d6b006196533c6099f6c95710a9ed6ce357420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:42 +0000
Subject: [PATCH 92/98] fix: only the postcondition of a function is its
 synthesised code, also if the function's name contains _ps

---
 metalift/frontend/llvm.py   | 4 ++--
 metalift/frontend/python.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index a8d32d2..c064eb6 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1599,7 +1599,7 @@ class Driver:
         We want to rewrite it in a way suitable for code generation, which includes extracting the actual return type and the body.
         """
         for fname, f in self.synthesized_fns.items():
-            m = re.match("(\w+)_ps", fname)  # ignore the invariants
+            m = re.fullmatch(r"(\w+)_ps", fname)  # ignore the invariants
             if m:
                 if isinstance(f.body(), Eq):
                     body = cast(Eq, f.body()).e2()
@@ -1649,7 +1649,7 @@ class Driver:
             self.synthesized_fns[name] = f
 
             # TODO: added back for codegen
-            m = re.match("(\w+)_ps", f.name())  # ignore the invariants
+            m = re.fullmatch(r"(\w+)_ps", f.name())  # ignore the invariants
             if m:
                 name = m.groups()[0]
                 if isinstance(f.body(), Eq):
diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index e503081..65d2004 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -958,7 +958,7 @@ class Driver:
         )
 
         for f in synthesized:
-            m = re.match("(\w+)_ps", f.name())  # ignore the invariants
+            m = re.fullmatch(r"(\w+)_ps", f.name())  # ignore the invariants
             if m:
                 name = m.groups()[0]
                 if isinstance(f.body(), Eq):
-- 
2.43.0


From c39e364d2e3983a5c4e56ba18a5671b641178989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 93/98] fix: define the target language once if several
 functions of a driver share it

---
 metalift/frontend/llvm.py   | 3 ++-
 metalift/frontend/python.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index c064eb6..d69b6cd 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1545,7 +1545,8 @@ class Driver:
     def target_lang_fns(self) -> List[FnDecl | FnDeclRecursive]:
         fns: List[FnDecl | FnDeclRecursive] = []
         for fn in self.fns.values():
-            fns.extend(fn.target_lang_fn())
+            # functions may share (parts of) their target language
+            fns.extend(decl for decl in fn.target_lang_fn() if decl not in fns)
         return fns
 
     def variable(self, name: str, type: ObjectT) -> Var:
diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 65d2004..c65970e 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -943,7 +943,8 @@ class Driver:
 
         target = []
         for fn in self.fns.values():
-            target += fn.target_lang_fn()
+            # functions may share (parts of) their target language
+            target += [decl for decl in fn.target_lang_fn() if decl not in target]
 
         synthesized: List[FnDeclRecursive] = run_synthesis(
             basename="test",
-- 
2.43.0


From 73d2ffc2bdb38cc7a1ac37c100274da8c7800012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 94/98] fix: keep DSL functions that only other DSL functions
 pass a function to

---
 llmlift_scripts/synthesis.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index 9ba8f35..bb5ee52 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -35,7 +35,6 @@ from metalift.ir import (
     Lit,
     Object,
     Var,
-    is_fn_decl_type,
 )
 from metalift.rosette_translator import generate_vars
 from metalift.smt_util import augment_arguments, replace_fn_name, toSMT
@@ -128,8 +127,8 @@ def process_dsl_fns_for_smt(
 ) -> list[FnDecl | FnDeclRecursive]:
     """Process DSL functions for SMT verification.
 
-    This includes removing functions that are already defined in helper SMT files, or functions that
-    have lambda functions as arguments but are not used anywhere in the synthesized solutions.
+    This includes removing functions that are already defined in helper SMT files. Functions that
+    have lambda functions as arguments are only written out for the arguments they are used with.
     """
     final_dsl_fns: list[FnDecl | FnDeclRecursive] = []
     for fn_decl in dsl_fns:
@@ -147,15 +146,6 @@ def process_dsl_fns_for_smt(
         }:
             continue
 
-        # If we have functions in the grammar that takes in lambda functions,
-        # but not used anywhere, then we don't include them. This is due to the fact that we inline all these lambda functions, and we can't do so if there is no actual definitions for them.
-        all_fns_with_inline_fns = set(in_call[0] for in_call in in_calls)
-        if (
-            any(is_fn_decl_type(arg.type) for arg in fn_decl.arguments())
-            and fn_decl.name() not in all_fns_with_inline_fns
-        ):
-            continue
-
         final_dsl_fns.append(fn_decl)
     return final_dsl_fns
 
-- 
2.43.0


From 6afb04080c49f87a91a1238074d53d8729c7047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:16 +0000
Subject: [PATCH 95/98] fix: define the integer functions for Rosette so that
 they can be passed by name

---
 llmlift_scripts/synthesis.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index bb5ee52..ceefaae 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -162,8 +162,6 @@ def process_dsl_fns_for_rosette(
     for fn_decl in dsl_fns:
         # Skip some functions that are already in utils.rkt
         # TODO(jie): this is a bit hacky. We could remove all these functions in utils.rkt, but then we need to make sure that they are added to perspective driver files.
-        if fn_decl.name().startswith("integer"):
-            continue
         if fn_decl.name() in {"firsts"}:
             continue
         if fn_decl.body() is None:
-- 
2.43.0


From ce5ca27a195de0a49fd66727078275f597d340fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:19 +0000
Subject: [PATCH 96/98] fix: print lambdas that capture variables where they
 are used in Rosette

---
 llmlift_scripts/synthesis.py | 60 +++++++++++++++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index ceefaae..bbe14ef 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -32,9 +32,11 @@ from metalift.ir import (
     FnDecl,
     FnDeclRecursive,
     Int,
+    Lambda,
     Lit,
     Object,
     Var,
+    is_fn_decl_type,
 )
 from metalift.rosette_translator import generate_vars
 from metalift.smt_util import augment_arguments, replace_fn_name, toSMT
@@ -108,6 +110,52 @@ def replace_in_calls(expr: Expr, in_calls: list[tuple[str, str]]) -> Expr:
     return expr
 
 
+def get_captured_vars(expr: Expr) -> set[str]:
+    """Return the names of the free variables that are not functions."""
+    if isinstance(expr, Var):
+        return set() if is_fn_decl_type(expr.type) else {expr.name()}
+    elif isinstance(expr, FnDecl) or isinstance(expr, FnDeclRecursive):
+        arg_names = {arg.name() for arg in expr.arguments()}
+        return get_captured_vars(expr.body()) - arg_names
+    captured_vars: set[str] = set()
+    for arg in expr.args:
+        if isinstance(arg, Expr):
+            captured_vars |= get_captured_vars(arg)
+    return captured_vars
+
+
+def inline_closures(
+    expr: Expr, closures: dict[str, FnDecl | FnDeclRecursive]
+) -> Expr:
+    """Replace the names of the given functions that are passed as arguments with lambdas."""
+    if isinstance(expr, Var):
+        fn_decl = closures.get(expr.name())
+        if fn_decl is None or not is_fn_decl_type(expr.type):
+            return expr
+        return Lambda(
+            fn_decl.return_type(),
+            inline_closures(fn_decl.body(), closures),
+            *fn_decl.arguments(),
+        )
+    elif isinstance(expr, Lit):
+        return expr
+    elif isinstance(expr, FnDecl) or isinstance(expr, FnDeclRecursive):
+        return expr.__class__(
+            expr.name(),
+            expr.return_type(),
+            inline_closures(expr.body(), closures),
+            *expr.arguments(),
+        )
+    elif isinstance(expr, Call):
+        return Call(
+            expr.name(),
+            expr.type,
+            *[inline_closures(arg, closures) for arg in expr.arguments()],
+        )
+    else:
+        return expr.map_args(lambda x: inline_closures(x, closures))
+
+
 def process_ps_fn_decl(
     fn_decl: Union[FnDecl, FnDeclRecursive],
     output_var: Object,
@@ -243,8 +291,18 @@ def verify_benchmark_rosette(
         fn_decl = replace_in_calls(fn_decl, in_calls)
         print("\n", fn_decl.to_rosette(), "\n", file=f)
 
+    # Functions that capture variables can't be defined on their own
+    synthesized_fn_decls = [
+        replace_in_calls(fn_decl, in_calls) for fn_decl in synthesized_fn_decls
+    ]
+    closures = {
+        fn_decl.name(): fn_decl
+        for fn_decl in synthesized_fn_decls
+        if get_captured_vars(fn_decl)
+    }
     for fn_decl in synthesized_fn_decls:
-        print("\n", replace_in_calls(fn_decl, in_calls).to_rosette(), "\n", file=f)
+        if fn_decl.name() not in closures:
+            print("\n", inline_closures(fn_decl, closures).to_rosette(), "\n", file=f)
 
     # Write variables
     vars = set(driver.var_tracker.all())
-- 
2.43.0


From 23b3ffccda1906dd6f5723d1b5c5d2654315610b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:59 +0000
Subject: [PATCH 97/98] fix: give vectors constructed inside a loop their type
 before it

---
 metalift/frontend/llvm.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index d69b6cd..41fee20 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1304,6 +1304,13 @@ class VCVisitor:
         # o.name is the register name
         self.store_var_to_block(block_name, o.name, default_val)
 
+        # The type of a vector is that of its constructor, which may only be called inside a loop
+        for i in [i for b in o.function.blocks for i in b.instructions]:
+            ops = list(i.operands)
+            if i.opcode == "call" and ops[0].name == o.name:
+                if get_fn_name_from_call_instruction(i) == "vector":
+                    self.visit_call_instruction(block_name, i)
+
     def visit_load_instruction(self, block_name: str, o: ValueRef) -> None:
         ops = list(o.operands)
 
-- 
2.43.0


From 19bbbd602b6b99fd5e493fe8d7c4d46c9bd803d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:59 +0000
Subject: [PATCH 98/98] fix: reject calls with pointer arguments that have no
 model

---
 metalift/frontend/llvm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 41fee20..5fd4453 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1518,6 +1518,9 @@ class VCVisitor:
             ret_type = parse_type_ref_to_obj(o.type)
             ret_val = call(fn_name, ret_type, *ops_objs)
             self.write_or_store_operand_to_block(block_name, o, ret_val)
+        elif not fn_name.startswith("~") and any(op.type.is_pointer for op in ops[:-1]):
+            # The function might change what its arguments refer to
+            raise Exception(f"Unsupported function call: {o}")
 
     def visit_trunc_instruction(self, block_name: str, o: ValueRef) -> None:
         ops = list(o.operands)
-- 
2.43.0

