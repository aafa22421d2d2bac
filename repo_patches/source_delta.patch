From dd08588c59dc0716f153f47f38193f868779adbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:42 +0000
Subject: [PATCH 01/28] fix: generalizer must cover both of its arguments

Anti-unification memoized its variables per left (or right) subterm rather than
per pair of disagreeing subterms, so the generalizer of f(1,1) and f(2,3) was
f(A,A), which does not cover f(2,3).
---
 dyna/term.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/dyna/term.py b/dyna/term.py
index a87f873..2aa1a54 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -608,6 +608,16 @@ def generalizer(t1, t2, s1=Ellipsis, s2=Ellipsis):
     if s1 is Ellipsis: s1 = {}
     if s2 is Ellipsis: s2 = {}
 
+    pairs = {}
+
+    def pair(x, y):
+        # One variable per *pair* of disagreeing subterms: a variable that were
+        # shared by all occurrences of `x` (or `y`) would equate positions where
+        # the other term differs, e.g., f(1,1) and f(2,3) must give f(A,B).
+        if (x, y) not in pairs:
+            pairs[x, y] = Var()
+        return pairs[x, y]
+
     def traverse(x, y):
 
         if x == y:
@@ -616,9 +626,7 @@ def generalizer(t1, t2, s1=Ellipsis, s2=Ellipsis):
         elif isinstance(x, Var):   # x != y and x is a variable
 
             if x.occurs_check(y):
-                if x not in s1:
-                    s1[x] = Var()
-                return s1[x]
+                return pair(x, y)
 
             if x in s1:             # already have an subst for `x`, it must match.
                 if s1[x] != y:
@@ -631,8 +639,7 @@ def generalizer(t1, t2, s1=Ellipsis, s2=Ellipsis):
         elif isinstance(y, Var):   # x != y, x is not a variable, y is a variable
 
             if y.occurs_check(x):
-                if y not in s2: s2[y] = Var()
-                return s2[y]
+                return pair(x, y)
 
             if y in s2:
                 if s2[y] != x:
@@ -646,15 +653,7 @@ def generalizer(t1, t2, s1=Ellipsis, s2=Ellipsis):
             return Term(*(traverse(a, b) for a, b in zip(x, y)))
 
         else:
-            if x in s1:
-                return s1[x]
-            if y in s2:
-                return s2[y]
-
-            z = Var()
-            s1[x] = z
-            s2[y] = z
-            return z
+            return pair(x, y)
 
     return traverse(t1, t2)
 
-- 
2.43.0


From 9a8ddaa18a5f220b621d1b7dab0ebf127296a78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:33 +0000
Subject: [PATCH 02/28] fix: Subst.mgu and its occurs check look through bound
 variables and tuples

A variable bound in place, or an occurrence inside a tuple, was invisible to
Subst.occur_check, so mgu could bind a variable to a term that contains it.
---
 dyna/term.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dyna/term.py b/dyna/term.py
index 2aa1a54..6f21e47 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -483,17 +483,19 @@ class Subst(dict):
         """Return true if variable `var` occurs anywhere in x
         (or in subst(s, x), if s has a binding for x)."""
         if not OCCURS_CHECK_ENABLED: return False
+        x = snap(x)
         if var == x:
             return True
         elif isinstance(x, Var) and x in self:
             return self.occur_check(var, self[x])
-        elif isinstance(x, Term):
-            return any(self.occur_check(var, y) for y in x.fargs)
+        elif isinstance(x, (Term, list, tuple)):
+            return any(self.occur_check(var, y) for y in x)
         else:
             return False
 
     def mgu(self, x, y):
         #if self is FAIL: return FAIL
+        x = snap(x); y = snap(y)
         if x == y: return self
         elif isinstance(x, Var):
             if x in self:
-- 
2.43.0


From 79c37ecdbebf8a6fcf7934f33a300afe46aca66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:14 +0000
Subject: [PATCH 03/28] fix: the rule index serves variable-headed rules to
 every functor

---
 dyna/program.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index 5e93a71..a3456f9 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -463,8 +463,14 @@ input/output declarations</summary>\
     def _add_rule(self, r):
         i = len(self.rules)
         self.rules.append(r)
-        if self._cache_f2r is not None:
-            self._cache_f2r[r.head.fn].append(i)
+        ix = self._cache_f2r
+        if ix is not None:
+            if isinstance(r.head, Term):
+                f = r.head.fn
+                if f not in ix and None in ix: ix[f] = list(ix[None])   # wild rules match `f` too
+                ix[f].append(i)
+            else:
+                self._cache_f2r = None    # a wild rule goes in every bucket; rebuild lazily
         self._invalidate_caches()
         return i
 
@@ -1387,9 +1393,10 @@ input/output declarations</summary>\
                 else:
                     # head is a variable
                     assert isinstance(r.head, Var), r
-                    for f in syms: f2r[f].append(i)   # every functor uses matches the wild rule.
+                    for g in syms: f2r[g].append(i)   # every functor uses matches the wild rule.
+                    f2r[None].append(i)               # ... including those that aren't in `syms`
             self._cache_f2r = f2r
-        return self._cache_f2r.get(f, [])
+        return self._cache_f2r.get(f, self._cache_f2r.get(None, []))
 
     #___________________________________________________________________________
     # Symbol management
-- 
2.43.0


From b701b1458993ce35d443800e7e88856a89af2b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:30 +0000
Subject: [PATCH 04/28] fix: accumulate onto a fact that has an empty body

---
 dyna/program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/program.py b/dyna/program.py
index a3456f9..0155681 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -409,7 +409,7 @@ input/output declarations</summary>\
             return i
         else:
             s = self.rules[i]
-            [S] = s.body
+            S = self.get_const_rhs(s)     # note: the body may be empty (i.e., one)
             self.rules[i] = Rule(s.head, S + C)
             self._invalidate_caches()   # rules[i] changed in place; keep the if-branch invariant
             return i
-- 
2.43.0


From 5ee42351bf3ff0dd646f3d00264f27dc03e5ad09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:14 +0000
Subject: [PATCH 05/28] fix: changing the input/output declarations drops
 cached analyses

---
 dyna/program.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index 0155681..d04f34f 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -101,11 +101,11 @@ class Program:
         self.rules = list(rules)
         assert all(isinstance(r, Rule) for r in rules), rules
 
+        self._caches = {}
+
         self.set_input_types(inputs)
         self.set_output_types(outputs)
 
-        self._caches = {}
-
         self.semiring = semiring
         self.has_builtins = has_builtins
 
@@ -119,12 +119,14 @@ class Program:
         if isinstance(inputs, str): inputs = Program(inputs)
         assert inputs is None or isinstance(inputs, Program), inputs
         self.inputs = inputs
+        self._invalidate_caches()   # e.g., pruning depends on the declarations
         return self
 
     def set_output_types(self, outputs):
         if isinstance(outputs, str): outputs = Program(outputs)
         assert outputs is None or isinstance(outputs, Program), outputs
         self.outputs = outputs
+        self._invalidate_caches()   # e.g., pruning depends on the declarations
         return self
 
     def spawn(self, rules=''):
-- 
2.43.0


From 666542a4b51e78305a0d07dd7e5e321f41260372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:55 +0000
Subject: [PATCH 06/28] fix: comparisons and min/max inside is/2 wait until
 their arguments are ground

---
 dyna/builtin.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dyna/builtin.py b/dyna/builtin.py
index 78d4b88..b3e0a6c 100644
--- a/dyna/builtin.py
+++ b/dyna/builtin.py
@@ -361,42 +361,42 @@ class Builtins:
                     return
 
                 elif k.fn == '>':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, Y > Z)
                         return
 
                 elif k.fn == '<':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, Y < Z)
                         return
 
                 elif k.fn == '>=':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, Y >= Z)
                         return
 
                 elif k.fn == '<=':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, Y <= Z)
                         return
 
                 elif k.fn == '==':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, Y == Z)
                         return
 
                 elif k.fn == '!=':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, Y != Z)
                         return
 
                 elif k.fn == 'min':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, min(Y, Z))
                         return
 
                 elif k.fn == 'max':
-                    if not isvar(Y) and not isvar(Z):
+                    if is_ground(Y) and is_ground(Z):
                         yield from unify(X, max(Y, Z))
                         return
 
-- 
2.43.0


From 64fe6406335252d1f1ab6948f37011cca6d5e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:27 +0000
Subject: [PATCH 07/28] fix: a negative number is the absolute value of nothing

---
 dyna/builtin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dyna/builtin.py b/dyna/builtin.py
index b3e0a6c..bcf86ad 100644
--- a/dyna/builtin.py
+++ b/dyna/builtin.py
@@ -215,8 +215,9 @@ class Builtins:
                         yield from unify(X, abs(Y))
                         return
                     if isnum(X):
-                        for y in {+X, -X}:
-                            yield from unify(Y, y)
+                        if X >= 0:
+                            for y in {+X, -X}:
+                                yield from unify(Y, y)
                         return
 
 #                if k.fn == 'exp':
-- 
2.43.0


From 7ed5787bc6e56cecd4c9c5a274eb7829b257a825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:17 +0000
Subject: [PATCH 08/28] fix: multiplication by zero is not inverted by dividing
 by zero

---
 dyna/builtin.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dyna/builtin.py b/dyna/builtin.py
index bcf86ad..e27eccd 100644
--- a/dyna/builtin.py
+++ b/dyna/builtin.py
@@ -306,11 +306,15 @@ class Builtins:
                             yield from unify(X, Y * Z)
                             return
                         if isnum(X) and isnum(Y):
-                            yield from unify(Z, X / Y)
-                            return
-                        if isnum(X) and isnum(Z):
-                            yield from unify(Y, X / Z)
-                            return
+                            if Y != 0:
+                                yield from unify(Z, X / Y)
+                                return
+                            if X != 0: return    # 0 * Z is never X
+                        elif isnum(X) and isnum(Z):
+                            if Z != 0:
+                                yield from unify(Y, X / Z)
+                                return
+                            if X != 0: return    # Y * 0 is never X
 
                         # identity elements
                         if isnum(Y) and Y == 1:
-- 
2.43.0


From 6bf1990c8c6e414934e657fbb178aee04f486624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:49 +0000
Subject: [PATCH 09/28] fix: nothing is a quotient with a zero divisor

---
 dyna/builtin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dyna/builtin.py b/dyna/builtin.py
index e27eccd..1e767e9 100644
--- a/dyna/builtin.py
+++ b/dyna/builtin.py
@@ -356,8 +356,9 @@ class Builtins:
                         return
 
                 elif k.fn == '/':
-                    # Just rewrites `X is Y / Z` ==> Y is X * Z =
-                    yield from self(Term('is', Y, Term('*', X, Z)))
+                    # Just rewrites `X is Y / Z` ==> `Y is X * Z` and Z is not zero
+                    for _ in self(Term('is', Y, Term('*', X, Z))):
+                        if snap(Z) != 0: yield
                     return
 
                 elif k.fn == '-':
-- 
2.43.0


From b9887d77bdf25d36da40988f6d0571523baa0d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 10/28] fix: a delayed comparison is not also answered by rules

---
 dyna/program.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dyna/program.py b/dyna/program.py
index d04f34f..e98b321 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1336,6 +1336,7 @@ input/output declarations</summary>\
                     r = Rule(q, q)    # delayed
                     r.i = None
                     yield r
+                    return
 
             if q.fn == '=' and q.arity == 2:
                 [X,Y] = q.args
-- 
2.43.0


From 6fc405bb5d06b157a959badcd54c730e0e83fb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:29 +0000
Subject: [PATCH 11/28] fix: the forward-chaining solver counts unbound local
 variables when it propagates

---
 dyna/execute/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/execute/solver.py b/dyna/execute/solver.py
index 151431b..3c0fcb1 100644
--- a/dyna/execute/solver.py
+++ b/dyna/execute/solver.py
@@ -106,7 +106,7 @@ class Solver(BaseSolver):
                         c *= Δ
                     else:
                         c *= P[j]
-                self.update(s.head, c)
+                self.update(s.head, c * self.program.multiple(s))
         return self
 
     def drive_rules(self, a, old, Δ):
-- 
2.43.0


From cd3030d4445a0518a53a1b1f4f25c69508f4b790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:21 +0000
Subject: [PATCH 12/28] fix: the non-range-restricted solver does not count a
 nonground item twice

---
 dyna/execute/base.py    |  6 +++---
 dyna/execute/solver2.py | 17 +++++++++++++----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/dyna/execute/base.py b/dyna/execute/base.py
index e64b78f..fcc7ec4 100644
--- a/dyna/execute/base.py
+++ b/dyna/execute/base.py
@@ -98,7 +98,7 @@ class BaseSolver:
         raise NotImplementedError()
 
     # XXX: Can we directly call `chart.join` and `chart.lookup` instead of these methods
-    def join(self, xs, value):
+    def join(self, xs, value, **kwargs):
         """
         Answer conjunctive query `xs` using the current chart,
         returns an iterator which binds variables in `xs` and emits values.
@@ -107,8 +107,8 @@ class BaseSolver:
         if len(xs) == 0:
             yield value
         else:
-            for v in self.lookup_vals(xs[0]):
-                yield from self.join(xs[1:], value * v)
+            for v in self.lookup_vals(xs[0], **kwargs):
+                yield from self.join(xs[1:], value * v, **kwargs)
 
     def ground_out_rule(self, r):
         "Ground out the rule `r` against the current chart."
diff --git a/dyna/execute/solver2.py b/dyna/execute/solver2.py
index 6b11942..d1b98e4 100644
--- a/dyna/execute/solver2.py
+++ b/dyna/execute/solver2.py
@@ -128,16 +128,22 @@ class Solver(BaseSolver):
                 yield (r, v)
 
     def drive_rule(self, r, a, old, Δ):
+        # The chart already includes the Δ-update.  Subgoals left of the driver
+        # see it, but those right of the driver must not: a nonground item can
+        # match several subgoals of `r`, even if they do not unify with each
+        # other (which is all that `linearize` rules out).
+        before = (canonicalize(a), old)
         for i, b in enumerate(r.body):    # TODO: use subgoal rule index
             for _ in unify(a, b):
-                bs = list(r.body); bs[i] = Δ   # replace subgoal i with Δ.
-                for v in self.join(bs, self.one):
-                    yield v * self.program.multiple(r)
+                for u in self.join(r.body[:i], self.one):
+                    for v in self.join(r.body[i+1:], u * Δ, before=before):
+                        yield v * self.program.multiple(r)
 
-    def lookup_vals(self, q):
+    def lookup_vals(self, q, before=None):
         """
         Answer query `q` by matching it against the chart,
         returns a stream of bindings to `q` and emits contribs.
+        The optional pair `before=(item, value)` overrides an item's value.
         """
         q = snap(q)
 
@@ -187,6 +193,9 @@ class Solver(BaseSolver):
         else:
             for x, v in self.chart.items():   # XXX: use indexing!!!
                 #assert iswrap(x), x
+                if before is not None and x == before[0]:
+                    v = before[1]
+                    if v == self.zero: continue    # not in the chart yet
                 x = fresh(x)
                 for _ in unify(x, q):
                     yield v
-- 
2.43.0


From d2342627e973f7aafc5bc91a3945114ce14b28dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:45 +0000
Subject: [PATCH 13/28] fix: the linear solver identifies its unknowns by the
 chart item that matched

---
 dyna/execute/linear.py | 44 +++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/dyna/execute/linear.py b/dyna/execute/linear.py
index 5996e16..26a2e8a 100644
--- a/dyna/execute/linear.py
+++ b/dyna/execute/linear.py
@@ -1,6 +1,6 @@
 import numpy as np
 from arsenal import Integerizer, colors
-from dyna import TransformedProgram, Rule, Term, term_vars, canonicalize
+from dyna import TransformedProgram, Rule, term_vars, canonicalize
 
 
 def kleene(A, semiring, reflexive=True):
@@ -50,32 +50,36 @@ class kleene_linsolve(TransformedProgram):
         # The following two loops instantiate p's rules according to the
         # estimated support in `bsol`.
         for r in p:
-            for _ in bsol[r.body]:
 
-                # Below, we extract <= 1 variable and fold coefficients
-                vs = []
-                coeff = p.Semiring.one
-                for b in r.body:          # XXX: assumes commutativity - better to check!
-                    if p.is_const(b):
-                        coeff *= b
-                    else:
-                        vs.append(b)
-                assert len(vs) <= 1
+            # Below, we extract <= 1 variable and fold coefficients
+            vs = []
+            coeff = p.Semiring.one
+            for b in r.body:          # XXX: assumes commutativity - better to check!
+                if p.is_const(b):
+                    coeff *= b
+                else:
+                    vs.append(b)
+            assert len(vs) <= 1
 
-                if len(vs) == 0:
-                    V[canonicalize(r.head)] += coeff
+            if len(vs) == 0:
+                V[canonicalize(r.head)] += coeff
 
-                else:
-                    [var] = vs
+            else:
+                [var] = vs
+
+                for s in bsol.lookup(var):
 
-                    [h, v] = canonicalize(Term('tmp', r.head, var)).args
+                    # The unknown is the (possibly nonground) item that matched
+                    # `var`; the match itself might be less general.
+                    v = var if s.i is None else bsol.rules[s.i].head
 
-                    if len(term_vars(v) - term_vars(h)) > 0:
+                    c = coeff
+                    if len(term_vars(var) - term_vars(r.head)) > 0:
                         #print('warning dropped variable')
-                        #print(h, '+=', v)
-                        coeff = coeff * p.Semiring.multiple(float('inf'))
+                        #print(r.head, '+=', var)
+                        c = c * p.Semiring.multiple(float('inf'))
 
-                    M[h, v] += coeff
+                    M[canonicalize(r.head), canonicalize(v)] += c
 
 
         pack = pack_arrays(M, V, p.Semiring)
-- 
2.43.0


From 0d6f609ce6afae27a61c132e017b372699cb202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:07 +0000
Subject: [PATCH 14/28] fix: abbreviations of different types never share a
 name

---
 dyna/analyze/abbreviate.py | 2 +-
 dyna/program.py            | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dyna/analyze/abbreviate.py b/dyna/analyze/abbreviate.py
index 80a2c41..4e76611 100644
--- a/dyna/analyze/abbreviate.py
+++ b/dyna/analyze/abbreviate.py
@@ -53,7 +53,7 @@ class Abbreviate(TransformedProgram):
             t.i = i   # assign type ids
 
             # Give the abbreviation a familiar name based on the original function symbol
-            self._new_names[i] = self.parent._gen_functor(t.head.fn + f'_{i}')
+            self._new_names[i] = self.parent._gen_functor(t.head.fn + f'_{i}', taken=self._new_names.values())
 
             if self.parent.is_input(t.head):
                 # special handling for free and bound
diff --git a/dyna/program.py b/dyna/program.py
index e98b321..458aedb 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1425,12 +1425,12 @@ input/output declarations</summary>\
         assert f not in self.syms
         return f
 
-    def _gen_functor(self, prefix):
-        "Generate a functor that does not appear in this program."
+    def _gen_functor(self, prefix, taken=()):
+        "Generate a functor that does not appear in this program (or in `taken`)."
         # Local counter
         c = 1
         f = prefix
-        while f in self.syms:
+        while f in self.syms or f in taken:
             c += 1
             f = f'{prefix}{c}'
         return f
-- 
2.43.0


From 8fb7eae1dd5443a351c5aa6ed3c347b98e44c7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 15/28] fix: merged types stay disjoint from the types that
 only the merge overlaps

---
 dyna/term.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dyna/term.py b/dyna/term.py
index 6f21e47..261bf05 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -1025,8 +1025,11 @@ class DisjointEstimate:
         # actually merge.  Two freshenings maintain it: on entry, and after each `generalizer` (which
         # can re-inject the matched entry's vars).  O(#merges), not O(#entries), freshenings per add.
         r = fresh(r)
-        for i in reversed(range(len(self.xs))):
-            if unifies(r, self.xs[i]):   # overlaps
+        while True:
+            # a generalization may overlap with entries that `r` did not overlap with
+            overlaps = self.find_all(r)
+            if not overlaps: break
+            for i in reversed(overlaps):
                 r = fresh(generalizer(r, self.xs[i]))
                 del self.xs[i]
         self.xs.append(canonicalize(r))
-- 
2.43.0


From e17aaf6f28a9a0a829d52bb5a265189950d44d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:32 +0000
Subject: [PATCH 16/28] fix: a rule that depends on an input through a merged
 type is not input-independent

---
 dyna/analyze/coarse_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/analyze/coarse_graph.py b/dyna/analyze/coarse_graph.py
index 457ba76..300908a 100644
--- a/dyna/analyze/coarse_graph.py
+++ b/dyna/analyze/coarse_graph.py
@@ -55,7 +55,7 @@ class CoarseGraph:
         g = self.g
         T = g.transitive_closure(reflexive=True)
 
-        inputs = set(p.inputs.just_heads() if p.inputs is not None else [])
+        inputs = {self.nodes.root(x) for x in p.inputs.just_heads()}
 
         I = []; D = []
         for r in p:
-- 
2.43.0


From d2b3f337b3fd922c9bb42e4c0e253992c678ed7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:31 +0000
Subject: [PATCH 17/28] fix: builtins are not nodes of the coarse graph when
 looking for expansion

---
 dyna/analyze/coarse_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/analyze/coarse_graph.py b/dyna/analyze/coarse_graph.py
index 300908a..2724222 100644
--- a/dyna/analyze/coarse_graph.py
+++ b/dyna/analyze/coarse_graph.py
@@ -116,7 +116,7 @@ class CoarseGraph:
             x = self.nodes.root(r.head)
             count = 0
             for y in r.body:   # can we reach x in more than one way?
-                if p.is_const(y): continue
+                if p.is_const(y) or p.is_builtin(y): continue
                 y = self.nodes.root(y)
                 count += (x in T.outgoing[y])
                 if count > 1: return True
-- 
2.43.0


From ed3a1143c572dde0235abddcc16a6a756c9794b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:26 +0000
Subject: [PATCH 18/28] fix: component types are renamed apart from the rules
 they are matched with

---
 dyna/analyze/coarse_graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dyna/analyze/coarse_graph.py b/dyna/analyze/coarse_graph.py
index 2724222..91a8461 100644
--- a/dyna/analyze/coarse_graph.py
+++ b/dyna/analyze/coarse_graph.py
@@ -1,7 +1,7 @@
 from itertools import product, combinations
 
-from dyna import Program, term, unifies, unify, Rule
-from dyna.term import DisjointEstimate
+from dyna import Program, term, unifies, Rule
+from dyna.term import DisjointEstimate, fresh
 from dyna.util import Hypergraph, Graph
 
 
@@ -89,7 +89,7 @@ class CoarseGraph:
             q.set_output_types(Program([Rule(x) for x in xs]))
             for r in p:
                 for x in xs:
-                    for _ in unify(x, r.head):
+                    if unifies(fresh(x), r.head):
                         q.append(r)
             yield (xs, q)
 
-- 
2.43.0


From 06cdae08ead8c384d69a6f1306de209a49a37e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:59 +0000
Subject: [PATCH 19/28] fix: two different variables never print alike

---
 dyna/pretty.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index 77c59b7..0d7fbe6 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -153,12 +153,14 @@ class PrettyPrinter:
             # but is it actually the *same* variable?
             if id(x) not in self.vs[x.name]:   # has a rename
                 dups = len(self.vs[x.name])
-                if dups == 0:
-                    # first instance keeps the nice name
-                    self.vs[x.name][id(x)] = x.name
-                else:
-                    # later instance get an ugly auto-generated name
-                    self.vs[x.name][id(x)] = f'${x.name}{dups}'
+                # first instance keeps the nice name; later instances get an
+                # ugly auto-generated name, which must not be taken already.
+                used = {name for names in self.vs.values() for name in names.values()}
+                name = x.name if dups == 0 else f'${x.name}{dups}'
+                while name in used:
+                    dups += 1
+                    name = f'${x.name}{dups}'
+                self.vs[x.name][id(x)] = name
 
             return self.var_color.get(id(x), '%s') % self.vs[x.name][id(x)]
 
-- 
2.43.0


From fdc6d72decb5cad131a6531f7379fd6aaf4d7821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:35 +0000
Subject: [PATCH 20/28] fix: operators of the same priority and associativity
 group as they are printed

---
 dyna/pretty.py |  4 ++--
 dyna/syntax.py | 45 ++++++++++++++++++++++++++-------------------
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index 0d7fbe6..eb1424e 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -344,14 +344,14 @@ class PrettyPrinter:
 
             if priority(binop(a)) <= priority(binop(x)):
                 if (priority(binop(a)) == priority(binop(x))
-                    and assoc(binop(a)) == 'L'):
+                    and assoc(binop(a)) == assoc(binop(x)) == 'L'):
                     pass
                 else:
                     A = f'({A})'
 
             if priority(binop(b)) <= priority(binop(x)):
                 if (priority(binop(b)) == priority(binop(x))
-                    and assoc(binop(b)) == 'R'):
+                    and assoc(binop(b)) == assoc(binop(x)) == 'R'):
                     pass
                 else:
                     B = f'({B})'
diff --git a/dyna/syntax.py b/dyna/syntax.py
index 10c30b2..eb21583 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -323,6 +323,7 @@ class ChainedCompare:
     def __init__(self, priority):
         self.op = None
         self.priority = priority
+        self.assoc = N
     def render(self, _, i):
         # [2019-03-10 Sun] Note: We needed to make chained comparisons and
         # ordinary comparisons one rule.
@@ -339,26 +340,32 @@ def add_ops(ops):
 
     G = []
     expr1 = expr2 = expr3 = None
-    for i, z in enumerate(sorted(ops, key=lambda x: -x.priority), start=1):
-
-        # Figure out where these special positions are:
-        #  - expr1: most general context
-        #  - expr2: doesn't take the top-level comma as an operator (used in term and list)
-        #  - expr3: list syntax: doesn't take the top-level comma and `|` has special meaning.
-        if z.op == '|': expr3 = i-1
-        if z.op == ',': expr2 = i-1
-        expr1 = i
-
-        if z.op is not None:
-            if z.op in Sym2Lex:      # avoid lexer conflicts on '='
-                OP = Sym2Lex[z.op]
-            else:
-                G.append(f'OP{i}: "{z.op}"')
-                Sym2Lex[z.op] = OP = f'OP{i}'
-        else:
-            OP = None
 
-        G.append(z.render(OP, i))
+    # Operators with the same priority and associativity share a level of the grammar.
+    levels = {}
+    for z in sorted(ops, key=lambda x: -x.priority):
+        key = (z.priority, z.assoc) if isinstance(z, BinOp) and z.assoc != N else z
+        levels.setdefault(key, []).append(z)
+
+    for i, zs in enumerate(levels.values(), start=1):
+
+        OP = []
+        for z in zs:
+            # Figure out where these special positions are:
+            #  - expr1: most general context
+            #  - expr2: doesn't take the top-level comma as an operator (used in term and list)
+            #  - expr3: list syntax: doesn't take the top-level comma and `|` has special meaning.
+            if z.op == '|': expr3 = i-1
+            if z.op == ',': expr2 = i-1
+            expr1 = i
+
+            if z.op is not None:
+                if z.op not in Sym2Lex:      # avoid lexer conflicts on '='
+                    Sym2Lex[z.op] = f'OP{len(Sym2Lex)}'
+                    G.append(f'{Sym2Lex[z.op]}: "{z.op}"')
+                OP.append(Sym2Lex[z.op])
+
+        G.append(z.render(f'({"|".join(OP)})', i))
 
     G.extend([
         f'?expr1: p{expr1}',
-- 
2.43.0


From 96feeaeb493f949d3ee4596bf7e2c92be2314b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:52 +0000
Subject: [PATCH 21/28] fix: prefix operators of the same priority apply to
 each other

---
 dyna/syntax.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dyna/syntax.py b/dyna/syntax.py
index eb21583..ca60fb5 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -341,10 +341,13 @@ def add_ops(ops):
     G = []
     expr1 = expr2 = expr3 = None
 
-    # Operators with the same priority and associativity share a level of the grammar.
+    # Operators with the same priority and associativity (or position) share a
+    # level of the grammar.
     levels = {}
     for z in sorted(ops, key=lambda x: -x.priority):
-        key = (z.priority, z.assoc) if isinstance(z, BinOp) and z.assoc != N else z
+        key = z
+        if isinstance(z, BinOp) and z.assoc != N: key = (z.priority, z.assoc)
+        if isinstance(z, UnaryOp): key = (z.priority, z.position)
         levels.setdefault(key, []).append(z)
 
     for i, zs in enumerate(levels.values(), start=1):
-- 
2.43.0


From f0fe086d03d1b5501ce771481253ad8ce3db734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:57 +0000
Subject: [PATCH 22/28] fix: names that only read back as names when quoted are
 printed with quotes

---
 dyna/pretty.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index eb1424e..b4821d6 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -371,7 +371,9 @@ class PrettyPrinter:
         # TODO: The patterm below is going to be perpetually out of date with
         # the functor pattern in the grammar.  Figure out how to keep them in
         # sync to avoid the headache.
-        if not re.match("^([$_]*['\"a-zαβγδεζηθικλμνξο∂πρστυφχψωϯ☐¿$♦]['\"a-zA-Z0-9_αβγδεζηθικλ∂μνξοπρστυφχψω∘ϯ♦$☐˽ΑΒΓΔΕΖΗΘΙΚΛΜΝΞΟΠΡΣΤΥΦΧΨΩ₀₁₂₃₄₅₆₇₈₉]*)$", y):
+        # Keywords and symbols that `FUNCTOR1` does not match need quotes too;
+        # e.g., an unquoted `$X` would read back as a variable.
+        if y in {'true', 'false', 'not'} or not re.fullmatch("[$]?[a-zαβγδεζηθικλμνξοπρστυφχψω∂]['\"a-zA-Z0-9_αβγδεζηθικλμ$νξοπρστυφχψωΑΒΓΔΕΖΗΘΙΚΛΜΝΞΟΠΡΣΤΥΦΧΨΩ∂₀₁₂₃₄₅₆₇₈₉]*", y):
             y = f"'{y}'"
         return y
 
-- 
2.43.0


From e776dde1c3b0225fb2185e8dcca3929355f78355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:46 +0000
Subject: [PATCH 23/28] fix: operators inside arguments, lists and prefix
 operators keep their parentheses

---
 dyna/pretty.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index b4821d6..a620f98 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -243,7 +243,7 @@ class PrettyPrinter:
         fn = snap(x.fn)
         f = color % (self.pp_functor(fn) if isinstance(fn, str) else self(fn))
         if x.args:
-            return f'{f}({",".join(self(a) for a in x.args)})'
+            return f'{f}({self.pp_args(x.args)})'
         return f
 
     def pp_term(self, x):
@@ -251,7 +251,7 @@ class PrettyPrinter:
         fn = snap(x.fn)
 
         if not isinstance(fn, str):
-            return f'{self(fn)}({",".join(self(y) for y in x.args)})'
+            return f'{self(fn)}({self.pp_args(x.args)})'
 
 #        elif isinstance(x, Rule):
 #            if x.body:
@@ -272,10 +272,10 @@ class PrettyPrinter:
 
             if fn in unaryops:
                 if fn == 'not': fn = 'not '
-                [y] = x.args
+                y = snap(x.args[0])
 
                 # XXX: remove parens when precedence is clear.
-                if isinstance(y, Term) and y.arity == 2 and y.fn in binops:
+                if binop(y) is not None and y.arity == 2 or isinstance(y, (int, float)):
                     return f'{fn}({self(y)})'
                 return f'{fn}{self(y)}'
 
@@ -356,12 +356,19 @@ class PrettyPrinter:
                 else:
                     B = f'({B})'
 
+            if infix == ':' and B.startswith('-'): infix = ' : '   # `:-` is a token
+
             return f'{A}{infix}{B}'
 
     def pp_term_default(self, x):
         [fn, *args] = snap(x)
         fn = snap(fn)
-        return f'{self.pp_functor(fn)}({",".join(self(a) for a in args)})'
+        return f'{self.pp_functor(fn)}({self.pp_args(args)})'
+
+    def pp_args(self, xs, sep=','):
+        "Print a sequence; operators as loose as `sep` would be taken for a separator."
+        return ','.join(f'({self(x)})' if priority(binop(x)) <= binops[sep].priority else self(x)
+                        for x in xs)
 
     def pp_functor(self, x):
         y = str(x)
@@ -383,9 +390,9 @@ class PrettyPrinter:
         while True:
             y = snap(y)
             if isinstance(y, Term) and y == NIL and y.arity == 0:
-                return f'[{",".join(self(x) for x in xs)}]'
+                return f'[{self.pp_args(xs, "|")}]'
             elif isinstance(y, Term) and y.fargs[0] == '$cons':
                 [_,a,y] = y.fargs
                 xs.append(a)
             else:
-                return f'[{",".join(self(x) for x in xs)}|{self(y)}]'
+                return f'[{self.pp_args(xs, "|")}|{self.pp_args([y], "|")}]'
-- 
2.43.0


From 488a62c73d66506a65d7891c0547199c71df6552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:02 +0000
Subject: [PATCH 24/28] fix: a prefix operator applied to a prefix operator is
 printed with parentheses

---
 dyna/pretty.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index a620f98..18f2243 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -275,7 +275,8 @@ class PrettyPrinter:
                 y = snap(x.args[0])
 
                 # XXX: remove parens when precedence is clear.
-                if binop(y) is not None and y.arity == 2 or isinstance(y, (int, float)):
+                if (isinstance(y, Term) and (y.arity == 2 and y.fn in binops or y.arity == 1 and y.fn in unaryops)
+                    or isinstance(y, (int, float))):
                     return f'{fn}({self(y)})'
                 return f'{fn}{self(y)}'
 
-- 
2.43.0


From 5707cd50fa32bbdf2be574b61c773ab04bac5bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:05 +0000
Subject: [PATCH 25/28] fix: Slash: instantiate D_oo in the slash base case of
 the derivation mapping

---
 dyna/transform/slash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/transform/slash.py b/dyna/transform/slash.py
index 9160717..495527e 100644
--- a/dyna/transform/slash.py
+++ b/dyna/transform/slash.py
@@ -214,7 +214,7 @@ class Slash(TransformedProgram):
 
                 # slash base case; this is the bottommost element of Xs along the spine.
                 if unifies(d.head, self.x):
-                    return D_rso(d.head, D_oo(frozen(d.head), *left, o, *right), D_base(slash(d.head, d.head)))
+                    return D_rso(d.head, D_oo(d)(frozen(d.head), *left, o, *right), D_base(slash(d.head, d.head)))
                 else:
                     if self._is_useful_other(d.head):
                         return D_ro(d.head, D_oo(d)(frozen(d.head), *left, o, *right))
-- 
2.43.0


From 25da354cd58e4208fd15cef99de9160e7cc5c21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:05 +0000
Subject: [PATCH 26/28] fix: reorder_subgoals: apply the alignment in the right
 direction

---
 dyna/derivations.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dyna/derivations.py b/dyna/derivations.py
index 76c91a3..6d1bcdd 100644
--- a/dyna/derivations.py
+++ b/dyna/derivations.py
@@ -475,15 +475,17 @@ def reorder_subgoals(D, r, R):
 
     assert not t.remaining, [R, r, t]  # we shouldn't have any more fuzzy matches
     # permute subgoals to match the rule
-    bs = [D.body[j] for i,j in sorted(t.align.items())]
+    # (`align` maps positions in `r` to positions in `R`)
+    order = [i for j,i in sorted((j,i) for i,j in t.align.items())]
+    bs = [D.body[i] for i in order]
     # check that the permutation did the trick
-    if not covers(R, Rule(r.head, *[r.body[j] for i,j in sorted(t.align.items())])):  # pragma: no cover
+    if not covers(R, Rule(r.head, *[r.body[i] for i in order])):  # pragma: no cover
         if Derivation.SAFE:
             raise AssertionError(f"""
             failed to re-order subgoals:
             want: {R}
             have: {r}
-            ====> {Rule(r.head, *[r.body[j] for i,j in sorted(t.align.items())])}
+            ====> {Rule(r.head, *[r.body[i] for i in order])}
             """)
     return bs
 
-- 
2.43.0


From 51261d335ce50d145c77c006016248c08c0ceb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:05 +0000
Subject: [PATCH 27/28] fix: Program.metric: equal infinite values are at
 distance zero, nan is not lost

---
 dyna/program.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dyna/program.py b/dyna/program.py
index 458aedb..5f7bac9 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -602,6 +602,10 @@ input/output declarations</summary>\
         sr = a.Semiring
         A_chart, A_sym = a.chart, a.symbolic
         B_chart, B_sym = b.chart, b.symbolic
+        def sr_metric(x, y):
+            d = sr.metric(x, y)
+            if d != d: d = 0 if x == y else float('inf')   # nan (e.g., inf - inf) would get lost in `max`
+            return d
         # Numerical part: if both programs have the same chart-key set,
         # max metric across paired values. If the key sets differ, the
         # chart shapes are structurally different — return `inf` so
@@ -611,7 +615,7 @@ input/output declarations</summary>\
         if set(A_chart) != set(B_chart):
             chart_d = float('inf')
         else:
-            chart_d = max((sr.metric(A_chart[k], B_chart[k]) for k in A_chart),
+            chart_d = max((sr_metric(A_chart[k], B_chart[k]) for k in A_chart),
                           default=0)
         # Structural part: symbolic rules must match exactly. Use the
         # same bucketing / alignment as `Program.__eq__`.
-- 
2.43.0


From 628439c6ea3d887b683c77b866c672266e153eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:05 +0000
Subject: [PATCH 28/28] fix: solvers: an infinite value that stays infinite is
 no change

---
 dyna/execute/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dyna/execute/base.py b/dyna/execute/base.py
index fcc7ec4..60ca257 100644
--- a/dyna/execute/base.py
+++ b/dyna/execute/base.py
@@ -71,7 +71,8 @@ class BaseSolver:
         # being exact — important for LogVal, whose stock `__eq__` uses
         # `np.allclose` and would collapse small-but-distinct values,
         # causing premature fixpoint convergence here.
-        return self.Weight.metric(x, y) <= self.tol
+        d = self.Weight.metric(x, y)
+        return d <= self.tol or (d != d and x == y)   # nan: the distance of two infinities
 
     #___________________________________________________________________________
     # Inference methods
-- 
2.43.0

