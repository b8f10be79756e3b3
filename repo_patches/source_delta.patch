From 16413d1620896a627e84a38127332c14fdb6055f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:15 +0000
Subject: [PATCH 01/29] fix: generalizer shares a variable only between equal
 pairs of disagreeing subterms

generalizer(f(1,1), f(2,3)) returned f(G,G), which does not subsume f(2,3),
and generalizer(p(g(X),X,X), p(g(A),B,A)) was not least although the second
term already subsumes the first: variables were keyed on one side only.
---
 dyna/term.py | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/dyna/term.py b/dyna/term.py
index a87f873..3cc687f 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -608,50 +608,43 @@ def generalizer(t1, t2, s1=Ellipsis, s2=Ellipsis):
     if s1 is Ellipsis: s1 = {}
     if s2 is Ellipsis: s2 = {}
 
+    # Each variable of the result stands for one *pair* of disagreeing subterms.
+    pairs = {}
+
     def traverse(x, y):
 
         if x == y:
             return x
 
+        elif (x, y) in pairs:
+            return pairs[x, y]
+
         elif isinstance(x, Var):   # x != y and x is a variable
 
-            if x.occurs_check(y):
-                if x not in s1:
-                    s1[x] = Var()
-                return s1[x]
+            if x in s1 or x.occurs_check(y):
+                z = pairs[x, y] = Var()
+                return z
 
-            if x in s1:             # already have an subst for `x`, it must match.
-                if s1[x] != y:
-                    s1[x] = Var()
-                    return s1[x]
-            else:
-                s1[x] = y            # Note: we do *not* need to copy `s`.
+            s1[x] = y            # Note: we do *not* need to copy `s`.
+            pairs[x, y] = x
             return x
 
         elif isinstance(y, Var):   # x != y, x is not a variable, y is a variable
 
-            if y.occurs_check(x):
-                if y not in s2: s2[y] = Var()
-                return s2[y]
+            if y in s2 or y.occurs_check(x):
+                z = pairs[x, y] = Var()
+                return z
 
-            if y in s2:
-                if s2[y] != x:
-                    s2[y] = Var()
-                    return s2[y]
-            else:
-                s2[y] = x            # Note: we do *not* need to copy `s`.
+            s2[y] = x            # Note: we do *not* need to copy `s`.
+            pairs[x, y] = y
             return y
 
         elif isinstance(x, Term) and isinstance(y, Term) and len(x) == len(y) and x.fn == y.fn:
             return Term(*(traverse(a, b) for a, b in zip(x, y)))
 
         else:
-            if x in s1:
-                return s1[x]
-            if y in s2:
-                return s2[y]
-
             z = Var()
+            pairs[x, y] = z
             s1[x] = z
             s2[y] = z
             return z
-- 
2.43.0


From 48eafc25de1980e5179808c638230e814e94cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:31 +0000
Subject: [PATCH 02/29] fix: DisjointEstimate.add merges until no overlap is
 left

Merging generalizes the new entry, which may then overlap entries that the
single pass had already found disjoint.
---
 dyna/term.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dyna/term.py b/dyna/term.py
index 3cc687f..7be924b 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -1017,10 +1017,11 @@ class DisjointEstimate:
         # actually merge.  Two freshenings maintain it: on entry, and after each `generalizer` (which
         # can re-inject the matched entry's vars).  O(#merges), not O(#entries), freshenings per add.
         r = fresh(r)
-        for i in reversed(range(len(self.xs))):
-            if unifies(r, self.xs[i]):   # overlaps
-                r = fresh(generalizer(r, self.xs[i]))
-                del self.xs[i]
+        while any(unifies(r, x) for x in self.xs):   # a merge can create overlaps with entries already passed
+            for i in reversed(range(len(self.xs))):
+                if unifies(r, self.xs[i]):   # overlaps
+                    r = fresh(generalizer(r, self.xs[i]))
+                    del self.xs[i]
         self.xs.append(canonicalize(r))
     def find_all(self, x):
         "Return the unique branch of the partition that x falls into (or throw an error)"
-- 
2.43.0


From f9737f1167aa4b2aeffeb8903cc9ae6416066691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:31 +0000
Subject: [PATCH 03/29] fix: Product.match_comm does not match an empty product
 with a non-empty one

---
 dyna/term.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/term.py b/dyna/term.py
index 7be924b..f606705 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -276,10 +276,10 @@ class Product(tuple):
         s: 'current substitution map',
     ):
         if s == FAIL: return
+        if len(self) - i != len(js): return
         if i == len(self):
             yield s
             return
-        if len(self) - i != len(js): return
         for j in sorted(js):
             yield from self._match_comm(ys=ys, i=i+1, js=js - {j}, s=s.copy().cover(self[i], ys[j]))
 
-- 
2.43.0


From d602db62bcc42797e1ae0de9a612434d60ef3ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:31 +0000
Subject: [PATCH 04/29] fix: X is abs(Y) has no solution for negative X

---
 dyna/builtin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/builtin.py b/dyna/builtin.py
index 78d4b88..e26bd08 100644
--- a/dyna/builtin.py
+++ b/dyna/builtin.py
@@ -215,7 +215,7 @@ class Builtins:
                         yield from unify(X, abs(Y))
                         return
                     if isnum(X):
-                        for y in {+X, -X}:
+                        for y in ({+X, -X} if X >= 0 else ()):
                             yield from unify(Y, y)
                         return
 
-- 
2.43.0


From 7f8bec286af318c896c00c133126078aa0c0bb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:32 +0000
Subject: [PATCH 05/29] fix: rule index for rules whose head is a variable

The index loop reused the name of the functor being looked up, indexed
variable-headed rules only under functors known when the index was built, and
adding such a rule to an indexed program raised AttributeError.
---
 dyna/program.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index 5e93a71..6ecee5a 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -464,7 +464,7 @@ input/output declarations</summary>\
         i = len(self.rules)
         self.rules.append(r)
         if self._cache_f2r is not None:
-            self._cache_f2r[r.head.fn].append(i)
+            self._cache_f2r[r.head.fn if isinstance(r.head, Term) else Var].append(i)
         self._invalidate_caches()
         return i
 
@@ -1379,7 +1379,6 @@ input/output declarations</summary>\
     def f2r(self, f):
         if self._cache_f2r is None:
             # Rule indexing by head functor
-            syms = self.syms
             f2r = defaultdict(list)
             for i, r in enumerate(self):
                 if isinstance(r.head,  Term):
@@ -1387,9 +1386,11 @@ input/output declarations</summary>\
                 else:
                     # head is a variable
                     assert isinstance(r.head, Var), r
-                    for f in syms: f2r[f].append(i)   # every functor uses matches the wild rule.
+                    f2r[Var].append(i)   # every functor matches the wild rule.
             self._cache_f2r = f2r
-        return self._cache_f2r.get(f, [])
+        ix = self._cache_f2r.get(f, [])
+        wild = self._cache_f2r.get(Var)
+        return sorted(ix + wild) if wild else ix
 
     #___________________________________________________________________________
     # Symbol management
-- 
2.43.0


From 3374c7f6af259e9f295f868c6b45967527f077d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:55 +0000
Subject: [PATCH 06/29] fix: rule signatures of bare-variable heads and
 subgoals are renaming-invariant

---
 dyna/rule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dyna/rule.py b/dyna/rule.py
index 25d4cfc..4750fd1 100644
--- a/dyna/rule.py
+++ b/dyna/rule.py
@@ -12,7 +12,8 @@ def fn(x): return x.fn if isinstance(x, Term) else x
 #    return Term(x.fn, x.arity) if isinstance(x, Term) else Term("$const", x)
 def term_signature(x):
     # Need to wrap constants in term to use the right comparison operation...
-    return canonicalize(x) if isinstance(x, Term) else Term("$const", x)
+    # (canonicalize the wrapper, too: `x` may be a bare variable)
+    return canonicalize(x if isinstance(x, Term) else Term("$const", x))
 
 
 def is_const(x):
-- 
2.43.0


From 2063659de9f5686c5f853744fa4fc9dc81bba753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:47 +0000
Subject: [PATCH 07/29] fix: appending a constant rule for an item given as a
 bare fact

---
 dyna/program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/program.py b/dyna/program.py
index 6ecee5a..47a0c17 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -409,7 +409,7 @@ input/output declarations</summary>\
             return i
         else:
             s = self.rules[i]
-            [S] = s.body
+            S = self.get_const_rhs(s)    # not `[S] = s.body`: facts have an empty body
             self.rules[i] = Rule(s.head, S + C)
             self._invalidate_caches()   # rules[i] changed in place; keep the if-branch invariant
             return i
-- 
2.43.0


From cebf98ed7aeb74f46b15189a0f13960f9fd79da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:11 +0000
Subject: [PATCH 08/29] fix: changing a program's input or output declaration
 drops the analyses cached for the old one

---
 dyna/program.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index 47a0c17..bee9938 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -101,11 +101,11 @@ class Program:
         self.rules = list(rules)
         assert all(isinstance(r, Rule) for r in rules), rules
 
+        self._caches = {}
+
         self.set_input_types(inputs)
         self.set_output_types(outputs)
 
-        self._caches = {}
-
         self.semiring = semiring
         self.has_builtins = has_builtins
 
@@ -119,12 +119,14 @@ class Program:
         if isinstance(inputs, str): inputs = Program(inputs)
         assert inputs is None or isinstance(inputs, Program), inputs
         self.inputs = inputs
+        self._caches.clear()   # the cached analyses depend on the declarations
         return self
 
     def set_output_types(self, outputs):
         if isinstance(outputs, str): outputs = Program(outputs)
         assert outputs is None or isinstance(outputs, Program), outputs
         self.outputs = outputs
+        self._caches.clear()   # the cached analyses depend on the declarations
         return self
 
     def spawn(self, rules=''):
-- 
2.43.0


From 1857ff0868b2b9296b72077c925fa52f4448b97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:42 +0000
Subject: [PATCH 09/29] fix: linearize splits all subgoals one non-ground item
 (or the eliminated head) can match; solver2 counted them twice

---
 dyna/execute/solver2.py |  2 +-
 dyna/program.py         | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/dyna/execute/solver2.py b/dyna/execute/solver2.py
index 6b11942..d6297e5 100644
--- a/dyna/execute/solver2.py
+++ b/dyna/execute/solver2.py
@@ -21,7 +21,7 @@ class Solver(BaseSolver):
     """
 
     def __init__(self, program, debug=False, priority=None, AgendaType=LocatorMaxHeap):
-        program = program.linearize()   # so I don't have to worry about double counting diagonals...
+        program = program.linearize(nonground=True)   # so I don't have to worry about double counting diagonals...
         self.program = program
 
         self.chart = {}
diff --git a/dyna/program.py b/dyna/program.py
index bee9938..5306b52 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1831,9 +1831,14 @@ input/output declarations</summary>\
     #___________________________________________________________________________
     # Program normalization
 
-    def linearize(self, driver=None):
+    def linearize(self, driver=None, nonground=False):
         """
         Split overlapping body subgoals into fresh copies so every rule is locally linear.
+
+        Two subgoals overlap if one item can match both: the item `driver`, when
+        it is given; otherwise any ground item or, if `nonground`, any item (an
+        item such as `f(X)` matches every subgoal with its functor and arity).
+
         Note: this should not be confused with the type of linearization done in Newton's
         algorithm or `solve_linear`.
         """
@@ -1846,7 +1851,13 @@ input/output declarations</summary>\
                 if self.is_builtin(x): continue
                 for k in range(j+1, len(s.body)):
                     y = s.body[k]
-                    if unifies(x, y):
+                    if driver is not None:
+                        overlap = unifies(y, driver)
+                    elif nonground and isinstance(x, Term) and isinstance(y, Term):
+                        overlap = (x.fn, x.arity) == (y.fn, y.arity)
+                    else:
+                        overlap = unifies(x, y)
+                    if overlap:
                         tmps.add((i,k))
 
         if not tmps:
-- 
2.43.0


From f19a93472636ab2fbb86c6c4f52c9df77400d923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:51 +0000
Subject: [PATCH 10/29] fix: linearize renames its driver apart from the rules;
 elim of a self-recursive rule missed overlapping subgoals

---
 dyna/program.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dyna/program.py b/dyna/program.py
index 5306b52..37f31db 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1842,6 +1842,9 @@ input/output declarations</summary>\
         Note: this should not be confused with the type of linearization done in Newton's
         algorithm or `solve_linear`.
         """
+        # the driver may be the head of one of our own rules
+        if driver is not None: driver = fresh(driver)
+
         tmps = OrderedSet()
         for i, s in enumerate(self):
             #print('rule', s)
-- 
2.43.0


From 72a505d211a0d5a54f5c41e6b9d30e71641cd954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:18 +0000
Subject: [PATCH 11/29] fix: a delayed comparison is not looked up among the
 program's rules too

---
 dyna/program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/program.py b/dyna/program.py
index 37f31db..99ff79f 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1325,11 +1325,11 @@ input/output declarations</summary>\
                         r = Rule(q, self.Semiring.one)   # success
                         r.i = None
                         yield r
-                    return            # failure
                 else:
                     r = Rule(q, q)    # delayed
                     r.i = None
                     yield r
+                return
 
             if q.fn == '=' and q.arity == 2:
                 [X,Y] = q.args
-- 
2.43.0


From e1b5085d402343746868076f4f9f7bce27b564aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:18 +0000
Subject: [PATCH 12/29] fix: type subsumption is reflexive; analyses looped on
 types with free constrained variables

---
 dyna/analyze/rewrites.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dyna/analyze/rewrites.py b/dyna/analyze/rewrites.py
index c728230..f38c4b2 100644
--- a/dyna/analyze/rewrites.py
+++ b/dyna/analyze/rewrites.py
@@ -5,7 +5,7 @@ from arsenal import colors
 from itertools import combinations
 
 from dyna.pretty import PrettyPrinter
-from dyna.term import Term, fresh, term_vars, Subst, is_var, generalizer, deref, MostGeneralSet
+from dyna.term import Term, fresh, term_vars, Subst, is_var, generalizer, deref, MostGeneralSet, same
 from dyna.program import Program, Rule
 from dyna.propagate import ConstraintPropagation, scons
 
@@ -144,6 +144,12 @@ class Rewrites:
         R = self(Rule(r.head, *r.body, *sc), drop_checked=True)
         S = self(s, drop_checked=True)
 
+        # The relation is reflexive: variants cover each other (even when a
+        # variable is both $free and otherwise constrained, where `T` fails).
+        if R is not None and S is not None and same(r.head, s.head) \
+           and R.head == S.head and set(R.body) == set(S.body):
+            return True
+
         t = Rule(r.head, *s.body, *r.body, *sc)
         T = self(t, ALLOW_FREE_MERGE=False, drop_checked=True)
 
-- 
2.43.0


From 8df40c60ee2f245aa8bb564693cae5e457da9364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:34 +0000
Subject: [PATCH 13/29] fix: an equality of two structured terms is solved, not
 treated as a contradiction

---
 dyna/propagate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dyna/propagate.py b/dyna/propagate.py
index 106822a..f8d1a9f 100644
--- a/dyna/propagate.py
+++ b/dyna/propagate.py
@@ -210,7 +210,11 @@ class ConstraintPropagation:
                 X,Y = driver.args
 
                 # check for a contradiction
-                if not isinstance(X, Var) and not isinstance(Y, Var) and X != Y: return
+                if not isinstance(X, Var) and not isinstance(Y, Var) and X != Y:
+                    subst = Subst().mgu(X, Y)
+                    if subst is Subst.FAIL: return
+                    for k,v in subst.items():
+                        update(Term('=',k,v))
 
                 # Release the equality constraint now that it has be
                 # successfully applied.
-- 
2.43.0


From 85d284998f818befd4fc1e66289500e74f5b987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:34 +0000
Subject: [PATCH 14/29] fix: type rewrites accept equality conclusions
 (functional dependencies recursed without end)

---
 dyna/analyze/rewrites.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dyna/analyze/rewrites.py b/dyna/analyze/rewrites.py
index f38c4b2..6211689 100644
--- a/dyna/analyze/rewrites.py
+++ b/dyna/analyze/rewrites.py
@@ -70,7 +70,11 @@ class Rewrites:
         chart = cp(R.body)
         if chart is None: return
 
-        subst = Subst({x: y for _,x,y in cp.bindings})
+        # (equalities between variables may come in both directions)
+        subst = Subst()
+        for _,x,y in cp.bindings:
+            subst = subst.mgu(x, y)
+            if subst is Subst.FAIL: return
         chart = {subst(x) for x in chart if isinstance(x, Term) and x.fn != '='}
 
         assert all(isinstance(x, Term) for x in chart)
-- 
2.43.0


From fd42f6051af0e72bd8a9791699d4260614d7d836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:34 +0000
Subject: [PATCH 15/29] fix: generalising type analysis accumulates, so that it
 terminates

---
 dyna/analyze/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dyna/analyze/types.py b/dyna/analyze/types.py
index c88fa23..6660d05 100644
--- a/dyna/analyze/types.py
+++ b/dyna/analyze/types.py
@@ -176,7 +176,8 @@ class TypeAnalyzer:
         while True:
             iteration += 1
             if self.DEBUG > 0: print(colors.light.magenta % '\n\nIteration:', iteration)
-            new = self.generalize(self.step())
+            # accumulate: a step from generalized types need not cover them again
+            new = self.generalize(self.program.spawn([*self.chart, *self.step()]))
             if self.DEBUG > 0:
                 print(colors.light.magenta % 'Chart (comparison)')
                 new.compare(self.chart)
-- 
2.43.0


From 744f946580692c6660cec198d94c8e11e9c4fe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:59 +0000
Subject: [PATCH 16/29] fix: split_input_dependent compares inputs with the
 coarse graph's own nodes

---
 dyna/analyze/coarse_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/analyze/coarse_graph.py b/dyna/analyze/coarse_graph.py
index 457ba76..5b674d5 100644
--- a/dyna/analyze/coarse_graph.py
+++ b/dyna/analyze/coarse_graph.py
@@ -55,7 +55,7 @@ class CoarseGraph:
         g = self.g
         T = g.transitive_closure(reflexive=True)
 
-        inputs = set(p.inputs.just_heads() if p.inputs is not None else [])
+        inputs = {self.nodes.root(x) for x in (p.inputs.just_heads() if p.inputs is not None else [])}
 
         I = []; D = []
         for r in p:
-- 
2.43.0


From 5c983d394f6854f6687fb122f656be811eede90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:59 +0000
Subject: [PATCH 17/29] fix: possibly_expansive skips builtins, which are not
 nodes of the coarse graph

---
 dyna/analyze/coarse_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/analyze/coarse_graph.py b/dyna/analyze/coarse_graph.py
index 5b674d5..3e4710b 100644
--- a/dyna/analyze/coarse_graph.py
+++ b/dyna/analyze/coarse_graph.py
@@ -116,7 +116,7 @@ class CoarseGraph:
             x = self.nodes.root(r.head)
             count = 0
             for y in r.body:   # can we reach x in more than one way?
-                if p.is_const(y): continue
+                if p.is_const(y) or p.is_builtin(y): continue
                 y = self.nodes.root(y)
                 count += (x in T.outgoing[y])
                 if count > 1: return True
-- 
2.43.0


From 55d955fa9113b037725d801cea92b0061a497673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:14 +0000
Subject: [PATCH 18/29] fix: a variable that also occurs in a truncated subterm
 is not $free in the relaxed type

---
 dyna/analyze/types.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dyna/analyze/types.py b/dyna/analyze/types.py
index 6660d05..89764e0 100644
--- a/dyna/analyze/types.py
+++ b/dyna/analyze/types.py
@@ -63,6 +63,11 @@ def truncate_term(x, D):
     else:
         return x
 
+def occurrences(v, x):
+    "How often does the variable `v` occur in `x`?"
+    x = snap(x)
+    return sum(occurrences(v, y) for y in x.args) if isinstance(x, Term) else int(x is v)
+
 #_______________________________________________________________________________
 #
 
@@ -207,12 +212,15 @@ class TypeAnalyzer:
         if r is None: return
         # Relax tall terms
         h = truncate_term(r.head, self.max_depth)
+        # ... a variable is not $free if it also occurred in a truncated subterm.
+        lost = {v for v in term_vars(r.head) if occurrences(v, h) < occurrences(v, r.head)}
         if self.DEBUG > 0 and not same(r.head, h):
             print(colors.red % f'[truncate]     {r.head}')
             print(colors.red % f'[truncate]  -> {h}')
         # Drop any constraint that mentions local variables.
         head_vars = term_vars(h)
-        s = Rule(h, *{x for x in r.body if term_vars(x) <= head_vars and term_vars(x)})
+        s = Rule(h, *{x for x in r.body if term_vars(x) <= head_vars and term_vars(x)
+                      and not (x.fn == '$free' and x.args[0] in lost)})
         if self.DEBUG > 1:
             print(colors.yellow % '      init: ', _pp(_r, color=False))
             print(colors.yellow % '      prop: ', _pp(r, color=False))
-- 
2.43.0


From a22c02b5044af6b0f0099235db63e6b60dd2fbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:14 +0000
Subject: [PATCH 19/29] fix: types overlap symmetrically; a type's $free
 variables stay distinct when it is intersected, covered or abbreviated

---
 dyna/analyze/abbreviate.py |  6 ++++++
 dyna/analyze/rewrites.py   | 26 ++++++++++++++++++--------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/dyna/analyze/abbreviate.py b/dyna/analyze/abbreviate.py
index 80a2c41..21aa597 100644
--- a/dyna/analyze/abbreviate.py
+++ b/dyna/analyze/abbreviate.py
@@ -79,6 +79,8 @@ class Abbreviate(TransformedProgram):
 
                 if body_closure is None: continue
 
+                head_type = fresh(Rule(r.head, *body_closure.body))
+
                 for tt in self.types.chart.lookup(r.head):
 
                     t_head = self.types.rewrites(Rule(r.head, *tt.body, *body_closure.body), ALLOW_FREE_MERGE=False)
@@ -87,6 +89,10 @@ class Abbreviate(TransformedProgram):
                     if t_head is None: continue
                     t_head.i = tt.i
 
+                    # not a member of this type if it equates free variables
+                    t_type = self.types.chart.rules[tt.i]
+                    if self.types.rewrites.merges_free(Subst().mgu(t_type.head, head_type.head), t_type, head_type): continue
+
                     # we are required to check the head constraints that aren't guaranteed by the body's type.
                     head_constraints = set(t_head.body) - set(body_closure.body)
 
diff --git a/dyna/analyze/rewrites.py b/dyna/analyze/rewrites.py
index 6211689..914a716 100644
--- a/dyna/analyze/rewrites.py
+++ b/dyna/analyze/rewrites.py
@@ -111,16 +111,10 @@ class Rewrites:
             if not ALLOW_FREE_MERGE:
 
                 # Fail when $free(X) has X is bound directly by unification or
-                # by any non-$free constraint. Each free variables must be
-                # distinct, otherwise they are not *free* they are *equality
-                # constrained*.
+                # by any non-$free constraint.  (See also `merges_free`.)
 
                 if free_vars & got_bound: return
 
-                # We have a problem if there is more than 1 variable equal to `X`.
-                if any(sum((X == A or X == B) for [_,A,B] in cp.bindings) > 1 for X in free_vars):
-                    return
-
                 if not all((y.fn == '$free' or X not in term_vars(y)) for y in chart for X in free_vars):
                     return
 
@@ -132,9 +126,23 @@ class Rewrites:
         assert isinstance(r, Rule) and isinstance(s, Rule), [r, s]
         subst = Subst().mgu(r.head, s.head)
         if subst is Subst.FAIL: return None
+        if not ALLOW_FREE_MERGE and self.merges_free(subst, r, s): return None
         return self(Rule(r.head, *r.body, *s.body, *scons(subst)),
                     ALLOW_FREE_MERGE=ALLOW_FREE_MERGE)
 
+    @staticmethod
+    def merges_free(subst, *types):
+        """
+        Does `subst` equate a $free variable with another variable of its own type?
+        The free variables of an item are distinct from its other variables,
+        otherwise they are not *free* they are *equality constrained*.
+        """
+        for r in types:
+            for [X] in [x.args for x in r.body if isinstance(x, Term) and x.fn == '$free']:
+                if any(subst(X) in term_vars(subst(Y)) for Y in term_vars(r) if Y != X):
+                    return True
+        return False
+
     def covers(self, r, s):
         "Return true if `r ⊇ s`"
 
@@ -155,7 +163,9 @@ class Rewrites:
             return True
 
         t = Rule(r.head, *s.body, *r.body, *sc)
-        T = self(t, ALLOW_FREE_MERGE=False, drop_checked=True)
+        T = None
+        if not self.merges_free(subst, r, s):
+            T = self(t, ALLOW_FREE_MERGE=False, drop_checked=True)
 
         if DEBUG > 2:
             head_cond = S is not None and T is not None and s.head == T.head
-- 
2.43.0


From 61ac4ee1d4bb3aeb8904bfadd64414f53a636d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:20 +0000
Subject: [PATCH 20/29] fix: constants in a rule body are not subgoals in the
 running-time bound

---
 dyna/analyze/runtime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dyna/analyze/runtime.py b/dyna/analyze/runtime.py
index e4e4e4f..a169ff6 100644
--- a/dyna/analyze/runtime.py
+++ b/dyna/analyze/runtime.py
@@ -142,7 +142,9 @@ class Runtime:
             return sum([self(s) for s in r])
         else:
             assert isinstance(r, Rule), r
-            return self._suffixtime(frozenset(r.body), frozenset([]), frozenset())
+            # constants (e.g., weights) are not subgoals
+            body = frozenset(x for x in r.body if not self.S.chart.is_const(x))
+            return self._suffixtime(body, frozenset([]), frozenset())
 
     @cache
     def _suffixtime(self, suffix, C, V):
-- 
2.43.0


From beaee216f172b5368887c3c41f1000abe33cf6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:58 +0000
Subject: [PATCH 21/29] fix: evaluating a built-in constraint reports bindings
 of its own variables only, so that propagation terminates

---
 dyna/propagate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dyna/propagate.py b/dyna/propagate.py
index f8d1a9f..74e16fb 100644
--- a/dyna/propagate.py
+++ b/dyna/propagate.py
@@ -3,7 +3,7 @@ Constraint propagation
 """
 from arsenal import colors
 from dyna.pretty import PrettyPrinter
-from dyna.term import Term, fresh, Var, replace_in_expr, Subst, FAIL
+from dyna.term import Term, fresh, term_vars, Var, replace_in_expr, Subst, FAIL
 from dyna.program import Program
 from dyna.builtin import Builtins
 
@@ -146,7 +146,9 @@ class ConstraintPropagation:
                     assert count == 0, 'only semidet constraints should run'
                     count += 1
                     subst1 = Subst().mgu(fresh(q0), q)
-                    yield subst1
+                    # what this says about q's own variables (not the renamed ones)
+                    qs = term_vars(q)
+                    yield {x: subst1(x) for x in qs if subst1(x) != x and term_vars(subst1(x)) <= qs}
                 if count == 0:
                     yield None
             else:
-- 
2.43.0


From ae8f2faf8e4c0e3b6d80bf5d6150ec18fc812af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:58 +0000
Subject: [PATCH 22/29] fix: equality constraints are applied together, so that
 propagation does not depend on their order

---
 dyna/propagate.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dyna/propagate.py b/dyna/propagate.py
index 74e16fb..1aafa3f 100644
--- a/dyna/propagate.py
+++ b/dyna/propagate.py
@@ -174,6 +174,7 @@ class ConstraintPropagation:
         self.agenda = agenda = set()
         self.bindings = []
         self.checked = set()
+        bindings = Subst()    # most general solution to the equalities so far
 
         update = self.update
 
@@ -230,6 +231,13 @@ class ConstraintPropagation:
                             self.update(replace_in_expr(x, X, Y))
                             self.update(replace_in_expr(x, Y, X))
 
+                # the equalities hold together; apply them together
+                bindings = bindings.mgu(X, Y)
+                if bindings is Subst.FAIL: return
+                for x in list(self.chart):
+                    if isinstance(x, Term) and x.fn != '=':
+                        self.update(bindings(x))
+
                 self.bindings.append(driver)  # keep a record of the substitution
 
                 # If there was a change (i.e., a variable is more instantiated),
-- 
2.43.0


From 4e1ed3c60e170063488be4311c987761a2e8ed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:15 +0000
Subject: [PATCH 23/29] fix: equating a free variable with one of unknown
 instantiation does not infer a free variable

---
 dyna/analyze/abbreviate.py |  7 +++++--
 dyna/analyze/types.py      | 24 ++++++++++++++++++------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/dyna/analyze/abbreviate.py b/dyna/analyze/abbreviate.py
index 21aa597..8e088c1 100644
--- a/dyna/analyze/abbreviate.py
+++ b/dyna/analyze/abbreviate.py
@@ -62,13 +62,16 @@ class Abbreviate(TransformedProgram):
                 # abbreviation is disallowed for input items
                 add_rule(None, Rule(t.head, self.__abbrev(t)))
 
+        marked = self.types.marked()
+        for i, t in enumerate(marked): t.i = i
+
         for r_id, r in enumerate(program):
             r = fresh(r)
             if debug:
                 pp = PrettyPrinter()
                 print(colors.render(f'\n{colors.render(colors.magenta % pp(r, color=False))}'))
 
-            for t_body in join_f(self.types.chart.lookup, *r.body):
+            for t_body in join_f(marked.lookup, *r.body):
 
                 # constraint closure for the body's type
                 frees = [Term('$free', v) for v in term_vars(r.head) - term_vars(r.body)]
@@ -94,7 +97,7 @@ class Abbreviate(TransformedProgram):
                     if self.types.rewrites.merges_free(Subst().mgu(t_type.head, head_type.head), t_type, head_type): continue
 
                     # we are required to check the head constraints that aren't guaranteed by the body's type.
-                    head_constraints = set(t_head.body) - set(body_closure.body)
+                    head_constraints = {x for x in t_head.body if x.fn != '$any'} - set(body_closure.body)
 
                     new_rule = Rule(
                         self.__abbrev(t_head),
diff --git a/dyna/analyze/types.py b/dyna/analyze/types.py
index 89764e0..cb37e9c 100644
--- a/dyna/analyze/types.py
+++ b/dyna/analyze/types.py
@@ -63,6 +63,13 @@ def truncate_term(x, D):
     else:
         return x
 
+def mark_unknown(t):
+    """
+    Add `$any` constraints for the variables of the simple type `t` that may be
+    free or bound: equating such a variable with a $free one does not give a $free one.
+    """
+    return Rule(t.head, *t.body, *[Term('$any', v) for v in term_vars(t.head) - term_vars(t.body)])
+
 def occurrences(v, x):
     "How often does the variable `v` occur in `x`?"
     x = snap(x)
@@ -90,7 +97,7 @@ class TypeAnalyzer:
         self.program = to_type_program(program + input_type)
         self.inputs = (
             (input_type.inputs or Program([]))      # user type parameters
-            + Program('$free(_). $bound(_).')       # "builtin" type parameters
+            + Program('$free(_). $bound(_). $any(_).')       # "builtin" type parameters
         )
         self.outputs = program.outputs
         self.program.set_input_types(self.inputs)
@@ -152,7 +159,8 @@ class TypeAnalyzer:
         _chart = MostGeneralSet(agenda, self.rewrites.covers)
         self.chart = self.program.spawn(_chart.xs)
         while agenda:
-            driver = fresh(agenda.pop(0))
+            driver = mark_unknown(fresh(agenda.pop(0)))
+            marked = self.marked()
             if self.DEBUG > 0: print(colors.light.yellow % "pop", _pp(driver, color=False))
             # drive the rule (we don't need to linearize the body in this case
             # because because the boolean semiring is idempotent)
@@ -160,7 +168,7 @@ class TypeAnalyzer:
                 for k in range(len(r.body)):
                     # better to have an outer loop over change to improve the number of "prefix firings"
                     for _ in unify(r.body[k], driver.head):
-                        for constraints in self.chart.join(*r.body[:k], *r.body[k+1:]):
+                        for constraints in marked.join(*r.body[:k], *r.body[k+1:]):
                             if self.DEBUG > 0: print(colors.dark.magenta % '  ', _pp(r, color=False))
                             for x in self._relax(Rule(r.head, *constraints, *driver.body)):
                                 x = fresh(x)
@@ -170,8 +178,12 @@ class TypeAnalyzer:
                                     if self.DEBUG > 0: print(colors.light.yellow % '      push: ', _pp(x, color=False))
                                     agenda.append(x)
                                     self.chart = self.program.spawn(_chart.xs)
+                                    marked = self.marked()
         return self
 
+    def marked(self):
+        return self.program.spawn([mark_unknown(t) for t in self.chart])
+
     def _run_generalizing(self):
         "Naive bottom-up evaluation"
         if self.DEBUG > 0: print(colors.light.magenta % '\n\nIteration:', 0)
@@ -201,7 +213,7 @@ class TypeAnalyzer:
 
     def step(self):
         "Expand the program rules against the chart, returns a Program."
-        return self.rewrites.dedup(self.relax(self.program.step(self.chart)))
+        return self.rewrites.dedup(self.relax(self.program.step(self.marked())))
 
     def relax(self, S):
         return self.program.spawn([t for s in S for t in self._relax(s)])
@@ -220,7 +232,7 @@ class TypeAnalyzer:
         # Drop any constraint that mentions local variables.
         head_vars = term_vars(h)
         s = Rule(h, *{x for x in r.body if term_vars(x) <= head_vars and term_vars(x)
-                      and not (x.fn == '$free' and x.args[0] in lost)})
+                      and x.fn != '$any' and not (x.fn == '$free' and x.args[0] in lost)})
         if self.DEBUG > 1:
             print(colors.yellow % '      init: ', _pp(_r, color=False))
             print(colors.yellow % '      prop: ', _pp(r, color=False))
@@ -237,7 +249,7 @@ class TypeAnalyzer:
         assert isinstance(Q, Program), Q
         T = []
         for r in Q:
-            for ts in self.chart[r.head * r.body]:
+            for ts in self.marked()[r.head * r.body]:
                 for t in self._relax(fresh(Rule(r.head, *ts))):
                     T.append(fresh(t))
         return self.rewrites.dedup(self.program.spawn(T))
-- 
2.43.0


From b0cd139372b7609c5d4d7aeea4b4f91f94abf48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:52 +0000
Subject: [PATCH 24/29] fix: operators of equal priority and associativity
 group together; the printer parenthesises what the parser would read
 differently

---
 dyna/pretty.py | 53 +++++++++++++++++++++++++++++++++++++-------------
 dyna/syntax.py | 34 ++++++++++++++++++++++----------
 2 files changed, 63 insertions(+), 24 deletions(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index 77c59b7..a88907d 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -7,7 +7,7 @@ Pretty printer for term (term, var, rule, constants, etc)
 import re
 from dyna.term import Var, Term, NIL, snap, term_vars, OrderedSet
 from dyna.rule import Rule
-from dyna.syntax import ops, ChainedCompare, BinOp, UnaryOp
+from dyna.syntax import ops, ChainedCompare, BinOp, UnaryOp, NullOp
 #from arsenal import colors
 
 
@@ -23,6 +23,12 @@ binops['<='] = ChainedCompare(5)
 
 binops['\\'] = binops['\\\\']   # annoying patch
 
+# These are in the table, but they do not parse as infix terms
+# (`for` is syntactic sugar for `,`).
+del binops['for'], binops['!']
+
+nullops = {f.op for f in ops if isinstance(f, NullOp)}
+
 unaryops = {str(f.op) for f in ops if isinstance(f, UnaryOp)}
 
 
@@ -42,7 +48,7 @@ def priority(x):
 
 
 def assoc(x):
-    return None if x is None else x.assoc
+    return getattr(x, 'assoc', None)   # comparisons are chained, not associative
 
 
 class parens:
@@ -241,7 +247,7 @@ class PrettyPrinter:
         fn = snap(x.fn)
         f = color % (self.pp_functor(fn) if isinstance(fn, str) else self(fn))
         if x.args:
-            return f'{f}({",".join(self(a) for a in x.args)})'
+            return f'{f}({self.pp_args(x.args)})'
         return f
 
     def pp_term(self, x):
@@ -249,7 +255,7 @@ class PrettyPrinter:
         fn = snap(x.fn)
 
         if not isinstance(fn, str):
-            return f'{self(fn)}({",".join(self(y) for y in x.args)})'
+            return f'{self(fn)}({self.pp_args(x.args)})'
 
 #        elif isinstance(x, Rule):
 #            if x.body:
@@ -260,7 +266,7 @@ class PrettyPrinter:
         elif x.arity == 0:
             if x == NIL:
                 return self.pp_list(x)
-            elif fn in {'?', '!', '*'}:
+            elif fn in nullops:
                 return fn
             else:
                 return self.pp_functor(fn)
@@ -273,9 +279,12 @@ class PrettyPrinter:
                 [y] = x.args
 
                 # XXX: remove parens when precedence is clear.
-                if isinstance(y, Term) and y.arity == 2 and y.fn in binops:
+                y = snap(y)
+                if (binop(y) is not None and y.arity == 2) or not isinstance(y, (Var, Term)):
+                    return f'{fn}({self(y)})'    # note: -(3) is not -3
+                if isinstance(y, Term) and y.arity == 1 and y.fn in unaryops and y.fn != x.fn:
                     return f'{fn}({self(y)})'
-                return f'{fn}{self(y)}'
+                return f'{fn}{self.pp_operand(y)}'
 
             else:
                 return self.pp_term_default(x)
@@ -338,28 +347,44 @@ class PrettyPrinter:
             # example the pairing operator an implementation may parse as left
             # or right assoc by convention.
 
-            A = self(a); B = self(b)
+            A = self.pp_operand(a); B = self.pp_operand(b)
 
             if priority(binop(a)) <= priority(binop(x)):
                 if (priority(binop(a)) == priority(binop(x))
-                    and assoc(binop(a)) == 'L'):
+                    and assoc(binop(a)) == assoc(binop(x)) == 'L' and snap(a).arity == 2):
                     pass
                 else:
                     A = f'({A})'
 
             if priority(binop(b)) <= priority(binop(x)):
                 if (priority(binop(b)) == priority(binop(x))
-                    and assoc(binop(b)) == 'R'):
+                    and assoc(binop(b)) == assoc(binop(x)) == 'R' and snap(b).arity == 2):
                     pass
                 else:
                     B = f'({B})'
 
+            # avoid running the colon into an operator, e.g., `:-`
+            if fn == ':' and B[:1] in ('-', '+', ':', '~', '&', '!', '?', '*'):
+                infix = ' : '
+
             return f'{A}{infix}{B}'
 
+    def pp_operand(self, x):
+        "Nullary operators are quoted when they are operands."
+        x = snap(x)
+        if isinstance(x, Term) and x.arity == 0 and snap(x.fn) in nullops:
+            return f"'{snap(x.fn)}'"
+        return self(x)
+
+    def pp_args(self, xs, sep=','):
+        "Arguments (or list elements, where `sep` is '|') may not have top-level operators looser than `sep`."
+        return ",".join(f'({self(x)})' if priority(binop(x)) <= binops[sep].priority else self(x)
+                        for x in xs)
+
     def pp_term_default(self, x):
         [fn, *args] = snap(x)
         fn = snap(fn)
-        return f'{self.pp_functor(fn)}({",".join(self(a) for a in args)})'
+        return f'{self.pp_functor(fn)}({self.pp_args(args)})'
 
     def pp_functor(self, x):
         y = str(x)
@@ -379,9 +404,9 @@ class PrettyPrinter:
         while True:
             y = snap(y)
             if isinstance(y, Term) and y == NIL and y.arity == 0:
-                return f'[{",".join(self(x) for x in xs)}]'
-            elif isinstance(y, Term) and y.fargs[0] == '$cons':
+                return f'[{self.pp_args(xs, "|")}]'
+            elif isinstance(y, Term) and y.fargs[0] == '$cons' and y.arity == 2:
                 [_,a,y] = y.fargs
                 xs.append(a)
             else:
-                return f'[{",".join(self(x) for x in xs)}|{self(y)}]'
+                return f'[{self.pp_args(xs, "|")}|{self.pp_args([y], "|")}]'
diff --git a/dyna/syntax.py b/dyna/syntax.py
index 10c30b2..f86bee6 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -293,7 +293,9 @@ class BinOp(Op):
         if self.assoc == L:   l, r = i, i-1
         elif self.assoc == R: l, r = i-1, i
         else:                 l, r = i-1, i-1
-        return f'?p{i}: p{l} {OP} p{r} -> {self.callback}  |  p{i-1} -> noop'
+        # `OP` lists all the operators of this priority and associativity
+        alts = '  |  '.join(f'p{l} {o} p{r} -> {self.callback}' for o in OP)
+        return f'?p{i}: {alts}  |  p{i-1} -> noop'
 
 
 class UnaryOp(Op):
@@ -339,7 +341,16 @@ def add_ops(ops):
 
     G = []
     expr1 = expr2 = expr3 = None
-    for i, z in enumerate(sorted(ops, key=lambda x: -x.priority), start=1):
+
+    # Binary operators of equal priority and associativity share a level, i.e.,
+    # `a / b // c` groups to the left.
+    levels = {}
+    for k, z in enumerate(sorted(ops, key=lambda x: -x.priority)):
+        key = (z.priority, z.assoc) if isinstance(z, BinOp) else k
+        levels.setdefault(key, []).append(z)
+
+    for i, zs in enumerate(levels.values(), start=1):
+        z = zs[0]
 
         # Figure out where these special positions are:
         #  - expr1: most general context
@@ -349,16 +360,19 @@ def add_ops(ops):
         if z.op == ',': expr2 = i-1
         expr1 = i
 
-        if z.op is not None:
-            if z.op in Sym2Lex:      # avoid lexer conflicts on '='
-                OP = Sym2Lex[z.op]
+        OPS = []
+        for k, z in enumerate(zs):
+            if z.op is None:
+                OPS.append(None)
+            elif z.op in Sym2Lex:      # avoid lexer conflicts on '='
+                OPS.append(Sym2Lex[z.op])
             else:
-                G.append(f'OP{i}: "{z.op}"')
-                Sym2Lex[z.op] = OP = f'OP{i}'
-        else:
-            OP = None
+                OP = f'OP{i}_{k}'
+                G.append(f'{OP}: "{z.op}"')
+                Sym2Lex[z.op] = OP
+                OPS.append(OP)
 
-        G.append(z.render(OP, i))
+        G.append(z.render(OPS if isinstance(z, BinOp) else OPS[0], i))
 
     G.extend([
         f'?expr1: p{expr1}',
-- 
2.43.0


From 347f9578e7dc959a5c164e209f760c6738a75348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:52 +0000
Subject: [PATCH 25/29] fix: strings, functors, variables and constants print
 in a form that the parser reads back

---
 dyna/pretty.py | 40 +++++++++++++++++++++++++++-------------
 dyna/syntax.py | 15 +++++++++++++--
 2 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index a88907d..3516769 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -7,7 +7,7 @@ Pretty printer for term (term, var, rule, constants, etc)
 import re
 from dyna.term import Var, Term, NIL, snap, term_vars, OrderedSet
 from dyna.rule import Rule
-from dyna.syntax import ops, ChainedCompare, BinOp, UnaryOp, NullOp
+from dyna.syntax import grammar, string_escapes, ops, ChainedCompare, BinOp, UnaryOp, NullOp
 #from arsenal import colors
 
 
@@ -29,6 +29,11 @@ del binops['for'], binops['!']
 
 nullops = {f.op for f in ops if isinstance(f, NullOp)}
 
+# The parser's pattern for unquoted functors, and the words that fit the
+# pattern but mean something else.
+functor1 = re.compile(re.search('^FUNCTOR1: /(.*)/$', grammar, re.MULTILINE).group(1))
+reserved = {'true', 'false'} | {f.op for f in ops}
+
 unaryops = {str(f.op) for f in ops if isinstance(f, UnaryOp)}
 
 
@@ -51,6 +56,10 @@ def assoc(x):
     return getattr(x, 'assoc', None)   # comparisons are chained, not associative
 
 
+# must match the escape sequences that the parser understands
+escapes = {c: '\\' + e for e, c in string_escapes.items()}
+
+
 class parens:
     def __init__(self, x):
         self.x = x
@@ -163,18 +172,25 @@ class PrettyPrinter:
                     # first instance keeps the nice name
                     self.vs[x.name][id(x)] = x.name
                 else:
-                    # later instance get an ugly auto-generated name
-                    self.vs[x.name][id(x)] = f'${x.name}{dups}'
+                    # later instance get an ugly auto-generated name (which
+                    # should not be the name of yet another variable).
+                    name = f'${x.name}{dups}'
+                    while name in self.vs:
+                        name = f'${name}'
+                    self.vs[x.name][id(x)] = name
+                    self.vs[name] = {None: name}
 
             return self.var_color.get(id(x), '%s') % self.vs[x.name][id(x)]
 
+        elif isinstance(x, float) and x == float('inf'):
+            return '∞'    # `inf` is a functor
+
         elif isinstance(x, bool):
             return str(x).lower()   # booleans and null are lower case
 
         elif isinstance(x, str):
-            x = repr(x)    # should be a double-quoted string, unlike Python
-            x = f'"{x[1:-1]}"'   # TODO: need to redo escapes
-            return x
+            # double-quoted string, unlike Python
+            return f'"{"".join(escapes.get(c, c) for c in x)}"'
 
         elif isinstance(x, Rule):
 
@@ -212,6 +228,8 @@ class PrettyPrinter:
 #                        elif hasattr(z, '_repr_svg_'):
 #                            return z._repr_svg_()
 #                        else:
+                        if isinstance(z, (str, bool)) or type(z) is float:
+                            z = self(z)
                         return Escape(self.color.render(self.color.builtin % (z,)))
 
                     return z
@@ -388,13 +406,9 @@ class PrettyPrinter:
 
     def pp_functor(self, x):
         y = str(x)
-        # the pattern below should match the pattern for `FUNCTOR1` in the
-        # front-end parser.
-        #
-        # TODO: The patterm below is going to be perpetually out of date with
-        # the functor pattern in the grammar.  Figure out how to keep them in
-        # sync to avoid the headache.
-        if not re.match("^([$_]*['\"a-zαβγδεζηθικλμνξο∂πρστυφχψωϯ☐¿$♦]['\"a-zA-Z0-9_αβγδεζηθικλ∂μνξοπρστυφχψω∘ϯ♦$☐˽ΑΒΓΔΕΖΗΘΙΚΛΜΝΞΟΠΡΣΤΥΦΧΨΩ₀₁₂₃₄₅₆₇₈₉]*)$", y):
+        # Anything that the front-end parser does not read as an unquoted functor
+        # has to be quoted.
+        if not functor1.fullmatch(y) or y in reserved:
             y = f"'{y}'"
         return y
 
diff --git a/dyna/syntax.py b/dyna/syntax.py
index f86bee6..f943454 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -1,3 +1,4 @@
+import re
 from lark.lark import Lark
 from lark.visitors import Transformer
 from lark.exceptions import LarkError
@@ -9,6 +10,10 @@ from dyna.term import Term, Var, fresh, flatten, flatten_op
 from dyna.rule import Rule
 
 
+# escape sequences in string literals
+string_escapes = {'\\': '\\', '"': '"', 'n': '\n', 'r': '\r', 't': '\t'}
+
+
 # TODO: we need an option to specify the semiring in the source code.
 class DynaTransformer(Transformer):
 
@@ -72,6 +77,10 @@ class DynaTransformer(Transformer):
         [op, a] = x
         return Term(str(op), a)
 
+    def postfix_op(self, x):
+        [a, op] = x
+        return Term(str(op), a)
+
     def noop(self, x):
         [x] = x
         return x
@@ -144,7 +153,9 @@ class DynaTransformer(Transformer):
 
     def string(self, x):
         [s] = x
-        return s[1:-1].replace('\\"', '"')   # remove outer quotes and escaped quotes
+        # remove outer quotes and replace the escape sequences (any other
+        # backslash is an ordinary character)
+        return re.sub(r'\\(.)', lambda m: string_escapes.get(m.group(1), m.group(0)), s[1:-1])
 
     def float(self, x):
         [a] = x
@@ -302,7 +313,7 @@ class UnaryOp(Op):
     def __init__(self, op, priority, position='prefix', callback=None, evaluation=None):
         assert position in {prefix, postfix}
         self.position = position
-        if callback is None: callback = 'unary_op'
+        if callback is None: callback = 'unary_op' if position == prefix else 'postfix_op'
         super().__init__(op=op, arity=1, priority=priority, evaluation=evaluation, callback=callback)
 
     def render(self, OP, i):
-- 
2.43.0


From d092a36f85b23fabb0cca37f608022cc4a02b59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:07 +0000
Subject: [PATCH 26/29] fix: enumerating derivations keeps those of duplicate
 rules apart

---
 dyna/derivations.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dyna/derivations.py b/dyna/derivations.py
index 76c91a3..79588ab 100644
--- a/dyna/derivations.py
+++ b/dyna/derivations.py
@@ -10,6 +10,7 @@ from io import StringIO
 from dyna.term import covers, fresh, Product, unify
 from dyna.util import escape_str, escape_html, dot2svg, tikz, latex
 from dyna.rule import Rule, is_const
+from dyna.syntax import term
 from dyna import PrettyPrinter
 
 
@@ -417,12 +418,18 @@ def peel(ds):
     return dds
 
 
+def lookup_derivations(chart, x):
+    "Derivations of `x` in `chart`.  Equal derivations (from duplicate rules) are not combined."
+    if isinstance(x, str): x = term(x)
+    return Derivations(peel([fresh(r) for r in chart.lookup(x)]))
+
+
 def Naive(p, T, x):
-    return Derivations(peel(naive(p, T=T).user_lookup(x)))
+    return lookup_derivations(naive(p, T=T), x)
 
 
 def Seminaive(p, T, x, verbose=False):
-    return Derivations(peel(seminaive(p, T=T, verbose=verbose).user_lookup(x)))
+    return lookup_derivations(seminaive(p, T=T, verbose=verbose), x)
 
 
 def sld(p, x):
-- 
2.43.0


From 07d79efb81ee71c72e9d360b61383161701b4f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:09 +0000
Subject: [PATCH 27/29] fix: derivation mappings of unfold and fold track rules
 and subgoals by position, and are inverse to each other

---
 dyna/derivations.py      |  44 ++++++-----------
 dyna/program.py          |  38 +++++++++-----
 dyna/rule.py             |  13 +++++
 dyna/transform/fold.py   | 104 +++++++++++++++++----------------------
 dyna/transform/unfold.py |  61 +++++++++++------------
 5 files changed, 129 insertions(+), 131 deletions(-)

diff --git a/dyna/derivations.py b/dyna/derivations.py
index 79588ab..7d5ada6 100644
--- a/dyna/derivations.py
+++ b/dyna/derivations.py
@@ -465,34 +465,22 @@ def reorder_subgoals(D, r, R):
     `D`'s instantiated top rule)
     """
 
-    possible = r.folds_by(R)
-    if not possible:    # pragma: no cover
-        msg = (f"""
-        failed to re-order subgoal order:
-        want: {R}
-        have: {r}
-        """)
-
-        if Derivation.SAFE:
-            raise AssertionError(msg)
-        else:
-            return D.body
-
-    [t] = possible
-
-    assert not t.remaining, [R, r, t]  # we shouldn't have any more fuzzy matches
-    # permute subgoals to match the rule
-    bs = [D.body[j] for i,j in sorted(t.align.items())]
-    # check that the permutation did the trick
-    if not covers(R, Rule(r.head, *[r.body[j] for i,j in sorted(t.align.items())])):  # pragma: no cover
-        if Derivation.SAFE:
-            raise AssertionError(f"""
-            failed to re-order subgoals:
-            want: {R}
-            have: {r}
-            ====> {Rule(r.head, *[r.body[j] for i,j in sorted(t.align.items())])}
-            """)
-    return bs
+    for _, align, _ in R.body.covers(r.body):
+        # permute subgoals to match the rule; `align` maps positions in `r` to positions in `R`
+        js = sorted(align, key=align.get)
+        if len(js) == len(r.body) and covers(R, Rule(r.head, *[r.body[j] for j in js])):
+            return [D.body[j] for j in js]
+
+    msg = (f"""
+    failed to re-order subgoal order:
+    want: {R}
+    have: {r}
+    """)     # pragma: no cover
+
+    if Derivation.SAFE:
+        raise AssertionError(msg)
+    else:
+        return D.body
 
 
 #from contextlib import contextmanager
diff --git a/dyna/program.py b/dyna/program.py
index 99ff79f..36f1628 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -735,6 +735,19 @@ input/output declarations</summary>\
 
         return align
 
+    def _rule_alignment(self, S):
+        "Align rules (and their subgoals) in `self` to those in an equal program `S`."
+        unmatched = list(range(len(S)))
+        align = {}
+        for i in range(len(self)):
+            for j in unmatched:
+                a = self.rules[i].alignment(S.rules[j]) if self.rules[i].same(S.rules[j]) else None
+                if a is not None:
+                    align[i] = (j, a)
+                    unmatched.remove(j)
+                    break
+        return align
+
 #    def showdiff(self, other):
 #        "Alternative program comparison to compare."
 #        if isinstance(other, str): other = Program(other)
@@ -2186,25 +2199,24 @@ input/output declarations</summary>\
 
         elif source == target:  # an equal, but not exact, match (allows superfical differences)
 
-            # simple transform: renames the rules according to the alignment between
-            # source and target.
-            alignment = dict(source.align(target))
-            return target.d(alignment[d.i])(
+            # simple transform: renames the rules (and permutes their subgoals)
+            # according to the alignment between source and target.  The same
+            # alignment is used in both directions.
+            if any(source is x for x in target.transforms()):
+                i, perm = source._rule_alignment(target)[d.i]
+            else:
+                [(i, perm)] = [(j, {y: x for x,y in a.items()})
+                               for j, (i, a) in target._rule_alignment(source).items() if i == d.i]
+            return target.d(i)(
                 d.head,
-                *[source.Transform(y, target) for y in d.body]
+                *[source.Transform(d.body[perm[k]], target) for k in range(len(d.body))]
             )
 
         elif source in set(target.transforms()):
-            if source == target.parent:
-                return target.transform(d)
-            else:
-                return target.parent.Transform(source.Transform(d, target.parent), target)
+            return target.transform(source.Transform(d, target.parent))
 
         else:
-            if source.parent == target:
-                return source.untransform(d)
-            else:
-                return source.parent.Transform(source.Transform(d, source.parent), target)
+            return source.parent.Transform(source.untransform(d), target)
 
 
 class TransformedProgram(Program):
diff --git a/dyna/rule.py b/dyna/rule.py
index 4750fd1..3fe079f 100644
--- a/dyna/rule.py
+++ b/dyna/rule.py
@@ -87,6 +87,19 @@ class Rule(Term):
             )
         )
 
+    def alignment(self, other):
+        """
+        If the rules are the `same`, find a bijection between their subgoals that
+        shows it; returns a map from positions in `other.body` to positions in
+        `self.body` (or None).
+        """
+        if self is other: return {i: i for i in range(len(self.body))}
+        if len(self.body) != len(other.body): return
+        if not term_vars(self).isdisjoint(term_vars(other)): other = fresh(other)
+        for s, align, _ in self.body.covers(other.body, Subst().cover(self.head, other.head)):
+            if s != FAIL and s.is_non_specializing() and s(self.head) == other.head:
+                return align
+
 #    def round(self, precision):
 #        import warnings
 #        warnings.warn('We are going to retire this method as soon as possible; use metric for comparisons.')
diff --git a/dyna/transform/fold.py b/dyna/transform/fold.py
index f31d010..569f69c 100644
--- a/dyna/transform/fold.py
+++ b/dyna/transform/fold.py
@@ -1,7 +1,7 @@
 from collections import Counter
 from functools import cached_property
 
-from dyna import TransformedProgram, Derivation, Product, Term, Subst
+from dyna import TransformedProgram, Derivation, Term
 
 DEBUG = 0
 
@@ -22,6 +22,8 @@ class Fold(TransformedProgram):
         self.j = j
         self.S = S
         self.defs = defs
+        # index of the copied rules in the new program
+        self.par2new = {k: N for N, k in enumerate((k for k in range(len(parent)) if k not in S), start=1)}
         super().__init__(f'Fold({r.__repr__(color=False)!r})', parent, [r] + list(parent - S))
         assert self.rules[self.i] == self.r
 
@@ -69,6 +71,30 @@ class Fold(TransformedProgram):
         [_, bookkeeping] = self.__align_to_parent
         return bookkeeping
 
+    @cached_property
+    def par2undo(self):
+        """
+        Align the rules in the parent program to the rules in `self.undo`: a map from
+        each rule to its counterpart and a bijection between their subgoals.
+        """
+        undo = self.undo
+        align = {}
+        for P, N in self.par2new.items():     # copied by the fold and again by the undo
+            align[P] = (undo.par2new[N], {j: j for j in range(len(self.parent.rules[P].body))})
+        unmatched = sorted(undo.new2def)
+        for P in sorted(self.S):
+            for R in unmatched:
+                a = self.parent.rules[P].alignment(undo.rules[R])
+                if a is not None:
+                    align[P] = (R, a)
+                    unmatched.remove(R)
+                    break
+        return align
+
+    @cached_property
+    def undo2par(self):
+        return {R: (P, {i: j for j,i in a.items()}) for P, (R, a) in self.par2undo.items()}
+
     @cached_property
     def __align_to_parent(self):
         """
@@ -77,71 +103,35 @@ class Fold(TransformedProgram):
 
         # If the fold isn't partially safe, then it is probably reversible,
         # this has a different alignment but the code to handle both cases is the same.
-        rev = self.undo
-
-        # new <===> (defs <===> rev <===> par)
-        def2rev = rev.def2new
-
-        # Reverse engineer the alignment between `defs` and `parent` that gives
-        # rise to `self` after folding. We use the fact that
-        #     parent == new.unfold(i, j, defs) == rev
-        rev2par = dict(rev.align(self.parent))
 
+        # new <===> (defs <===> undo <===> par)
         bookkeeping = {}; def2par = {}
-        for D,R in def2rev.items():   # note: unfold.new2def is def2new for us
-            P = rev2par[R]
+        for D,R in self.undo.def2new.items():   # note: unfold.new2def is def2new for us
+            P, _ = self.undo2par[R]
             # NOTE: R and P are [deep] equal, but R may have reorder subgoals.
             # crude version parent.folds_by(...)
             for t in self.parent.rules[P].folds_by(self.defs.rules[D]):
                 bookkeeping[P] = t
-            #assert self.parent[P].same(rev[R])
-            #assert D not in def2par   # test should actually be for bijection this is just one side
             def2par[D] = P
 
         return (def2par, bookkeeping)
 
+    # The fold is the inverse of unfolding the folded program, so we use the undo
+    # (unfold) program's derivation mapping in the opposite direction.
+
     def transform(self, d):
-        def node(n):
-            if n.i not in self.S:              # top rule was copied to new program
-                assert n.p == self.parent
-                I = self.rules.index(n.R)   # the index of the copied rule in the new program
-                return self.d(I)(n.head, *self.transform(n.body))
-            # rules that were replaced by the fold
-            assert n.p == self.parent
-
-            if not self.partially_safe:
-                return self.rev.Transform(self.Transform(n, self.rev), self.rev.undo)
-
-            # We have recorded that the top rule P of this derivation maps
-            # [via par2def] to a defining rule D.
-            def_rule_ix = self.par2def[n.i]
-            def_rule = self.defs.rules[def_rule_ix]
-
-            # Use our recorded alignment of P's subgoals to D's subgoals
-            bookkeeping = self.bookkeeping[n.i]
-
-            # Note: Splitting uses some guess work to determined left vs. right
-            d_left = n.body[[i for i in bookkeeping.remaining if i <= self.j]]
-            d_middle = n.body[list(sorted(bookkeeping.align))]
-            d_right = n.body[[i for i in bookkeeping.remaining if i > self.j]]
-
-            # determine the unique substitution that makes the body of the
-            # derivation match the body of def_rule
-            θ = Subst()
-            for i, j in bookkeeping.align.items():
-                θ.cover(def_rule.body[j], n.r.body[i])
-
-            # The middle is where all the action happens
-            d_middle_new = self.defs.Transform(self.defs.d(def_rule_ix)(
-                θ(def_rule.head), *self.Transform(d_middle, self.defs)
-            ), self.parent)
-
-            return self.d(self.i)(n.head, *self.transform(d_left * d_middle_new * d_right))
-        return Derivation.map(d, node)
+        return self.undo.untransform(self._rename(d, self.undo, self.par2undo))
 
     def untransform(self, d):
-        # implementation shortcut: use the undo (unfold) program's derivation mapping
-        return self.undo.Transform(self.undo.transform(d), self.parent)
+        return self._rename(self.undo.transform(d), self.parent, self.undo2par)
+
+    @staticmethod
+    def _rename(d, target, align):
+        "Rename the rules (and permute their subgoals) according to `align`."
+        def node(n):
+            i, a = align[n.i]
+            return target.d(i)(n.head, *[Derivation.map(n.body[a[j]], node) for j in range(len(n.body))])
+        return Derivation.map(d, node)
 
     def compute_measure(self, M):
         "Fold-unfold safety measure for this (generalized) fold. `M` is the Measure context."
@@ -170,11 +160,9 @@ class Fold(TransformedProgram):
         m_parent = M(self.parent); m_defs = M(self.defs)
         diffs = [m_parent.m[P] - m_defs.m[D] for P,D in self.par2def.items()]
         m_r = M.Interval(M.Min([x.lo for x in diffs]), M.Max([x.hi for x in diffs]))
-        for N, r in enumerate(self):   # TODO: can't we do this without a loop?
-            if N == self.i:
-                m_new[N] = m_r
-            else:
-                m_new[N] = m_parent.m[self.parent.rules.index(r)]   # TODO: is/can this index tracked in the transformation metadata?
+        m_new[self.i] = m_r
+        for P, N in self.par2new.items():
+            m_new[N] = m_parent.m[P]
         # Check the safety conditions for generalized fold.
         safe = m_parent._safe + m_defs._safe
         for (D,P) in self.def2par.items():
diff --git a/dyna/transform/unfold.py b/dyna/transform/unfold.py
index 76c2baa..7e0a492 100644
--- a/dyna/transform/unfold.py
+++ b/dyna/transform/unfold.py
@@ -1,5 +1,5 @@
 from dyna import (
-    fresh, term_vars, TransformedProgram, Rule, Derivation, Product, Constant
+    fresh, term_vars, TransformedProgram, Rule, Derivation, Subst, Constant
 )
 from functools import cached_property
 
@@ -51,11 +51,16 @@ class Unfold(TransformedProgram):
             # keep the the revised RHS in the same order.
 
             new = list(program.rules)
-            new.remove(r)
+            new.pop(i)       # by position: the program may have duplicates of `r`
+
+            # index of the copied rules in the new program
+            self.par2new = {k: (k if k < i else k-1) for k in range(len(program)) if k != i}
+            self.new2par = {y: x for x,y in self.par2new.items()}
 
             assert defs.safe_inline(r.body[j]), f"unsafe to unfold `{r.body[j]}` at ({i},{j}) against definitions {self.defs}."
 
             self.new2def = {}
+            self._inlined = {}     # new rule and its instance of the inlined subgoal
             for s in defs.lookup(r.body[j]):
 
                 t = Rule(r.head, *r.body[:j], *s.body, *r.body[j+1:])
@@ -66,8 +71,9 @@ class Unfold(TransformedProgram):
                     if m != program.Semiring.one:
                         t = Rule(t.head, *t.body, m)
 
-                t = fresh(t)
+                t, x = fresh((t, s.head))
                 ii = len(new)   # index of the new rule t in the new program
+                self._inlined[ii] = (t, x)
                 new.append(t)
                 self.new2def[ii] = s.i  # index of the rule that we unfolded in defs (None for builtins)
 
@@ -90,34 +96,26 @@ class Unfold(TransformedProgram):
                 new_rule_ix = self.def2new[d_middle_defs.i]
                 return self.d(new_rule_ix)(n.head, *self.transform(d_left * d_middle_new * d_right))
             assert n.p == self.parent
-            I = self.rules.index(n.R)   # the index of the copied rule in the new program
+            I = self.par2new[n.i]   # the index of the copied rule in the new program
             return self.d(I)(n.head, *self.transform(n.body))
         return Derivation.map(d, node)
 
-#    def _untransform(self, d):
-#        rule = d.__rule__
-#        body = d.body
-#        assert d.p == self
-#        if rule in {self[i] for i in self.new2def}:  # rules that replaced by the unfold
-#            tmp = self.defs[self.new2def[d.i]]
-#            # all of these folds give the same new rule (self.r)
-#            [r] = d.r.folds_by(tmp)
-#            s = self.defs.d(self.new2def[d.i])(
-#                tmp.head/r.subst,
-#                *body[sorted(r.align)].transform(self.defs)
-#            )
-#            left = body[[i for i in r.remaining if i <= self.j]]
-#            right = body[[i for i in r.remaining if i > self.j]]
-#            body = left * s * right
-#            rule = self.r
-#            I = self.i
-#        else:
-#            I = self.parent.rules.index(rule)
-#        return self.parent.d(I)(d.head, *body.transform(self.parent))
-
     def untransform(self, d):
-        # implementation shortcut: use the undo (fold) program's derivation mapping
-        return self.undo.Transform(self.undo.transform(d), self.parent)
+        def node(n):
+            assert n.p == self
+            if n.i not in self.new2def:   # the top rule was copied from the parent
+                return self.parent.d(self.new2par[n.i])(n.head, *self.untransform(n.body))
+            # reassemble the derivation of the subgoal that was unfolded
+            i = self.new2def[n.i]
+            t, x = self._inlined[n.i]
+            k = self.j + len(self.defs.rules[i].body)
+            d_left, d_middle, d_right = [self.untransform(b) for b in (
+                n.body[:self.j], n.body[self.j:k], n.body[k:])]
+            head = Subst().cover(t, n.r)(x)
+            d_middle_defs = self.defs.d(i)(head, *self.parent.Transform(d_middle, self.defs))
+            d_middle_old = self.defs.Transform(d_middle_defs, self.parent)
+            return self.parent.d(self.i)(n.head, *d_left, d_middle_old, *d_right)
+        return Derivation.map(d, node)
 
     def compute_measure(self, M):
         "Fold-unfold safety measure for this (generalized) unfold. `M` is the Measure context."
@@ -136,11 +134,10 @@ class Unfold(TransformedProgram):
         m_new = [None]*len(self)
         m_parent = M(self.parent); m_defs = M(self.defs)
 
-        for N, r in enumerate(self):
-            if N in self.new2def:
-                m_new[N] = m_parent.m[self.i] + m_defs.m[self.new2def[N]]
-            else:
-                m_new[N] = m_parent.m[self.parent.rules.index(r)]
+        for P, N in self.par2new.items():
+            m_new[N] = m_parent.m[P]
+        for N, D in self.new2def.items():
+            m_new[N] = m_parent.m[self.i] + m_defs.m[D]
 
         # Check the safety conditions for generalized unfold.
         P = self.i
-- 
2.43.0


From 3028f9b7ceaca8f1c101e36c6619617cffb432a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:37 +0000
Subject: [PATCH 28/29] fix: search folds rules with builtin subgoals, and
 measures unfolding of builtins

---
 dyna/search/old.py       | 2 +-
 dyna/transform/unfold.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/dyna/search/old.py b/dyna/search/old.py
index 539fd11..6037aa7 100644
--- a/dyna/search/old.py
+++ b/dyna/search/old.py
@@ -251,7 +251,7 @@ class MacroFold(Action):
         if key not in rule_states:
             init = Program(
                 [r],
-                inputs = Program([Rule(fresh(x)) for x in r.body if not is_const(x)]),
+                inputs = Program([Rule(fresh(x)) for x in r.body if not is_const(x) and not Program.is_builtin(x)]),
                 outputs = Program([Rule(fresh(r.head))]),
             )
             rule_states[key] = init.beam(100_000, 100, verbosity=0, kill=True, cost=self.graph.cost, TRANSFORMS=['fold']).best
diff --git a/dyna/transform/unfold.py b/dyna/transform/unfold.py
index 7e0a492..d7f3ac6 100644
--- a/dyna/transform/unfold.py
+++ b/dyna/transform/unfold.py
@@ -136,8 +136,9 @@ class Unfold(TransformedProgram):
 
         for P, N in self.par2new.items():
             m_new[N] = m_parent.m[P]
+        m_defs_rule = lambda D: M.Interval(0, 0) if D is None else m_defs.m[D]   # builtins have no rule (size zero)
         for N, D in self.new2def.items():
-            m_new[N] = m_parent.m[self.i] + m_defs.m[D]
+            m_new[N] = m_parent.m[self.i] + m_defs_rule(D)
 
         # Check the safety conditions for generalized unfold.
         P = self.i
@@ -146,7 +147,7 @@ class Unfold(TransformedProgram):
             # don't count the size of the subgoal that we replaced in the unfold action
             extra = M.min_size(self.parent.rules[P].body[:self.j]) + M.min_size(self.parent.rules[P].body[self.j+1:])
             safe.append(
-                    (m_parent.m[P] + m_defs.m[D]).lo + extra > 0
+                    (m_parent.m[P] + m_defs_rule(D)).lo + extra > 0
             )
         return M.safety(m_new, self, safe)
 
-- 
2.43.0


From 7f6d8ddef9ae864da2655af23ebaa24e55a734e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:58 +0000
Subject: [PATCH 29/29] fix: search's megafold-defs folds against the defining
 stage, which shares the root program

---
 dyna/search/old.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dyna/search/old.py b/dyna/search/old.py
index 6037aa7..e37a1a7 100644
--- a/dyna/search/old.py
+++ b/dyna/search/old.py
@@ -328,7 +328,9 @@ class Graph1(GraphInterface):
         for x in p.transforms():
             # TODO: For consistency, both `Fold` and `CSE` below should use
             # `Define` instead to introduce their new rules.
-            if isinstance(x, Define): ds.extend(x.defs)
+            # The stage itself (rather than a program of its new rules): the
+            # safety measure requires that it shares the root program with `p`.
+            if isinstance(x, Define): ds.append(x)
         return ds
 
     def actions(self, s):
@@ -371,9 +373,8 @@ class Graph1(GraphInterface):
                 actions.append(Action(q.noop, []))
 
         if 'megafold-defs' in self.TRANSFORMS:
-            defs = self.find_defs(p)
-            if defs:
-                for q in p.megafolds(defs=Program(defs)):
+            for defs in self.find_defs(p):
+                for q in p.megafolds(defs=defs):
                     actions.append(Action(q.noop, []))
 
         for i,r in enumerate(p):
-- 
2.43.0

