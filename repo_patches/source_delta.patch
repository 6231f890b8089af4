From 6285e99ee0cdc6b17ea5f2379988dd5e20d352be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:06 +0000
Subject: [PATCH 01/31] fix: do not substitute bound variables when
 instantiating a quantified condition

---
 pddl/logic/base.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index a69ef43..1e4738d 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -212,7 +212,14 @@ class QuantifiedCondition(Formula):
 
     def instantiate(self, mapping: Mapping[Variable, Term]) -> "Formula":
         """Instantiate the formula with a mapping from variables to terms."""
-        return type(self)(self.condition.instantiate(mapping), self.variables)
+        # the quantified variables are bound: they must not be replaced in the condition.
+        bound_names = {variable.name for variable in self.variables}
+        free_mapping = {
+            variable: term
+            for variable, term in mapping.items()
+            if variable.name not in bound_names
+        }
+        return type(self)(self.condition.instantiate(free_mapping), self.variables)
 
     def __str__(self) -> str:
         """Get the string representation."""
-- 
2.43.0


From f7be9beb9cb901999a6283465559313e1342b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 02/31] fix: make conditional and universal effects
 instantiable

---
 pddl/logic/effects.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/effects.py b/pddl/logic/effects.py
index 8fe9929..07d9f67 100644
--- a/pddl/logic/effects.py
+++ b/pddl/logic/effects.py
@@ -13,12 +13,13 @@
 """This modules implements PDDL effects."""
 
 import functools
-from typing import AbstractSet, Collection, Optional, Union
+from typing import AbstractSet, Collection, Mapping, Optional, Union
 
 from pddl.helpers.base import _typed_parameters, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic import Variable
 from pddl.logic.base import And, Atomic, Formula, Not, OneOf
+from pddl.logic.terms import Term
 from pddl.parser.symbols import Symbols
 
 
@@ -47,6 +48,12 @@ class When:
         """Get the effect."""
         return self._effect
 
+    def instantiate(self, mapping: Mapping[Variable, Term]) -> "When":
+        """Instantiate the effect with a mapping from variables to terms."""
+        return When(
+            self.condition.instantiate(mapping), self.effect.instantiate(mapping)
+        )
+
     def __str__(self) -> str:
         """Get the string representation."""
         return f"({Symbols.WHEN.value} {self._condition} {self.effect})"
@@ -96,6 +103,17 @@ class Forall:
         """Get the variables."""
         return self._variables
 
+    def instantiate(self, mapping: Mapping[Variable, Term]) -> "Forall":
+        """Instantiate the effect with a mapping from variables to terms."""
+        # the quantified variables are bound: they must not be replaced in the effect.
+        bound_names = {variable.name for variable in self.variables}
+        free_mapping = {
+            variable: term
+            for variable, term in mapping.items()
+            if variable.name not in bound_names
+        }
+        return Forall(self.effect.instantiate(free_mapping), self.variables)
+
     def __str__(self) -> str:
         """Get the string representation."""
         return f"({Symbols.FORALL.value} ({_typed_parameters(self.variables)}) {self.effect})"
-- 
2.43.0


From fbcc3b5b2339c483af95fd8cad980c09e1afcaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:28 +0000
Subject: [PATCH 03/31] fix: keep all the operands of arithmetic expressions
 and numeric equalities

---
 pddl/logic/base.py      | 3 ++-
 pddl/logic/functions.py | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index 1e4738d..5fbf8f4 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -312,7 +312,8 @@ def _simplify_monotone_op_operands(cls, *operands, idempotency: bool = False):
     while len(stack) > 0:
         element = stack.pop()
         if not isinstance(element, cls):
-            if element not in seen:
+            # duplicates can be dropped only if the operator is idempotent.
+            if not idempotency or element not in seen:
                 seen.add(element)
                 new_operands.append(element)
             continue
diff --git a/pddl/logic/functions.py b/pddl/logic/functions.py
index a54362c..779950c 100644
--- a/pddl/logic/functions.py
+++ b/pddl/logic/functions.py
@@ -249,7 +249,7 @@ class Metric(Atomic):
         return hash((self.expression, self.optimization))
 
 
-class EqualTo(BinaryFunction, metaclass=BinaryOpMetaclass):
+class EqualTo(BinaryFunction):
     """Equal to operator."""
 
     SYMBOL = Symbols.EQUAL
@@ -349,7 +349,7 @@ class Decrease(BinaryFunction):
         super().__init__(*operands)
 
 
-class Minus(BinaryFunction, metaclass=BinaryOpMetaclass):
+class Minus(BinaryFunction):
     """Minus operator."""
 
     SYMBOL = Symbols.MINUS
@@ -391,7 +391,7 @@ class Times(BinaryFunction, metaclass=BinaryOpMetaclass):
         super().__init__(*operands)
 
 
-class Divide(BinaryFunction, metaclass=BinaryOpMetaclass):
+class Divide(BinaryFunction):
     """Divide operator."""
 
     SYMBOL = Symbols.DIVIDE
-- 
2.43.0


From 0634906ff240e2205d3c04421164535fc1a03133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:57 +0000
Subject: [PATCH 04/31] fix: make the order of requirements strict

---
 pddl/requirements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/requirements.py b/pddl/requirements.py
index f6fc2f8..a4df5b0 100644
--- a/pddl/requirements.py
+++ b/pddl/requirements.py
@@ -79,7 +79,7 @@ class Requirements(Enum):
     def __lt__(self, other):
         """Compare with another object."""
         if isinstance(other, Requirements):
-            return self.value <= other.value
+            return self.value < other.value
         else:
             return super().__lt__(other)
 
-- 
2.43.0


From 25584ecafc501b7d60ab62d8550f7f87e86ef0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:27 +0000
Subject: [PATCH 05/31] fix: make the order of terms consistent with equality

---
 pddl/logic/terms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pddl/logic/terms.py b/pddl/logic/terms.py
index f5397d7..ddc23c2 100644
--- a/pddl/logic/terms.py
+++ b/pddl/logic/terms.py
@@ -68,6 +68,8 @@ class Term:
         """Compare with another term."""
         if not isinstance(other, Term):
             return super().__lt__(other)
+        if self == other:
+            return False
         lhs = (type(self).__name__, self.name, sorted(self.type_tags))
         rhs = (type(other).__name__, other.name, sorted(other.type_tags))
         return lhs < rhs
-- 
2.43.0


From 0f8303b37cb60464cdf89eb135cd8f87ba71006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:53 +0000
Subject: [PATCH 06/31] fix: compare conditions when ordering derived
 predicates

---
 pddl/logic/predicates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/logic/predicates.py b/pddl/logic/predicates.py
index bdc562e..323a7a8 100644
--- a/pddl/logic/predicates.py
+++ b/pddl/logic/predicates.py
@@ -225,7 +225,7 @@ class DerivedPredicate(Atomic):
     def __lt__(self, other):
         """Compare with another object."""
         if isinstance(other, DerivedPredicate):
-            return (self.predicate, self._predicate) < (
+            return (self.predicate, self.condition) < (
                 other.predicate,
                 other.condition,
             )
-- 
2.43.0


From c27252f6e8dde9d816ab8eea8750f5f3a7b2166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 07/31] fix: accept type hierarchies when :typing is implied by
 another requirement

---
 pddl/_validation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 041ca7f..9e96a2a 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -158,7 +158,10 @@ class Types:
 
         # check typing requirement
         supertypes = {t for t in type_dict.values() if t is not None}
-        if len(supertypes) > 0 and Requirements.TYPING not in requirements:
+        if (
+            len(supertypes) > 0
+            and Requirements.TYPING not in _extend_domain_requirements(requirements)
+        ):
             raise PDDLValidationError(
                 "typing requirement is not specified, but types are used: '"
                 + "', '".join(map(str, sorted(supertypes)))
-- 
2.43.0


From ca497340be8ea50d60f186a9e0b90c0d833e5381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:19 +0000
Subject: [PATCH 08/31] fix: accept actions without precondition or effect in a
 domain

---
 pddl/_validation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 9e96a2a..ca17210 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -233,6 +233,11 @@ class TypeChecker:
         for obj in objects:
             self.check_type(obj)
 
+    @check_type.register
+    def _(self, _: None) -> None:
+        """Check types annotations of a missing formula, e.g. an omitted precondition."""
+        return None
+
     @check_type.register
     def _(self, term: Term) -> None:
         """Check types annotations of a PDDL term."""
-- 
2.43.0


From aa1255c1ee2915a8332d3d0adf8f45d11865d030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 09/31] fix: check the types used by functions and derived
 predicates of a domain

---
 pddl/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pddl/core.py b/pddl/core.py
index 25ac328..08c47b8 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -91,9 +91,11 @@ class Domain:
         type_checker = TypeChecker(self._types, self.requirements)
         type_checker.check_type(self._constants)
         type_checker.check_type(self._predicates)
+        type_checker.check_type(self._functions.raw)
         type_checker.check_type(self._actions)
         _check_types_in_has_terms_objects(self._actions, self._types.all_types)  # type: ignore
         self._check_types_in_derived_predicates()
+        type_checker.check_type(self._derived_predicates)
 
     def _check_types_in_derived_predicates(self) -> None:
         """Check types in derived predicates."""
-- 
2.43.0


From 21ac4d5515eec6416f04b22fa28a93edd00f4d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 10/31] fix: accept the predefined type 'object' as the type of
 a term

---
 pddl/_validation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index ca17210..f038ad5 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -60,6 +60,9 @@ def _find_inconsistencies_in_typed_terms(
         return None
     for term in terms:
         for type_tag in sorted(term.type_tags):
+            if type_tag == Symbols.OBJECT.value:
+                # the type `object` is predefined, hence always available
+                continue
             if type_tag is not None and type_tag not in all_types:
                 return term, type_tag
     return None
@@ -217,7 +220,9 @@ class TypeChecker:
         self, type_tags: Collection[name_type], what: str
     ) -> None:
         """Check that the types are available in the domain."""
-        if not self._types.all_types.issuperset(type_tags):
+        # the type `object` is predefined, hence always available
+        undefined_types = set(type_tags) - self._types.all_types
+        if not undefined_types <= {Symbols.OBJECT.value}:
             raise PDDLValidationError(
                 f"types {sorted(type_tags)} of {what} are not in available types {self._types.all_types}"
             )
-- 
2.43.0


From 802ef9f745230ac67967b05df61dc9bf9e3001d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 11/31] fix: do not mix up constants and variables when
 checking the terms of a predicate

---
 pddl/logic/predicates.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/predicates.py b/pddl/logic/predicates.py
index 323a7a8..61d462d 100644
--- a/pddl/logic/predicates.py
+++ b/pddl/logic/predicates.py
@@ -27,10 +27,13 @@ def _check_terms_consistency(terms: Sequence[Term]):
     """
     Check that the term sequence have consistent type tags.
 
-    In particular, terms with the same name must have the same type tags.
+    In particular, variables with the same name must have the same type tags.
     """
     seen: Dict[name, Set[name]] = {}
     for term in terms:
+        if not isinstance(term, Variable):
+            # constants are identified by their name only
+            continue
         if term.name not in seen:
             seen[term.name] = set(term.type_tags)
         else:
-- 
2.43.0


From 9519f8ec1acbd3d71eaeed747b818efabb95e002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:54 +0000
Subject: [PATCH 12/31] fix: parse actions without precondition or effect

---
 pddl/parser/domain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index ffaca9f..138e75e 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -160,7 +160,9 @@ class DomainTransformer(Transformer[Any, Domain]):
         # process action body
         _children = args[5].children
         action_body = {
-            _children[i][1:]: _children[i + 1] for i in range(0, len(_children), 2)
+            _children[i][1:]: _children[i + 1]
+            for i in range(0, len(_children), 2)
+            if _children[i] is not None
         }
         return Action(action_name, variables, **action_body)
 
-- 
2.43.0


From 9ba7e8fb1f8309f49099676953c8e47e3a6ef9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:19 +0000
Subject: [PATCH 13/31] fix: parse an empty precondition or effect as the empty
 conjunction

---
 pddl/parser/domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 138e75e..17aa13f 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -231,7 +231,7 @@ class DomainTransformer(Transformer[Any, Domain]):
     def emptyor_pregd(self, args):
         """Process the 'emptyor_pregd' rule."""
         if len(args) == 2:
-            return Or()
+            return And()
         else:
             assert_(len(args) == 1)
             return args[0]
@@ -336,7 +336,7 @@ class DomainTransformer(Transformer[Any, Domain]):
     def emptyor_effect(self, args):
         """Process the 'emptyor_effect' rule."""
         if len(args) == 2:
-            return Or()
+            return And()
         else:
             return args[0]
 
-- 
2.43.0


From 87ad1b97e63b3d48a85bdf6110637b6787be5037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:45 +0000
Subject: [PATCH 14/31] fix: parse binary subtractions

---
 pddl/parser/grammar.lark | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pddl/parser/grammar.lark b/pddl/parser/grammar.lark
index 8c12e03..1a36159 100644
--- a/pddl/parser/grammar.lark
+++ b/pddl/parser/grammar.lark
@@ -68,7 +68,6 @@ constant: NAME
             | LESSER_EQUAL_OP
 
 ?binary_op: multi_op
-          | MINUS
           | DIVIDE
 
 ?multi_op: TIMES
@@ -79,7 +78,7 @@ num_literal: NUMBER
 f_exp:      num_literal
       |     LPAR binary_op f_exp f_exp RPAR
       |     LPAR multi_op f_exp f_exp+ RPAR
-      |     LPAR MINUS f_exp RPAR
+      |     LPAR MINUS f_exp f_exp? RPAR
       |     f_head
 
 f_head:     NAME
@@ -132,7 +131,7 @@ metric_spec: LPAR METRIC optimization metric_f_exp RPAR
 
 metric_f_exp: LPAR binary_op metric_f_exp metric_f_exp RPAR
             | LPAR multi_op metric_f_exp metric_f_exp+ RPAR
-            | LPAR MINUS metric_f_exp RPAR
+            | LPAR MINUS metric_f_exp metric_f_exp? RPAR
             | basic_function_term
             | NUMBER
 
-- 
2.43.0


From 9307a98226e117de99dae406f77f58c652d3b1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 15/31] fix: parse the numeric literals of a metric as numbers

---
 pddl/parser/grammar.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/parser/grammar.lark b/pddl/parser/grammar.lark
index 1a36159..47abc84 100644
--- a/pddl/parser/grammar.lark
+++ b/pddl/parser/grammar.lark
@@ -133,7 +133,7 @@ metric_f_exp: LPAR binary_op metric_f_exp metric_f_exp RPAR
             | LPAR multi_op metric_f_exp metric_f_exp+ RPAR
             | LPAR MINUS metric_f_exp metric_f_exp? RPAR
             | basic_function_term
-            | NUMBER
+            | num_literal
 
 DOMAIN_P: ":domain"
 PROBLEM: "problem"
-- 
2.43.0


From ad9760c678d77e6802830d52cb582e4e7d379e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:40 +0000
Subject: [PATCH 16/31] fix: accept at most one fractional part in numbers

---
 pddl/parser/grammar.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/parser/grammar.lark b/pddl/parser/grammar.lark
index 47abc84..2876961 100644
--- a/pddl/parser/grammar.lark
+++ b/pddl/parser/grammar.lark
@@ -212,7 +212,7 @@ DECREASE: "decrease"
 MAXIMIZE: "maximize"
 MINIMIZE: "minimize"
 TOTAL_COST: "total-cost"
-NUMBER: /[0-9]+(\.[0-9]+)*/
+NUMBER: /[0-9]+(\.[0-9]+)?/
 
 // available requirements
 STRIPS: ":strips"
-- 
2.43.0


From 0dded79e34e6fd44cf33a80fd58069ad458b2c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 17/31] fix: parse the :object-fluents requirement

---
 pddl/parser/grammar.lark | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pddl/parser/grammar.lark b/pddl/parser/grammar.lark
index 2876961..921b178 100644
--- a/pddl/parser/grammar.lark
+++ b/pddl/parser/grammar.lark
@@ -167,6 +167,7 @@ NAME: /[a-zA-Z][a-zA-Z0-9-_]*/
             | DERIVED_PREDICATES
             | CONDITIONAL_EFFECTS
             | NUMERIC_FLUENTS
+            | OBJECT_FLUENTS
             | FLUENTS
             | ACTION_COSTS
 
@@ -228,6 +229,7 @@ EXISTENTIAL_PRECONDITIONS: ":existential-preconditions"
 UNIVERSAL_PRECONDITIONS: ":universal-preconditions"
 QUANTIFIED_PRECONDITIONS: ":quantified-preconditions"
 NUMERIC_FLUENTS: ":numeric-fluents"
+OBJECT_FLUENTS: ":object-fluents"
 FLUENTS: ":fluents"
 ACTION_COSTS: ":action-costs"
 
-- 
2.43.0


From 8d0cdd600fcba48cf4e3b3ced4facf2bdcc76abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 18/31] fix: print multiple types of a variable with 'either'

---
 pddl/formatter.py    |  7 ++-----
 pddl/helpers/base.py | 14 ++++++++++----
 pddl/logic/base.py   | 10 ++--------
 3 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/pddl/formatter.py b/pddl/formatter.py
index 007311f..42d1ce7 100644
--- a/pddl/formatter.py
+++ b/pddl/formatter.py
@@ -15,6 +15,7 @@
 from typing import Callable, Collection, Dict, List, Optional, TypeVar
 
 from pddl.custom_types import name
+from pddl.helpers.base import _print_type_tags
 from pddl.logic.functions import NumericFunction
 from pddl.logic.terms import Constant
 
@@ -113,11 +114,7 @@ def print_function_skeleton(function: NumericFunction) -> str:
     else:
         result += f"({function.name}"
         for t in function.terms:
-            result += (
-                f" ?{t.name} - {sorted(t.type_tags)[0]}"
-                if t.type_tags
-                else f" ?{t.name}"
-            )
+            result += f" ?{t.name}{_print_type_tags(t.type_tags)}"
         result += ")"
     return result
 
diff --git a/pddl/helpers/base.py b/pddl/helpers/base.py
index d69b7b3..e793e5a 100644
--- a/pddl/helpers/base.py
+++ b/pddl/helpers/base.py
@@ -130,13 +130,19 @@ def _typed_parameters(parameters) -> str:
     for i, p in enumerate(parameters):
         if i > 0:
             result += " "
-        if p.type_tags:
-            result += f"?{p.name} - {' '.join(map(str, p.type_tags))}"
-        else:
-            result += str(p)
+        result += f"{p}{_print_type_tags(p.type_tags)}"
     return result.strip()
 
 
+def _print_type_tags(type_tags: AbstractSet[str]) -> str:
+    """Return the type specification of a term, or the empty string if it is not typed."""
+    if len(type_tags) == 0:
+        return ""
+    if len(type_tags) == 1:
+        return f" - {next(iter(type_tags))}"
+    return f" - (either {' '.join(sorted(type_tags))})"
+
+
 class RegexConstrainedString(str):
     """
     A string that is constrained by a regex.
diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index 5fbf8f4..0d0f515 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -16,7 +16,7 @@ import functools
 from abc import abstractmethod
 from typing import AbstractSet, Any, Collection, List, Mapping, Optional, Sequence
 
-from pddl.helpers.base import ensure_set
+from pddl.helpers.base import _typed_parameters, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic.terms import Term, Variable
 from pddl.parser.symbols import Symbols
@@ -223,13 +223,7 @@ class QuantifiedCondition(Formula):
 
     def __str__(self) -> str:
         """Get the string representation."""
-
-        def build_tags(tags):
-            if len(tags) == 0:
-                return ""
-            return f" - {' '.join(tags)}"
-
-        var_block = " ".join([f"{v}{build_tags(v.type_tags)}" for v in self.variables])
+        var_block = _typed_parameters(self.variables)
         return f"({self.SYMBOL} ({var_block}) {self.condition})"
 
     def __repr__(self) -> str:
-- 
2.43.0


From ddc4eecaed0060aeda8611a77eb790ef39c14a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:19 +0000
Subject: [PATCH 19/31] fix: print quantified variables in a deterministic
 order

---
 pddl/logic/base.py    | 2 +-
 pddl/logic/effects.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index 0d0f515..164cfbd 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -223,7 +223,7 @@ class QuantifiedCondition(Formula):
 
     def __str__(self) -> str:
         """Get the string representation."""
-        var_block = _typed_parameters(self.variables)
+        var_block = _typed_parameters(sorted(self.variables))
         return f"({self.SYMBOL} ({var_block}) {self.condition})"
 
     def __repr__(self) -> str:
diff --git a/pddl/logic/effects.py b/pddl/logic/effects.py
index 07d9f67..e62803e 100644
--- a/pddl/logic/effects.py
+++ b/pddl/logic/effects.py
@@ -116,7 +116,7 @@ class Forall:
 
     def __str__(self) -> str:
         """Get the string representation."""
-        return f"({Symbols.FORALL.value} ({_typed_parameters(self.variables)}) {self.effect})"
+        return f"({Symbols.FORALL.value} ({_typed_parameters(sorted(self.variables))}) {self.effect})"
 
     def __repr__(self) -> str:
         """Get an unambiguous string representation."""
-- 
2.43.0


From ccf8ef4395f513a3ddedcecd39651eaf815af6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:47 +0000
Subject: [PATCH 20/31] fix: do not print numeric values in exponent notation

---
 pddl/logic/functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/functions.py b/pddl/logic/functions.py
index 779950c..dfa174d 100644
--- a/pddl/logic/functions.py
+++ b/pddl/logic/functions.py
@@ -15,6 +15,7 @@
 import functools
 from abc import abstractmethod
 from collections.abc import Mapping
+from decimal import Decimal
 from typing import Sequence, cast
 
 from pddl.custom_types import namelike, parse_function
@@ -145,7 +146,9 @@ class NumericValue(FunctionExpression):
 
     def __str__(self) -> str:
         """Get the string representation."""
-        return str(self._value)
+        text = str(self._value)
+        # the exponent notation is not valid in PDDL
+        return format(Decimal(text), "f") if "e" in text else text
 
 
 class BinaryFunction(FunctionExpression):
-- 
2.43.0


From 35915be63a7b74391b6e2988aaad30e7d70c57d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 21/31] fix: do not print parent types if the typing
 requirement is missing

---
 pddl/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pddl/core.py b/pddl/core.py
index 08c47b8..04b1422 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -42,7 +42,7 @@ from pddl.logic.functions import FunctionExpression, Metric, NumericFunction
 from pddl.logic.predicates import DerivedPredicate, Predicate
 from pddl.logic.terms import Constant
 from pddl.parser.symbols import Symbols
-from pddl.requirements import Requirements
+from pddl.requirements import Requirements, _extend_domain_requirements
 
 
 class Domain:
@@ -166,7 +166,11 @@ class Domain:
         body = ""
         indentation = " " * 4
         body += sort_and_print_collection("(:requirements ", self.requirements, ")\n")
-        body += print_types_or_functions_with_parents("(:types", self.types, ")\n")
+        if Requirements.TYPING in _extend_domain_requirements(self.requirements):
+            body += print_types_or_functions_with_parents("(:types", self.types, ")\n")
+        else:
+            # without the typing requirement, types cannot have a parent type
+            body += sort_and_print_collection("(:types ", self.types, ")\n")
         body += print_constants("(:constants", self.constants, ")\n")
         if self.predicates:
             body += f"(:predicates {print_predicates_with_types(self.predicates)})\n"
-- 
2.43.0


From 402f953b2b6c3e3cc0b2399284bd3014bfbd6a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:30 +0000
Subject: [PATCH 22/31] fix: restore the traceback limit of the interpreter
 after parsing

---
 pddl/parser/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pddl/parser/base.py b/pddl/parser/base.py
index a2be041..7eb05ff 100644
--- a/pddl/parser/base.py
+++ b/pddl/parser/base.py
@@ -58,12 +58,14 @@ class BaseParser(Transformer[Any, T], ABC):
         :param transformer: the Lark transformer object
         :return: the object returned by the parser
         """
+        has_tracebacklimit = hasattr(sys, "tracebacklimit")
         old_tracebacklimit = getattr(sys, "tracebacklimit", None)
         try:
             sys.tracebacklimit = 0  # noqa
             result = cast(T, parser.parse(text))
-            sys.tracebacklimit = None  # type: ignore
         finally:
-            if old_tracebacklimit is not None:
-                sys.tracebacklimit = old_tracebacklimit
+            if has_tracebacklimit:
+                sys.tracebacklimit = old_tracebacklimit  # type: ignore
+            else:
+                del sys.tracebacklimit
         return result
-- 
2.43.0


From b2540e802a96e48fc754fa16d3e0f4c4d140b0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 23/31] fix: reset the state of a parser before parsing another
 text

---
 pddl/parser/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pddl/parser/base.py b/pddl/parser/base.py
index 7eb05ff..7d85439 100644
--- a/pddl/parser/base.py
+++ b/pddl/parser/base.py
@@ -43,6 +43,8 @@ class BaseParser(Transformer[Any, T], ABC):
 
     def __call__(self, text: str) -> T:
         """Call."""
+        # forget any information collected while parsing other texts
+        self._transformer.__init__()  # type: ignore
         return self._call_parser(text, self._parser)
 
     @classmethod
-- 
2.43.0


From 6d717799831e15f4eca5b7e2a691bb50c0018066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 24/31] fix: limit the scope of the parameters of an action to
 the action

---
 pddl/parser/domain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 17aa13f..f6f7f0f 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -164,6 +164,8 @@ class DomainTransformer(Transformer[Any, Domain]):
             for i in range(0, len(_children), 2)
             if _children[i] is not None
         }
+        # the scope of the parameters is the action: do not use them for what follows
+        self._current_parameters_by_name = {}
         return Action(action_name, variables, **action_body)
 
     def derived_predicates(self, args):
-- 
2.43.0


From 036d8679cf01ffad8ec7357a759cbb2f2ea92fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 25/31] fix: follow the whole type hierarchy when checking the
 types of a derived predicate

---
 pddl/parser/domain.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index f6f7f0f..b87fd11 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -537,18 +537,21 @@ class DomainTransformer(Transformer[Any, Domain]):
         self, type_tags_left: AbstractSet[name], type_tags_right: AbstractSet[name]
     ):
         """Check that each type tag in the left set is a subtype of (one of) the type tags of the right."""
-        if len(type_tags_right) == 0:
+        if len(type_tags_right) == 0 or Symbols.OBJECT.value in type_tags_right:
             # 'object' type includes everything
             return
 
         # for each left type, navigate the type hierarchy until we find a type in the right set, or fail
         for left_type in type_tags_left:
-            current_type = left_type
-            parent_type: Optional[name] = left_type
-            while parent_type is not None and parent_type not in type_tags_right:
+            current_type: Optional[name] = left_type
+            visited: Set[name] = set()
+            while current_type is not None and current_type not in type_tags_right:
+                # the hierarchy has not been validated yet, it might contain cycles
+                visited.add(current_type)
                 parent_type = self.types_hierarchy.get(current_type, None)
+                current_type = parent_type if parent_type not in visited else None
 
-            if parent_type is None:
+            if current_type is None:
                 raise PDDLParsingError(
                     f"Type '{left_type}' not found in types: '{type_tags_right}'."
                 )
-- 
2.43.0


From cfb9a935b5fb38026ece0b02f3c9520e545a4ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 26/31] fix: take into account the requirements of a problem
 when parsing its goal

---
 pddl/parser/problem.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pddl/parser/problem.py b/pddl/parser/problem.py
index d8dca2d..d900e1c 100644
--- a/pddl/parser/problem.py
+++ b/pddl/parser/problem.py
@@ -35,7 +35,6 @@ from pddl.logic.terms import Constant
 from pddl.parser.base import BaseParser
 from pddl.parser.domain import DomainTransformer
 from pddl.parser.symbols import Symbols
-from pddl.requirements import Requirements
 
 
 class ProblemTransformer(Transformer[Any, Problem]):
@@ -71,7 +70,8 @@ class ProblemTransformer(Transformer[Any, Problem]):
 
     def requirements(self, args):
         """Process the 'requirements' rule."""
-        return "requirements", {Requirements(r[1:]) for r in args[2:-1]}
+        result = self._domain_transformer.requirements(args)
+        return "requirements", result["requirements"]
 
     def objects(self, args):
         """Process the 'problem_domain' rule."""
@@ -92,10 +92,18 @@ class ProblemTransformer(Transformer[Any, Problem]):
         """
         return self._domain_transformer.typed_list_name(args)
 
-    def domain__type_def(self, names):
-        """Process a domain type def."""
-        assert_(len(names) == 1)
-        return str(names[0])
+    def typed_list_variable(self, args):
+        """
+        Process the 'typed_list_variable' rule.
+
+        :param args: the argument of this grammar rule
+        :return: a typed list (variable)
+        """
+        return self._domain_transformer.typed_list_variable(args)
+
+    def type_def(self, args):
+        """Process the 'type_def' rule."""
+        return self._domain_transformer.type_def(args)
 
     def init(self, args):
         """Process the 'init' rule."""
-- 
2.43.0


From c12b46d1c029f9bcaf5216c12d26d3a76d202b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:20 +0000
Subject: [PATCH 27/31] fix: do not reject the goal of a problem which does not
 declare its requirements

---
 pddl/parser/domain.py  | 16 ++++++++++++----
 pddl/parser/problem.py |  5 ++++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index b87fd11..945afdc 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -63,16 +63,24 @@ from pddl.requirements import Requirements, _extend_domain_requirements
 class DomainTransformer(Transformer[Any, Domain]):
     """Domain Transformer."""
 
-    def __init__(self, *args, **kwargs) -> None:
-        """Initialize the domain transformer."""
+    def __init__(
+        self, *args, requirements: AbstractSet[Requirements] = frozenset(), **kwargs
+    ) -> None:
+        """
+        Initialize the domain transformer.
+
+        :param requirements: the requirements to assume until they are declared.
+        """
         super().__init__(*args, **kwargs)
 
         self._constants_by_name: Dict[str, Constant] = {}
         self._predicates_by_name: Dict[str, Predicate] = {}
         self._functions_by_name: Dict[str, FunctionExpression] = {}
         self._current_parameters_by_name: Dict[str, Variable] = {}
-        self._requirements: Set[Requirements] = set()
-        self._extended_requirements: Set[Requirements] = set()
+        self._requirements: Set[Requirements] = set(requirements)
+        self._extended_requirements: Set[Requirements] = _extend_domain_requirements(
+            requirements
+        )
         self._types: Optional[Mapping[name, Optional[name]]] = None
 
     @property
diff --git a/pddl/parser/problem.py b/pddl/parser/problem.py
index d900e1c..3a5e54a 100644
--- a/pddl/parser/problem.py
+++ b/pddl/parser/problem.py
@@ -35,6 +35,7 @@ from pddl.logic.terms import Constant
 from pddl.parser.base import BaseParser
 from pddl.parser.domain import DomainTransformer
 from pddl.parser.symbols import Symbols
+from pddl.requirements import Requirements
 
 
 class ProblemTransformer(Transformer[Any, Problem]):
@@ -44,7 +45,9 @@ class ProblemTransformer(Transformer[Any, Problem]):
         """Initialize the problem transformer."""
         super().__init__()
 
-        self._domain_transformer = DomainTransformer()
+        # if the problem does not declare its requirements, then those of the domain apply.
+        # Since the domain is not known here, no construct can be rejected.
+        self._domain_transformer = DomainTransformer(requirements=set(Requirements))
         self._objects_by_name: Dict[str, Constant] = {}
 
     def start(self, args):
-- 
2.43.0


From 48d3f125ce8817401ff1ec1038766fbd8094c10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 28/31] fix: print the quantified variables with no type after
 those with a type

---
 pddl/helpers/base.py  | 6 ++++++
 pddl/logic/base.py    | 4 ++--
 pddl/logic/effects.py | 4 ++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pddl/helpers/base.py b/pddl/helpers/base.py
index e793e5a..68c9194 100644
--- a/pddl/helpers/base.py
+++ b/pddl/helpers/base.py
@@ -134,6 +134,12 @@ def _typed_parameters(parameters) -> str:
     return result.strip()
 
 
+def _print_quantified_variables(variables) -> str:
+    """Return a list of quantified variables, in an order that does not depend on how they were given."""
+    # the variables with no type must be the last ones, otherwise they would get the type that follows
+    return _typed_parameters(sorted(variables, key=lambda v: (not v.type_tags, v)))
+
+
 def _print_type_tags(type_tags: AbstractSet[str]) -> str:
     """Return the type specification of a term, or the empty string if it is not typed."""
     if len(type_tags) == 0:
diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index 164cfbd..dbcacb2 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -16,7 +16,7 @@ import functools
 from abc import abstractmethod
 from typing import AbstractSet, Any, Collection, List, Mapping, Optional, Sequence
 
-from pddl.helpers.base import _typed_parameters, ensure_set
+from pddl.helpers.base import _print_quantified_variables, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic.terms import Term, Variable
 from pddl.parser.symbols import Symbols
@@ -223,7 +223,7 @@ class QuantifiedCondition(Formula):
 
     def __str__(self) -> str:
         """Get the string representation."""
-        var_block = _typed_parameters(sorted(self.variables))
+        var_block = _print_quantified_variables(self.variables)
         return f"({self.SYMBOL} ({var_block}) {self.condition})"
 
     def __repr__(self) -> str:
diff --git a/pddl/logic/effects.py b/pddl/logic/effects.py
index e62803e..fa730da 100644
--- a/pddl/logic/effects.py
+++ b/pddl/logic/effects.py
@@ -15,7 +15,7 @@
 import functools
 from typing import AbstractSet, Collection, Mapping, Optional, Union
 
-from pddl.helpers.base import _typed_parameters, ensure_set
+from pddl.helpers.base import _print_quantified_variables, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic import Variable
 from pddl.logic.base import And, Atomic, Formula, Not, OneOf
@@ -116,7 +116,7 @@ class Forall:
 
     def __str__(self) -> str:
         """Get the string representation."""
-        return f"({Symbols.FORALL.value} ({_typed_parameters(sorted(self.variables))}) {self.effect})"
+        return f"({Symbols.FORALL.value} ({_print_quantified_variables(self.variables)}) {self.effect})"
 
     def __repr__(self) -> str:
         """Get an unambiguous string representation."""
-- 
2.43.0


From b0801a1b499cc7a5e1dab3e6ad5d2c98ff0c3d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:11 +0000
Subject: [PATCH 29/31] fix: print large float values as floats

---
 pddl/logic/functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/functions.py b/pddl/logic/functions.py
index dfa174d..8042152 100644
--- a/pddl/logic/functions.py
+++ b/pddl/logic/functions.py
@@ -147,8 +147,11 @@ class NumericValue(FunctionExpression):
     def __str__(self) -> str:
         """Get the string representation."""
         text = str(self._value)
+        if "e" not in text:
+            return text
         # the exponent notation is not valid in PDDL
-        return format(Decimal(text), "f") if "e" in text else text
+        text = format(Decimal(text), "f")
+        return text if "." in text else text + ".0"
 
 
 class BinaryFunction(FunctionExpression):
-- 
2.43.0


From 319c6e3bfb143adbfddaf7838af79c14d3f6b82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:29 +0000
Subject: [PATCH 30/31] fix: keep the parameters of a function named total-cost

---
 pddl/parser/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 945afdc..a961479 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -450,7 +450,7 @@ class DomainTransformer(Transformer[Any, Domain]):
         if args[1] == Symbols.TOTAL_COST.value:
             if not bool({Requirements.ACTION_COSTS}):
                 raise PDDLMissingRequirementError(Requirements.ACTION_COSTS)
-            return NumericFunction("total-cost")
+            return NumericFunction("total-cost", *self._formula_skeleton(args))
         function_name = args[1]
         variables = self._formula_skeleton(args)
         return NumericFunction(function_name, *variables)
-- 
2.43.0


From bd49cabbf07449f2b5aff05f28c7c974d8b0c1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:19 +0000
Subject: [PATCH 31/31] fix: plans and domains copy the actions and functions
 they are given

---
 pddl/_validation.py | 2 +-
 pddl/core.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index f038ad5..a43d8d4 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -332,7 +332,7 @@ class Functions:
         skip_checks: bool = False,
     ) -> None:
         """Initialize the Functions object."""
-        self._functions = ensure(functions, dict())
+        self._functions = dict(ensure(functions, dict()))
         self._all_function = self._get_all_functions()
 
         if not skip_checks:
diff --git a/pddl/core.py b/pddl/core.py
index 04b1422..313e901 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -407,7 +407,7 @@ class Plan:
 
         :param actions: the actions of the plan.
         """
-        self._actions: list[Tuple[namelike, List["Constant"]]] = actions
+        self._actions: list[Tuple[namelike, List["Constant"]]] = list(actions)
 
     @property
     def actions(self) -> List[Tuple[namelike, List["Constant"]]]:
-- 
2.43.0

