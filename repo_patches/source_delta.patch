From 714185c1bc25f071fdac125c5117d1a89da52dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:33 +0000
Subject: [PATCH 1/7] fix: return a snapshot of the variables instead of the
 live interpreter state

roll, max and min handed out the state dictionary itself with "stdout" written
into it, so every result a caller kept changed with the next call (and with the
calls of other threads), and a caller changing a result changed the variables.
---
 python_dice/src/python_dice_interpreter.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/python_dice/src/python_dice_interpreter.py b/python_dice/src/python_dice_interpreter.py
index cdef5d0..ee8dacd 100644
--- a/python_dice/src/python_dice_interpreter.py
+++ b/python_dice/src/python_dice_interpreter.py
@@ -46,8 +46,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.roll()
-            return_dict = self._state.get_constant_dict()
-            return_dict["stdout"] = stdout
+            return_dict = {**self._state.get_constant_dict(), "stdout": stdout}
         return return_dict
 
     def max(self, input_text: List[str]) -> Dict[str, int]:
@@ -55,8 +54,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.max()
-            return_dict = self._state.get_constant_dict()
-            return_dict["stdout"] = stdout
+            return_dict = {**self._state.get_constant_dict(), "stdout": stdout}
         return return_dict
 
     def min(self, input_text: List[str]) -> Dict[str, int]:
@@ -64,8 +62,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.min()
-            return_dict = self._state.get_constant_dict()
-            return_dict["stdout"] = stdout
+            return_dict = {**self._state.get_constant_dict(), "stdout": stdout}
         return return_dict
 
     def get_probability_distributions_dict(self, input_text: List[str]) -> Dict[str, Dict[int, float]]:
@@ -73,8 +70,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.get_probability_distribution()
-            return_dict = self._state.get_var_dict()
-            return_dict["stdout"] = stdout
+            return_dict = {**self._state.get_var_dict(), "stdout": stdout}
         return {key: value.get_dict_form() for key, value in return_dict.items()}
 
     def get_probability_distributions(self, input_text: List[str]) -> Dict[str, IProbabilityDistribution]:
@@ -82,8 +78,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.get_probability_distribution()
-            return_dict = self._state.get_var_dict()
-            return_dict["stdout"] = stdout
+            return_dict = {**self._state.get_var_dict(), "stdout": stdout}
         return {key: return_dict[key] for key in return_dict.keys()}
 
     def get_average(self, input_text: List[str]) -> Dict[str, float]:
@@ -91,8 +86,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.get_probability_distribution()
-            return_dict = self._state.get_var_dict()
-            return_dict["stdout"] = stdout
+            return_dict = {**self._state.get_var_dict(), "stdout": stdout}
         return {key: value.average() for key, value in return_dict.items()}
 
     def get_histogram(self, input_text: List[str]) -> Image:
-- 
2.43.0


From 2da852880f9986796904277e8830ea1ec0a23cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:33 +0000
Subject: [PATCH 2/7] fix: draw charts on a figure of their own instead of
 pyplot's current one

pyplot.savefig saved whichever figure was current in the process, so two threads
drawing at once could return each other's chart, and every chart stayed open in
pyplot for the life of the process.
---
 .../probability_distribution.py                      | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/python_dice/src/probability_distribution/probability_distribution.py b/python_dice/src/probability_distribution/probability_distribution.py
index 9f0e577..4a0fc04 100644
--- a/python_dice/src/probability_distribution/probability_distribution.py
+++ b/python_dice/src/probability_distribution/probability_distribution.py
@@ -3,7 +3,7 @@ import io
 import operator
 from typing import Callable, Dict, List, Optional, Union
 
-from matplotlib import pyplot  # type: ignore
+from matplotlib.figure import Figure  # type: ignore
 from PIL import Image  # type: ignore
 
 from python_dice.interface.probability_distribution.i_probability_distribution import IProbabilityDistribution
@@ -136,7 +136,8 @@ class ProbabilityDistribution(IProbabilityDistribution):
         bins = [value - 0.5 for value in x_values]
         bins.append(x_values[-1] + 0.5)
 
-        _, axis = pyplot.subplots()
+        figure = Figure()
+        axis = figure.subplots()
         axis.hist(x_values, weights=y_values, bins=bins)
         axis.grid(True, linestyle="-.")
         axis.set_ylabel("odds")
@@ -151,7 +152,7 @@ class ProbabilityDistribution(IProbabilityDistribution):
                 label=f"Average = {average}",
             )
         buffer = io.BytesIO()
-        pyplot.savefig(buffer, format="tiff")
+        figure.savefig(buffer, format="tiff")
         buffer.seek(0)
         image = Image.open(buffer)
         return image
@@ -167,7 +168,8 @@ class ProbabilityDistribution(IProbabilityDistribution):
     ) -> Image:
         x_values_one, y_values_one = (list(t) for t in zip(*sorted(zip(x_values_one, y_values_one))))
         x_values_two, y_values_two = (list(t) for t in zip(*sorted(zip(x_values_two, y_values_two))))
-        _, axis = pyplot.subplots()
+        figure = Figure()
+        axis = figure.subplots()
         axis.plot(x_values_one, y_values_one, "b", label=lable_one)
         axis.plot(x_values_two, y_values_two, "r", label=lable_two)
         axis.grid(True, linestyle="-.")
@@ -175,7 +177,7 @@ class ProbabilityDistribution(IProbabilityDistribution):
         axis.set_xlabel("outcome")
         axis.legend()
         buffer = io.BytesIO()
-        pyplot.savefig(buffer, format="png")
+        figure.savefig(buffer, format="png")
         buffer.seek(0)
         image = Image.open(buffer)
         return image
-- 
2.43.0


From 8bfa883c9026dae98efab370a78552a61060f44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:33 +0000
Subject: [PATCH 3/7] fix: min and max assign a variable only once its
 distribution is known

An assignment whose distribution could not be computed raised after it had
already stored the constant, leaving a half assigned variable behind.
---
 python_dice/src/expression/var_assignment_expression.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python_dice/src/expression/var_assignment_expression.py b/python_dice/src/expression/var_assignment_expression.py
index 7c1b05a..0465cad 100644
--- a/python_dice/src/expression/var_assignment_expression.py
+++ b/python_dice/src/expression/var_assignment_expression.py
@@ -40,14 +40,16 @@ class VarAssignmentExpression(IDiceExpression):
 
     def max(self) -> int:
         max_value = self._expression.max()
+        distribution = self._expression.get_probability_distribution()
+        self._state.set_var(self._name, distribution)
         self._state.set_constant(self._name, max_value)
-        self._state.set_var(self._name, self._expression.get_probability_distribution())
         return max_value
 
     def min(self) -> int:
         min_value = self._expression.min()
+        distribution = self._expression.get_probability_distribution()
+        self._state.set_var(self._name, distribution)
         self._state.set_constant(self._name, min_value)
-        self._state.set_var(self._name, self._expression.get_probability_distribution())
         return min_value
 
     def __str__(self) -> str:
-- 
2.43.0


From a12180cd11272ee6c4a45d42f8ab4ccce581c8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:33 +0000
Subject: [PATCH 4/7] fix: rolling NOT treats only values above 0 as true

!(-1) rolled 0 while its distribution (and the README) say 1.
---
 python_dice/src/expression/not_expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python_dice/src/expression/not_expression.py b/python_dice/src/expression/not_expression.py
index 1ba395b..86269f8 100644
--- a/python_dice/src/expression/not_expression.py
+++ b/python_dice/src/expression/not_expression.py
@@ -27,7 +27,7 @@ class NotExpression(IDiceExpression):
         self._expression = expression
 
     def roll(self) -> int:
-        return 0 if self._expression.roll() else 1
+        return 0 if self._expression.roll() > 0 else 1
 
     def max(self) -> int:
         return self.get_probability_distribution().max()
-- 
2.43.0


From 43a245ce3b74b1633487efd10e5942e6a0dfae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:34 +0000
Subject: [PATCH 5/7] fix: rolling OR treats only values above 0 as true

(-1) OR 0 rolled 1 while its distribution (and the README) say 0.
---
 python_dice/src/expression/binary_operator_expression.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python_dice/src/expression/binary_operator_expression.py b/python_dice/src/expression/binary_operator_expression.py
index c0880ec..67f87c7 100644
--- a/python_dice/src/expression/binary_operator_expression.py
+++ b/python_dice/src/expression/binary_operator_expression.py
@@ -23,6 +23,12 @@ class BinaryOperatorExpression(IDiceExpression):
             return this.__not_equal__(other)
         return this != other
 
+    @staticmethod
+    def __or_operator__(this: object, other: object):
+        if isinstance(this, IProbabilityDistribution) and isinstance(other, IProbabilityDistribution):
+            return this | other
+        return this > 0 or other > 0
+
     RULE = """expression : expression BINARY_OPERATOR expression"""
     OPERATOR_MAP = {
         "==": lambda x, y: BinaryOperatorExpression.__equal__(x, y),  # pylint: disable=unnecessary-lambda
@@ -32,7 +38,7 @@ class BinaryOperatorExpression(IDiceExpression):
         ">=": operator.ge,
         ">": operator.gt,
         "AND": operator.and_,
-        "OR": operator.or_,
+        "OR": lambda x, y: BinaryOperatorExpression.__or_operator__(x, y),  # pylint: disable=unnecessary-lambda
     }
 
     @staticmethod
-- 
2.43.0


From 7c3e3f7d66afbd1a4d2154366e8be2bb1de1ada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:34 +0000
Subject: [PATCH 6/7] fix: the distribution of zero dice is always 0

0d6 rolled 0 but its distribution was that of 1d6.
---
 python_dice/src/expression/dice_expression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python_dice/src/expression/dice_expression.py b/python_dice/src/expression/dice_expression.py
index 840e6c9..5e94e0f 100644
--- a/python_dice/src/expression/dice_expression.py
+++ b/python_dice/src/expression/dice_expression.py
@@ -56,6 +56,8 @@ class DiceExpression(IDiceExpression):
         return f"{self._string_form}"
 
     def get_probability_distribution(self) -> IProbabilityDistribution:
+        if self._number_of_dice == 0:
+            return self._probability_distribution_factory.create({0: 1})
         single_dice_distribution: IProbabilityDistribution = self._probability_distribution_factory.create(
             self._single_dice_outcome_map
         )
-- 
2.43.0


From 8d62d0c21dba3e9f83d35e9132a11b9f38e3695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:34 +0000
Subject: [PATCH 7/7] fix: accept the trailing comma of a custom dice

The README and the lexer allow d[1,2,] but building the dice raised ValueError.
---
 python_dice/src/expression/dice_expression_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python_dice/src/expression/dice_expression_helper.py b/python_dice/src/expression/dice_expression_helper.py
index fb103bb..e784289 100644
--- a/python_dice/src/expression/dice_expression_helper.py
+++ b/python_dice/src/expression/dice_expression_helper.py
@@ -34,7 +34,7 @@ def get_single_dice_outcome_map(dice_type_string: str) -> Dict[int, int]:
         value_dictionary = {-1: 1, 0: 1, 1: 1}
     else:
         value_dictionary = {}
-        for value in re.split(r",", re.sub(r"(\[|\]|\s+)", "", dice_type_string)):
+        for value in re.split(r",", re.sub(r"(,?\s*\]|\[|\s+)", "", dice_type_string)):
             multiplier = "1"
             if re.match(r"(-?\d+--?\d+|-?\d+)\*\d+", value) is not None:
                 value, multiplier = re.split(r"\*", value)
-- 
2.43.0

