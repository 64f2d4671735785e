From 8cc3ab621b0e89fbaba5fb7786637d5822343415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:33 +0000
Subject: [PATCH 01/43] fix: find equation variables in names with digits, call
 arguments and comparisons

Equation.variables lost or mangled names such as co2e (digit followed by e),
arguments separated by commas without spaces, names next to >=, ==, != or %,
and literals like .5e3, and raised AttributeError on float config values that
print in scientific notation.
---
 NRWAL/handlers/equations.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 639215c..13dd535 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -387,19 +387,20 @@ class Equation:
     def parse_variables(cls, expression):
         """Parse variable names from an expression string."""
 
-        # finds and replaces all scientific notation numbers
-        re_num = re.compile(r'[0-9]+\.?[0-9]*[eE][-+]?[0-9]*')
-        nums = re.findall(re_num, str(expression))
-        for num in nums:
-            expression = expression.replace(num, '-1')
+        # finds and replaces all scientific notation numbers (but not the
+        # digits of variable names like "co2e")
+        expression = re.sub(r'(?<![\w.])([0-9]+\.?[0-9]*|\.[0-9]+)'
+                            r'[eE][-+]?[0-9]+(?!\w)', '-1', str(expression))
 
-        delimiters = ('*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<')
+        # names of keyword arguments (e.g. "axis=0") are not variables
+        expression = re.sub(r'[A-Za-z_]\w*\s*=(?!=)', ' ', expression)
+
+        delimiters = ('*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<',
+                      ',', '=', '!', '%', '\n', '\t')
         regex_pattern = '|'.join(map(re.escape, delimiters))
-        variables = [sub.strip(',')
-                     for sub in re.split(regex_pattern, str(expression))
-                     if sub.strip(',')
+        variables = [sub for sub in re.split(regex_pattern, expression)
+                     if sub
                      and cls.is_variable(sub)
-                     and not cls.is_num(sub.strip(','))
                      and not cls.is_method(sub)]
         variables = sorted(list(set(variables)))
         return variables
-- 
2.43.0


From 38235b24b2247402fe099987a555961222f84e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:55 +0000
Subject: [PATCH 02/43] fix: keep a negative number whole when an equation is
 raised to a power

Equation(-2) ** 2 was built as the text '-2 ** 2' and evaluated to -4, also
for negative constants in a config; an equation like 'a%b' was combined
without parentheses.
---
 NRWAL/handlers/equations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 13dd535..9c9f4f6 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -139,7 +139,9 @@ class Equation:
 
         arg1 = self._eqn
         arg2 = other._eqn
-        if not self.is_num(arg1) and not self.is_variable(arg1):
+        negative_base = operator == '**' and arg1.strip().startswith('-')
+        if (negative_base or not self.is_num(arg1)
+                and not self.is_variable(arg1)):
             arg1 = '({})'.format(arg1)
         if not self.is_num(arg2) and not self.is_variable(arg2):
             arg2 = '({})'.format(arg2)
@@ -359,7 +361,7 @@ class Equation:
         """Check if a string is a variable name without any constants,
         operators, or arithmetic expressions"""
         flags = ('(', ')', '[', ']', '{', '}', '+', '-', '/', '*', '^', ' ',
-                 '<', '>', '=', '\\', '|', '&', '$', '@', '-')
+                 '<', '>', '=', '\\', '|', '&', '$', '@', '-', '%')
         if cls.is_num(s):
             return False
         elif any(f in s for f in flags):
-- 
2.43.0


From cba1da7f020eb26e534ce6b100552cf751207be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:55 +0000
Subject: [PATCH 03/43] fix: do not share default variables between equations

An Equation kept the dictionary it was given, so setting default variables on
the result of replace_equation() also changed the original equation and the
caller's dictionary.
---
 NRWAL/handlers/equations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 9c9f4f6..e56d4ec 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -31,9 +31,9 @@ class Equation:
             Equation object. These inputs can still be overwritten at runtime.
         """
 
-        self._default_variables = default_variables
-        if self._default_variables is None:
-            self._default_variables = {}
+        self._default_variables = {}
+        if default_variables is not None:
+            self._default_variables.update(default_variables)
 
         self._str = None
         self._base_name = name
-- 
2.43.0


From cd6165ec6771891100c793ce75bc6c1c280ae357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:55 +0000
Subject: [PATCH 04/43] fix: treat list and tuple inputs as arrays

Lists are accepted as input data but were passed to the equation as they are,
so '2 * x' repeated the list and 'x + y' joined the lists.
---
 NRWAL/handlers/equations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index e56d4ec..1277515 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -80,6 +80,9 @@ class Equation:
                       | np.issubdtype(type(v), np.number))
             assert is_num, msg
 
+            if isinstance(v, (list, tuple)):
+                kwargs[k] = v = np.array(v)
+
             if isinstance(v, np.ndarray):
                 if np.issubdtype(v.dtype, np.integer):
                     kwargs[k] = v.astype(np.float32)
-- 
2.43.0


From ba4e042ca2e807cb6c8740abe2004a60707b9a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:43 +0000
Subject: [PATCH 05/43] fix: find the closing parenthesis of a numpy call after
 other parentheses

---
 NRWAL/handlers/config.py     |  4 ++--
 NRWAL/utilities/utilities.py | 19 ++++++++-----------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 3c05990..9a5747b 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -599,8 +599,8 @@ class NrwalConfig:
             assert wkey not in gvars
             pk = expression[start_loc:end_loc]
             expression = expression.replace(pk, wkey)
-            if 'np.' not in pk and 'pd.' not in pk:
-                pk = pk.lstrip('(').rstrip(')')
+            if pk.startswith('('):
+                pk = pk[1:-1].strip()
 
             gvars[wkey] = cls._parse_expression(pk, config, eqn_dir,
                                                 gvars, name=name)
diff --git a/NRWAL/utilities/utilities.py b/NRWAL/utilities/utilities.py
index 229f1f3..a8aceab 100644
--- a/NRWAL/utilities/utilities.py
+++ b/NRWAL/utilities/utilities.py
@@ -3,7 +3,7 @@
 NRWAL utilities module.
 """
 import os
-import numpy as np
+import re
 
 
 NRWAL_DIR = os.path.dirname(os.path.dirname(os.path.dirname(
@@ -62,16 +62,13 @@ def find_np_pd_methods(s):
         Starting and ending indices of the first np. or pd. method. So if
         s="10 + np.exp(input)" then s[start:end]="np.exp(input)"
     """
-    start = 0
-    if 'np.' not in s and 'pd.' not in s:
+    match = re.search(r'\b(np|pd)\.[\w.]+\s*\(', s)
+    if match is None:
         return None, None
-    elif 'np.' in s:
-        start = s.index('np.')
-    elif 'pd.' in s:
-        start = s.index('pd.')
-
-    paren_ind = find_parens(s)
-    np_paren = np.argmin([x[0] for x in paren_ind])
-    end = paren_ind[np_paren][1]
+
+    # the end of the method is the parenthesis that closes its own call
+    start = match.start()
+    paren_ind = {x[0]: x[1] for x in find_parens(s)}
+    end = paren_ind[match.end() - 1]
 
     return start, end
-- 
2.43.0


From 0f3821b65834ac92432d2f50003d5bd4adf2aedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:16 +0000
Subject: [PATCH 06/43] fix: evaluate chained subtractions and divisions from
 left to right

Expressions in configs and math in retrieval keys were split at the first
- or /, so "a - b - c" gave a - (b - c) and "a / b / c" gave a / (b / c).
Signs of negative values and exponents were also taken as operators.
---
 NRWAL/handlers/config.py     | 57 +++++++++++-------------------------
 NRWAL/handlers/groups.py     | 21 +++++++++----
 NRWAL/utilities/utilities.py | 34 +++++++++++++++++++++
 3 files changed, 67 insertions(+), 45 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 9a5747b..f657d0e 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -16,7 +16,7 @@ from NRWAL.utilities.utilities import NRWAL_ANALYSIS_DIR, find_np_pd_methods
 from NRWAL.handlers.equations import Equation
 from NRWAL.handlers.groups import EquationGroup
 from NRWAL.handlers.directories import EquationDirectory
-from NRWAL.utilities.utilities import find_parens
+from NRWAL.utilities.utilities import find_operator, find_parens
 
 logger = logging.getLogger(__name__)
 
@@ -618,50 +618,27 @@ class NrwalConfig:
         op_map['^'] = operator.pow
 
         out = None
-        expr = expression.replace('**', '^')
+        expr = expression.replace('**', '^').strip()
         for ops, fun in op_map.items():
-            if ops in expr:
+            iop = find_operator(expr, ops)
+
+            if iop is not None:
                 # need to break look on the first found operator because
                 # subsequent operators will be found in the recursive
                 # call to _parse_expression()
-
-                expr_short = expr.replace(' ', '')
-                iop = expr_short.index(ops)
-
-                if ops == '-' and iop > 0 and expr_short[iop - 1] in op_map:
-                    # operation (e.g. * ^ /) on a minus sign (e.g. *-var)
-                    pass
-
-                elif ops == '-' and expr[0] == ops and expr.count('-') == 1:
-                    # ignore leading minus sign (negative number)
-                    out = cls._parse_expression_part(expr[1:], config, eqn_dir,
-                                                     gvars)
+                v1, v2 = expr[:iop].strip(), expr[iop + 1:].strip()
+                out1 = cls._parse_expression_part(v1, config, eqn_dir, gvars)
+                out2 = cls._parse_expression_part(v2, config, eqn_dir, gvars)
+                out = fun(out1, out2)
+                break
+
+            elif ops in ('+', '-') and expr.startswith(ops):
+                # leading plus or minus sign (e.g. negative number)
+                out = cls._parse_expression_part(expr[1:].strip(), config,
+                                                 eqn_dir, gvars)
+                if ops == '-':
                     out = Equation(-1) * out
-                    break
-
-                elif ops == '-' and expr[0] == ops and expr.count('-') > 1:
-                    # negative variable minus another variable - ignore first
-                    # negative when splitting string
-                    split = expr[1:].partition(ops)
-                    v1, v2 = split[0].strip(), split[2].strip()
-                    v1 = '-' + v1
-                    out1 = cls._parse_expression_part(v1, config, eqn_dir,
-                                                      gvars)
-                    out2 = cls._parse_expression_part(v2, config, eqn_dir,
-                                                      gvars)
-                    out = fun(out1, out2)
-                    break
-
-                else:
-                    # normal operation on two numbers / variables
-                    split = expr.partition(ops)
-                    v1, v2 = split[0].strip(), split[2].strip()
-                    out1 = cls._parse_expression_part(v1, config, eqn_dir,
-                                                      gvars)
-                    out2 = cls._parse_expression_part(v2, config, eqn_dir,
-                                                      gvars)
-                    out = fun(out1, out2)
-                    break
+                break
 
         if out is None:
             msg = 'Failed to parse expression: {}'.format(expr)
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 6ee945b..5104dbd 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -14,7 +14,7 @@ import operator
 from collections import OrderedDict
 
 from NRWAL.handlers.equations import Equation
-from NRWAL.utilities.utilities import find_parens
+from NRWAL.utilities.utilities import find_operator, find_parens
 
 logger = logging.getLogger(__name__)
 
@@ -174,11 +174,14 @@ class AbstractGroup(ABC):
         if key in workspace:
             return workspace[key]
 
+        if Equation.is_num(key):
+            return Equation(key)
+
         for op_str, op_fun in op_map.items():
-            if op_str in key:
-                split_keys = key.partition(op_str)
-                k1 = split_keys[0].strip()
-                k2 = split_keys[2].strip()
+            loc = find_operator(key, op_str)
+            if loc is not None:
+                k1 = key[:loc].strip()
+                k2 = key[loc + 1:].strip()
 
                 out1 = workspace.get(k1, None)
                 if out1 is None:
@@ -190,6 +193,14 @@ class AbstractGroup(ABC):
 
                 return op_fun(out1, out2)
 
+            elif op_str in ('+', '-') and key.startswith(op_str):
+                out = obj._getitem(key[1:].strip(), workspace)
+                return Equation(-1) * out if op_str == '-' else out
+
+        msg = 'Cannot parse math in EquationGroup key: {}'.format(key)
+        logger.error(msg)
+        raise KeyError(msg)
+
     def _getitem(self, key, workspace):
         """Protected method for __getitem__ with additional args for
         recursive call.
diff --git a/NRWAL/utilities/utilities.py b/NRWAL/utilities/utilities.py
index a8aceab..d9e8578 100644
--- a/NRWAL/utilities/utilities.py
+++ b/NRWAL/utilities/utilities.py
@@ -72,3 +72,37 @@ def find_np_pd_methods(s):
     end = paren_ind[match.end() - 1]
 
     return start, end
+
+
+def find_operator(s, op):
+    """Find the location at which an expression has to be split by a binary
+    arithmetic operator. Signs of negative values and of exponents in
+    scientific notation (e.g. "a * -b" or "1e-4") are not binary operators.
+
+    Parameters
+    ----------
+    s : str
+        Arithmetic expression without parentheses and with "^" as power.
+    op : str
+        One of the operators: + - * / ^
+
+    Returns
+    -------
+    loc : int | None
+        Index of the operator in s or None if there is no such binary operator.
+        For - and / this is the last occurence, because these operators are
+        evaluated from left to right.
+    """
+    locs = []
+    for i, c in enumerate(s):
+        left = s[:i].rstrip()
+        is_sign = not left or left[-1] in '+-*/^'
+        is_exponent = (c in '+-' and re.search(
+            r'(?<![\w.])([0-9]+\.?[0-9]*|\.[0-9]+)[eE]$', s[:i]) is not None)
+        if c == op and not is_sign and not is_exponent:
+            locs.append(i)
+
+    if not locs:
+        return None
+
+    return locs[-1] if op in '-/' else locs[0]
-- 
2.43.0


From 7266c1accaac05c2765e800330e96fa3a08e042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:34 +0000
Subject: [PATCH 07/43] fix: parse nested parentheses and math inside numpy
 calls

"((a + b)) * 2" returned an Equation object instead of a number from a
config and raised a KeyError from a group, and "np.exp(a + b)" recursed
forever.
---
 NRWAL/handlers/config.py      | 9 +++++++++
 NRWAL/handlers/directories.py | 3 +++
 NRWAL/handlers/groups.py      | 6 +++++-
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index f657d0e..a1bc991 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -522,6 +522,14 @@ class NrwalConfig:
             # Parse number as Equation object
             out = Equation(expression, name=name)
 
+        elif isinstance(gvars.get(expression, None), Equation):
+            # Parenthetical statement that has already been parsed
+            out = gvars[expression]
+
+        elif find_np_pd_methods(str(expression)) == (0, len(str(expression))):
+            # The whole expression is a single numpy call
+            out = Equation(expression, name=name)
+
         elif Equation.is_equation(expression):
             # Special parsing logic for expression with equation operators
             out = cls._parse_equation(expression, config, eqn_dir, gvars,
@@ -605,6 +613,7 @@ class NrwalConfig:
             gvars[wkey] = cls._parse_expression(pk, config, eqn_dir,
                                                 gvars, name=name)
 
+        expression = expression.strip()
         if expression in gvars:
             return gvars[expression]
 
diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 4774d09..8197d24 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -329,6 +329,9 @@ class EquationDirectory:
         if workspace is None:
             workspace = {}
 
+        if key in workspace:
+            return workspace[key]
+
         operators = ('+', '-', '*', '/', '^')
         if any([op in key for op in operators]):
             return EquationGroup._getitem_math(self, key, workspace)
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 5104dbd..7bd57da 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -168,9 +168,10 @@ class AbstractGroup(ABC):
             assert wkey not in workspace
             pk = key[start_loc:end_loc]
             key = key.replace(pk, wkey)
-            pk = pk.lstrip('(').rstrip(')')
+            pk = pk.lstrip('(').rstrip(')').strip()
             workspace[wkey] = obj._getitem(pk, workspace)
 
+        key = key.strip()
         if key in workspace:
             return workspace[key]
 
@@ -230,6 +231,9 @@ class AbstractGroup(ABC):
         if workspace is None:
             workspace = {}
 
+        if key in workspace:
+            return workspace[key]
+
         operators = ('+', '-', '*', '/', '^')
         if any(op in key for op in operators):
             return self._getitem_math(self, key, workspace)
-- 
2.43.0


From 36b1f7c8822921d94dc09203c478371a99095ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:51 +0000
Subject: [PATCH 08/43] fix: insert group equations only for whole variable
 names

---
 NRWAL/handlers/groups.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 7bd57da..15b0758 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -767,7 +767,10 @@ class EquationGroup(AbstractGroup):
                     continue
                 for var in [v for v in eqn.variables if v in group]:
                     repl_str = '({})'.format(group[var].full)
-                    new_eqn = eqn.full.replace(var, repl_str)
+                    # only whole names, not parts of other variable names
+                    pattern = r'(?<![\w.:]){}(?![\w.:])'.format(re.escape(var))
+                    new_eqn = re.sub(pattern, lambda _, r=repl_str: r,
+                                     eqn.full)
                     group[group_key] = eqn = eqn.replace_equation(new_eqn)
                     working = True
 
-- 
2.43.0


From 03e03f1a1afc3baa986dde6b8f74dbcb6fb078e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 09/43] fix: interpolate only keys that match the power or year
 pattern

With interp_extrap_power any missing key, or a key with a single candidate,
raised a ValueError; "_MW" keys without digits could not be parsed, and
repeated suffixes were all stripped from the base name.
---
 NRWAL/handlers/groups.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 15b0758..dc2f8a2 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -255,8 +255,9 @@ class AbstractGroup(ABC):
             if eqn_key in out:
                 out = out[eqn_key]
 
-            elif (self._interp_extrap_power or self._interp_extrap_year
-                    and len(nn_eqns) > 1):
+            elif len(nn_eqns) > 1 and (
+                    self._interp_extrap_power and self.is_power_eqn(eqn_key)
+                    or self._interp_extrap_year and self.is_year_eqn(eqn_key)):
                 x1, x3 = nn_values[0:2]
                 y1, y3 = nn_eqns[0:2]
                 out = (y3 - y1) * (eqn_value - x1) / (x3 - x1) + y1
@@ -397,9 +398,9 @@ class AbstractGroup(ABC):
         """
 
         base_str = key
-        power = re.search('_[0-9]*MW$', key, flags=re.IGNORECASE)
+        power = re.search('_[0-9]+MW$', key, flags=re.IGNORECASE)
         if power is not None:
-            base_str = key.replace(power.group(0), '')
+            base_str = key[:power.start()]
             power = float(power.group(0).upper().replace('MW', '').lstrip('_'))
 
         return power, base_str
@@ -506,7 +507,7 @@ class AbstractGroup(ABC):
         base_str = key
         year = re.search('_[1-2][0-9]{3}$', key, flags=re.IGNORECASE)
         if year is not None:
-            base_str = key.replace(year.group(0), '')
+            base_str = key[:year.start()]
             year = int(year.group(0).lstrip('_'))
 
             # unlikely to be a year before 1800 or after 2200
-- 
2.43.0


From 7fe7fec4fd5c6c814fff2d20e6ade0103c011df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 10/43] fix: do not modify the dictionary a config is made from

---
 NRWAL/handlers/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index a1bc991..7dcca1d 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -326,6 +326,9 @@ class NrwalConfig:
             logger.error(msg)
             raise TypeError(msg)
 
+        # the input object is modified below and while parsing the config
+        config = copy.deepcopy(config)
+
         if 'equation_directory' not in config:
             msg = ('NrwalConfig using default "equation_directory": {}'
                    .format(cls.DEFAULT_DIR))
-- 
2.43.0


From de9eea117a75dcf4f1b940019680daf08aaa9529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 11/43] fix: evaluate a config again when its inputs change

---
 NRWAL/handlers/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 7dcca1d..a8a6a08 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -976,6 +976,9 @@ class NrwalConfig:
             logger.error(msg)
             raise RuntimeError(msg)
 
+        # outputs of a previous evaluation do not apply to the current inputs
+        self._outputs = {}
+
         i = 0
         while not self.solved:
             for k, v in self.items():
-- 
2.43.0


From e7d9851d0273edc60210961c1088f61d85546ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:55 +0000
Subject: [PATCH 12/43] fix: evaluate config equations after the config
 equations they need

An equation that takes another config entry as a variable (in a numpy call
or in a library equation) failed or used a default value when that entry
came later in the config.
---
 NRWAL/handlers/config.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index a8a6a08..7b52fd7 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -986,6 +986,13 @@ class NrwalConfig:
                         or Equation.is_num(v)):
                     pass
                 elif isinstance(v, Equation):
+                    unsolved = self.to_be_solved
+                    if k in self._outputs or any(
+                            x != k and x in unsolved and x not in self.inputs
+                            for x in v.variables):
+                        # already solved, or has to wait for another equation
+                        continue
+
                     kwargs = copy.deepcopy(self.global_variables)
                     kwargs.update(self.inputs)
                     kwargs.update(self._outputs)
@@ -1021,7 +1028,7 @@ class NrwalConfig:
                     raise TypeError(msg)
 
             i += 1
-            if i > 100:
+            if i > max(100, len(self._config)):
                 msg = ('NRWAL compute failed! The following config keys were '
                        'never solved: {}'.format(self.to_be_solved))
                 logger.error(msg)
-- 
2.43.0


From 84a293c3e2938163081f8a94faee21b90ff8c419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:55 +0000
Subject: [PATCH 13/43] fix: accept data frames with text columns and empty
 arrays as config inputs

---
 NRWAL/handlers/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 7b52fd7..71cc203 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -783,10 +783,10 @@ class NrwalConfig:
                 if isinstance(arg, dict):
                     v = arg[k]
                 elif isinstance(arg, pd.DataFrame):
-                    v = arg[k].values.flatten()
+                    v = arg[k].to_numpy().flatten()
 
                 if isinstance(v, np.ndarray):
-                    if Equation.is_num(v[0]):
+                    if v.size > 0 and Equation.is_num(v[0]):
                         v = v.astype(np.float32)
                 elif isinstance(v, int):
                     v = float(v)
-- 
2.43.0


From 7f00178b77cb64dc84e163a1663501602991feda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:08 +0000
Subject: [PATCH 14/43] fix: keep the default variables of a sub-directory
 local

The variables of one sub-directory were added to the next ones, and
force_update did not reach sub-directories.
---
 NRWAL/handlers/directories.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 8197d24..cb33531 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -537,8 +537,8 @@ class EquationDirectory:
             their locally-defined default variables.
         """
 
-        if var_group is None:
-            var_group = {}
+        # copy so that local variables do not leak into other directories
+        var_group = {} if var_group is None else dict(var_group)
 
         if 'variables' in self.keys() and not force_update:
             # pylint: disable=E1101
@@ -550,7 +550,9 @@ class EquationDirectory:
         self._default_variables.update(copy.deepcopy(var_group))
 
         for v in self.values():
-            if isinstance(v, (EquationDirectory, EquationGroup, Equation)):
+            if isinstance(v, EquationDirectory):
+                v.set_default_variables(var_group, force_update=force_update)
+            elif isinstance(v, (EquationGroup, Equation)):
                 v.set_default_variables(var_group)
 
     @property
-- 
2.43.0


From f40dd7f50d4c0a9b8977360980368027d27f034e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:08 +0000
Subject: [PATCH 15/43] fix: do not share equations between a sum of groups and
 its operands

---
 NRWAL/handlers/directories.py | 2 +-
 NRWAL/handlers/groups.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index cb33531..df8225e 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -294,7 +294,7 @@ class EquationDirectory:
                         use_nearest_year=self._use_nearest_year)
 
         out = copy.deepcopy(self)
-        out._eqns.update(other._eqns)
+        out._eqns.update(copy.deepcopy(other._eqns))
         out.set_default_variables(other._default_variables)
 
         return out
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index dc2f8a2..8d2ab38 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -109,7 +109,7 @@ class AbstractGroup(ABC):
                         use_nearest_year=self._use_nearest_year)
 
         out = copy.deepcopy(self)
-        out._group.update(other._group)
+        out._group.update(copy.deepcopy(other._group))
         out.set_default_variables(other._default_variables)
 
         return out
-- 
2.43.0


From d777d5d71f9774ccadf5dd4fcbfc082a5bee70f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:09 +0000
Subject: [PATCH 16/43] fix: keep the default of a variable that only the left
 equation uses

Defaults of the right operand replaced those of the left one although the
right equation does not use the variable. In the osw_2019 configs the capex
was computed with another transmission_cost than its own grid cost.
---
 NRWAL/handlers/equations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 1277515..51b076a 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -152,7 +152,10 @@ class Equation:
         new_eqn = '{} {} {}'.format(arg1, operator, arg2)
         new_str = '({} {} {})'.format(self, operator, other)
         def_vars = copy.deepcopy(self._default_variables)
-        def_vars.update(other._default_variables)
+        # the other defaults must not change a variable only used by self
+        keep = set(self.variables) & set(def_vars) - set(other.variables)
+        def_vars.update({k: v for k, v in other._default_variables.items()
+                         if k not in keep})
         out = cls(new_eqn, default_variables=def_vars)
         out._str = new_str
         return out
-- 
2.43.0


From 29d7e9f50144e48cf7cd1da6d4752ce3074767db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:14 +0000
Subject: [PATCH 17/43] fix: raise KeyError for paths that continue below an
 equation

---
 NRWAL/handlers/directories.py | 6 ++++++
 NRWAL/handlers/groups.py      | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index df8225e..3a299f8 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -350,6 +350,12 @@ class EquationDirectory:
 
         eqns = self._eqns
         for ikey in keys:
+            if isinstance(eqns, (Equation, int, float)):
+                msg = ('Could not retrieve equation key "{}", there is '
+                       'nothing to retrieve "{}" from'.format(key, ikey))
+                logger.debug(msg)
+                raise KeyError(msg)
+
             try:
                 eqns = eqns[ikey]
             except KeyError:
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 8d2ab38..a9adbde 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -249,6 +249,12 @@ class AbstractGroup(ABC):
         keys = [str(k) for k in keys]
         out = self._group
         for eqn_key in keys:
+            if not isinstance(out, (dict, AbstractGroup)):
+                msg = ('Could not retrieve equation key "{}", there is '
+                       'nothing to retrieve "{}" from'.format(key, eqn_key))
+                logger.error(msg)
+                raise KeyError(msg)
+
             nn_eqns, nn_values, eqn_value = \
                 self._get_nn_eqns_values(eqn_key, keys, out)
 
-- 
2.43.0


From 6354a6d5bcf606be896d35ee5e10cf20f8efe7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:01 +0000
Subject: [PATCH 18/43] fix: raise KeyError for paths that end in an unknown
 number

---
 NRWAL/handlers/directories.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 3a299f8..328f874 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -350,7 +350,10 @@ class EquationDirectory:
 
         eqns = self._eqns
         for ikey in keys:
-            if isinstance(eqns, (Equation, int, float)):
+            no_keys = isinstance(eqns, (Equation, int, float))
+            # a number is only a number on its own, not as part of a path
+            if no_keys or (len(keys) > 1 and Equation.is_num(ikey)
+                           and ikey not in eqns):
                 msg = ('Could not retrieve equation key "{}", there is '
                        'nothing to retrieve "{}" from'.format(key, ikey))
                 logger.debug(msg)
-- 
2.43.0


From 64c9b58b002221dd7e8742c6bc5c23df73c437a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:35 +0000
Subject: [PATCH 19/43] fix: use a directory a config entry names before it is
 referenced

---
 NRWAL/handlers/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 71cc203..a05baf5 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -518,7 +518,8 @@ class NrwalConfig:
             variables input. This Equation is ready to be evaluated.
         """
 
-        if isinstance(expression, (Equation, EquationGroup)):
+        if isinstance(expression, (Equation, EquationGroup,
+                                   EquationDirectory)):
             out = expression
 
         elif Equation.is_num(expression):
-- 
2.43.0


From 587a3bd59c7848f38173fe284986ec76ad88d6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:33 +0000
Subject: [PATCH 20/43] fix: resolve references that are only written in
 parentheses

---
 NRWAL/handlers/config.py      | 6 ++++++
 NRWAL/handlers/directories.py | 2 +-
 NRWAL/handlers/groups.py      | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index a05baf5..45e1508 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -539,6 +539,12 @@ class NrwalConfig:
             out = cls._parse_equation(expression, config, eqn_dir, gvars,
                                       name=name)
 
+        elif (str(expression).strip().startswith('(')
+              and str(expression).strip().endswith(')')):
+            # Reference in parentheses without any operators
+            out = cls._parse_expression(expression.strip()[1:-1].strip(),
+                                        config, eqn_dir, gvars, name=name)
+
         elif expression in config:
             # Direct reference to object in the config
             out = cls._parse_expression(config[expression], config,
diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 328f874..3560c7d 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -332,7 +332,7 @@ class EquationDirectory:
         if key in workspace:
             return workspace[key]
 
-        operators = ('+', '-', '*', '/', '^')
+        operators = ('+', '-', '*', '/', '^', '(')
         if any([op in key for op in operators]):
             return EquationGroup._getitem_math(self, key, workspace)
 
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index a9adbde..e7b9915 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -234,7 +234,7 @@ class AbstractGroup(ABC):
         if key in workspace:
             return workspace[key]
 
-        operators = ('+', '-', '*', '/', '^')
+        operators = ('+', '-', '*', '/', '^', '(')
         if any(op in key for op in operators):
             return self._getitem_math(self, key, workspace)
 
-- 
2.43.0


From 17e55bbe1356810e93754312859fa111e387a242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:29 +0000
Subject: [PATCH 21/43] fix: do not keep parenthetical statements as default
 variables

---
 NRWAL/handlers/config.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 45e1508..d8028ff 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -566,10 +566,13 @@ class NrwalConfig:
         if isinstance(out, Equation) and name is not None:
             out._base_name = name
             out._str = None
+
+        # only numbers: parsed parenthetical statements are not defaults
+        nums = {k: v for k, v in gvars.items() if not isinstance(v, Equation)}
         if isinstance(out, (Equation, EquationGroup)):
-            out.set_default_variables(gvars)
+            out.set_default_variables(nums)
         elif isinstance(out, EquationDirectory):
-            out.set_default_variables(gvars, force_update=True)
+            out.set_default_variables(nums, force_update=True)
 
         return out
 
-- 
2.43.0


From 4535cce78fb04acd577584b6a90ed9987cf45e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:39 +0000
Subject: [PATCH 22/43] fix: do not keep inputs that a config refuses

---
 NRWAL/handlers/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index d8028ff..59ed650 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -789,6 +789,7 @@ class NrwalConfig:
             elif isinstance(arg, pd.DataFrame):
                 keys = arg.columns.values
 
+            new = {}
             for k in keys:
                 if isinstance(arg, dict):
                     v = arg[k]
@@ -801,7 +802,10 @@ class NrwalConfig:
                 elif isinstance(v, int):
                     v = float(v)
 
-                self._inputs[k] = v
+                new[k] = v
+
+            # refused inputs must not be kept
+            self._inputs.update(Equation._check_input_args(new))
 
         else:
             msg = ('Cannot set inputs as datatype "{}". '
@@ -809,8 +813,6 @@ class NrwalConfig:
             logger.error(msg)
             raise TypeError(msg)
 
-        Equation._check_input_args(self._inputs)
-
     @property
     def outputs(self):
         """Get the outputs dictionary.
-- 
2.43.0


From 0141ae445bb6622e931fc3e65705842e6b6ef9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:41 +0000
Subject: [PATCH 23/43] fix: refuse config expressions with missing operands

---
 NRWAL/handlers/config.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 59ed650..ef0196a 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -530,6 +530,12 @@ class NrwalConfig:
             # Parenthetical statement that has already been parsed
             out = gvars[expression]
 
+        elif not str(expression).strip():
+            msg = ('Cannot parse empty config expression or missing operand '
+                   'for "{}"'.format(name))
+            logger.error(msg)
+            raise RuntimeError(msg)
+
         elif find_np_pd_methods(str(expression)) == (0, len(str(expression))):
             # The whole expression is a single numpy call
             out = Equation(expression, name=name)
-- 
2.43.0


From fa524257149737157c16366226dc2b7f29083743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:20 +0000
Subject: [PATCH 24/43] fix: use values and groups of variables files in config
 expressions

---
 NRWAL/handlers/config.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index ef0196a..32cac55 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -14,7 +14,7 @@ from collections import OrderedDict
 
 from NRWAL.utilities.utilities import NRWAL_ANALYSIS_DIR, find_np_pd_methods
 from NRWAL.handlers.equations import Equation
-from NRWAL.handlers.groups import EquationGroup
+from NRWAL.handlers.groups import EquationGroup, VariableGroup
 from NRWAL.handlers.directories import EquationDirectory
 from NRWAL.utilities.utilities import find_operator, find_parens
 
@@ -569,6 +569,10 @@ class NrwalConfig:
             except KeyError:
                 out = Equation(expression)
 
+        if Equation.is_num(out):
+            # Number from a variables file
+            out = Equation(out)
+
         if isinstance(out, Equation) and name is not None:
             out._base_name = name
             out._str = None
@@ -1000,7 +1004,8 @@ class NrwalConfig:
         i = 0
         while not self.solved:
             for k, v in self.items():
-                if (isinstance(v, (EquationGroup, EquationDirectory))
+                if (isinstance(v, (EquationGroup, VariableGroup,
+                                   EquationDirectory))
                         or Equation.is_num(v)):
                     pass
                 elif isinstance(v, Equation):
-- 
2.43.0


From 9a4ebe3fa35d434043ed37d19dc9ab91237f1819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:20 +0000
Subject: [PATCH 25/43] fix: use values of variables files as left operands in
 keys

---
 NRWAL/handlers/groups.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index e7b9915..d5df527 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -192,6 +192,10 @@ class AbstractGroup(ABC):
                 if out2 is None:
                     out2 = obj._getitem(k2, workspace)
 
+                if Equation.is_num(out1):
+                    # number from a variables file
+                    out1 = Equation(out1)
+
                 return op_fun(out1, out2)
 
             elif op_str in ('+', '-') and key.startswith(op_str):
-- 
2.43.0


From 7dcaf401d712d5103f4585fed117bae2debacb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:58 +0000
Subject: [PATCH 26/43] fix: use a variables group a config entry names before
 it is referenced

---
 NRWAL/handlers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 32cac55..3c55d61 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -518,7 +518,7 @@ class NrwalConfig:
             variables input. This Equation is ready to be evaluated.
         """
 
-        if isinstance(expression, (Equation, EquationGroup,
+        if isinstance(expression, (Equation, EquationGroup, VariableGroup,
                                    EquationDirectory)):
             out = expression
 
-- 
2.43.0


From e57d1b248973bf851bf090958ff092f3add7f04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:49 +0000
Subject: [PATCH 27/43] fix: inputs named like a module-level name of the
 equation handler are required

---
 NRWAL/handlers/equations.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 51b076a..fd6059e 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -476,9 +476,7 @@ class Equation:
         kwargs = self._check_input_args(kwargs)
         kwargs = self._merge_vars(self._default_variables, kwargs)
 
-        missing = [v for v in self.variables
-                   if v not in globals()
-                   and v not in kwargs]
+        missing = [v for v in self.variables if v not in kwargs]
         if any(missing):
             msg = ('Cannot evaluate "{}", missing the following input args: {}'
                    .format(self, missing))
-- 
2.43.0


From 0043707ae81584e1eae30e78bf86ddfad89cb1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:23 +0000
Subject: [PATCH 28/43] fix: inputs named like a dictionary method are reported
 as variables

---
 NRWAL/handlers/equations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index fd6059e..b6d1886 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -359,8 +359,8 @@ class Equation:
 
     @staticmethod
     def is_method(s):
-        """Check if a string is a numpy/pandas or python builtin method"""
-        return bool(s.startswith(('np.', 'pd.')) or s in dir(__builtins__))
+        """Check if a string is a numpy/pandas method"""
+        return s.startswith(('np.', 'pd.'))
 
     @classmethod
     def is_variable(cls, s):
-- 
2.43.0


From 5043f5b78dd3133ad5136eca49346e140dcb108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:37 +0000
Subject: [PATCH 29/43] fix: show the current default variables when an
 equation is printed

---
 NRWAL/handlers/equations.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index b6d1886..d7d081f 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -277,9 +277,11 @@ class Equation:
         return str(self)
 
     def __str__(self):
-        if self._str is None:
+        out = self._str
+        if out is None:
+            # not stored as the default variables can still change
             if self.is_num(self._eqn) and not any(self.variables):
-                self._str = str(self._eqn)
+                out = str(self._eqn)
 
             else:
                 vars_str = [v for v in self.variables
@@ -295,11 +297,11 @@ class Equation:
                     vars_str += base_str + kw_str
 
                 if self._base_name is None:
-                    self._str = 'Equation({})'.format(vars_str)
+                    out = 'Equation({})'.format(vars_str)
                 else:
-                    self._str = '{}({})'.format(self._base_name, vars_str)
+                    out = '{}({})'.format(self._base_name, vars_str)
 
-        return self._str
+        return out
 
     def __contains__(self, arg):
         return arg in self._eqn
-- 
2.43.0


From f02ab2601ed9089dea64a0ead9b374a82bf96290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:37 +0000
Subject: [PATCH 30/43] fix: look up numbers of a variables file by power and
 year like equations

Interpolating between two values of a variables file raised an AttributeError
(numbers have no variables), and the nearest value was not found when it was
zero.
---
 NRWAL/handlers/groups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index d5df527..4ebd92b 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -271,10 +271,10 @@ class AbstractGroup(ABC):
                 x1, x3 = nn_values[0:2]
                 y1, y3 = nn_eqns[0:2]
                 out = (y3 - y1) * (eqn_value - x1) / (x3 - x1) + y1
-                if not any(out.variables):
+                if isinstance(out, Equation) and not any(out.variables):
                     out = Equation(out.eval())
 
-            elif any(nn_eqns):
+            elif len(nn_eqns) > 0:
                 out = nn_eqns[0]
 
             else:
-- 
2.43.0


From e6241d2939e7095798c637470d7f67293718d598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:37 +0000
Subject: [PATCH 31/43] fix: never look up a sub-group by the nearest power or
 year

Requests such as grp::sub_4MW::eqn on a directory used the sub-group with the
nearest power (or raised a TypeError when interpolating groups), although the
same request on the group is refused: only the equation at the end of the path
is looked up.
---
 NRWAL/handlers/groups.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 4ebd92b..083dbe3 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -459,7 +459,8 @@ class AbstractGroup(ABC):
         if req_mw:
             for key in group.keys():
                 match_mw, match_base = self._parse_power(key)
-                if match_mw and base_str == match_base:
+                if (match_mw and base_str == match_base
+                        and not isinstance(group[key], AbstractGroup)):
                     eqn_keys.append(key)
                     eqn_powers.append(match_mw)
 
@@ -565,7 +566,8 @@ class AbstractGroup(ABC):
         if req_yr:
             for key in group.keys():
                 match_yr, match_base = self._parse_year(key)
-                if match_yr and base_str == match_base:
+                if (match_yr and base_str == match_base
+                        and not isinstance(group[key], AbstractGroup)):
                     eqn_keys.append(key)
                     eqn_years.append(match_yr)
 
-- 
2.43.0


From e25e9101a18da7e90780131a04e37f330537b07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:23 +0000
Subject: [PATCH 32/43] fix: numpy integer scalars are evaluated like other
 integers

np.int32(100000) squared wrapped around to a wrong number and np.int64(2) ** -1
was refused, while python integers and integer arrays are converted to floats.
---
 NRWAL/handlers/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index d7d081f..b7f20c0 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -86,7 +86,7 @@ class Equation:
             if isinstance(v, np.ndarray):
                 if np.issubdtype(v.dtype, np.integer):
                     kwargs[k] = v.astype(np.float32)
-            elif isinstance(v, int):
+            elif isinstance(v, (int, np.integer)):
                 kwargs[k] = float(v)
 
         return kwargs
-- 
2.43.0


From ebf0e19615f911c6879bc28e1b261a7c49a5f8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:40 +0000
Subject: [PATCH 33/43] fix: config entries that refer to the same equation
 keep their own names

Two entries with the same library equation (or the same other entry) shared one
Equation object, so that both were printed with the name of the last one, and
the equation of the directory was renamed, too.
---
 NRWAL/handlers/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 3c55d61..d94c915 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -574,6 +574,8 @@ class NrwalConfig:
             out = Equation(out)
 
         if isinstance(out, Equation) and name is not None:
+            # the library or another entry may hold the same object
+            out = copy.deepcopy(out)
             out._base_name = name
             out._str = None
 
-- 
2.43.0


From c1f2a589846367fcdba6f3e84bcd42eb8f6aee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:38 +0000
Subject: [PATCH 34/43] fix: look up the last part of a path that occurs twice
 in the path

---
 NRWAL/handlers/groups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 083dbe3..381391d 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -252,7 +252,7 @@ class AbstractGroup(ABC):
 
         keys = [str(k) for k in keys]
         out = self._group
-        for eqn_key in keys:
+        for i, eqn_key in enumerate(keys):
             if not isinstance(out, (dict, AbstractGroup)):
                 msg = ('Could not retrieve equation key "{}", there is '
                        'nothing to retrieve "{}" from'.format(key, eqn_key))
@@ -260,7 +260,7 @@ class AbstractGroup(ABC):
                 raise KeyError(msg)
 
             nn_eqns, nn_values, eqn_value = \
-                self._get_nn_eqns_values(eqn_key, keys, out)
+                self._get_nn_eqns_values(eqn_key, keys[i:], out)
 
             if eqn_key in out:
                 out = out[eqn_key]
-- 
2.43.0


From df1716eef482ba235603d88d9b0c97f18ec3a429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:38 +0000
Subject: [PATCH 35/43] fix: zero is a power like any other in power lookups

---
 NRWAL/handlers/groups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 381391d..dce24b6 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -456,10 +456,10 @@ class AbstractGroup(ABC):
             group = self._group
 
         req_mw, base_str = self._parse_power(request)
-        if req_mw:
+        if req_mw is not None:
             for key in group.keys():
                 match_mw, match_base = self._parse_power(key)
-                if (match_mw and base_str == match_base
+                if (match_mw is not None and base_str == match_base
                         and not isinstance(group[key], AbstractGroup)):
                     eqn_keys.append(key)
                     eqn_powers.append(match_mw)
-- 
2.43.0


From 1c33fffc32888ca0091a9c52fbce1848fef87473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:37 +0000
Subject: [PATCH 36/43] fix: NrwalConfig objects can be copied and pickled

---
 NRWAL/handlers/config.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index d94c915..5e7fae0 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -745,6 +745,12 @@ class NrwalConfig:
         out : int | float | np.ndarray | Equation
             Requested data prioritized from the outputs then the config.
         """
+        is_special = attr.startswith('__') and attr.endswith('__')
+        if is_special or '_config' not in self.__dict__:
+            # protocols like copy and pickle look for optional methods, also
+            # in objects that are not initialized
+            raise AttributeError(attr)
+
         return self[attr]
 
     def __str__(self):
-- 
2.43.0


From 5c0343664f7f5a0b18c9a3c9264c5008defcacb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:37 +0000
Subject: [PATCH 37/43] fix: the name of a sub-group can be a variable next to
 it

---
 NRWAL/handlers/groups.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index dce24b6..3070dbb 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -778,7 +778,8 @@ class EquationGroup(AbstractGroup):
             for group_key, eqn in group.items():
                 if not isinstance(eqn, Equation):
                     continue
-                for var in [v for v in eqn.variables if v in group]:
+                for var in [v for v in eqn.variables
+                            if isinstance(group.get(v), Equation)]:
                     repl_str = '({})'.format(group[var].full)
                     # only whole names, not parts of other variable names
                     pattern = r'(?<![\w.:]){}(?![\w.:])'.format(re.escape(var))
-- 
2.43.0


From ee7e794901cac3295236fdd0c07e36d3fe926a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:50 +0000
Subject: [PATCH 38/43] fix: default variables are evaluated like inputs of the
 same type

---
 NRWAL/handlers/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index b7f20c0..0a79bc6 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -475,8 +475,8 @@ class Equation:
         out : float | np.ndarray
             Evaluated output of this equation object.
         """
-        kwargs = self._check_input_args(kwargs)
         kwargs = self._merge_vars(self._default_variables, kwargs)
+        kwargs = self._check_input_args(kwargs)
 
         missing = [v for v in self.variables if v not in kwargs]
         if any(missing):
-- 
2.43.0


From f656c7bd2d85576c70ca42b39748446b376f6e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:27 +0000
Subject: [PATCH 39/43] fix: names of parenthetical statements cannot collide
 with user names

A config input or entry, or an equation of a group, called workspace_1
(or another number) was replaced by the first parenthetical statement of
the expression that used it, so the expression gave a wrong value.
---
 NRWAL/handlers/config.py | 3 ++-
 NRWAL/handlers/groups.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 5e7fae0..9a44faf 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -628,7 +628,8 @@ class NrwalConfig:
             if start_loc is None:
                 start_loc, end_loc = find_parens(expression)[0]
 
-            wkey = 'workspace_{}'.format(1 + len(gvars))
+            # "$" cannot be part of the name of a variable or equation
+            wkey = '$workspace_{}'.format(1 + len(gvars))
             assert wkey not in gvars
             pk = expression[start_loc:end_loc]
             expression = expression.replace(pk, wkey)
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 3070dbb..1cc8d6c 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -164,7 +164,8 @@ class AbstractGroup(ABC):
 
         while '(' in key:
             start_loc, end_loc = find_parens(key)[0]
-            wkey = 'workspace_{}'.format(1 + len(workspace))
+            # "$" cannot be part of the name of a variable or equation
+            wkey = '$workspace_{}'.format(1 + len(workspace))
             assert wkey not in workspace
             pk = key[start_loc:end_loc]
             key = key.replace(pk, wkey)
-- 
2.43.0


From 154cb6fdb5901f0d2a05816e3d6c47faa72a9422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:25 +0000
Subject: [PATCH 40/43] fix: a numpy call can be repeated inside another call
 of a config entry

"np.exp(a) + np.log(np.exp(a))" could not be evaluated: the first call
was also replaced inside the text of the second one.
---
 NRWAL/handlers/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 9a44faf..d0c3c69 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -632,7 +632,8 @@ class NrwalConfig:
             wkey = '$workspace_{}'.format(1 + len(gvars))
             assert wkey not in gvars
             pk = expression[start_loc:end_loc]
-            expression = expression.replace(pk, wkey)
+            expression = (expression[:start_loc] + wkey
+                          + expression[end_loc:])
             if pk.startswith('('):
                 pk = pk[1:-1].strip()
 
-- 
2.43.0


From 2a09926c9af8b5eaa16265272e3aecc6922f303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:01 +0000
Subject: [PATCH 41/43] fix: zero-dimensional arrays can be inputs of a config

They raised IndexError, while an equation evaluates them.
---
 NRWAL/handlers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index d0c3c69..3229a72 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -817,7 +817,7 @@ class NrwalConfig:
                     v = arg[k].to_numpy().flatten()
 
                 if isinstance(v, np.ndarray):
-                    if v.size > 0 and Equation.is_num(v[0]):
+                    if v.ndim > 0 and v.size > 0 and Equation.is_num(v[0]):
                         v = v.astype(np.float32)
                 elif isinstance(v, int):
                     v = float(v)
-- 
2.43.0


From 705d2409cecb0727472796ff2a0d5486588b5abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:36 +0000
Subject: [PATCH 42/43] fix: inputs named like config equations do not make
 results depend on the order

An input with the name of an equation of the config (e.g. a column with an
earlier result) was used by some entries and the equation by others,
depending on the order of the entries.
---
 NRWAL/handlers/config.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 3229a72..473d8fa 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -1021,8 +1021,7 @@ class NrwalConfig:
                 elif isinstance(v, Equation):
                     unsolved = self.to_be_solved
                     if k in self._outputs or any(
-                            x != k and x in unsolved and x not in self.inputs
-                            for x in v.variables):
+                            x != k and x in unsolved for x in v.variables):
                         # already solved, or has to wait for another equation
                         continue
 
-- 
2.43.0


From 1b7e29d34b7ee89f07c1351129d805711e8e200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:31 +0000
Subject: [PATCH 43/43] fix: variables next to the operators & | ~ ^ are
 reported

"np.where((a > 1)|mask, 1, a)" did not report "mask", and
"np.where(~(a > 1), 1, 0)" asked for an input called "~".
---
 NRWAL/handlers/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 0a79bc6..bfb8eb5 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -406,7 +406,7 @@ class Equation:
         expression = re.sub(r'[A-Za-z_]\w*\s*=(?!=)', ' ', expression)
 
         delimiters = ('*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<',
-                      ',', '=', '!', '%', '\n', '\t')
+                      ',', '=', '!', '%', '&', '|', '~', '^', '\n', '\t')
         regex_pattern = '|'.join(map(re.escape, delimiters))
         variables = [sub for sub in re.split(regex_pattern, expression)
                      if sub
-- 
2.43.0

