From 970c6796e8a4f66400676e79b40624dda7e29973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:48 +0000
Subject: [PATCH 01/62] fix: read expressions with C operator precedence and
 print them with the parentheses their structure needs

The order of alternatives in the grammar made, e.g., 'a % b + c' mean a % (b + c) and 'a || b && c' mean
(a || b) && c; nested products, negations, comparisons, and conditionals lost the parentheses they need when printed.
---
 src/mccode_antlr/common/expression.py |  84 +++++++++--
 src/mccode_antlr/common/visitor.py    | 210 +++++++++++++-------------
 2 files changed, 183 insertions(+), 111 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 5726035..d55c62c 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -191,6 +191,36 @@ def _fmt_comb(fmt, s: list):
     return ','.join(f'{x:{fmt}}' for x in s)
 
 
+# Binding strength, following C, of the operators which are printed without their own parentheses
+_PRECEDENCE = {
+    '__trinary__': 1, '__or__': 2, '__and__': 3, '__eq__': 4, '__neq__': 4,
+    '__lt__': 5, '__gt__': 5, '__le__': 5, '__ge__': 5,
+    '*': 7, '/': 7, '//': 7, '__not__': 8, '-': 8, '+': 8, '__pow__': 9,
+}
+_PRECEDENCE_ATOM = 10
+# These _binary_ operators always print their own enclosing parentheses
+_PARENTHESIZED = ('+', '-', '%', '<<', '>>')
+
+
+def _precedence(x):
+    if isinstance(x, Expr):
+        return _precedence(x.expr[0]) if x.is_singular else 0
+    if isinstance(x, Value):
+        negative = not x.is_id and isinstance(x.value, (int, float)) and x.value < 0
+        return _PRECEDENCE['-'] if negative else _PRECEDENCE_ATOM
+    if isinstance(x, BinaryOp) and x.op in _PARENTHESIZED:
+        return _PRECEDENCE_ATOM
+    if isinstance(x, UnaryOp) and x.op in ('-', '+') and len(x.value) == 1:
+        # printed without parentheses around, e.g., a product
+        return min(_PRECEDENCE[x.op], _precedence(x.value[0]))
+    return _PRECEDENCE.get(x.op, _PRECEDENCE_ATOM)
+
+
+def _operand(f, s: list, limit: int):
+    """Print an operand, inside parentheses if it binds more weakly than `limit`"""
+    return f'({f(s)})' if len(s) == 1 and _precedence(s[0]) < limit else f(s)
+
+
 class Op:
     def __init__(self):
         self.data_type = DataType.undefined
@@ -322,14 +352,18 @@ class TrinaryOp(Op):
                 return f'{first} ? {second} : {third}'
             return f'{second} if {first} else {third}'
 
+    def _print_(self, f):
+        limit = _PRECEDENCE['__trinary__']
+        return self._str_repr_(_operand(f, self.first, limit + 1), _operand(f, self.second, limit), _operand(f, self.third, limit))
+
     def __str__(self):
-        return self._str_repr_(_comb(str, self.first), _comb(str, self.second), _comb(str, self.third))
+        return self._print_(lambda x: _comb(str, x))
 
     def __format__(self, format_spec):
-        return self._str_repr_(_fmt_comb(format_spec, self.first), _fmt_comb(format_spec, self.second), _fmt_comb(format_spec, self.third))
+        return self._print_(lambda x: _fmt_comb(format_spec, x))
 
     def __repr__(self):
-        return self._str_repr_(_comb(repr, self.first), _comb(repr, self.second), _comb(repr, self.third))
+        return self._print_(lambda x: _comb(repr, x))
 
     def __eq__(self, other):
         if not isinstance(other, TrinaryOp):
@@ -446,14 +480,29 @@ class BinaryOp(Op):
             return f'{lstr} {self.op} {rstr}'
         return f'{self.op}({lstr}, {rstr})'
 
+    def _print_(self, f):
+        if self.op == '%':
+            left, right = _PRECEDENCE['*'], _PRECEDENCE['__pow__']
+        elif self.op in _PARENTHESIZED:
+            left, right = _PRECEDENCE['*'], _PRECEDENCE['*']
+        elif self.op == '__pow__':
+            left, right = _PRECEDENCE_ATOM, _PRECEDENCE[self.op]
+        elif self.op in ('*', '/', '//'):
+            left, right = _PRECEDENCE[self.op], _PRECEDENCE['__pow__']
+        elif self.op in _PRECEDENCE:
+            left, right = _PRECEDENCE[self.op], _PRECEDENCE[self.op] + 1
+        else:
+            left, right = 0, 0
+        return self._str_repr_(_operand(f, self.left, left), _operand(f, self.right, right))
+
     def __str__(self):
-        return self._str_repr_(_comb(str, self.left), _comb(str, self.right))
+        return self._print_(lambda x: _comb(str, x))
 
     def __format__(self, format_spec):
-        return self._str_repr_(_fmt_comb(format_spec, self.left), _fmt_comb(format_spec, self.right))
+        return self._print_(lambda x: _fmt_comb(format_spec, x))
 
     def __repr__(self):
-        return self._str_repr_(_comb(repr, self.left), _comb(repr, self.right))
+        return self._print_(lambda x: _comb(repr, x))
 
     def __eq__(self, other):
         if not isinstance(other, BinaryOp):
@@ -562,14 +611,31 @@ class UnaryOp(Op):
             return f'{self.op}{vstr}'
         return f'{self.op}({vstr})'
 
+    def _print_(self, f):
+        if self.op == '__group__':
+            inner = self.value[0] if len(self.value) == 1 else None
+            if isinstance(inner, BinaryOp) and inner.op in _PARENTHESIZED:
+                return f(self.value)  # which prints its own parentheses
+            limit = 0
+        elif self.op == '__not__':
+            limit = _PRECEDENCE[self.op]
+        elif self.op in ('-', '+'):
+            # avoid repeated signs, which C would interpret as a decrement or increment
+            inner = self.value[0] if len(self.value) == 1 else None
+            signed = isinstance(inner, Value) or (isinstance(inner, UnaryOp) and inner.op in ('-', '+'))
+            limit = _PRECEDENCE[self.op] + 1 if signed else _PRECEDENCE['*']
+        else:
+            limit = 0
+        return self._str_repr_(_operand(f, self.value, limit))
+
     def __str__(self):
-        return self._str_repr_(_comb(str, self.value))
+        return self._print_(lambda x: _comb(str, x))
 
     def __format__(self, format_spec):
-        return self._str_repr_(_fmt_comb(format_spec, self.value))
+        return self._print_(lambda x: _fmt_comb(format_spec, x))
 
     def __repr__(self):
-        return self._str_repr_(_comb(repr, self.value))
+        return self._print_(lambda x: _comb(repr, x))
 
     def __neg__(self):
         if self.op == '-':
diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index d262d29..294e8ed 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -9,11 +9,98 @@ def getExpr(obj, ctx):
     return obj.visit(ctx)
 
 # TODO (maybe) Add control and statements into McCode, requiring some form of global stack.
-def visitExpressionUnaryPM(obj, ctx):
-    right = obj.visit(ctx.expr())
-    if isinstance(right, str):
-        return '-' + right if ctx.Plus() is None else right
-    return -right if ctx.Plus() is None else right
+# The order of the alternatives in the grammar's `expr` rule is not the precedence of the same operators in C.
+# Flattening the parsed operators and operands allows for combining them in the order which C would use.
+_PRECEDENCE = {
+    '?': 0, '||': 1, '&&': 2, '==': 3, '!=': 3, '<': 4, '>': 4, '<=': 4, '>=': 4, '<<': 5, '>>': 5,
+    '+': 6, '-': 6, '*': 7, '/': 7, '%': 7, '^': 9
+}
+_UNARY_NOT = 8
+_COMPARISONS = {'==': '__eq__', '!=': '__neq__', '<': '__lt__', '>': '__gt__', '<=': '__le__', '>=': '__ge__'}
+_LOGIC = {'||': '__or__', '&&': '__and__'}
+_FIXED_OPERATOR = {
+    'Exponentiation': '^', 'BinaryMod': '%', 'BinaryLeftShift': '<<', 'BinaryRightShift': '>>',
+    'BinaryNotEqual': '!=', 'BinaryEqual': '==', 'BinaryLessEqual': '<=', 'BinaryGreaterEqual': '>=',
+    'BinaryLess': '<', 'BinaryGreater': '>',
+}
+
+
+def _binary_operator(kind, ctx):
+    if kind == 'BinaryPM':
+        return '+' if ctx.Minus() is None else '-'
+    if kind == 'BinaryMD':
+        return '*' if ctx.Div() is None else '/'
+    if kind == 'BinaryLogic':
+        return '||' if ctx.AndAnd() is None else '&&'
+    return _FIXED_OPERATOR.get(kind, None)
+
+
+def _flatten_operators(ctx, tokens):
+    """Fill the list of tokens with operators (strings) and operands (contexts), in the order they were written"""
+    kind = type(ctx).__name__.replace('Expression', '').replace('Context', '')
+    operator = _binary_operator(kind, ctx)
+    if operator is not None:
+        # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
+        left, right = ctx.expr()
+        _flatten_operators(left, tokens)
+        tokens.append(operator)
+        _flatten_operators(right, tokens)
+    elif kind == 'TrinaryLogic':
+        # `ctx.test`, `ctx.true_`, and `ctx._false` not exposed by speedy-antlr-tool
+        test, true, false = ctx.expr()
+        _flatten_operators(test, tokens)
+        tokens.extend(['?', true])
+        _flatten_operators(false, tokens)
+    elif kind == 'UnaryPM':
+        tokens.append('unary+' if ctx.Plus() is not None else 'unary-')
+        _flatten_operators(ctx.expr(), tokens)
+    elif kind == 'UnaryLogic':
+        tokens.append('!')
+        _flatten_operators(ctx.expr(), tokens)
+    else:
+        tokens.append(ctx)
+    return tokens
+
+
+def _apply_binary_operator(operator, left, right):
+    if operator == '^':
+        return left ** right
+    if operator == '*':
+        return left * right
+    if operator == '/':
+        return left / right
+    if operator == '+':
+        return left + right
+    if operator == '-':
+        return left - right
+    return Expr(BinaryOp(_COMPARISONS.get(operator, _LOGIC.get(operator, operator)), left, right))
+
+
+def _combine_operators(obj, tokens, limit=0):
+    token = tokens.pop(0)
+    if token == 'unary+' or token == 'unary-':
+        # A leading sign applies to a whole product, but within a product only to the next operand
+        right = _combine_operators(obj, tokens, max(limit, _PRECEDENCE['*']))
+        left = -right if token == 'unary-' else right
+    elif token == '!':
+        left = Expr(UnaryOp('__not__', _combine_operators(obj, tokens, _UNARY_NOT)))
+    else:
+        left = obj.visit(token)
+    while len(tokens) and _PRECEDENCE[tokens[0]] >= limit:
+        operator = tokens.pop(0)
+        if operator == '?':
+            true = obj.visit(tokens.pop(0))
+            left = Expr(TrinaryOp('__trinary__', left, true, _combine_operators(obj, tokens)))
+        else:
+            # only exponentiation is right-associative
+            next_limit = _PRECEDENCE[operator] + (0 if operator == '^' else 1)
+            left = _apply_binary_operator(operator, left, _combine_operators(obj, tokens, next_limit))
+    return left
+
+
+def visitExpressionOperators(obj, ctx):
+    return _combine_operators(obj, _flatten_operators(ctx, []))
+
 
 def visitExpressionGrouping(obj, ctx):
     return Expr(UnaryOp('__group__', obj.visit(ctx.expr())))
@@ -47,98 +134,17 @@ def visitExpressionInteger(obj, ctx):
 def visitExpressionZero(obj, ctx):
     return Expr.int(0)
 
-def visitExpressionExponentiation(obj, ctx):
-    base, exponent = [obj.visit(ex) for ex in ctx.expr()]
-    return base ** exponent
-
-def visitExpressionBinaryPM(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return left + right if ctx.Minus() is None else left - right
-
 def visitExpressionFunctionCall(obj, ctx):
     function = Value(str(ctx.Identifier()), object_type=ObjectType.function)
     # `ctx.args` isn't exposed by speedy-antlr-tool, but the function call is
     args = [obj.visit(arg).expr[0] for arg in ctx.expr()]  # each is a Value, UnaryOp, or BinaryOp?
     return Expr(BinaryOp('__call__', function, args))
 
-def visitExpressionBinaryMD(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return left * right if ctx.Div() is None else left / right
-
-def visitExpressionBinaryMod(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('%', left, right))
-
-def visitExpressionBinaryLeftShift(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('<<', left, right))
-
-def visitExpressionBinaryRightShift(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('>>', left, right))
-
 def visitInitializerlist(obj, ctx):
     # `ctx.values` is not exposed by speedy-antlr-tool
     values = [obj.visit(x).expr[0].value for x in ctx.expr()]
     return Expr(Value(values, object_type=ObjectType.initializer_list, shape_type=ShapeType.vector))
 
-def visitExpressionUnaryLogic(obj, ctx):
-    expr = obj.visit(ctx.expr())
-    op = 'unknown'
-    if ctx.Not() is not None:
-        op = '__not__'
-    return Expr(UnaryOp(op, expr))
-
-def visitExpressionBinaryLogic(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    op = 'unknown'
-    if ctx.AndAnd() is not None:
-        op = '__and__'
-    elif ctx.OrOr() is not None:
-        op = '__or__'
-    return Expr(BinaryOp(op, left, right))
-
-def visitExpressionTrinaryLogic(obj, ctx):
-    # `ctx.test`, `ctx.true_`, and `ctx._false` not exposed by speedy-antlr-tool
-    test, true, false = [obj.visit(x) for x in ctx.expr()]
-    return Expr(TrinaryOp('__trinary__', test, true, false))
-
-def visitExpressionBinaryNotEqual(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('__neq__', left, right))
-
-def visitExpressionBinaryEqual(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('__eq__', left, right))
-
-def visitExpressionBinaryLessEqual(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('__le__', left, right))
-
-def visitExpressionBinaryGreaterEqual(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('__ge__', left, right))
-
-def visitExpressionBinaryLess(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('__lt__', left, right))
-
-def visitExpressionBinaryGreater(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return Expr(BinaryOp('__gt__', left, right))
-
 def visitExpressionString(obj, ctx):
     strings = ''.join(str(sl).strip('"') for sl in ctx.StringLiteral())
     return Expr.str(f'"{strings}"')
@@ -146,7 +152,7 @@ def visitExpressionString(obj, ctx):
 
 common_visitors = (
     ('getExpr', getExpr),
-    ('visitExpressionUnaryPM', visitExpressionUnaryPM),
+    ('visitExpressionUnaryPM', visitExpressionOperators),
     ('visitExpressionGrouping', visitExpressionGrouping),
     ('visitExpressionFloat', visitExpressionFloat),
     ('visitExpressionPointerAccess', visitExpressionPointerAccess),
@@ -155,23 +161,23 @@ common_visitors = (
     ('visitExpressionIdentifier', visitExpressionIdentifier),
     ('visitExpressionInteger', visitExpressionInteger),
     ('visitExpressionZero', visitExpressionZero),
-    ('visitExpressionExponentiation', visitExpressionExponentiation),
-    ('visitExpressionBinaryPM', visitExpressionBinaryPM),
+    ('visitExpressionExponentiation', visitExpressionOperators),
+    ('visitExpressionBinaryPM', visitExpressionOperators),
     ('visitExpressionFunctionCall', visitExpressionFunctionCall),
-    ('visitExpressionBinaryMD', visitExpressionBinaryMD),
-    ('visitExpressionBinaryMod', visitExpressionBinaryMod),
-    ('visitExpressionBinaryLeftShift', visitExpressionBinaryLeftShift),
-    ('visitExpressionBinaryRightShift', visitExpressionBinaryRightShift),
+    ('visitExpressionBinaryMD', visitExpressionOperators),
+    ('visitExpressionBinaryMod', visitExpressionOperators),
+    ('visitExpressionBinaryLeftShift', visitExpressionOperators),
+    ('visitExpressionBinaryRightShift', visitExpressionOperators),
     ('visitInitializerlist', visitInitializerlist),
-    ('visitExpressionUnaryLogic', visitExpressionUnaryLogic),
-    ('visitExpressionBinaryLogic', visitExpressionBinaryLogic),
-    ('visitExpressionTrinaryLogic', visitExpressionTrinaryLogic),
-    ('visitExpressionBinaryNotEqual', visitExpressionBinaryNotEqual),
-    ('visitExpressionBinaryEqual', visitExpressionBinaryEqual),
-    ('visitExpressionBinaryLessEqual', visitExpressionBinaryLessEqual),
-    ('visitExpressionBinaryGreaterEqual', visitExpressionBinaryGreaterEqual),
-    ('visitExpressionBinaryLess', visitExpressionBinaryLess),
-    ('visitExpressionBinaryGreater', visitExpressionBinaryGreater),
+    ('visitExpressionUnaryLogic', visitExpressionOperators),
+    ('visitExpressionBinaryLogic', visitExpressionOperators),
+    ('visitExpressionTrinaryLogic', visitExpressionOperators),
+    ('visitExpressionBinaryNotEqual', visitExpressionOperators),
+    ('visitExpressionBinaryEqual', visitExpressionOperators),
+    ('visitExpressionBinaryLessEqual', visitExpressionOperators),
+    ('visitExpressionBinaryGreaterEqual', visitExpressionOperators),
+    ('visitExpressionBinaryLess', visitExpressionOperators),
+    ('visitExpressionBinaryGreater', visitExpressionOperators),
     ('visitExpressionString', visitExpressionString),
 )
 
-- 
2.43.0


From cd13dbd69697b18be2b9f4389611f356d001117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 02/62] fix: expression arithmetic with plain numbers, powers
 of operations, zero division, and aliased copies

Operations combined with Python numbers raised AttributeError, powers of operations raised TypeError, 0/0 and 0^0 were 0,
x // 1 rounded instead of flooring, simplify nested an Expr inside of an operation, and copies shared their operands.
---
 src/mccode_antlr/common/expression.py | 48 +++++++++++++++++----------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index d55c62c..e036cb1 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -272,16 +272,19 @@ class Op:
         return False
 
     def __add__(self, other):
+        other = other if isinstance(other, (Value, Op)) else Value.best(other)
         if other.is_zero:
             return self
         return BinaryOp('+', self, other)
 
     def __sub__(self, other):
+        other = other if isinstance(other, (Value, Op)) else Value.best(other)
         if other.is_zero:
             return self
         return BinaryOp('-', self, other)
 
     def __mul__(self, other):
+        other = other if isinstance(other, (Value, Op)) else Value.best(other)
         if other.is_zero:
             return other
         if other.is_value(1):
@@ -291,6 +294,7 @@ class Op:
         return BinaryOp('*', self, other)
 
     def __truediv__(self, other):
+        other = other if isinstance(other, (Value, Op)) else Value.best(other)
         if other.is_zero:
             raise RuntimeError('Division by zero')
         if other.is_value(1):
@@ -300,6 +304,7 @@ class Op:
         return BinaryOp('/', self, other)
 
     def __floordiv__(self, other):
+        other = other if isinstance(other, (Value, Op)) else Value.best(other)
         if other.is_zero:
             raise RuntimeError('Division by zero')
         if other.is_value(1):
@@ -308,6 +313,14 @@ class Op:
             return -self
         return BinaryOp('//', self, other)
 
+    def __pow__(self, power):
+        power = power if isinstance(power, (Value, Op)) else Value.best(power)
+        if power.is_zero:
+            return Value(1, data_type=self.data_type)
+        if power.is_value(1):
+            return self
+        return BinaryOp('__pow__', self, power)
+
     def __neg__(self):
         return UnaryOp('-', self)
 
@@ -320,6 +333,11 @@ class Op:
     def as_type(self, pdt):
         raise NotImplementedError()
 
+    def _copy_to(self, other):
+        other.data_type = self.data_type
+        other.style = self.style
+        return other
+
 
 class TrinaryOp(Op):
     def __init__(self, op, first, second, third):
@@ -389,9 +407,9 @@ class TrinaryOp(Op):
         f, s, t = [[x.simplify() for x in y] for y in (self.first, self.second, self.third)]
         if self.op == '__trinary__' and len(f) == 1:
             if f[0].is_value(True) and not f[0].is_value(False):
-                return Expr(s)
+                return s[0] if len(s) == 1 else Expr(s)
             if f[0].is_value(False) and not f[0].is_value(True):
-                return Expr(t)
+                return t[0] if len(t) == 1 else Expr(t)
         return TrinaryOp(self.op, f, s, t)
 
     def evaluate(self, known: dict):
@@ -402,7 +420,7 @@ class TrinaryOp(Op):
         return any(any(x.depends_on(name) for x in y) for y in (self.first, self.second, self.third))
 
     def copy(self):
-        return TrinaryOp(self.op, self.first, self.second, self.third)
+        return self._copy_to(TrinaryOp(self.op, *[[x.copy() for x in y] for y in (self.first, self.second, self.third)]))
 
     def __contains__(self, value):
         # first, second, and third are lists, so we need to check each element to avoid using __eq__
@@ -544,12 +562,12 @@ class BinaryOp(Op):
         left = [x.simplify() for x in self.left]
         right = [x.simplify() for x in self.right]
         if len(left) == 1 and ((left[0].is_zero and self.op == '+') or (left[0].is_value(1) and self.op == '*')):
-            return Expr(right)
+            return right[0] if len(right) == 1 else Expr(right)
         if len(right) == 1 and (
                 (right[0].is_zero and any(x == self.op for x in '+-')) or
                 (right[0].is_value(1) and any(x == self.op for x in '*/'))
         ):
-            return Expr(left)
+            return left[0] if len(left) == 1 else Expr(left)
         if len(left) == 1 and len(right) == 1 and left[0].is_constant and right[0].is_constant\
                 and self.op in ('+', '-', '*', '/'):
             if self.op == '+':
@@ -571,7 +589,7 @@ class BinaryOp(Op):
         return any(any(x.depends_on(name) for x in y) for y in (self.left, self.right))
 
     def copy(self):
-        return BinaryOp(self.op, self.left.copy(), self.right.copy())
+        return self._copy_to(BinaryOp(self.op, [x.copy() for x in self.left], [x.copy() for x in self.right]))
 
     def __contains__(self, value):
         # left and right are lists, so we need to check each element to avoid using __eq__
@@ -690,7 +708,7 @@ class UnaryOp(Op):
         return any(x.depends_on(name) for x in self.value)
 
     def copy(self):
-        return UnaryOp(self.op, self.value.copy())
+        return self._copy_to(UnaryOp(self.op, [x.copy() for x in self.value]))
 
     def __contains__(self, value):
         # value is a list
@@ -953,14 +971,14 @@ class Value:
     def __truediv__(self, other):
         other = other if isinstance(other, (Value, Op)) else Value.best(other)
         pdt = self.data_type / other.data_type
+        if other.is_zero:
+            raise RuntimeError('Division by zero!')
         if self.is_zero:
             return Value(0, DataType.int if pdt.is_str else pdt)
         if other.is_value(1):
             return self.as_type(pdt)
         if other.is_value(-1):
             return (-self).as_type(pdt)
-        if other.is_zero:
-            raise RuntimeError('Division by zero!')
         if other.is_op or self.is_id or other.is_id:
             return BinaryOp('/', self, other)
         return BinaryOp('/', self, other) if pdt.is_str else Value(self.value / other.value, pdt)
@@ -968,14 +986,10 @@ class Value:
     def __floordiv__(self, other):
         other = other if isinstance(other, (Value, Op)) else Value.best(other)
         pdt = self.data_type // other.data_type
-        if self.is_zero:
-            return Value(0, DataType.int)
-        if other.is_value(1):
-            return Value.int(round(self.value))
-        if other.is_value(-1):
-            return -Value.int(round(self.value))
         if other.is_zero:
             raise RuntimeError('Division by zero!')
+        if self.is_zero:
+            return Value(0, DataType.int)
         if other.is_op or self.is_id or other.is_id:
             return BinaryOp('//', self, other)
         return BinaryOp('//', self, other) if pdt.is_str else Value.int(self.value // other.value)
@@ -1026,10 +1040,10 @@ class Value:
     def __pow__(self, power):
         if not isinstance(power, (Value, Op)):
             power = Value.best(power)
-        if self.is_zero or self.is_value(1):
-            return self
         if power.is_zero:
             return Value(1, data_type=self.data_type)
+        if self.is_value(1) or power.is_value(1):
+            return self
         return BinaryOp('__pow__', self, power)
 
     @property
-- 
2.43.0


From 8ef810202654ac341edea01ef4f5996c3490f8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:47 +0000
Subject: [PATCH 03/62] fix: negating a signed operand printed a C decrement,
 and evaluating a negated identifier was never constant

---
 src/mccode_antlr/common/expression.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index e036cb1..172f736 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -638,10 +638,9 @@ class UnaryOp(Op):
         elif self.op == '__not__':
             limit = _PRECEDENCE[self.op]
         elif self.op in ('-', '+'):
+            operand = _operand(f, self.value, _PRECEDENCE['*'])
             # avoid repeated signs, which C would interpret as a decrement or increment
-            inner = self.value[0] if len(self.value) == 1 else None
-            signed = isinstance(inner, Value) or (isinstance(inner, UnaryOp) and inner.op in ('-', '+'))
-            limit = _PRECEDENCE[self.op] + 1 if signed else _PRECEDENCE['*']
+            return self._str_repr_(f'({operand})' if operand.startswith(('-', '+')) else operand)
         else:
             limit = 0
         return self._str_repr_(_operand(f, self.value, limit))
@@ -698,6 +697,8 @@ class UnaryOp(Op):
         value = [v.simplify() for v in self.value]
         if self.op == '__group__' and len(value) == 1 and isinstance(value[0], Value):
             return value[0]  # Expr(value)
+        if self.op == '-' and len(value) == 1 and value[0].is_constant:
+            return -value[0]
         return UnaryOp(self.op, value)
 
     def evaluate(self, known: dict):
-- 
2.43.0


From 182577304174f03dcdebe6ca9c17991ec133af06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:05 +0000
Subject: [PATCH 04/62] fix: signs inside of an expression, e.g., 'a / -b * c'
 or '- -a', are read with C precedence

---
 src/mccode_antlr/common/visitor.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index 294e8ed..0f26a38 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -98,8 +98,19 @@ def _combine_operators(obj, tokens, limit=0):
     return left
 
 
+def _is_empty_string(token):
+    return type(token).__name__ == 'ExpressionStringContext' and len(token.StringLiteral()) == 0
+
+
 def visitExpressionOperators(obj, ctx):
-    return _combine_operators(obj, _flatten_operators(ctx, []))
+    tokens = []
+    for token in _flatten_operators(ctx, []):
+        if (token == '+' or token == '-') and _is_empty_string(tokens[-1]):
+            # The grammar allows an operand to be no strings at all, and interprets -a as (nothing) - a
+            tokens[-1] = 'unary' + token
+        else:
+            tokens.append(token)
+    return _combine_operators(obj, tokens)
 
 
 def visitExpressionGrouping(obj, ctx):
-- 
2.43.0


From b3a2620ca5493a6b5c12e449d8ae36efd2632135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:06 +0000
Subject: [PATCH 05/62] fix: rotation parts at 180 degrees, given in radian,
 and Euler angles at a quarter turn around y

---
 src/mccode_antlr/instr/orientation.py | 95 +++++++++++++++------------
 1 file changed, 52 insertions(+), 43 deletions(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index 1cf52fc..6e51271 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -331,44 +331,33 @@ def acos_value(v: Expr, degrees=True):
     return unary_expr(acos_degree if degrees else acos, 'acos', v)
 
 
+def _quarter_turns(v: Expr, degrees: bool):
+    """The number of quarter turns that a constant angle is (exactly) equal to, or None"""
+    from math import pi
+    quarters = {0: 0, 90: 1, 180: 2, 270: 3, -90: 3, -180: 2, -270: 1}
+    return next((q for a, q in quarters.items() if v.is_value(a if degrees else a / 180 * pi)), None)
+
+
 def cos_value(v: Expr, degrees=True):
     """The cosine of an angle expressed in degrees or radian"""
-    from math import cos, pi
-    if v.is_value(0):
-        return Expr.float(1)
-    pi = Expr.float(pi) if v.is_constant else Expr.id('PI')
-    if (degrees and v.is_value(Expr.float(90))) or (not degrees and v.is_value(pi/Expr.float(2))):
-        return Expr.float(0)
-    if (degrees and v.is_value(Expr.float(180))) or (not degrees and v.is_value(pi)):
-        return Expr.float(-1)
+    from math import cos
+    quarter = _quarter_turns(v, degrees)
+    if quarter is not None:
+        return Expr.float((1, 0, -1, 0)[quarter])
     return unary_expr(cos_degree if degrees else cos, 'cos', v)
 
 
 def sin_value(v: Expr, degrees=True):
-    from math import sin, pi
-    if v.is_value(0):
-        return Expr.float(0)
-    pi = Expr.float(pi) if v.is_constant else Expr.id('PI')
-    if (degrees and v.is_value(Expr.float(90))) or (not degrees and v.is_value(pi / Expr.float(2))):
-        return Expr.float(1)
-    if (degrees and v.is_value(Expr.float(180))) or (not degrees and v.is_value(-pi / Expr.float(2))):
-        return Expr.float(-1)
+    """The sine of an angle expressed in degrees or radian"""
+    from math import sin
+    quarter = _quarter_turns(v, degrees)
+    if quarter is not None:
+        return Expr.float((0, 1, 0, -1)[quarter])
     return unary_expr(sin_degree if degrees else sin, 'sin', v)
 
 
 def atan2_value(va: Expr, vb: Expr, degrees=True):
     from math import atan2
-    zero = Expr.float(0)
-    full = Expr.float(180) if degrees else Expr.id('PI')
-    half = full / Expr.float(2)
-    if va.is_value(0):
-        if vb.is_op:
-            return [zero, full]
-        return [zero if vb > zero else full]
-    if vb.is_value(0):
-        if va.is_op:
-            return [-half, half]
-        return [half if va > zero else -half]
     return [binary_expr(atan2_degree if degrees else atan2, 'atan2', va, vb)]
 
 
@@ -400,9 +389,14 @@ def degree_to_radian(v: Expr):
     return v * Expr.float(pi / 180)
 
 
+def radian_to_degree(v: Expr):
+    from math import pi
+    return v * Expr.float(180 / pi)
+
+
 def _rotation_angles_to_axes_coordinates(rotated: Angles, degrees=True):
-    cx, cy, cz = [cos_value(r if degrees else degree_to_radian(r), degrees=degrees) for r in rotated]
-    sx, sy, sz = [sin_value(r if degrees else degree_to_radian(r), degrees=degrees) for r in rotated]
+    cx, cy, cz = [cos_value(r, degrees=degrees) for r in rotated]
+    sx, sy, sz = [sin_value(r, degrees=degrees) for r in rotated]
     # Rotation matrices following the McCode first x then y then z method of applying rotations.
     # The 3x3 rotation matrix part (which rotates the *axes* of a coordinate system):
     axes = (cy * cz, sx * sy * cz + cx * sz, sx * sz - cx * sy * cz,
@@ -418,12 +412,22 @@ def _rotation_angles_to_axes_coordinates(rotated: Angles, degrees=True):
 
 def axes_euler_angles(m: Rotation, degrees) -> Angles:
     """Return the angles vector which could have been used to produce this 'axes' rotation matrix"""
-    rxs = atan2_value(-m.zy, m.zz, degrees=degrees)
-    rys = atan2_value(m.zx, cos_from_sin_value(m.zx), degrees=degrees)
-    rzs = atan2_value(-m.yx, m.xx, degrees=degrees)
-    rx = rxs[0] if len(rxs) == 1 else rxs[0]
-    ry = rys[0] if len(rys) == 1 else rys[0]
-    rz = rzs[0] if len(rzs) == 1 else rzs[0]
+    from math import hypot
+    if m.zx.is_constant:
+        # the cosine of the y rotation, avoiding the loss of precision of sqrt(1 - sin^2) near a quarter turn
+        cos_y = cos_from_sin_value(m.zx)
+        if all(x.is_constant for x in (m.zy, m.zz)):
+            cos_y = Expr.float(hypot(m.zy.value, m.zz.value))
+        if cos_y.is_constant and abs(cos_y.value) < 1e-10:
+            # Only the sum or difference of the x and z rotations is defined, all of which is given to x
+            return Angles(atan2_value(m.yz, m.yy, degrees=degrees)[0],
+                          atan2_value(m.zx, Expr.float(0), degrees=degrees)[0],
+                          Expr.float(0))
+    else:
+        cos_y = sqrt_value(Expr.float(1) - m.zx * m.zx)
+    rx = atan2_value(-m.zy, m.zz, degrees=degrees)[0]
+    ry = atan2_value(m.zx, cos_y, degrees=degrees)[0]
+    rz = atan2_value(-m.yx, m.xx, degrees=degrees)[0]
     return Angles(rx, ry, rz)
 
 
@@ -634,8 +638,13 @@ class RotationPart(Part):
         return self.rotation_axis, self.v, 'degrees' if self.degrees else 'radian'
 
     def _cos_sin_one_zero(self):
-        r = self.v if self.degrees else degree_to_radian(self.v)
-        return cos_value(r), sin_value(r), Expr.float(1), Expr.float(0)
+        return cos_value(self.v, self.degrees), sin_value(self.v, self.degrees), Expr.float(1), Expr.float(0)
+
+    def _angle(self, degrees=True) -> Expr:
+        """The rotation angle in the requested unit"""
+        if self.degrees == degrees:
+            return self.v
+        return degree_to_radian(self.v) if self.degrees else radian_to_degree(self.v)
 
     def position(self, which=None) -> Vector:
         z = Expr.float(0)
@@ -662,7 +671,7 @@ class RotationX(RotationPart):
 
     def angles(self, which=None, degrees=True) -> Angles:
         z = Expr.float(0)
-        return Angles(self.v, z, z)
+        return Angles(self._angle(degrees), z, z)
 
     def __str__(self):
         return f'(0, 0, 0) [{self.v}, 0, 0]'
@@ -683,7 +692,7 @@ class RotationY(RotationPart):
 
     def angles(self, which=None, degrees=True) -> Angles:
         z = Expr.float(0)
-        return Angles(z, self.v, z)
+        return Angles(z, self._angle(degrees), z)
 
     def __str__(self):
         return f'(0, 0, 0) [0, {self.v}, 0]'
@@ -704,7 +713,7 @@ class RotationZ(RotationPart):
 
     def angles(self, which=None, degrees=True) -> Angles:
         z = Expr.float(0)
-        return Angles(z, z, self.v)
+        return Angles(z, z, self._angle(degrees))
 
     def __str__(self):
         return f'(0, 0, 0) [0, 0, {self.v}]'
@@ -912,7 +921,7 @@ class Orient:
         return cls(pos, rot, degrees)
 
     def angles(self, which=None) -> Angles:
-        return self._rotation.resolve().angles(which=which)
+        return self._rotation.resolve().angles(which=which, degrees=self._degrees)
 
     def position(self, which=None) -> Vector:
         return self._position.position(which=which)
@@ -927,10 +936,10 @@ class Orient:
         return self._rotation.reduce()
 
     def inverse(self):
-        return Orient(self._position.inverse(), self._rotation.inverse())
+        return Orient(self._position.inverse(), self._rotation.inverse(), self._degrees)
 
     def reduce(self):
-        return Orient(self._position.reduce(), self._rotation.reduce())
+        return Orient(self._position.reduce(), self._rotation.reduce(), self._degrees)
 
     def combine(self) -> Parts:
         # The position represents a coordinate and the rotation represents the axes of that coordinate system
-- 
2.43.0


From bb381230ae240df736ba1e33b0387791cc7fc2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:45 +0000
Subject: [PATCH 06/62] fix: a rotation given ABSOLUTE stays absolute when the
 position is RELATIVE to a component, and is printed

---
 src/mccode_antlr/assembler/assembler.py | 5 ++++-
 src/mccode_antlr/instr/instance.py      | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/assembler/assembler.py b/src/mccode_antlr/assembler/assembler.py
index af2b993..9b05b97 100644
--- a/src/mccode_antlr/assembler/assembler.py
+++ b/src/mccode_antlr/assembler/assembler.py
@@ -47,7 +47,10 @@ class Assembler:
 
     def _handle_rotate(self, a=None, at_ref=None) -> tuple[Angles, Union[Instance, None]]:
         rot_tuple, ref = self._handle_at_rotate(a)
-        return Angles(*rot_tuple), ref or at_ref
+        if a is None or len(a) == 3 or a[1] is None:
+            # without an explicit reference, the rotation is relative to the same instance as the position
+            ref = at_ref
+        return Angles(*rot_tuple), ref
 
     def component(self, name: str, type_name: str, at=None, rotate=None, parameters=None, **kwargs):
         """Add a component to the underlying Instr.
diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index e436a05..ea63424 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -54,7 +54,9 @@ class Instance:
 
         # The "AT ..." statement is required even when it is "AT (0, 0, 0) ABSOLUTE"
         line += rf('AT', self.at_relative, required=True) + ' '
-        line += rf('ROTATED', self.rotate_relative) + wrapper.br()
+        # If "ROTATED ..." is left out, the reference of the "AT ..." statement is used for the rotation too
+        follows_at = self.rotate_relative[1] is None and self.at_relative[1] is None
+        line += rf('ROTATED', self.rotate_relative, required=not follows_at) + wrapper.br()
         print(line, file=output, end='')
 
         if not full:
@@ -106,7 +108,7 @@ class Instance:
             at = ar[0] if isinstance(ar[0], Vector) else Vector(*ar[0])
             an, ar = (ar[1].name, ar[1].orientation) if ar[1] else ("ABSOLUTE", None)
             rt = rr[0] if isinstance(rr[0], Angles) else Angles(*rr[0])
-            rn, rr = (rr[1].name, rr[1].orientation) if rr[1] else (an, ar)
+            rn, rr = (rr[1].name, rr[1].orientation) if rr[1] else ("ABSOLUTE", None)
             self.orientation = Orient.from_dependent_orientations(ar, at, rr, rt)
         # check if the defining component is marked noacc, in which case this _is_ cpu only
         if not self.type.acc:
-- 
2.43.0


From e643c756dd978392cec259bcdefbbdf7024085cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 07/62] fix: particles enter the first traced component from
 the absolute frame when earlier components are skipped

---
 src/mccode_antlr/translators/c_initialise.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index d0582ea..31ec1cf 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -36,7 +36,8 @@ def _split_xyz_ref(xyz_ref):
 
 
 def cogen_comp_init_position(index, comp, last, instr):
-    ref = None if index == 0 else instr.components[last]
+    # the last component before this one with a coordinate system a particle is in, if there is any
+    ref = None if last is None else instr.components[last]
     var = f'_{comp.name}_var'
     lines = [
         f'  /* component {comp.name}={comp.type.name}() AT ROTATED */',
@@ -62,7 +63,7 @@ def cogen_comp_init_position(index, comp, last, instr):
             f'    rot_mul(tr1, _{rel.name}_var._rotation_absolute, {var}._rotation_absolute);'
         ])
     # Sort out relative orientation
-    if index == 0:
+    if ref is None:
         lines.append(f'    rot_copy({var}._rotation_relative, {var}._rotation_absolute);')
     else:
         lines.extend([
@@ -84,7 +85,7 @@ def cogen_comp_init_position(index, comp, last, instr):
             '    tc2 = rot_apply(tr1, tc1);',
             f'    {var}._position_absolute = coords_add(_{rel.name}_var._position_absolute, tc2);'
         ])
-    if index == 0:
+    if ref is None:
         lines.append(f'    tc1 = coords_neg({var}._position_absolute);')
     else:
         lines.append(f'    tc1 = coords_sub(_{ref.name}_var._position_absolute, {var}._position_absolute);')
@@ -230,7 +231,7 @@ def cogen_initialize(source, component_declared_parameters, ok_to_skip):
              "***************************************************************************** */",
              _GETDISTANCE_FCT, ""]
 
-    last = 0
+    last = None  # particles start in the absolute coordinate system
     for idx, comp in enumerate(source.components):
         lines.extend(cogen_comp_setpos(idx, comp, last, source, component_declared_parameters))
         if ok_to_skip is not None and not ok_to_skip[idx]:
-- 
2.43.0


From 94a43c1262f1470e17abc20491d9928b205629a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 08/62] fix: JUMP NEXT(n) and PREVIOUS(n) raised TypeError

---
 src/mccode_antlr/instr/visitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index e6e68d8..d9e06d1 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -238,14 +238,14 @@ class InstrVisitor(McInstrVisitor):
 
     def visitJumpPrevious(self, ctx: McInstrParser.JumpPreviousContext):
         i = ctx.IntegerLiteral()
-        return ("PREVIOUS", -1) if i is None else (f"PREVIOUS_{i}", -int(i))
+        return ("PREVIOUS", -1) if i is None else (f"PREVIOUS_{i}", -int(str(i)))
 
     def visitJumpMyself(self, ctx: McInstrParser.JumpMyselfContext):
         return "MYSELF", 0
 
     def visitJumpNext(self, ctx: McInstrParser.JumpNextContext):
         i = ctx.IntegerLiteral()
-        return ("NEXT", 1) if i is None else (f"NEXT_{i}", int(i))
+        return ("NEXT", 1) if i is None else (f"NEXT_{i}", int(str(i)))
 
     def visitJumpIdentifier(self, ctx: McInstrParser.JumpIdentifierContext):
         return str(ctx.Identifier()), 0
-- 
2.43.0


From dee16b4db5fb6e4daa7440c2359422cf12784b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 09/62] fix: GROUP members which do not run use a stale
 SCATTERED flag, JUMPs passing a SPLIT lose weight, and GROUPs in FUNNEL
 layout

---
 src/mccode_antlr/translators/c_raytrace.py | 30 ++++++++++++++++------
 src/mccode_antlr/translators/target.py     |  4 +--
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/mccode_antlr/translators/c_raytrace.py b/src/mccode_antlr/translators/c_raytrace.py
index 03adf47..e1cf63c 100644
--- a/src/mccode_antlr/translators/c_raytrace.py
+++ b/src/mccode_antlr/translators/c_raytrace.py
@@ -44,7 +44,8 @@ def cogen_raytrace(source, ok_to_skip):
                 f'    /* start SPLIT at {comp.name} */',
                 '    if (!ABSORBED) {',
                 f'    _class_particle Split_{comp.name}_particle = *_particle;',
-                f'    int SplitS_{comp.name} = {comp.split:p};',
+                '    /* an event which a JUMP sent elsewhere passes here unchanged */',
+                f'    int SplitS_{comp.name} = _particle->_index == {1+index} ? {comp.split:p} : 1;',
                 # following https://github.com/McStasMcXtrace/McCode/commit/72cb740d465e2780b228bd937cf62429a96f64d5
                 '    #pragma acc loop independent',
                 f'    for (int SplitN_{comp.name}=0; SplitN_{comp.name} < SplitS_{comp.name}; SplitN_{comp.name}++) {{',
@@ -81,6 +82,9 @@ def cogen_raytrace(source, ok_to_skip):
                 '      // 2nd or higher GROUP member, "reuse" coordinate-changed _particle_Save from 1st GROUP element.',
                 f'      mccoordschange(_{comp.name}_var._position_relative, _{comp.name}_var._rotation_relative, &_particle_save);',
             ])
+        if comp.group is not None:
+            # only set by the trace function, which is possibly not called for this component
+            lines.append('      SCATTERED=0;')
         if not ok_to_skip[index]:
             lines.extend([
                 f'      DEBUG_COMP(_{comp.name}_var._name);',
@@ -326,6 +330,7 @@ def cogen_funnel(source, ok_to_skip):
         '    // iterate components'
     ])
     cpu_last = not source.components[0].cpu if len(source.components) else False
+    section_start = 0  # the saved particle is only available within one particle loop
     for index, comp in enumerate(source.components):
         if not comp.type.acc:
             print(f'Component {comp.name} is NOACC, CPUONLY={comp.cpu}')
@@ -360,17 +365,16 @@ def cogen_funnel(source, ok_to_skip):
                     "    #pragma acc parallel loop device_type(host)",
                     "    #endif"
                 ])
+            section_start = index
             lines.extend([
                 "    for (unsigned long pidx=0 ; pidx < livebatchsize ; pidx++) {",
                 "      _class_particle* _particle = &particles[pidx];",
                 "      _class_particle _particle_save;",
             ])
 
-        lines.extend([
-            f'      // {comp.name}',
-            f'      if (!ABSORBED && _particle->_index == {index+1}) {{',
-        ])
+        lines.append(f'      // {comp.name}')
         if not ok_to_skip[index]:
+            # every event follows the coordinate transformations, also if it skips (the rest of) a GROUP
             lines.extend([
                 "        #ifndef MULTICORE",
                 f"        if (_{comp.name}_var._rotation_is_identity) {{",
@@ -380,8 +384,18 @@ def cogen_funnel(source, ok_to_skip):
                 "        {",
                 f"          mccoordschange(_{comp.name}_var._position_relative, _{comp.name}_var._rotation_relative, _particle);",
                 '        }',
-                "        _particle_save = *_particle;",
             ])
+        lines.append(f'      if (!ABSORBED && _particle->_index == {index+1}) {{')
+        if comp.group is None or source.groups[comp.group].is_leader(index) or index == section_start:
+            if not ok_to_skip[index]:
+                lines.append("        _particle_save = *_particle;")
+        else:
+            lines.extend([
+                '        // 2nd or higher GROUP member, "reuse" coordinate-changed _particle_Save from 1st GROUP element.',
+                f'        mccoordschange(_{comp.name}_var._position_relative, _{comp.name}_var._rotation_relative, &_particle_save);',
+            ])
+        if comp.group is not None:
+            lines.append('        SCATTERED=0;')
         if len(comp.type.trace) or len(comp.extend):
             if comp.when is not None:
                 lines.append(f'    if (({comp.when:p}))  // conditional WHEN')
@@ -400,14 +414,14 @@ def cogen_funnel(source, ok_to_skip):
             lines.extend([
                 f'    // GROUP {group.name}: from {group.first.name} [{group.first_id}] to {ln} [{lid}]',
                 # Skip over when SCATTERED in the group:
-                f'    if (SCATTERED) _particle->_index = {lid}; '
+                f'    if (SCATTERED) _particle->_index = {1+lid}; '
                 '// when SCATTERED in GROUP: reach exit of GROUP after {ln}',
                 #
             ])
             if index == lid:
                 lines.append('    else ABSORBED=1; // Not SCATTERED by end of GROUP: removes left events')
             else:
-                lines.append("      else ABSORBED=0; // not SCATTERED within GROUP: always tries next")
+                lines.append("      else particle_restore(_particle, &_particle_save); // not SCATTERED within GROUP: tries next")
 
         lines.append("        _particle->_index++;")
         lines.append("      }")
diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index d2d4f1c..20b615c 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -203,8 +203,8 @@ class TargetVisitor:
             # Any component with a TRACE or EXTEND can not be skipped
             if any(not x.is_empty for x in comp.extend) or any(not x.is_empty for x in comp.type.trace):
                 return False
-            # Any component jumping elsewhere can not be skipped
-            if len(comp.jump):
+            # Any component jumping elsewhere or part of a GROUP can not be skipped
+            if len(comp.jump) or comp.group is not None:
                 return False
             return True
 
-- 
2.43.0


From 176594af9cb9eb6ac5a21dcccf8082177427566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:33 +0000
Subject: [PATCH 10/62] fix: instrument parameters in SAVE, and the line of
 MCDISPLAY in components without FINALLY

---
 src/mccode_antlr/translators/c_display.py | 2 +-
 src/mccode_antlr/translators/c_save.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/translators/c_display.py b/src/mccode_antlr/translators/c_display.py
index 671d8c1..6cb3747 100644
--- a/src/mccode_antlr/translators/c_display.py
+++ b/src/mccode_antlr/translators/c_display.py
@@ -71,7 +71,7 @@ def cogen_comp_display_class(comp, declared_parameters):
         f'void class_{comp.name}_display(_class_{comp.name} *_comp) {{',
         cogen_parameter_define(comp, declared_parameters)
     ]
-    f, n = comp.display[0].fn if len(comp.final) else (comp.name, 0)
+    f, n = comp.display[0].fn if len(comp.display) else (comp.name, 0)
     lines.append(f'  SIG_MESSAGE("[_{comp.name}_display] component NULL={comp.name}() [{f}:{n}]");')
     lines.append('  printf("MCDISPLAY: component %s\\n", _comp->_name);')
 
diff --git a/src/mccode_antlr/translators/c_save.py b/src/mccode_antlr/translators/c_save.py
index b4eeb49..4fdcd61 100644
--- a/src/mccode_antlr/translators/c_save.py
+++ b/src/mccode_antlr/translators/c_save.py
@@ -22,7 +22,7 @@ def cogen_save(source, declared_parameters):
         ])
         for par in source.parameters:
             # ensure there's no conflict of names
-            lines.append(f'  #define {par.name} (instrument->_parameters.{par.name}')
+            lines.append(f'  #define {par.name} (instrument->_parameters.{par.name})')
         for block in source.save:
             lines.append(block.to_c())
         for par in source.parameters:
-- 
2.43.0


From 402d1e40a47b76327682de1ee5686c03340d1f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:33 +0000
Subject: [PATCH 11/62] fix: component parameters of type int * raised
 AttributeError

---
 src/mccode_antlr/comp/visitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 1eb543a..1921264 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -121,12 +121,12 @@ class CompVisitor(McCompVisitor):
     def visitComponentParameterIntegerArray(self, ctx: Parser.ComponentParameterIntegerArrayContext):
         from ..common import Value, DataType, ShapeType
         name = str(ctx.Identifier(0))
-        if ctx.assign() is not None and ctx.initializerlist() is not None:
+        if ctx.Assign() is not None and ctx.initializerlist() is not None:
             value = self.visit(ctx.initializerlist())
             value.data_type = DataType.int
         else:
             default = None
-            if ctx.assign() is not None:
+            if ctx.Assign() is not None:
                 default = "NULL"
                 if ctx.Identifier(1) is not None:
                     default = str(ctx.Identifier(1))
-- 
2.43.0


From dd7de27f9cde30e8fa69beb609a2669ed6087c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:33 +0000
Subject: [PATCH 12/62] fix: vector elements which are expressions, vector
 parameters given NULL, and parameter defaults which are operations or missing

---
 src/mccode_antlr/common/expression.py        | 35 +++++++++++++++++++-
 src/mccode_antlr/common/visitor.py           |  6 ++--
 src/mccode_antlr/instr/visitor.py            | 10 +++---
 src/mccode_antlr/translators/c_decls.py      |  5 +++
 src/mccode_antlr/translators/c_initialise.py |  2 +-
 5 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 172f736..4439732 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -256,6 +256,15 @@ class Op:
     def is_str(self):
         return self.data_type.is_str
 
+    @property
+    def mccode_c_type(self):
+        # the result of any operation is a single value
+        return self.data_type.mccode_c_type
+
+    @property
+    def mccode_c_type_name(self):
+        return Value(None, self.data_type, shape_type=ShapeType.scalar).mccode_c_type_name
+
     def is_value(self, other):
         return self == other
 
@@ -790,9 +799,14 @@ class Value:
     def special_str(self, prefix=None):
         if prefix is None:
             prefix = "_instrument_var._parameters."
+        if self.vector_known:
+            spec = f'prefix:{prefix}'
+            return '{' + ','.join(format(x, spec) if isinstance(x, (Value, Op)) else str(x) for x in self.value) + '}'
         return f'{prefix}{self.value}' if self.is_parameter else f'{self.value}'
 
     def _str_repr_(self):
+        if self.vector_known:
+            return '{' + ','.join(str(x) for x in self.value) + '}'
         return str(self.value)
 
     def __str__(self):
@@ -1074,12 +1088,27 @@ class Value:
             if isinstance(result, Expr) and result.is_singular:
                 return result.expr[0]
             return result
+        if self._has_nodes:
+            return self._map_nodes(lambda x: x.evaluate(known))
         return self
 
+    @property
+    def _has_nodes(self):
+        """An initializer list can have expressions as elements"""
+        return isinstance(self.value, (list, tuple)) and any(isinstance(x, (Value, Op)) for x in self.value)
+
+    def _map_nodes(self, function):
+        values = [function(x) if isinstance(x, (Value, Op)) else x for x in self.value]
+        return Value(values, self.data_type, self.object_type, self.shape_type)
+
     def depends_on(self, name: str):
+        if self._has_nodes:
+            return any(x.depends_on(name) for x in self.value if isinstance(x, (Value, Op)))
         return not self.is_constant and self.value == name
 
     def copy(self):
+        if self._has_nodes:
+            return self._map_nodes(lambda x: x.copy())
         return Value(self.value, self.data_type, self.object_type, self.shape_type)
 
     def __contains__(self, value):
@@ -1093,7 +1122,11 @@ class Value:
         return self.value == value
 
     def verify_parameters(self, instrument_parameter_names: list[str]):
-        if self.is_id and self.value in instrument_parameter_names:
+        if self._has_nodes:
+            for x in self.value:
+                if isinstance(x, (Value, Op)):
+                    x.verify_parameters(instrument_parameter_names)
+        elif self.is_id and self.value in instrument_parameter_names:
             self._object = ObjectType.parameter
 
 
diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index 0f26a38..414f306 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -153,11 +153,13 @@ def visitExpressionFunctionCall(obj, ctx):
 
 def visitInitializerlist(obj, ctx):
     # `ctx.values` is not exposed by speedy-antlr-tool
-    values = [obj.visit(x).expr[0].value for x in ctx.expr()]
+    nodes = [obj.visit(x).simplify().expr[0] for x in ctx.expr()]
+    # plain numbers, or the expression which has to be evaluated at runtime
+    values = [x if x.is_op or x.is_id else x.value for x in nodes]
     return Expr(Value(values, object_type=ObjectType.initializer_list, shape_type=ShapeType.vector))
 
 def visitExpressionString(obj, ctx):
-    strings = ''.join(str(sl).strip('"') for sl in ctx.StringLiteral())
+    strings = ''.join(str(sl)[1:-1] for sl in ctx.StringLiteral())
     return Expr.str(f'"{strings}"')
 
 
diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index d9e06d1..047cdcd 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -189,14 +189,16 @@ class InstrVisitor(McInstrVisitor):
         return name, value
 
     def visitInstanceParameterNull(self, ctx: McInstrParser.InstanceParameterNullContext):
-        from ..common import DataType
+        from ..common import Value, ShapeType
         name = str(ctx.Identifier())
-        value = Expr.str('NULL')
         default = self.current_comp.get_parameter(name)
         if default is None:
             raise RuntimeError(f'{name} is not a known DEFINITION or SETTING parameter for {self.current_comp.name}')
-        if DataType.undefined == value.data_type:
-            value.data_type = default.value.data_type
+        if default.value.is_vector:
+            # a NULL pointer, not an empty string
+            value = Expr(Value('NULL', data_type=default.value.data_type, shape_type=ShapeType.vector))
+        else:
+            value = Expr.str('NULL')
         return name, value
 
     def visitInstanceParameterVector(self, ctx: McInstrParser.InstanceParameterVectorContext):
diff --git a/src/mccode_antlr/translators/c_decls.py b/src/mccode_antlr/translators/c_decls.py
index 65c713e..47c6605 100644
--- a/src/mccode_antlr/translators/c_decls.py
+++ b/src/mccode_antlr/translators/c_decls.py
@@ -14,6 +14,7 @@ from loguru import logger
 
 
 def declarations_pre_libraries(source, typedefs: list, component_declared_parameters: dict):
+    from ..common import Expr
     warnings = 0
 
     def instrument_parameters_struct():
@@ -62,6 +63,10 @@ def declarations_pre_libraries(source, typedefs: list, component_declared_parame
     def instrument_parameters_table():
         def nps(x):
             """`None`-protected (single) double-quoted string"""
+            if isinstance(x, Expr):
+                # the text is read at runtime, so any operation must be performed now
+                x = x.simplify()
+                x = None if not x.is_op and not x.has_value and not x.is_id else x
             z = '' if x is None else f'{x}'
             if z == '"':
                 logger.info('single double-quote found in parameter value -- escaping to avoid C syntax error')
diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index 31ec1cf..ace33a0 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -136,7 +136,7 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
                 c_type = par.value.mccode_c_type.translate(str.maketrans('', '', ' *'))  # strip the trailing ' *'
                 pl.append(f'  {fullname} = calloc(sizeof({c_type}), {len(p.value.value)});')
                 for i, v in enumerate(p.value.value):
-                    pl.append(f'  {fullname}[{i}] = {v};')
+                    pl.append(f'  {fullname}[{i}] = {v if isinstance(v, (int, float)) else format(v, "p")};')
             elif p.value.is_id:
                 pl.append(f'  {fullname} = {value};')
             else:
-- 
2.43.0


From cb2e89148dbac43b2bc6a95a8d210bd026d0bd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 13/62] fix: string and vector parameters can be given
 conditional expressions

---
 src/mccode_antlr/common/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 4439732..f90016f 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -829,7 +829,7 @@ class Value:
     def compatible(self, other, id_ok=False):
         if isinstance(other, Expr) and other.is_singular:
             other = other.expr[0]
-        if isinstance(other, (UnaryOp, BinaryOp)):
+        if isinstance(other, Op):
             return id_ok
         value = other if isinstance(other, Value) else Value.best(other)
         return (id_ok and value.is_str) or (self.data_type.compatible(value.data_type) and self.shape_type.compatible(value.shape_type))
-- 
2.43.0


From 50cc809b2f96b30c6f989f3ff22f6582b3275d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:17 +0000
Subject: [PATCH 14/62] fix: reading back a printed instrument adds line breaks
 to its C blocks and METADATA values, and fails for quoted METADATA names

---
 src/mccode_antlr/common/textwrap.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/textwrap.py b/src/mccode_antlr/common/textwrap.py
index eee8687..4426fdd 100644
--- a/src/mccode_antlr/common/textwrap.py
+++ b/src/mccode_antlr/common/textwrap.py
@@ -132,7 +132,10 @@ class TextWrapper(BaseWrapper):
         return '*/'
 
     def block(self, name: str, content: str) -> str:
-        return '\n'.join([name + '\n%{\n', content + '\n%}\n'])
+        # only add the line breaks which are missing, so that reading and printing again does not add more
+        head = '' if content.startswith('\n') else '\n'
+        tail = '' if content.endswith('\n') else '\n'
+        return f'{name}\n%{{{head}{content}{tail}%}}\n'
 
     def line(self, name: str, items: list[str], sep: str = ' ') -> str:
         items = [item or 'None' for item in items]
@@ -147,7 +150,9 @@ class TextWrapper(BaseWrapper):
 
     @staticmethod
     def metadata_group(name: str, mimetype: str, item: str, value: str) -> str:
-        return f'{name} "{mimetype}" {item} \n%{{\n{value}\n%}}\n'
+        # the value is part of the metadata, and can not be surrounded by extra line breaks
+        item = item if item.startswith('"') else f'"{item}"'
+        return f'{name} "{mimetype}" {item} %{{{value}%}}\n'
 
     @staticmethod
     def datatype(data_type: str) -> str:
-- 
2.43.0


From 9df5dfe158ca66ab83031c0af1cd87ca6d65e531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:17 +0000
Subject: [PATCH 15/62] fix: print instrument parameter defaults which are
 operations

---
 src/mccode_antlr/common/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/parameters.py b/src/mccode_antlr/common/parameters.py
index 0c9f9c6..705569c 100644
--- a/src/mccode_antlr/common/parameters.py
+++ b/src/mccode_antlr/common/parameters.py
@@ -21,7 +21,7 @@ class InstrumentParameter:
         line = wrapper.datatype(line) + wrapper.parameter(self.name)
         if self.unit is not None:
             line += wrapper.unit(self.unit)
-        if self.value.has_value:
+        if self.value.is_op or self.value.has_value:
             line += "=" + wrapper.value(self.value)
         print(line, file=output)
 
-- 
2.43.0


From de3c64ab55f565304dbca65585ea06196f413091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:17 +0000
Subject: [PATCH 16/62] fix: print REMOVABLE and SPLIT, and separate component
 modifiers from the component line

---
 src/mccode_antlr/instr/instance.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index ea63424..4083967 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -38,8 +38,12 @@ class Instance:
         return f'Instance({self.name}, {self.type.name})'
 
     def to_file(self, output, wrapper=None, full=True):
+        if self.removable:
+            print(wrapper.line('REMOVABLE', []), file=output, end='')
         if self.cpu:
             print(wrapper.line('CPU', []), file=output, end='')
+        if self.split is not None:
+            print(wrapper.line('SPLIT', [wrapper.escape(str(self.split))]) + ' ', file=output, end='')
 
         instance_parameters = wrapper.hide(', '.join(p.to_string(wrapper=wrapper) for p in self.parameters))
         line = wrapper.bold('COMPONENT') + f' {self.name} = {self.type.name}({instance_parameters}) '
@@ -62,6 +66,8 @@ class Instance:
         if not full:
             return  # Skip the rest of the output
 
+        if self.group is not None or self.extend or self.jump or self.metadata:
+            print(file=output)
         if self.group is not None:
             print(wrapper.line('GROUP', [self.group]), file=output)
         if self.extend:
-- 
2.43.0


From ee8a9b6fc6294788dd6c369e562a7dffb974935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:17 +0000
Subject: [PATCH 17/62] fix: print the target of a JUMP, when it starts with a
 keyword or has been resolved

---
 src/mccode_antlr/instr/jump.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/instr/jump.py b/src/mccode_antlr/instr/jump.py
index 261b35a..fbcb636 100644
--- a/src/mccode_antlr/instr/jump.py
+++ b/src/mccode_antlr/instr/jump.py
@@ -11,13 +11,12 @@ class Jump:
     absolute_target: int = -1
 
     def to_file(self, output, wrapper):
-        # self.target is one of "PREVIOUS", "PREVIOUS_{i}, "MYSELF", "MYSELF_{i}, "NEXT",
+        # self.target is one of "PREVIOUS", "PREVIOUS_{i}, "MYSELF", "NEXT", "NEXT_{i}",
         # or "{component instance identifier}"
         jump_name = self.target
-        if '_' in jump_name and (jump_name.startswith('PREVIOUS') or jump_name.startswith('NEXT')):
-            jump_name = jump_name.split('_')[0]
-        if abs(self.relative_target) > 1:
-            jump_name += f' ({abs(self.relative_target)})'
+        keyword, _, count = jump_name.partition('_')
+        if keyword in ('PREVIOUS', 'NEXT') and count.isdigit():
+            jump_name = f'{keyword} ({count})'
         when_iter = 'ITERATE' if self.iterate else 'WHEN'
         print(wrapper.line('JUMP', [jump_name, when_iter, str(self.condition)]), file=output)
 
-- 
2.43.0


From 16c59ea55b222173de7dd8da94360798ad670d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:17 +0000
Subject: [PATCH 18/62] fix: the dependencies of components are not repeated
 when a printed instrument is read

---
 src/mccode_antlr/loader/loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/loader.py b/src/mccode_antlr/loader/loader.py
index 5aaffce..bbf8774 100644
--- a/src/mccode_antlr/loader/loader.py
+++ b/src/mccode_antlr/loader/loader.py
@@ -22,7 +22,9 @@ def parse_mccode_instr(contents: str, registries: list[Registry], source: str =
     reader = Reader(registries=registries)
     visitor = InstrVisitor(reader, source or '<string>')
     instr = visitor.visitProg(McInstr_parse(InputStream(contents), 'prog'))
-    instr.flags += tuple(reader.c_flags)
+    # the printed form of an instrument has the flags of its components, too
+    present = ' '.join(' '.join(instr.flags).split())
+    instr.flags += tuple(f for f in reader.c_flags if ' '.join(f.split()) not in present)
     instr.registries += tuple(registries)
     return instr
 
-- 
2.43.0


From c340aff8111630b50c1b7b3863c73f3d18196385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 19/62] fix: operations with a data type, rotation parts in
 radian, instance modes, and in-memory registries are kept in HDF5 files

---
 src/mccode_antlr/io/hdf5.py | 38 ++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 808f0fc..e0fa5b8 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -83,6 +83,7 @@ class DataSourceIO:
 class InstanceIO:
     from mccode_antlr.comp import Comp
     from mccode_antlr.instr import Instance
+    from mccode_antlr.common import Mode
     attrs = ('name', 'removable', 'cpu', 'group')
     names = ('orientation', 'parameters', 'split', 'when', 'extend', 'jump', 'metadata')
 
@@ -107,11 +108,14 @@ class InstanceIO:
         if ref is not None and ref not in instances:
             raise ValueError(f"Unknown instance reference {ref}")
         values['rotate_relative'] = (ang, instances.get(ref) if ref is not None else None)
+        if 'mode' in group.attrs:
+            values['mode'] = InstanceIO.Mode[group.attrs['mode']]
         return InstanceIO.Instance(**values)
 
     @staticmethod
     def save(group, data: Instance, **kwargs):
         _standard_save(InstanceIO.Instance, group, data, InstanceIO.attrs, InstanceIO.names, **kwargs)
+        group.attrs['mode'] = data.mode.name
         # type, at_relative, rotate_relative should be _references_ to other HDF5 objects?
         # Maybe we can get away with only keeping their names, since those are unique in the instrument
         # component _type_ name:
@@ -220,6 +224,24 @@ class LocalRegistryIO:
             group.attrs['root'] = data.root.as_posix()
 
 
+class InMemoryRegistryIO:
+    from mccode_antlr.reader.registry import InMemoryRegistry
+
+    @staticmethod
+    def load(group, **kwargs) -> InMemoryRegistry:
+        values = _standard_read(InMemoryRegistryIO.InMemoryRegistry, group, ('name', 'priority'), (), (), **kwargs)
+        registry = InMemoryRegistryIO.InMemoryRegistry(values['name'], priority=int(values['priority']))
+        for name, definition in zip(HDF5IO.load(group['names']), HDF5IO.load(group['definitions'])):
+            registry.add(name, definition)
+        return registry
+
+    @staticmethod
+    def save(group, data, **kwargs):
+        _standard_save(InMemoryRegistryIO.InMemoryRegistry, group, data, ('name', 'priority'), (), **kwargs)
+        HDF5IO.save(group=group.create_group('names'), data=tuple(data.components.keys()))
+        HDF5IO.save(group=group.create_group('definitions'), data=tuple(data.components.values()))
+
+
 def _seitz_part_io(actual_type):
     class _RotationPartIO:
         @staticmethod
@@ -228,11 +250,13 @@ def _seitz_part_io(actual_type):
             v = HDF5IO.load(group['v'], **kwargs)
             if v is None:
                 raise ValueError(f"Could not load v for {actual_type}")
-            return actual_type(v=v)
+            return actual_type(v=v, **{name: bool(group.attrs[name]) for name in ('degrees',) if name in group.attrs})
 
         @staticmethod
         def save(group, data, **kwargs):
             _write_header(group, actual_type)
+            if hasattr(data, 'degrees'):
+                group.attrs['degrees'] = data.degrees
             if data.v is not None:
                 HDF5IO.save(group=group.create_group('v'), data=data.v, **kwargs)
 
@@ -263,7 +287,7 @@ def _op_io(typename, fields: list[str]):
     class _OpIO:
         @staticmethod
         def load(group, **kwargs) -> typename:
-            from mccode_antlr.common.expression import DataType
+            from mccode_antlr.common.expression import DataType, ShapeType
             _check_header(group, typename)
             attrs = {name: group.attrs.get(name) for name in ('op', 'style', 'data_type_name')}
             values = {name: HDF5IO.load(group[name], **kwargs) for name in fields}
@@ -271,9 +295,10 @@ def _op_io(typename, fields: list[str]):
                 raise ValueError(f"Could not load values for {typename}")
             op = typename(attrs['op'], **values)
             op.style = attrs['style']
-            if op.data_type != DataType.from_name(attrs['data_type_name']):
-                raise ValueError(
-                    f"Loaded {typename} with data type {op.data_type}, but expected {attrs['data_type_name']}")
+            # The type can have been set after the operation was constructed, e.g., for an instrument parameter
+            op.data_type = DataType.from_name(attrs['data_type_name'])
+            if 'shape_type_name' in group.attrs:
+                op.shape_type = ShapeType.from_name(group.attrs['shape_type_name'])
             return op
 
         @staticmethod
@@ -283,6 +308,8 @@ def _op_io(typename, fields: list[str]):
                 if getattr(data, name) is not None:
                     group.attrs[name] = getattr(data, name)
             group.attrs['data_type_name'] = data.data_type.name
+            if hasattr(data, 'shape_type'):
+                group.attrs['shape_type_name'] = data.shape_type.name
             for name in fields:
                 if getattr(data, name) is not None:
                     HDF5IO.save(group=group.create_group(name), data=getattr(data, name), **kwargs)
@@ -412,6 +439,7 @@ class HDF5IO:
         'ModuleRemoteRegistry': RemoteRegistryIO(ModuleRemoteRegistry),
         'GitHubRegistry': RemoteRegistryIO(GitHubRegistry),
         'LocalRegistry': LocalRegistryIO,
+        'InMemoryRegistry': InMemoryRegistryIO,
         'ComponentParameter': _dataclass_io(ComponentParameter, attrs=('name',), required=('value',)),
         'Comp': _dataclass_io(Comp, attrs=('name', 'category', 'dependency', 'acc'),
                               optional=('define', 'setting', 'output', 'metadata', 'share', 'user',
-- 
2.43.0


From 2e7b4643c5eb33763ac54c583a1e745941d3aa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:51 +0000
Subject: [PATCH 20/62] fix: copied instances own their parameters, jumps and
 blocks, and jump targets are found anew

---
 src/mccode_antlr/common/parameters.py  |  3 +++
 src/mccode_antlr/instr/instance.py     | 15 ++++++++++-----
 src/mccode_antlr/instr/jump.py         |  4 ++++
 src/mccode_antlr/translators/target.py | 11 ++++++-----
 4 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/mccode_antlr/common/parameters.py b/src/mccode_antlr/common/parameters.py
index 705569c..e19bb50 100644
--- a/src/mccode_antlr/common/parameters.py
+++ b/src/mccode_antlr/common/parameters.py
@@ -66,6 +66,9 @@ class ComponentParameter:
     def to_file(self, output, wrapper):
         print(wrapper.parameter(self.name) + '=' + wrapper.value(self.value), file=output)
 
+    def copy(self):
+        return ComponentParameter(self.name, self.value.copy())
+
     def compatible_value(self, value):
         return self.value.compatible(value, id_ok=True)
 
diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 4083967..8b56dcb 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -97,10 +97,10 @@ class Instance:
         # from copy import deepcopy
         # copy each of: parameters, extend, group, jump, when, metadata
         return cls(name, ref.type, at, rotate,
-                   parameters=tuple([par for par in ref.parameters]),
+                   parameters=tuple([par.copy() for par in ref.parameters]),
                    when=ref.when, group=ref.group,
                    extend=tuple([ext for ext in ref.extend]),
-                   jump=tuple([jmp for jmp in ref.jump]),
+                   jump=tuple([jmp.copy() for jmp in ref.jump]),
                    metadata=tuple([md for md in ref.metadata]),
                    mode=ref.mode)
 
@@ -233,10 +233,15 @@ class Instance:
         return tuple(md.values())
 
     def copy(self):
+        def duplicate(x):
+            return x if x is None else x.copy()
+
         return Instance(self.name, self.type, self.at_relative, self.rotate_relative,
-                        orientation=self.orientation, parameters=self.parameters,
-                        removable=self.removable, cpu=self.cpu, split=self.split, when=self.when,
-                        group=self.group, extend=self.extend, jump=self.jump, metadata=self.metadata)
+                        orientation=self.orientation, parameters=tuple(x.copy() for x in self.parameters),
+                        removable=self.removable, cpu=self.cpu, split=duplicate(self.split), when=duplicate(self.when),
+                        group=self.group, extend=tuple(x.copy() for x in self.extend),
+                        jump=tuple(x.copy() for x in self.jump), metadata=tuple(x.copy() for x in self.metadata),
+                        mode=self.mode)
 
     def parameter_used(self, name: str):
         if any([name in par.value for par in self.parameters]):
diff --git a/src/mccode_antlr/instr/jump.py b/src/mccode_antlr/instr/jump.py
index fbcb636..699d3a1 100644
--- a/src/mccode_antlr/instr/jump.py
+++ b/src/mccode_antlr/instr/jump.py
@@ -20,5 +20,9 @@ class Jump:
         when_iter = 'ITERATE' if self.iterate else 'WHEN'
         print(wrapper.line('JUMP', [jump_name, when_iter, str(self.condition)]), file=output)
 
+    def copy(self):
+        # the absolute target depends on where the component is, and is not copied
+        return Jump(self.target, self.relative_target, self.iterate, self.condition.copy())
+
     def __contains__(self, value):
         return value in self.condition
diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index 20b615c..3a2f196 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -143,6 +143,8 @@ class TargetVisitor:
                 return self.output
             self.output.close()
         self.output = StringIO()
+        self.info('determine groups')
+        self.source.determine_groups()
         self.info('visit header')
         self.visit_header()
         self.info('visit declare')
@@ -219,13 +221,12 @@ class TargetVisitor:
     def set_jump_absolute_targets(self):
         for index, jump in [(i, j) for i, c in enumerate(self.source.components) for j in c.jump]:
             # jump is a dataclass with 'target', 'index', 'iterate', 'condition', and 'actual_target_index'
-            if jump.absolute_target > -1:
-                # Somewhere/something already set the actual target index -- we don't have a choice but to trust it
-                continue
             if jump.relative_target == 0 and jump.target.lower() != 'myself':
                 # the target is another named component:
-                jump.absolute_target = [i for i, c in enumerate(self.source.components) if jump.target == c.name][0]
-                jump.relative_target = jump.absolute_target - index
+                targets = [i for i, c in enumerate(self.source.components) if jump.target == c.name]
+                if len(targets) != 1:
+                    raise RuntimeError(f'JUMP target {jump.target} is not a component of {self.source.name}')
+                jump.absolute_target = targets[0]
             else:
                 jump.absolute_target = index + jump.relative_target
 
-- 
2.43.0


From 399588e482be11ccf9c5ddd14fe79eda73ba1074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:51 +0000
Subject: [PATCH 21/62] fix: split and copied instruments are self-contained
 and keep symbolic placement

---
 src/mccode_antlr/instr/instr.py       | 31 +++++++++++++++++++++------
 src/mccode_antlr/instr/orientation.py | 28 ++++++++++++++++++++++++
 2 files changed, 52 insertions(+), 7 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 0acb67b..c9ac0c6 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -198,6 +198,8 @@ class Instr:
         self.metadata += (m,)
 
     def determine_groups(self):
+        # start anew, since the components can have changed
+        self.groups = {}
         for id, inst in enumerate(self.components):
             if inst.group:
                 if inst.group not in self.groups:
@@ -308,7 +310,7 @@ class Instr:
         """Return a copy of this instrument, optionally with only a subset of components"""
         from copy import deepcopy
         copy = Instr(self.name, self.source)
-        copy.parameters = tuple(x for x in self.parameters)
+        copy.parameters = tuple(x.copy() for x in self.parameters)
         copy.metadata = tuple(x.copy() for x in self.metadata)
         if last < 0:
             last += 1 + len(self.components)
@@ -319,7 +321,12 @@ class Instr:
         copy.initialize = tuple(x.copy() for x in self.initialize)
         copy.save = tuple(x.copy() for x in self.save)
         copy.final = tuple(x.copy() for x in self.final)
-        copy.groups = {k: v.copy() for k, v in self.groups.items()}
+        # references to copied components have to be to the copies
+        copied = {id(x): y for x, y in zip(self.components[first:last], copy.components)}
+        for x in copy.components:
+            x.at_relative = x.at_relative[0], copied.get(id(x.at_relative[1]), x.at_relative[1])
+            x.rotate_relative = x.rotate_relative[0], copied.get(id(x.rotate_relative[1]), x.rotate_relative[1])
+        copy.determine_groups()
         copy.flags = tuple(x for x in self.flags)
         copy.registries = tuple(x for x in self.registries)
         return copy
@@ -342,6 +349,7 @@ class Instr:
             The first Instr has components up to and including the split-point.
             The second Instr has components starting from the split-point.
         """
+        from .orientation import in_c_units
         if isinstance(at, Instance):
             index = self.components.index(at)
         elif isinstance(at, str):
@@ -366,12 +374,12 @@ class Instr:
                 if second.has_component_named(at_rel.name):
                     instance.at_relative = instance.at_relative[0], second.get_component(at_rel.name)
                 else:
-                    instance.at_relative = instance.orientation.position(), None
+                    instance.at_relative = in_c_units(instance.orientation.position()), None
             if isinstance(rot_rel, Instance):
                 if second.has_component_named(rot_rel.name):
                     instance.rotate_relative = instance.rotate_relative[0], second.get_component(rot_rel.name)
                 else:
-                    instance.rotate_relative = instance.orientation.angles(), None
+                    instance.rotate_relative = in_c_units(instance.orientation.angles()), None
         if second.check_instrument_parameters(remove=remove_unused_parameters) and not remove_unused_parameters:
             logger.info(f'Instrument {second.name} has unused instrument parameters')
 
@@ -389,7 +397,7 @@ class Instr:
             component = reader.get_component(component)
             self.flags += tuple(reader.c_flags)
         self.components += (Instance(name, component, at_relative, rotate_relative, orientation,
-                                     parameters, group, removable),)
+                                     parameters, removable=removable, group=group),)
 
     def mcpl_split(self,
                    after,
@@ -412,7 +420,7 @@ class Instr:
         first, second = self.split(after, remove_unused_parameters=remove_unused_parameters)
         mcpl_filename = InstrumentParameter.parse(f'string mcpl_filename = {filename}')
         first.add_parameter(mcpl_filename)
-        second.add_parameter(mcpl_filename)
+        second.add_parameter(mcpl_filename.copy())
 
         fc = first.components[-1]
         if fc.type.name != 'Arm':
@@ -452,6 +460,15 @@ class Instr:
         second.make_instance(sc.name, input_component, sc.at_relative, sc.rotate_relative, parameters=input_parameters)
         # move the newly added component to the front of the list:
         second.components = (second.components[-1],) + second.components[:-1]
+        # and use it where the replaced component was a reference:
+        for instance in second.components[1:]:
+            if instance.at_relative[1] is sc:
+                instance.at_relative = instance.at_relative[0], second.components[0]
+            if instance.rotate_relative[1] is sc:
+                instance.rotate_relative = instance.rotate_relative[0], second.components[0]
+        # the replaced components can have been part of a group
+        first.determine_groups()
+        second.determine_groups()
 
         return first, second
 
@@ -460,7 +477,7 @@ class Instr:
         for instance in self.components:
             if instance.parameter_used(name):
                 return True
-        for section in (self.declare, self.initialize, self.save, self.final):
+        for section in (self.declare, self.user, self.initialize, self.save, self.final):
             for block in section:
                 # A more complex check would see if the use itself leads to a parameter being used, but
                 # that would be language dependent and probably not worth the effort.
diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index 6e51271..d823b3c 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -356,6 +356,34 @@ def sin_value(v: Expr, degrees=True):
     return unary_expr(sin_degree if degrees else sin, 'sin', v)
 
 
+def in_c_units(values):
+    """Express the trigonometric functions of degrees in a vector or set of angles by the C functions of radian
+
+    The sine, cosine, and inverse functions which arise from combining rotations are operations on degrees, as opposed to
+    _calls_ to the C functions of the same name in an expression provided by the user.
+    """
+    from ..common import UnaryOp, BinaryOp, TrinaryOp, Value
+
+    def convert(node):
+        if isinstance(node, UnaryOp):
+            value = [convert(x) for x in node.value]
+            if node.op in ('sin', 'cos'):
+                value = [BinaryOp('*', Value.id('DEG2RAD'), value)]
+            out = UnaryOp(node.op, value)
+        elif isinstance(node, BinaryOp):
+            out = BinaryOp(node.op, [convert(x) for x in node.left], [convert(x) for x in node.right])
+        elif isinstance(node, TrinaryOp):
+            parts = ([convert(x) for x in part] for part in (node.first, node.second, node.third))
+            out = TrinaryOp(node.op, *parts)
+        else:
+            return node
+        out.style = node.style
+        out.data_type = node.data_type
+        return BinaryOp('*', Value.id('RAD2DEG'), out) if node.op in ('acos', 'atan2') else out
+
+    return type(values)(*(Expr([convert(x) for x in v.expr]) for v in values))
+
+
 def atan2_value(va: Expr, vb: Expr, degrees=True):
     from math import atan2
     return [binary_expr(atan2_degree if degrees else atan2, 'atan2', va, vb)]
-- 
2.43.0


From 80f7d08c9942a7b482363d0cd893e02e60033eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 22/62] fix: file names are resolved to whole path components,
 and SEARCH and in-memory instruments are found

---
 src/mccode_antlr/instr/visitor.py   | 16 +++++++-----
 src/mccode_antlr/loader/loader.py   |  3 ++-
 src/mccode_antlr/reader/reader.py   |  6 +++--
 src/mccode_antlr/reader/registry.py | 40 ++++++++++++++++++++---------
 4 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index 047cdcd..e89ebeb 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -350,18 +350,20 @@ class InstrVisitor(McInstrVisitor):
 
     def visitShell(self, ctx: McInstrParser.ShellContext):
         from subprocess import run
-        args = str(ctx.StringLiteral()).split(' ')
-        run(args, shell=True, check=True)
+        # the command is the literal string without its quotes
+        run(str(ctx.StringLiteral())[1:-1], shell=True, check=True)
 
     def visitSearchPath(self, ctx: McInstrParser.SearchPathContext):
-        self.parent.handle_search_keyword(str(ctx.StringLiteral()))
+        # the specification is the literal string without its quotes
+        self.parent.handle_search_keyword(str(ctx.StringLiteral())[1:-1])
 
     def visitSearchShell(self, ctx: McInstrParser.SearchShellContext):
         from subprocess import run
-        args = str(ctx.StringLiteral()).split()
-        res = run(args, shell=True, capture_output=True, check=True)
-        for specs in res.stdout.decode().split('\n'):
-            self.parent.handle_search_keyword(specs)
+        # the command is the literal string without its quotes
+        res = run(str(ctx.StringLiteral())[1:-1], shell=True, capture_output=True, check=True)
+        for specs in res.stdout.decode().splitlines():
+            if specs.strip():
+                self.parent.handle_search_keyword(specs)
 
     # TODO Make this and the identical list of visitors in comp/visitor.py a single definition ... somehow
     # FIXME There *are* no statements in McCode, so all identifiers always produce un-parsable values.
diff --git a/src/mccode_antlr/loader/loader.py b/src/mccode_antlr/loader/loader.py
index bbf8774..168f049 100644
--- a/src/mccode_antlr/loader/loader.py
+++ b/src/mccode_antlr/loader/loader.py
@@ -25,7 +25,8 @@ def parse_mccode_instr(contents: str, registries: list[Registry], source: str =
     # the printed form of an instrument has the flags of its components, too
     present = ' '.join(' '.join(instr.flags).split())
     instr.flags += tuple(f for f in reader.c_flags if ' '.join(f.split()) not in present)
-    instr.registries += tuple(registries)
+    # include any registry added by a SEARCH statement
+    instr.registries += tuple(reader.registries)
     return instr
 
 
diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index c9c35da..f339444 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -155,8 +155,10 @@ class Reader:
         if path.exists() and path.is_file():
             source = path.read_text()
         else:
-            path = self.locate(path.name)  # include the .instr for the search
-            source = self.contents(path.name)
+            # include the .instr for the search
+            source = self.contents(path.name, strict=True)
+            # an instrument held in memory has no path
+            path = self.locate(path.name, strict=True) or path
         filename = str(path.resolve())
 
         stream = InputStream(source)
diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 8ff0fc5..0be5b75 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -96,6 +96,11 @@ def _name_plus_suffix(name: str, suffix: str = None):
     return path.as_posix()
 
 
+def _is_or_ends_with(path: str, name: str):
+    """Check for equality with the path or its last part(s); 'Arm.comp' is not the end of 'optics/SuperArm.comp'"""
+    return path == name or path.endswith(f'/{name}')
+
+
 def find_registry_file(name: str):
     """Find a registry file in the mccode_antlr package"""
     from importlib.resources import files
@@ -137,16 +142,17 @@ class RemoteRegistry(Registry):
     def known(self, name: str, ext: str = None, strict: bool = False):
         compare = _name_plus_suffix(name, ext)
         # the files *in* the registry are already posix paths, so that makes life easier
-        if any(x.endswith(compare) for x in self.pooch.registry_files):
+        if any(_is_or_ends_with(x, compare) for x in self.pooch.registry_files):
             return True
-        # fall back to matching without the extension:
-        if any(Path(x).with_suffix('').as_posix().endswith(compare) for x in self.pooch.registry_files):
+        # fall back to matching without the extension, if none was given:
+        if not Path(compare).suffix and any(_is_or_ends_with(Path(x).with_suffix('').as_posix(), compare)
+                                            for x in self.pooch.registry_files):
             return True
         # Or matching *any* file that contains name
         return False if strict else any(name in x for x in self.pooch.registry_files)
 
     def unique(self, name: str):
-        return sum(name in x for x in self.pooch.registry_files) == 1
+        return sum(_is_or_ends_with(x, name) for x in self.pooch.registry_files) == 1
 
     def fullname(self, name: str, ext: str = None, exact: bool = True):
         compare = _name_plus_suffix(name, ext)
@@ -155,9 +161,9 @@ class RemoteRegistry(Registry):
         for registry_file in self.pooch.registry_files:
             if registry_file == compare:
                 return registry_file
-        # second step, exact match to filename:
+        # second step, exact match to filename (or the end of the path):
         for registry_file in self.pooch.registry_files:
-            if Path(registry_file).parts[-1] == compare:
+            if _is_or_ends_with(registry_file, compare):
                 return registry_file
         # fall back to matching without the extension:
         if not exact:
@@ -312,15 +318,17 @@ class LocalRegistry(Registry):
         is_compare = list(self._exact_file_iterator(compare))
         if len(is_compare) == 1:
             return is_compare[0]
+        if not exact:
+            ends_with_compare = list(self._file_iterator(compare))
+            if len(ends_with_compare) == 1:
+                return ends_with_compare[0]
+            if len(ends_with_compare) > 1:
+                raise RuntimeError(f'More than one match for {name}:{ext}, which is required of:\n{ends_with_compare}')
         # Complete match if name happens to be missing the extension
         is_name = list(self._exact_file_iterator(name))
         if len(is_name) == 1:
             return is_name[0]
         if not exact:
-            from loguru import logger
-            ends_with_compare = list(self._file_iterator(compare))
-            if len(ends_with_compare) == 1:
-                return ends_with_compare[0]
             # Complete match if name happens to be missing the extension
             ends_with_name = list(self._file_iterator(name))
             if len(ends_with_name) == 1:
@@ -340,7 +348,7 @@ class LocalRegistry(Registry):
         return self.root.joinpath(self.fullname(name, ext, exact))
 
     def filenames(self) -> list[str]:
-        return [str(x) for x in self.root.glob('**')]
+        return [x.relative_to(self.root).as_posix() for x in self.root.glob('**/*') if x.is_file()]
 
     def __eq__(self, other):
         if not isinstance(other, Registry):
@@ -380,6 +388,9 @@ class InMemoryRegistry(Registry):
         full_name = name if ext is None else name + ext
         return full_name if full_name in self.components else None
 
+    def unique(self, name: str):
+        return self.known(name)
+
     def known(self, name: str, ext: str | None = None, strict: bool = False):
         full_name = self.fullname(name, ext=ext)
         if full_name is not None and full_name in self.components:
@@ -428,6 +439,11 @@ def registry_from_specification(spec: str):
     if isinstance(spec, Registry):
         return spec
     parts = spec.split()
+    # the path to a folder can contain spaces
+    folder = spec.strip()
+    folder = folder[1:-1] if folder.startswith('"') and folder.endswith('"') else folder
+    if folder and Path(folder).is_dir():
+        parts = [folder]
     if len(parts) == 0:
         return None
     elif len(parts) == 1:
@@ -450,7 +466,7 @@ def registry_from_specification(spec: str):
     if not simple_url_validator(p2, file_ok=True):
         return None
 
-    if Path(p3).exists() and Path(p3).is_file():
+    if p3 is not None and Path(p3).exists() and Path(p3).is_file():
         return ModuleRemoteRegistry(p1, p2, Path(p3).resolve().as_posix())
 
     if p4 is not None:
-- 
2.43.0


From 2b6be72c709d6bd122fbef3e4c276e0b6b29ad92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 23/62] fix: %include of libraries: cyclic requests, order of
 libraries, requests by source files, and in-memory files

---
 src/mccode_antlr/translators/c.py      | 116 ++++++++++---------------
 src/mccode_antlr/translators/target.py |   4 +-
 2 files changed, 49 insertions(+), 71 deletions(-)

diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index 262b0be..3084f04 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -12,84 +12,55 @@ class CInclude:
     name: str
     order: int
     content: str = ''
-    root: str = ''
+    nested: bool = False  # requested by another library
 
     def __hash__(self):
-        return hash(self.parent + self.name + self.content + self.root)
+        return hash(self.parent + self.name + self.content)
 
     def __str__(self):
-        return f'{self.root}:{self.parent}({self.order}):{self.name}'
-
-    def __lt__(self, other):
-        if self.parent == other.parent:
-            return self.order > other.order
-        if self.root or other.root:
-            if self.parent == self.root or self.parent == other.root:
-                return True
-            if other.parent == self.root or other.parent == other.root:
-                return False
-        if self.parent == other.name:
-            return False
-        if other.parent == self.name:
-            return True
-        return self.name < other.name
+        return f'{self.parent}({self.order}):{self.name}'
 
 
 def sort_include_hierarchy(includes: list[CInclude]):
-    if len(includes) == 0:
-        return []
+    """Pick one request for each library, ordered such that libraries come after those which they request themselves"""
     logger.debug(f'sort includes {" ".join(str(x) for x in includes)}')
-    # find the 'root' of the tree, a parent which is _not_ a named include:
-    roots = list(set([x.parent for x in includes]).difference(set([x.name for x in includes])))
-    options = {}
-    for root in roots:
-        for include in includes:
-            include.root = root
-        # Sort the includes such that if A includes B and C, and C includes B, then we get [C:B, A:C, A:B]
-        # Or a more complicated case: G:(Z,A,W), Z:(B,Y), A:X, W(Y) -> [Z:Y, W:Y, A:X, B:W, Z:B, G:A, G:Z, G:W]
-        used, output = [], []
-        for include in sorted(includes, reverse=True):
-            if include.name not in used:
-                output.append(include)
-                used.append(include.name)
-        # Reduce output to [C:B, A:C], or [Z:Y, A:X, B:W, Z:B, G:A, G:Z], which would include the libraries correctly
-        # Double check, that the include order does not _directly_ contradict one of the include directives:
-        order = [x.name for x in output]
-        contradicts = False
-        for include in includes:
-            if include.parent in order and include.name in order:
-                parent_at = [index for index, name in enumerate(order) if name == include.parent][0]
-                name_at = [index for index, name in enumerate(order) if name == include.name][0]
-                if name_at > parent_at:
-                    contradicts = True
-        if not contradicts:
-            logger.debug(f"sorted to {'  '.join(order)}")
-            options[root] = output
-    if len(options) == 0:
-        raise RuntimeError(f'No valid sorting of {includes=}')
-    # Maybe there's a case where the specified root matters?
-    return list(options.values())[0]
+    requests, output, visited = {}, [], set()
+    for include in includes:
+        if include.nested:
+            requests.setdefault(include.parent, []).append(include)
+
+    def insert(library: CInclude):
+        if library.name in visited:
+            return
+        visited.add(library.name)
+        for other in sorted(requests.get(library.name, []), key=lambda x: x.order):
+            insert(other)
+        output.append(library)
+
+    # start from the requests outside of libraries
+    for include in sorted(includes, key=lambda x: x.nested):
+        insert(include)
+    logger.debug(f"sorted to {'  '.join(x.name for x in output)}")
+    return output
 
 
 class CTargetVisitor(TargetVisitor, target_language='c'):
     def _file_contents(self, filename, preserve_escapes=False):
-        # First try the McCode C runtime libraries:
-        path = self.include_path(filename)
-        # Then any registries used in reading the file(s)
-        if not path.is_file() and self.known(filename):
-            path = self.locate(filename)
-        if not path.is_file():
+        # Try any registries used in reading the file(s), which include the McCode C runtime libraries
+        registry = next((reg for reg in self.registries if reg.known(filename, strict=True)), None)
+        if registry is None:
             raise RuntimeError(f"Can not include the file {filename} because it is not locatable")
-        with path.open('r') as file:
-            lines = [line.strip('\n') for line in file.readlines()]
+        lines = registry.contents(filename).split('\n')
+        if lines[-1] == '':
+            lines = lines[:-1]
         if preserve_escapes:
             lines = [line.encode('unicode-escape').decode('utf-8') for line in lines]
         return '\n'.join(lines)
 
-    def _handle_raw_c_include(self, parent: str, raw_c: str):
+    def _handle_raw_c_include(self, parent: str, raw_c: str, within: tuple[str, ...] = ()):
         import re
         re_lib = re.compile(r'^\s*%include\s*"(?P<libname>[^"\n\.]+)"\s*$', re.MULTILINE)
-        re_inc = re.compile(r'^\s*%include\s*"(?P<filename>[^"\n]+)"\s*$', re.MULTILINE)
+        re_inc = re.compile(r'^\s*%include\s*"(?P<filename>[^"\n\.]*\.[^"\n]*)"\s*$', re.MULTILINE)
         # Include statements without an extension are library includes (.h, plus .c if embedding the runtime)
         # McCode3 would insert the library immediately on first-encounter, but we want to collect all libraries
         # and ensure they're included before all components.
@@ -99,12 +70,17 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
         # *erase* the library includes from the block:
         raw_c = re.sub(re_lib, '', raw_c)
 
+        # Libraries can request each other, there is nothing more to do for the ones which are being included already
+        libraries = [lib for lib in libraries if lib not in within]
+
         # We must look through the to-be-included code *now* to see if it *also* includes more libraries.
-        includes = [CInclude(parent=parent, name=lib, order=index, content=self._file_contents(f'{lib}.h'))
+        includes = [CInclude(parent=parent, name=lib, order=index, content=self._file_contents(f'{lib}.h'),
+                             nested=len(within) > 0)
                     for index, lib in enumerate(libraries)]
         new_includes = []
         for include in includes:
-            found_includes, include.content = self._handle_raw_c_include(include.name, include.content)
+            found_includes, include.content = self._handle_raw_c_include(include.name, include.content,
+                                                                         within + (include.name,))
             if found_includes:
                 new_includes.extend(found_includes)
                 new_includes = list(dict.fromkeys(new_includes))
@@ -132,7 +108,7 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
             matches = list(re_inc.finditer(raw_c))
 
         if count:
-            found_includes, raw_c = self._handle_raw_c_include(parent, raw_c)
+            found_includes, raw_c = self._handle_raw_c_include(parent, raw_c, within)
             if len(found_includes):
                 includes.extend(found_includes)
                 includes = list(dict.fromkeys(includes))
@@ -332,14 +308,15 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
         self.info(f'include {source} source')
         # c files can %include *more* files! If the specified files have already been included, there's nothing
         # to do. Otherwise, panic.
-        lib_names = [lib.name for lib in self.includes]
         c_name = f'{source.name}.c'
-        c_libraries, c_content = self._handle_raw_c_include(c_name, self._file_contents(c_name))
-        for c_lib in [c_lib for c_lib in c_libraries if c_lib.name not in lib_names]:
-            logger.info(f'{c_name} requested {c_lib.name} but is has not been included yet!')
-            self.include_header(c_lib)
-            self.include_source(c_lib)
-            #self.includes.append(c_lib)
+        c_libraries, c_content = self._handle_raw_c_include(c_name, self._file_contents(c_name), (source.name,))
+        for c_lib in sort_include_hierarchy([x for x in c_libraries if x.name not in self.included_libraries]):
+            # which can have been included because of the source of another one
+            if c_lib.name not in self.included_libraries:
+                logger.info(f'{c_name} requested {c_lib.name} but is has not been included yet!')
+                self.included_libraries.append(c_lib.name)
+                self.include_header(c_lib)
+                self.include_source(c_lib)
         self.out(f'/* Contents of {source.name}.c (requested from {source.parent}) */')
         self.out(c_content)
 
@@ -349,6 +326,7 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
 
         if len(self.includes):
             self.out("/* %include libraries from instrument and component definitions */")
+        self.included_libraries = [include.name for include in self.includes]
         for include in self.includes:
             self.include_header(include)
 
diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index 3a2f196..f2546e0 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -57,12 +57,12 @@ class TargetVisitor:
         if self.registries is None:
             return False
         registries = self.registries if which is None else [x for x in self.registries if x.name in which]
-        return any([reg.known(name) for reg in registries])
+        return any([reg.known(name, strict=True) for reg in registries])
 
     def locate(self, name: str, which: str = None):
         registries = self.registries if which is None else [x for x in self.registries if x.name in which]
         for reg in registries:
-            if reg.known(name):
+            if reg.known(name, strict=True):
                 return reg.path(name)
         names = [reg.name for reg in registries]
         msg = "registry " + names[0] if len(names) == 1 else 'registries: ' + ','.join(names)
-- 
2.43.0


From f6a190a83ec9512d10e756d7630c35a9f634295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 24/62] fix: ranges include their stop value despite rounding,
 refuse to be empty, and scans keep names and accept lists and plain values

---
 src/mccode_antlr/run/range.py | 38 +++++++++++++++++------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index b56f36b..342de7d 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -16,6 +16,8 @@ class MRange:
                              f'`list(MRange)` will be empty! Use a `Singular({self.start}, 1)` range instead.')
         if self.step == 0:
             raise ZeroDivisionError('MRange step cannot be zero')
+        if (self.stop > self.start) != (self.step > 0):
+            raise ValueError(f'MRange {self} is empty, since its step leads away from its stop value')
 
     def __eq__(self, other):
         return self.start == other.start and self.stop == other.stop and self.step == other.step
@@ -29,14 +31,7 @@ class MRange:
         return self.stop
 
     def __iter__(self):
-        def range_gen(start, stop, step):
-            v = start
-            i = 0
-            while (step > 0 and v + step <= stop) or (step < 0 and v + step >= stop):
-                v = i * step + start
-                i += 1
-                yield v
-        return range_gen(self.start, self.stop, self.step)
+        return (self[i] for i in range(len(self)))
 
     def __getitem__(self, index: int):
         if index < 0 or index >= len(self):
@@ -50,7 +45,10 @@ class MRange:
         return f'MStyleRange({self})'
 
     def __len__(self):
-        return int((self.stop - self.start) / self.step) + 1
+        # the stop value is included even if, e.g., (0.3 - 0) / 0.1 is slightly smaller than 3
+        steps = (self.stop - self.start) / self.step
+        nearest = round(steps)
+        return (nearest if abs(steps - nearest) <= 1e-9 * max(nearest, 1) else int(steps)) + 1
 
     @classmethod
     def from_str(cls, string):
@@ -163,13 +161,15 @@ def parameters_to_scan(parameters: dict[str, Union[list, MRange, Singular]], gri
     :parameter parameters: A dictionary of ranged parameters.
     :parameter grid: Controls how the parameters are iterated; True implies a grid scan, False implies a linear scan.
     """
-    if grid:
-        for k, v in parameters.items():
-            if isinstance(v, Singular):
-                parameters[k] = Singular(v.value, 1)
-
-    names = [x.lower() for x in parameters.keys()]
-    values = [x if hasattr(x, '__iter__') else [x] for x in parameters.values()]
+    names = list(parameters)
+    values = []
+    for v in parameters.values():
+        if isinstance(v, Singular):
+            # a repeated value has no extent of its own in a grid, and as many values as needed if not specified
+            v = [v.value] * (1 if grid or v.maximum is None else v.maximum)
+        elif isinstance(v, str) or not hasattr(v, '__iter__'):
+            v = [v]
+        values.append(list(v))
     if not len(values):
         return 0, names, []
     elif grid:
@@ -179,15 +179,15 @@ def parameters_to_scan(parameters: dict[str, Union[list, MRange, Singular]], gri
         n_pts = prod([len(v) for v in values])
         return n_pts, names, product(*values)
     else:
-        # replace singular MRange entries with Singular iterators, to avoid stopping the zip early:
         n_max = max([len(v) for v in values])
         for i, v in enumerate(values):
-            if len(v) > 1 and len(v) != n_max:
+            if len(v) != 1 and len(v) != n_max:
                 oth = [names[i] for i, n in enumerate(values) if len(n) == n_max]
                 par = 'parameters' if len(oth) > 1 else 'parameter'
                 have = 'have' if len(oth) > 1 else 'has'
                 raise ValueError(f'Parameter {names[i]} has {len(v)} values, but {par} {", ".join(oth)} {have} {n_max}')
-        return n_max, names, zip(*[v if len(v) > 1 else Singular(v[0] if isinstance(v, MRange) else v.value, n_max) for v in values])
+        # repeat single values, to avoid stopping the zip early:
+        return n_max, names, zip(*[v if len(v) == n_max else v * n_max for v in values])
 
 
 def _MRange_or_Singular(s: str):
-- 
2.43.0


From ba8c1187bad3ddc2d62702c2aa66746c142710d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 25/62] fix: scans run every point with its values and options,
 and commands and functions can start compiled and changed instruments

---
 src/mccode_antlr/compiler/c.py |  4 +-
 src/mccode_antlr/run/runner.py | 68 +++++++++++++++-------------------
 2 files changed, 31 insertions(+), 41 deletions(-)

diff --git a/src/mccode_antlr/compiler/c.py b/src/mccode_antlr/compiler/c.py
index c84b0a0..83dd362 100644
--- a/src/mccode_antlr/compiler/c.py
+++ b/src/mccode_antlr/compiler/c.py
@@ -276,7 +276,7 @@ def compile_instrument(
     return compile_c_instrument(instrument, target, output, replace, dump_source, **kwargs)
 
 
-def run_compiled_instrument(binary: Path, target: CBinaryTarget, options: str, capture=False, dry_run: bool = False):
+def run_compiled_instrument(binary: Path, target: CBinaryTarget, options: Union[str, list], capture=False, dry_run: bool = False):
     from subprocess import run, CalledProcessError
     from platform import system
     from mccode_antlr.config import config
@@ -310,7 +310,7 @@ def run_compiled_instrument(binary: Path, target: CBinaryTarget, options: str, c
         raise RuntimeError(f'Can not execute {binary} since it does not exist.')
 
     # In normal operation, the binary is provided with options
-    command.extend([str(binary), *options.split()])
+    command.extend([str(binary), *(options.split() if isinstance(options, str) else options)])
     # which we then execute:
     if dry_run:
         logger.info(f'Would execute {command}')
diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 0a09363..d941749 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -49,28 +49,12 @@ def mccode_runtime_dict_to_args_list(args: dict) -> list[str]:
     return out
 
 
+def mccode_runtime_parameters_list(args: dict, params: dict) -> list[str]:
+    return mccode_runtime_dict_to_args_list(args) + [f'{k}={v}' for k, v in params.items()]
+
+
 def mccode_runtime_parameters(args: dict, params: dict) -> str:
-    first = ' '.join(mccode_runtime_dict_to_args_list(args))
-    second = ' '.join(f'{k}={v}' for k, v in params.items())
-    return f'{first} {second}'
-
-
-def sort_args(args: list[str]) -> list[str]:
-    """Take the list of arguments and sort them into the correct order for McCode run."""
-    # TODO this is a bit of a hack, but it works for now
-    first, last = [], []
-    k = 0
-    while k < len(args):
-        if args[k].startswith('-'):
-            first.append(args[k])
-            k += 1
-            if '=' not in first[-1] and k < len(args) and not args[k].startswith('-') and '=' not in args[k]:
-                first.append(args[k])
-                k += 1
-        else:
-            last.append(args[k])
-            k += 1
-    return first + last
+    return ' '.join(mccode_runtime_parameters_list(args, params))
 
 
 def mccode_run_script_parser(prog: str):
@@ -120,10 +104,9 @@ def print_version_information():
 
 
 def parse_mccode_run_script(prog: str):
-    import sys
     from .range import parse_scan_parameters
-    sys.argv[1:] = sort_args(sys.argv[1:])
-    args = mccode_run_script_parser(prog).parse_args()
+    # options can be given before, between and after the instrument and its parameters
+    args = mccode_run_script_parser(prog).parse_intermixed_args()
     parameters = parse_scan_parameters(args.parameters)
     return args, parameters
 
@@ -147,12 +130,14 @@ def mccode_compile(instr, directory, generator, target: dict | None = None, conf
     return binary, def_target
 
 
-def mccode_run_compiled(binary, target, directory: Path | str, parameters: str, capture: bool = True, dry_run: bool = False):
+def mccode_run_compiled(binary, target, directory: Path | str, parameters: str | list[str], capture: bool = True, dry_run: bool = False):
     from mccode_antlr.compiler.c import run_compiled_instrument
     from mccode_antlr.loader import read_mccode_dat
     from pathlib import Path
 
-    result = run_compiled_instrument(binary, target, f'--dir {directory} {parameters}', capture=capture, dry_run=dry_run)
+    # a list keeps arguments which contain spaces in one piece
+    arguments = parameters.split() if isinstance(parameters, str) else list(parameters)
+    result = run_compiled_instrument(binary, target, ['--dir', str(directory), *arguments], capture=capture, dry_run=dry_run)
     sim_files = list(Path(directory).glob('**/*.dat'))
     dats = {file.stem: read_mccode_dat(file) for file in sim_files}
     return result, dats
@@ -168,6 +153,7 @@ def mccode_run_scan(name: str, binary, target, parameters, directory, grid: bool
     if directory is None:
         from datetime import datetime
         directory = Path(f'{name}{datetime.now().strftime("%Y%m%d_%H%M%S")}')
+    directory = Path(directory)
 
     # if there is only one point, we don't need to scan
     if n_pts > 1:
@@ -177,14 +163,13 @@ def mccode_run_scan(name: str, binary, target, parameters, directory, grid: bool
             # TODO Use the following line instead of the one after it when McCode is fixed to use zero-padded folder names
             # # runtime_arguments['dir'] = args["dir"].joinpath(str(number).zfill(n_zeros))
             this_directory = directory.joinpath(str(number))
-            pars = mccode_runtime_parameters(r_args, parameters)
+            pars = mccode_runtime_parameters_list(args, dict(zip(names, values)))
             r, d = mccode_run_compiled(binary, target, this_directory, pars, capture=capture, dry_run=dry_run)
             results.append((r, d))
         return results
     else:
         directory.parent.mkdir(parents=True, exist_ok=True)
-        print(parameters)
-        pars = mccode_runtime_parameters(args, parameters)
+        pars = mccode_runtime_parameters_list(args, dict(zip(names, next(iter(scan), ()))))
         return mccode_run_compiled(binary, target, directory, pars, capture=capture, dry_run=dry_run)
 
 
@@ -196,8 +181,10 @@ def mccode_run(instrument, generator, parameters, directory: str | Path, binary_
                ):
     from os import access, R_OK
     from datetime import datetime
+    from mccode_antlr.compiler.c import CBinaryTarget
     if not isinstance(directory, Path):
         directory = Path(directory)
+    directory.mkdir(parents=True, exist_ok=True)
     if binary_name is not None:
         binary_path = directory.joinpath(binary_name)
     else:
@@ -210,6 +197,8 @@ def mccode_run(instrument, generator, parameters, directory: str | Path, binary_
     if not binary_path.exists():
         config = {'enable_trace': trace, 'embed_instrument_file': source, 'verbose': verbose}
         binary_path, target = mccode_compile(instrument, binary_path, generator, target=target, config=config)
+    else:
+        target = CBinaryTarget(**target)
 
     runtime = dict(
         seed=seed,
@@ -223,7 +212,7 @@ def mccode_run(instrument, generator, parameters, directory: str | Path, binary_
     )
     out_dir = directory.joinpath(f'{instrument.name}{datetime.now().strftime("%Y%m%d_%H%M%S")}')
 
-    mccode_run_scan(instrument.name, binary_path, target, parameters, out_dir, mesh, **runtime)
+    return mccode_run_scan(instrument.name, binary_path, target, parameters, out_dir, mesh, **runtime)
 
 
 def mccode_run_cmd(flavor: str, registry: Registry, generator: dict):
@@ -245,7 +234,7 @@ def mccode_run_cmd(flavor: str, registry: Registry, generator: dict):
     target = dict(
         mpi=args.parallel,
         acc=args.gpu,
-        count=args.process_count,
+        count=args.process_count[0] if isinstance(args.process_count, list) else args.process_count,
         nexus=False
     )
     runtime = dict(
@@ -260,7 +249,8 @@ def mccode_run_cmd(flavor: str, registry: Registry, generator: dict):
     )
     # check if the filename is actually a compiled instrument already:
     if args.output_file is None and filename.exists() and access(filename, X_OK):
-        binary = filename
+        from mccode_antlr.compiler.c import CBinaryTarget
+        binary, target = filename, CBinaryTarget(**target)
         name = filename.stem
     elif not filename.exists() or not access(filename, R_OK):
         raise RuntimeError(f'{filename} does not exist or is not readable')
@@ -283,7 +273,9 @@ def mccode_run_cmd(flavor: str, registry: Registry, generator: dict):
         name = instrument.name
         # Generate the C binary for the instrument -- will output to, e.g., {instrument.name}.out, in the current directory
         # unless if output_file was specified
-        binary, target = mccode_compile(instrument, args.output_file, generator, target=target, config=config)
+        # the instrument could have been changed since a binary was produced from it
+        binary, target = mccode_compile(instrument, args.output_file, generator, target=target, config=config,
+                                        replace=True)
 
     if not len(parameters):
         from loguru import logger
@@ -306,13 +298,11 @@ def mcxtrace_cmd():
     mccode_run_cmd('mcxtrace', MCXTRACE_REGISTRY, MCXTRACE_GENERATOR)
 
 
-def mcstas_run(instrument, directory):
-    from mccode_antlr.reader import MCSTAS_REGISTRY
+def mcstas_run(instrument, directory, parameters: dict | None = None, **kwargs):
     from mccode_antlr.translators.target import MCSTAS_GENERATOR
-    mccode_run(instrument, directory, MCSTAS_REGISTRY, MCSTAS_GENERATOR)
+    return mccode_run(instrument, MCSTAS_GENERATOR, parameters or {}, directory, **kwargs)
 
 
-def mcxtrace_run(instrument, directory):
-    from mccode_antlr.reader import MCXTRACE_REGISTRY
+def mcxtrace_run(instrument, directory, parameters: dict | None = None, **kwargs):
     from mccode_antlr.translators.target import MCXTRACE_GENERATOR
-    mccode_run(instrument,  directory, MCXTRACE_REGISTRY, MCXTRACE_GENERATOR)
+    return mccode_run(instrument, MCXTRACE_GENERATOR, parameters or {}, directory, **kwargs)
-- 
2.43.0


From c350ffe88afea5f75f381f206cb7b8c8f0b77f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 26/62] fix: monitor files with as many bins as variables,
 errors of combined files, and combining what belongs together

---
 src/mccode_antlr/loader/datfile.py | 82 ++++++++++++++++++------------
 1 file changed, 50 insertions(+), 32 deletions(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index 7fa3107..6a6a9eb 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -25,12 +25,14 @@ class DatFileCommon:
         with source.open('r') as file:
             lines = file.readlines()
 
-        header = [x.strip(' #\n') for x in filter(lambda x: x[0] == '#', lines)]
+        lines = [x for x in lines if x.strip()]
+        header = [x[1:].strip() for x in filter(lambda x: x[0] == '#', lines)]
+        header = [x for x in header if ':' in x]
         meta = {k.strip(): v.strip() for k, v in
-                [x.split(':', 1) for x in filter(lambda x: not x.startswith('Param'), header)]}
+                [x.split(':', 1) for x in filter(lambda x: not x.startswith('Param:'), header)]}
         parm = {k.strip(): v.strip() for k, v in
-                [x.split(':', 1)[1].split('=', 1) for x in filter(lambda x: x.startswith('Param'), header)]}
-        var = meta.get('variables', '').split(' ')
+                [x.split(':', 1)[1].split('=', 1) for x in filter(lambda x: x.startswith('Param:'), header)]}
+        var = meta.get('variables', '').split()
         data = array([[float(x) for x in line.strip().split()] for line in filter(lambda x: x[0] != '#', lines)])
         return cls(source, meta, parm, var, data)
 
@@ -79,7 +81,7 @@ class DatFileCommon:
         if not self.safe_to_combine(other):
             raise RuntimeError('Cannot combine these two dat files')
         metadata = combine_scan_dicts(self.metadata, other.metadata)
-        parameters = combine_scan_dicts(self.parameters, other.parameters)
+        parameters = combine_scan_parameters(self.parameters, other.parameters)
         variables = combine_scan_lists(self.variables, other.variables)
         data = combine_scan_data(self.data, other.data)
         return DatFileCommon(Path(), metadata, parameters, variables, data)
@@ -87,12 +89,11 @@ class DatFileCommon:
 
 def dim_metadata(length, label_unit, lower_limit, upper_limit) -> dict:
     from numpy import linspace
-    label = label_unit.split(' ', 1)[0]
-    unit = label_unit.split(' ', 1)[1].strip('[] ')
+    label, _, unit = [x.strip('] ') for x in label_unit.partition('[')]
     if '\\gms' == unit:
         unit = 'microseconds'
-    bin_width = (upper_limit - lower_limit) / (length - 1)
-    boundaries = linspace(lower_limit - bin_width / 2, upper_limit + bin_width / 2, length + 1)
+    # the limits are the outer edges of the first and last bin
+    boundaries = linspace(lower_limit, upper_limit, length + 1)
     return dict(lenght=length, label=label, unit=unit, bin_boundaries=boundaries)
 
 
@@ -122,7 +123,7 @@ class DatFile0D(DatFileCommon):
         return first, second
 
     def safe_to_combine(self, other):
-        if not isinstance(other, DatFile1D):
+        if not isinstance(other, DatFile0D):
             return False
         if self.variables != other.variables:
             return False
@@ -132,7 +133,7 @@ class DatFile0D(DatFileCommon):
 
     def __add__(self, other):
         both = super().__add__(other)
-        return DatFile1D(both.source, both.metadata, both.parameters, both.variables, both.data)
+        return DatFile0D(both.source, both.metadata, both.parameters, both.variables, both.data)
 
 
 @dataclass
@@ -245,7 +246,17 @@ def read_mccode_dat(filename: str | Path):
         ndim, data_type = 2, DatFile2D
     if ndim < 0 or ndim > 2:
         raise RuntimeError(f'Unexpected number of dimensions: {ndim}')
-    return data_type(common.source, common.metadata, common.parameters, common.variables, common.data)
+    data = common.data
+    if ndim == 1:
+        # a file has one row per bin, which its shape can not tell if there are as many bins as variables
+        data = data.transpose((1, 0)) if data.shape[0] == data.shape[-1] == len(common.variables) else data
+    return data_type(common.source, common.metadata, common.parameters, common.variables, data)
+
+
+def combine_scan_parameters(a: dict, b: dict):
+    if a != b:
+        raise RuntimeError(f'Incompatible parameters {a} and {b}')
+    return dict(a)
 
 
 def combine_scan_dicts(a: dict, b: dict):
@@ -253,23 +264,31 @@ def combine_scan_dicts(a: dict, b: dict):
     c = deepcopy(a)
     special_add = 'Ncount',
     special_concatenate = 'Directory', 'filename', 'Date', 'Seed'
-    special_ignore = 'signal', 'statistics', 'values'
+    special_ignore = 'signal', 'statistics'
     for k, v in b.items():
-        if any(s in k for s in special_add):
+        if k not in c:
+            raise RuntimeError(f'Unexpected key {k} in {b}')
+        elif k in special_add:
             c[k] = int(c[k]) + int(v)
-        elif any(s in k for s in special_concatenate):
-            if v not in c[k]:
+        elif k in special_concatenate:
+            if f' {v} ' not in f' {c[k]} ':
                 c[k] = f'{c[k]} {v}'
-        elif any(s in k for s in special_ignore):
+        elif k in special_ignore:
             pass
-        elif k in c:
-            if c[k] != v:
-                raise RuntimeError(f'Incompatible values for "{k}": {c[k]} and {v}')
-        else:
-            raise RuntimeError(f'Unexpected key {k} in {b}')
+        elif k == 'values':
+            c[k] = combine_scan_values(c[k], v)
+        elif c[k] != v:
+            raise RuntimeError(f'Incompatible values for "{k}": {c[k]} and {v}')
     return c
 
 
+def combine_scan_values(a: str, b: str):
+    """Combine the integrated intensity, error, and event count of two repeats"""
+    from math import hypot
+    intensity, error, counts = [(float(x), float(y)) for x, y in zip(a.split(), b.split())]
+    return f'{sum(intensity)} {hypot(*error)} {sum(counts):.15g}'
+
+
 def combine_scan_lists(a: list, b: list):
     if a != b:
         raise RuntimeError(f'Incompatible lists {a} and {b}')
@@ -277,19 +296,18 @@ def combine_scan_lists(a: list, b: list):
 
 
 def combine_scan_data(a: ndarray, b: ndarray):
+    from numpy import hypot
     if a.shape != b.shape:
         raise RuntimeError(f'Incompatible shapes {a.shape} and {b.shape}')
-    if a.ndim == 2:
-        from copy import deepcopy
-        # variables are _always_ (?) (..., I, I_err, N)
-        c = deepcopy(a)
-        c[-3:, :] = a[-3:, :] + b[-3:, :]
-        return c
-    elif a.ndim == 3:
-        # but 3-D _only_ contains (I, I_err, N)
-        return a + b
-    else:
+    if a.ndim not in (1, 2, 3):
         raise RuntimeError(f'Unexpected number of dimensions: {a.ndim}')
+    # the last three variables are _always_ (?) (..., I, I_err, N); there are no others if zero- or two-dimensional
+    c = a.copy()
+    c[-3] = a[-3] + b[-3]
+    # repeats are independent of each other
+    c[-2] = hypot(a[-2], b[-2])
+    c[-1] = a[-1] + b[-1]
+    return c
 
 
 def combine_mccode_dats(dats: list):
-- 
2.43.0


From e52f0885890dc70ca7556a6a2a5e6b004b0422a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 27/62] fix: combined simulation summaries: error of the
 intensity, repeats in their own folders, and folders which are part of
 another name

---
 src/mccode_antlr/loader/simfile.py | 72 +++++++++++++++---------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index 5e77c39..a6b48f8 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -15,6 +15,11 @@ def read_keywords(lines: list[str], keywords: list[str], delim: str = None):
         yield value.strip()
 
 
+def join_unique(first: str, second: str) -> str:
+    """The different entries of two values, which could already be combined ones"""
+    return ' + '.join(dict.fromkeys(first.split(' + ') + second.split(' + ')))
+
+
 @dataclass
 class SimFileHeader:
     description: str
@@ -42,14 +47,9 @@ class SimFileHeader:
         return other.description in self.description and other.Date in self.Date and other.Program in self.Program
 
     def combine(self, other):
-        if other in self:
-            return self
-        if self in other:
-            return other
-        # combine from the right, so self.description might already have other.description in it
-        desc = self.description if other.description in self.description else f'{self.description} + {other.description}'
-        date = self.Date if other.Date in self.Date else f"{self.Date} + {other.Date}"
-        program = self.Program if other.Program in self.Program else f"{self.Program} + {other.Program}"
+        desc = join_unique(self.description, other.description)
+        date = join_unique(self.Date, other.Date)
+        program = join_unique(self.Program, other.Program)
         return SimFileHeader(description=desc, Date=date, Program=program)
 
 
@@ -96,14 +96,9 @@ class SimFileInstrument:
             other.Default_main == self.Default_main and other.Embedded_runtime == self.Embedded_runtime
 
     def combine(self, other):
-        if other in self:
-            return self
-        if self in other:
-            return other
-        # combine from the right, so self.name might already have other.name in it
-        name = self.name if other.name in self.name else f'{self.name} + {other.name}'
-        file = self.File if other.File in self.File else f"{self.File} + {other.File}"
-        source = self.Source if other.Source in self.Source else f"{self.Source} + {other.Source}"
+        name = join_unique(self.name, other.name)
+        file = join_unique(self.File, other.File)
+        source = join_unique(self.Source, other.Source)
         # parameters are a bit different in that we want their ordered union:
         pars = dict.fromkeys([p.strip() for p in self.Parameters.split(' ')])
         pars.update(dict.fromkeys([p.strip() for p in other.Parameters.split(' ')]))
@@ -180,34 +175,38 @@ class SimFileSimulation:
         return other.name == self.name and other.Format == self.Format and other.URL == self.URL and \
             other.Creator == self.Creator and other.Instrument == self.Instrument and \
             other.Trace == self.Trace and other.Gravitation == self.Gravitation and \
-            other.Directory == self.Directory and all(p in self.Params for p in other.Params)
+            other.Directory == self.Directory and set(self.Params) == set(other.Params)
+
+    def is_repeat(self, other):
+        # Repeats are run in their own directories (which also name them), with their own seed and particle count
+        return other.Format == self.Format and other.URL == self.URL and \
+            other.Creator == self.Creator and other.Instrument == self.Instrument and \
+            other.Trace == self.Trace and other.Gravitation == self.Gravitation and \
+            set(self.Params) == set(other.Params)
 
     def combine(self, other):
         from copy import deepcopy
-        if other == self:
+        if self.is_repeat(other):
             # combining a repeat which was done to improve statistics
             out = deepcopy(self)
+            out.name = join_unique(self.name, other.name)
+            out.Directory = join_unique(self.Directory, other.Directory)
             out.Ncount += other.Ncount
             if other.Seed == self.Seed:
                 from loguru import logger
                 logger.warning('combining two simulations with the same seed is not statistically valid')
             return out
-        if other in self:
-            return self
-        elif self in other:
-            return other
-        # combine from the right, so self.name might already have other.name in it
-        name = self.name if other.name in self.name else f'{self.name} + {other.name}'
-        format = self.Format if other.Format in self.Format else f"{self.Format} + {other.Format}"
-        url = self.URL if other.URL in self.URL else f"{self.URL} + {other.URL}"
-        creator = self.Creator if other.Creator in self.Creator else f"{self.Creator} + {other.Creator}"
-        instrument = self.Instrument if other.Instrument in self.Instrument else f"{self.Instrument} + {other.Instrument}"
+        name = join_unique(self.name, other.name)
+        format = join_unique(self.Format, other.Format)
+        url = join_unique(self.URL, other.URL)
+        creator = join_unique(self.Creator, other.Creator)
+        instrument = join_unique(self.Instrument, other.Instrument)
         # TODO this is *not* a repeat. What do we do with the number of particles?
         ncount = min(self.Ncount, other.Ncount)
         trace = self.Trace and other.Trace
         gravitation = self.Gravitation and other.Gravitation
         seed = self.Seed if self.Seed == other.Seed else -1
-        directory = self.Directory if other.Directory in self.Directory else f"{self.Directory} + {other.Directory}"
+        directory = join_unique(self.Directory, other.Directory)
         params = dict.fromkeys(self.Params)
         params.update(dict.fromkeys(other.Params))
         params = list(params.keys())
@@ -313,7 +312,10 @@ class SimFileData:
         # The values line is always "{float} {float} {int}" which _I think_ is <intensity>, <error>, and event count
         s_intensity, s_error, s_counts = split_values(self.values)
         o_intensity, o_error, o_counts = split_values(other.values)
-        out.values = f"{s_intensity + o_intensity} {sqrt(s_error * s_error + o_error + o_error)} {s_counts + o_counts}"
+        out.values = f"{s_intensity + o_intensity} {sqrt(s_error * s_error + o_error * o_error)} {s_counts + o_counts}"
+
+        # without any counted event both are equally (un)important
+        s_weight, o_weight = (s_counts, o_counts) if s_counts + o_counts else (1, 1)
 
         # The signal line is always? "None" or "Min={float}; Max={float}; Mean={float};"
         # we can combine min and max, but not mean (without knowing the number of points)
@@ -322,7 +324,7 @@ class SimFileData:
         else:
             s_min, s_max, s_mean = split_signal(self.signal)
             o_min, o_max, o_mean = split_signal(other.signal)
-            mean_estimate = (s_mean * s_counts + o_mean * o_counts)/(s_counts + o_counts)
+            mean_estimate = (s_mean * s_weight + o_mean * o_weight)/(s_weight + o_weight)
             out.signal = f"Min={min(s_min, o_min)}; Max={max(s_max, o_max)}; Mean={mean_estimate};"
 
         # Statistics: one of "None", "X0={float}; dX={float};" or "X0={float}; dX={float}; Y0={float}; dY={float};"
@@ -337,11 +339,11 @@ class SimFileData:
             for d in ('X', 'Y'):
                 d0, dd = f'{d}0', f'd{d}'
                 if d0 in s_stats and d0 in o_stats:
-                    stats[d0] = (s_stats[d0] * s_counts + o_stats[d0] * o_counts)/(s_counts + o_counts)
+                    stats[d0] = (s_stats[d0] * s_weight + o_stats[d0] * o_weight)/(s_weight + o_weight)
                 if dd in s_stats and dd in o_stats:
-                    sd = s_stats[dd] * s_counts
-                    od = o_stats[dd] * o_counts
-                    stats[dd] = sqrt(sd * sd + od * od) / (s_counts + o_counts)
+                    sd = s_stats[dd] * s_weight
+                    od = o_stats[dd] * o_weight
+                    stats[dd] = sqrt(sd * sd + od * od) / (s_weight + o_weight)
             out.statistics = ' '.join([f"{k}={stats[k]};" for k in ['X0', 'dX', 'Y0', 'dY'] if k in stats])
         return out
 
-- 
2.43.0


From 70903fc9f1686c636dea19b8eaf42c26b8125363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 28/62] fix: initial values, sizes and types of variables
 declared by components

---
 src/mccode_antlr/translators/c_initialise.py |  15 +--
 src/mccode_antlr/translators/c_listener.py   | 127 ++++++++++++++-----
 2 files changed, 103 insertions(+), 39 deletions(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index ace33a0..fc39dd8 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -197,16 +197,15 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
     # >>> End of first call to `cogen_comp_init_par`
     # <<< Start of second call to `cogen_comp_init_par`: `cogen_comp_init_par(comp, instr, "PRIVATE")`
     for c_dec in component_declared_parameters[comp.type.name]:
-        # c_dec is a CDeclare named tuple with (name, type, init, is_pointer, is_array, orig)
+        # c_dec is a CDeclarator with (name, type, init, is_pointer, is_array, ...)
         initialized_value = 'NULL' if (c_dec.is_pointer and c_dec.init is None) else c_dec.init
+        if c_dec.is_array and c_dec.init is None:
+            continue
         fullname = f'_{comp.name}_var._parameters.{c_dec.name}'
-        if c_dec.is_array and initialized_value is not None:
-            for i, val in enumerate(initialized_value.strip('{}').split(',')):
-                lines.append(f'  {fullname}[{i}] = {val.strip()};')
-        # elif c_dec.is_struct and initialized_value is not None:
-        #     # deal with a structured initializer ...
-        #     # = {.x=#, .y=#, ...}
-        #     pass
+        if c_dec.is_array or (initialized_value is not None and initialized_value[0] in '{"'):
+            # only a declaration can have such an initializer, so declare the same variable here and copy its value
+            lines.append(f'  {{ {c_dec.as_struct_member()} = {initialized_value};')
+            lines.append(f'    memcpy(&{fullname}, &{c_dec.name}, sizeof({fullname})); }}')
         elif initialized_value is not None:
             lines.append(f'  {fullname} = {initialized_value};')
     # >>> End of second call to `cogen_comp_init_par`
diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 38e7d26..da3bfe5 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -60,6 +60,7 @@ class CFuncPointer:
     declare: TCDeclarator
     modifiers: str | None = None
     args: str | None = None
+    dims: str | None = None  # set for a pointer to an array instead of a function
 
     @property
     def name(self) -> str:
@@ -70,6 +71,7 @@ class CFuncPointer:
             declare=self.declare.copy(suffix=suffix),
             modifiers=self.modifiers,
             args=self.args,
+            dims=self.dims,
         )
 
     def __eq__(self, other: TCFuncPointer) -> bool:
@@ -79,10 +81,14 @@ class CFuncPointer:
             return False
         if not_both_None_or_not_equal(self.modifiers, other.modifiers):
             return False
+        if self.dims != other.dims:
+            return False
         return self.declare == other.declare
 
     def string(self, dec_str):
         f = f'({self.modifiers} {dec_str})' if self.modifiers else f'({dec_str})'
+        if self.dims:
+            return f'{f}{self.dims}'
         return f'{f}({self.args})' if self.args else f'{f}()'
 
     def __str__(self):
@@ -91,9 +97,12 @@ class CFuncPointer:
     def __hash__(self):
         return hash(str(self))
 
-    def as_struct_member(self, dims: int, max_array_length):
-        dec = self.declare.as_struct_member(dims=dims, max_array_length=max_array_length)
-        return self.string(dec)
+    def as_struct_member(self, dims: int, max_array_length, init: str | None = None):
+        declare = self.declare
+        if init is not None and isinstance(declare, CDeclarator):
+            declare = declare.copy()
+            declare.init = init
+        return self.string(declare.as_struct_member(dims=dims, max_array_length=max_array_length))
 
 
 @dataclass
@@ -169,24 +178,70 @@ class CDeclarator:
         return hash(str(self))
 
     def as_struct_member(self, dims: int = 0, max_array_length: int = 16384):
-        if self.init:
-            max_array_length = extract_initializer_size(self.init)
         dims = len(self.elements) if self.elements else 0
+        if self.init and self.elements is not None and 0 in self.elements:
+            # only the size of the first dimension follows from the initializer, but accept others too
+            max_array_length = (self._initialized_length(), *extract_initializer_size(self.init)[1:])
         mal = max_array_length if isinstance(max_array_length, tuple) else (max_array_length,)
         if len(mal) < dims:
-            mal *= dims // len(mal)
+            mal += mal[-1:] * (dims - len(mal))
         no = self.elements if self.elements else mal
         if not isinstance(no, tuple):
             raise RuntimeError(f'{no} should be a tuple but is a {type(no)}')
         if isinstance(self.declare, CFuncPointer):
-            return self.string(self.declare.as_struct_member(dims=dims, max_array_length=no))
+            return self.string(self.declare.as_struct_member(dims=dims, max_array_length=mal, init=self.init))
         elif self.elements is not None:
             if 0 in no:
                 # Is this a bad idea?
                 no = tuple(m if x == 0 else x for x, m in zip(no, mal))
-            return f"{self}{''.join(f'[{n}]' for n in no)}"
+            # the extensions of a declarator follow its dimensions
+            return self.string(f"{self.declare}{''.join(f'[{n}]' for n in no)}")
         return str(self)
 
+    def _initialized_length(self):
+        """The number of elements along the first dimension of an array which is initialized"""
+        items = initializer_items(self.init)
+        is_text = not self.is_pointer and 'char' in (self.dtype or '').split()
+        if len(self.elements) == 1 and is_text and len(items) == 1 and items[0][1].startswith('"'):
+            return f'sizeof({items[0][1]})'
+        index, most = 0, 0
+        for designated, item in items:
+            index = (index if designated is None else designated) + 1
+            most = max(most, index)
+        rows = any(item.startswith('{') or (is_text and item.startswith('"')) for _, item in items)
+        inner = [x for x in self.elements[1:] if x != 0]
+        if rows or not inner:
+            return most
+        if all(isinstance(x, int) for x in inner):
+            from math import prod
+            return -(-most // prod(inner))
+        inner = '*'.join(f'({x})' for x in inner)
+        return f'({most} + {inner} - 1)/({inner})'
+
+
+def initializer_items(init: str) -> list[tuple[int | None, str]]:
+    """Split an initializer into its top-level items, each with the (last) array index it is designated for, if any
+
+    >>> initializer_items('{1, (2, 3), "a,b", [7]={4, 5},}')
+    [(None, '1'), (None, '(2, 3)'), (None, '"a,b"'), (7, '{4, 5}')]
+    """
+    import re
+    token = re.compile(r'''/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|.''', re.DOTALL)
+    tokens = [t for t in token.findall(init.strip()) if not t.startswith(('/*', '//'))]
+    if not tokens or tokens[0] != '{':
+        return [(None, ''.join(tokens).strip())] if tokens else []
+    items, depth, item = [], 0, ''
+    for t in tokens[1:-1] + [',']:
+        if t == ',' and depth == 0:
+            items.append(item.strip())
+            item = ''
+            continue
+        depth += (t in ('{', '(', '[')) - (t in ('}', ')', ']'))
+        item += t
+    designator = re.compile(r'^\[\s*(?:\d+\s*\.\.\.\s*)?(\d+)\s*](?:\s*\[[^]]*])*\s*=\s*(.*)$', re.DOTALL)
+    matched = [(designator.match(item), item) for item in items if len(item)]
+    return [(int(m.group(1)), m.group(2)) if m else (None, item) for m, item in matched]
+
 
 def extract_initializer_size(init: str) -> tuple[int,...]:
     """Assuming that the provided initializer string is for an array, possibly
@@ -199,14 +254,12 @@ def extract_initializer_size(init: str) -> tuple[int,...]:
     >>> extract_initializer_size('{{{0}, {1}}, {{2}, {3}}, {{4}, {5}}, {{6}, {7}}}')
     (4, 2, 1)
     """
-    import re
     size = []
-    inner = re.compile('{([^{}]*)}')
-    x = init
-    while len(y:=inner.findall(x)):
-        size.append(len(y[0].split(',')))
-        x = inner.sub('_', x)
-    return tuple(reversed(size))
+    while init.startswith('{'):
+        items = initializer_items(init)
+        size.append(len(items))
+        init = items[0][1] if items else ''
+    return tuple(size)
 
 
 class DeclaresCVisitor(CVisitor):
@@ -239,19 +292,22 @@ class DeclaresCVisitor(CVisitor):
             #   typedef typeInformation aliasIdentifier;
             if specs[0] != 'typedef':
                 self.debug(f"Expected typedef ... identifier; not\n{literal_string(ctx)}")
-            if len(inits):
-                self.debug(f'Expected no initializer with typedef, but found {inits}')
-            alias = specs[-1]
-            if alias in self.typedefs:
-                self.info(f'Re-definition of typedef alias {alias}?')
-            self.typedefs.append(alias)
+            # pointer, array and function types have a declarator, otherwise the name is taken as one more type
+            for alias in [decl.name for decl, _ in inits] or [specs[-1]]:
+                if alias in self.typedefs:
+                    self.info(f'Re-definition of typedef alias {alias}?')
+                self.typedefs.append(alias)
         elif len(inits):
             for decl, init in inits:
                 decl.dtype = ' '.join(specs)
                 decl.init = init
                 self.declares.append(decl)
         elif len(specs) > 1:
-            decl = CDeclarator(pointer=None, declare=specs[-1], extensions=[])
+            # the name of the last variable is taken as one more type, and can be followed by its extensions
+            extensions = []
+            while len(specs) > 2 and specs[-1].startswith('__attribute__'):
+                extensions.insert(0, specs.pop())
+            decl = CDeclarator(pointer=None, declare=specs[-1], extensions=extensions)
             decl.dtype = ' '.join(specs[:-1])
             self.declares.append(decl)
 
@@ -270,7 +326,7 @@ class DeclaresCVisitor(CVisitor):
         if (c := ctx.typedefName()) is not None:
             return self.visit(c)
         if (c := ctx.constantExpression()) is not None:
-            return f'__typeof__({self.visit(c)}'
+            return f'__typeof__({self.visit(c)})'
         return literal_string(ctx)
 
     # Keep going from here
@@ -335,13 +391,14 @@ class DeclaresCVisitor(CVisitor):
                 nums += (num,)
                 if '[' in post:
                     _, post = post.split('[', 1)
-            try:
-                elements = tuple(int(n) if len(n) else 0 for n in nums)
-            except ValueError as er:
-                logger.info(f"Could not convert an integer from {nums} due to {er}")
-                elements = nums
+            dec = dec.strip()
+            # sizes which are not numbers, e.g., preprocessor definitions, are kept as they are
+            elements = tuple(int(n) if n.strip().isdecimal() and str(int(n)) == n.strip() else n.strip() or 0 for n in nums)
         return CDeclarator(pointer=ptr, declare=dec, extensions=extensions, elements=elements)
 
+    def visitGccDeclaratorExtension(self, ctx:CParser.GccDeclaratorExtensionContext):
+        return literal_string(ctx)
+
     def visitPointer(self, ctx:CParser.PointerContext):
         self.debug(f'pointer {literal_string(ctx)}')
         return literal_string(ctx)
@@ -350,15 +407,23 @@ class DeclaresCVisitor(CVisitor):
         if ctx.declarator():
             # this _is_ a function pointer declarator, right?
             modifiers = literal_string(ctx.vcSpecificModifer()) if ctx.vcSpecificModifer() else None
-            return CFuncPointer(self.visit(ctx.declarator()), modifiers=modifiers)
+            inner = self.visit(ctx.declarator())
+            if modifiers is None and isinstance(inner.declare, str) and not inner.is_pointer:
+                # no, only a name in parentheses
+                return inner.declare + ''.join(f'[{n or ""}]' for n in inner.elements or ())
+            return CFuncPointer(inner, modifiers=modifiers)
         if ctx.Identifier():
             return literal_string(ctx)
 
         dd = ctx.directDeclarator()
-        after_dd_str = literal_string(ctx).replace(literal_string(dd), '')
+        # both start at the same token
+        after_dd_str = literal_string(ctx)[len(literal_string(dd)):].strip()
         dec = self.visit(dd)
         if isinstance(dec, CFuncPointer):
-            dec.args = after_dd_str.strip('()')
+            if after_dd_str.startswith('['):
+                dec.dims = (dec.dims or '') + after_dd_str
+            else:
+                dec.args = after_dd_str[1:-1]
             return dec
         return dec + after_dd_str
 
-- 
2.43.0


From 5ee78aa9450e306912eba6182951f01587843604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:28 +0000
Subject: [PATCH 29/62] fix: user variables which are arrays, and different
 declarations of one name

---
 src/mccode_antlr/translators/c_header.py   | 2 +-
 src/mccode_antlr/translators/c_listener.py | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/translators/c_header.py b/src/mccode_antlr/translators/c_header.py
index 860b95b..3d6632c 100644
--- a/src/mccode_antlr/translators/c_header.py
+++ b/src/mccode_antlr/translators/c_header.py
@@ -38,7 +38,7 @@ def header_pre_runtime(
     # Also store these strings in the appropriate instrument list for later def/undef as state variables
 
     uservar_string = '//user variables and comp - injections:\n' if len(uservars) else ''
-    uservar_string += '\n'.join([f'  {x};' for x in uservars])
+    uservar_string += '\n'.join([f'  {x.as_struct_member()};' for x in uservars])
 
     members = list(accessible_struct_members(is_mcstas)) + [x.name for x in uservars]
     # Shouldn't we exclude array-valued names here?
diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index da3bfe5..822e575 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -48,9 +48,7 @@ TCDeclarator = TypeVar('TCDeclarator', bound='CDeclarator')
 TCFuncPointer = TypeVar('TCFuncPointer', bound='CFuncPointer')
 
 def not_both_None_or_not_equal(a, b):
-    if (a is None and b is not None) or (a is not None and b is None):
-        return False
-    return a is not None and b is not None and a != b
+    return a != b
 
 def same_type(a, b):
     return type(a) == type(b)
-- 
2.43.0


From 5d84568179510fa13286ea59e975135eb9786823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 30/62] fix: resolve references in included instruments against
 all components before them

---
 src/mccode_antlr/instr/visitor.py | 48 +++++++++++++++----------------
 src/mccode_antlr/reader/reader.py |  3 +-
 2 files changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index e89ebeb..2ed739c 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -79,16 +79,17 @@ class InstrVisitor(McInstrVisitor):
 
     def visitInstrument_trace_include(self, ctx: McInstrParser.Instrument_trace_includeContext):
         quoted_filename = str(ctx.StringLiteral())
-        if self.destination is not None:
-            logger.critical(f'including {quoted_filename} from {self.filename}, which is itself included from {self.destination.name}')
-            logger.critical('Expect component referencing errors, as the implementation does not cover this use case.')
-        instr = self.parent.get_instrument(quoted_filename.strip('"'), destination=self.state)
+        # the included instrument can refer to all components present so far -- including those of any instrument
+        # which includes this one
+        destination = Instr(self.state.name, components=self.present_components())
+        instr = self.parent.get_instrument(quoted_filename.strip('"'), destination=destination)
         # TODO work out how/what to copy from the other instrument into this one
         self.state.add_included(instr.name)
         for par in instr.parameters:
             self.state.add_parameter(par, ignore_repeated=True)
         for meta in instr.metadata:
             self.state.add_metadata(meta)
+        self.state.flags += tuple(flag for flag in instr.flags if flag not in self.state.flags)
         if len(instr.declare):
             self.state.declare += instr.declare
         if len(instr.user):
@@ -106,6 +107,10 @@ class InstrVisitor(McInstrVisitor):
                 self.state.add_component(instance)
         # Group membership is determined after all parsing, so nothing to do here
 
+    def present_components(self):
+        """All component instances before this point, including those of the including instrument(s)"""
+        return (() if self.destination is None else self.destination.components) + self.state.components
+
     def visitComponent_instance(self, ctx: McInstrParser.Component_instanceContext):
         from ..comp import Comp
         from ..instr.orientation import Angles
@@ -157,10 +162,10 @@ class InstrVisitor(McInstrVisitor):
         self.current_instance_name = None
 
     def visitInstanceNameCopyIdentifier(self, ctx: McInstrParser.InstanceNameCopyIdentifierContext):
-        return f'{ctx.Identifier()}_{len(self.state.components)+1}'
+        return f'{ctx.Identifier()}_{len(self.present_components())+1}'
 
     def visitInstanceNameCopy(self, ctx: McInstrParser.InstanceNameCopyContext):
-        return f'Comp_{len(self.state.components) + 1}'
+        return f'Comp_{len(self.present_components()) + 1}'
 
     def visitInstanceNameIdentifier(self, ctx: McInstrParser.InstanceNameIdentifierContext):
         return str(ctx.Identifier())
@@ -257,20 +262,16 @@ class InstrVisitor(McInstrVisitor):
             count = 1 if ctx.IntegerLiteral() is None else int(str(ctx.IntegerLiteral()))
             # Any included component can be referred to -- REMOVABLE components in an included instrument
             # were _not_ included into the state. Include REMOVABLE components _are_ in the state.
-            instances = len(self.state.components)
-            if count <= instances:
-                return self.state.last_component(count, removable_ok=True)
-            elif self.destination is not None:
-                return self.destination.last_component(count - instances, removable_ok=True)
-            else:
-                logger.error(f'Too large PREVIOUS count {count} for instrument with {instances} component instances')
+            present = self.present_components()
+            if 0 < count <= len(present):
+                return present[-count]
+            logger.error(f'Too large PREVIOUS count {count} for instrument with {len(present)} component instances')
+            return None
         name = str(ctx.Identifier())
-        if any(inst.name == name for inst in self.state.components):
-            return self.state.get_component(name)
-        elif self.destination is not None:
-            return self.destination.get_component(name)
-        else:
-            logger.error(f'Unknown component reference for instance named {name}')
+        for inst in self.present_components():
+            if inst.name == name:
+                return inst
+        raise RuntimeError(f'{self.filename}: {ctx.start.line} -- Unknown component reference for instance named {name}')
 
     def visitCoords(self, ctx: McInstrParser.CoordsContext):
         # FIXME 2023-10-16 previously Coordinate parsing forced all returned Expression objects to be floats
@@ -374,15 +375,14 @@ class InstrVisitor(McInstrVisitor):
 
     def visitExpressionPrevious(self, ctx: McInstrParser.ExpressionPreviousContext):
         # The very-special no-good expression use of PREVIOUS where it is replaced by the last component's name
-        if len(self.state.components):
-            return Expr.str(self.state.components[-1].name)
-        elif self.destination is not None and len(self.destination.components):
-            return Expr.str(self.destination.components[-1].name)
+        present = self.present_components()
+        if len(present):
+            return Expr.str(f'"{present[-1].name}"')
         raise RuntimeError('PREVIOUS keyword used in expression before any components defined')
 
     def visitExpressionMyself(self, ctx: McInstrParser.ExpressionMyselfContext):
         # The even-worse expression use of MYSELF to refer to the current being-constructed component's name
-        return Expr.str(self.current_instance.name)
+        return Expr.str(f'"{self.current_instance_name}"')
 
 
 class InstrParametersVisitor(McInstrVisitor):
diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index f339444..22ca17e 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -172,6 +172,7 @@ class Reader:
         if not isinstance(res, Instr):
             raise RuntimeError(f'Parsing instrument file {filename} did not produce an Instr object')
         res.source = filename
-        res.flags = tuple(self.c_flags)
+        # the flags of the instrument itself, then those of its components
+        res.flags = tuple(dict.fromkeys((*res.flags, *self.c_flags)))
         res.registries = tuple(self.registries)
         return res
-- 
2.43.0


From c40213c8c27180260b2aff1c24be2447ee3dc731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 31/62] fix: refuse missing operands, and calls without
 arguments have none

---
 src/mccode_antlr/common/visitor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index 414f306..cc06c6a 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -148,7 +148,8 @@ def visitExpressionZero(obj, ctx):
 def visitExpressionFunctionCall(obj, ctx):
     function = Value(str(ctx.Identifier()), object_type=ObjectType.function)
     # `ctx.args` isn't exposed by speedy-antlr-tool, but the function call is
-    args = [obj.visit(arg).expr[0] for arg in ctx.expr()]  # each is a Value, UnaryOp, or BinaryOp?
+    args = [] if _is_empty_string(ctx.expr(0)) and len(ctx.expr()) == 1 else ctx.expr()
+    args = [obj.visit(arg).expr[0] for arg in args]  # each is a Value, UnaryOp, or BinaryOp?
     return Expr(BinaryOp('__call__', function, args))
 
 def visitInitializerlist(obj, ctx):
@@ -159,6 +160,8 @@ def visitInitializerlist(obj, ctx):
     return Expr(Value(values, object_type=ObjectType.initializer_list, shape_type=ShapeType.vector))
 
 def visitExpressionString(obj, ctx):
+    if _is_empty_string(ctx):
+        raise RuntimeError(f'Missing operand in expression on line {ctx.start.line}')
     strings = ''.join(str(sl)[1:-1] for sl in ctx.StringLiteral())
     return Expr.str(f'"{strings}"')
 
-- 
2.43.0


From 1b5da31a0f205e139597c15e9a0881474bc5d0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 32/62] fix: vector parameters can be set by any expression

---
 src/mccode_antlr/translators/c_initialise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index fc39dd8..14b5340 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -137,7 +137,7 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
                 pl.append(f'  {fullname} = calloc(sizeof({c_type}), {len(p.value.value)});')
                 for i, v in enumerate(p.value.value):
                     pl.append(f'  {fullname}[{i}] = {v if isinstance(v, (int, float)) else format(v, "p")};')
-            elif p.value.is_id:
+            elif p.value.is_id or p.value.is_op:
                 pl.append(f'  {fullname} = {value};')
             else:
                 # it's a string (if not None), and should be an identifier that is a pointer to the data
-- 
2.43.0


From 95ceb3fdcb8f44e23b4895322066ed7159dacc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 33/62] fix: method calls and text give the same instrument

---
 src/mccode_antlr/assembler/assembler.py | 34 ++++++++++++++++++-------
 src/mccode_antlr/common/expression.py   | 16 +++++++++++-
 src/mccode_antlr/instr/instance.py      | 29 ++++++++++++++++++---
 src/mccode_antlr/instr/instr.py         |  4 ++-
 4 files changed, 68 insertions(+), 15 deletions(-)

diff --git a/src/mccode_antlr/assembler/assembler.py b/src/mccode_antlr/assembler/assembler.py
index 9b05b97..47bf1d0 100644
--- a/src/mccode_antlr/assembler/assembler.py
+++ b/src/mccode_antlr/assembler/assembler.py
@@ -1,5 +1,5 @@
 from typing import Union
-from ..common import Expr, InstrumentParameter
+from ..common import Expr, InstrumentParameter, RawC
 from ..instr import Instr, Instance
 from ..reader import Reader, Registry
 from loguru import logger
@@ -71,7 +71,7 @@ class Assembler:
             A dictionary of parameter names and values to set for the component instance.
         kwargs : dict, optional
             Properties for the constructed component Instance object. Useful keyword values include
-            `when` and `group`.
+            `when` and `group`. The values of `when`, `split` and `extend` can be strings.
 
         Note
         ----
@@ -80,17 +80,25 @@ class Assembler:
         comp_type = self.reader.get_component(type_name)
         if type_name != comp_type.name:
             raise RuntimeError(f"Component resolution failed for {type_name}, found {comp_type.name} instead")
-        if self.reader.c_flags:
-            unique_flags = list(self.instrument.flags)
-            unique_flags.extend(self.reader.c_flags)
-            self.instrument.flags = tuple(dict.fromkeys(unique_flags))
         at, ref = self._handle_at(at)
+        when, split, extend = [kwargs.pop(key, None) for key in ('when', 'split', 'extend')]
         instance = Instance(name, comp_type,
                             at_relative=(at, ref), rotate_relative=self._handle_rotate(rotate, ref),
                             **kwargs)
-        self.instrument.add_component(instance)
+        if when is not None:
+            instance.WHEN(when)
+        if split is not None:
+            instance.SPLIT(self.instrument.check_expr(split))
+        if extend is not None:
+            instance.EXTEND(*((extend,) if isinstance(extend, (str, RawC)) else extend))
         if isinstance(parameters, dict):
             instance.set_parameters(**parameters)
+        # only now, since any invalid input must not modify the instrument
+        self.instrument.add_component(instance)
+        if self.reader.c_flags:
+            unique_flags = list(self.instrument.flags)
+            unique_flags.extend(self.reader.c_flags)
+            self.instrument.flags = tuple(dict.fromkeys(unique_flags))
         return instance
 
     def parameter(self, par, ignore_repeated=False):
@@ -117,12 +125,18 @@ class Assembler:
 
         for name, value in pairs.items():
             if not isinstance(value, InstrumentParameter):
+                unit = None
                 if isinstance(value, dict) and 'unit' in value and 'value' in value:
                     value, unit = value['value'], value['unit']
                 elif isinstance(value, (list, tuple)) and len(value) == 2 and isinstance(value[1], str):
                     value, unit = value
-                else:
-                    unit = ''
+                elif isinstance(value, (list, tuple)) and len(value) == 2 and isinstance(value[0], str):
+                    unit, value = value
+                # the unit is a string literal, or absent
+                unit = f'"{unit}"' if unit and not unit.startswith('"') else (unit or None)
+                if isinstance(value, float):
+                    # a parameter which happens to have an integer value can be set to any value
+                    value = Expr.float(value)
                 value = InstrumentParameter(name, unit, value if isinstance(value, Expr) else Expr.best(value))
             self.instrument.add_parameter(value)
 
@@ -166,6 +180,8 @@ class Assembler:
 
     def metadata(self, name: str, mimetype: str, value: str, source=None):
         from mccode_antlr.common.metadata import MetaData
+        if source is None:
+            source = self.instrument.name
         self.instrument.add_metadata(MetaData.from_instrument_tokens(source, mimetype, name, value))
 
 
diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index f90016f..856bcf5 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -873,6 +873,9 @@ class Value:
         elif isinstance(value, str):
             # Any string value which is not wrapped in double quotes must(?) be an identifier
             return cls(value, DataType.undefined, object_type=ObjectType.identifier, shape_type=ShapeType.unknown)
+        if isinstance(value, bool):
+            # there are no logical values in the language, only numbers
+            value = int(value)
         if isinstance(value, int) or (isinstance(value, float) and value.is_integer()):
             return cls(value, DataType.int)
         return cls(value, DataType.float)
@@ -1159,8 +1162,19 @@ class Expr:
         from antlr4 import InputStream
         from ..grammar import McInstr_parse
         from ..instr import InstrVisitor
+        from ..grammar import McInstr_ErrorListener
+
+        class RaiseErrorListener(McInstr_ErrorListener):
+            def syntaxError(self, *args, **kwargs):
+                raise ValueError(f'Syntax error in expression {s!r}')
+
         visitor = InstrVisitor(None, None)
-        return visitor.getExpr(McInstr_parse(InputStream(s), 'expr'))
+        rule = 'initializerlist' if s.lstrip().startswith('{') else 'expr'
+        tree = McInstr_parse(InputStream(s), rule, RaiseErrorListener())
+        # the whole text must be the expression, not only its beginning
+        if tree.stop is None or s[tree.stop.stop + 1:].strip():
+            raise ValueError(f'Syntax error in expression {s!r}')
+        return visitor.getExpr(tree)
 
     @classmethod
     def float(cls, value):
diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 8b56dcb..c6c1b97 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -132,17 +132,34 @@ class Instance:
                 if par.value != value:
                     logger.info(f'  first-encountered value {par.value} retained')
                     logger.info(f'  newly-encountered value {value} dropped')
+                return
             else:
                 raise RuntimeError(f"Multiple definitions of {name} in component instance {self.name}")
         p = self.type.get_parameter(name)
 
+        if value is None:
+            raise RuntimeError(f"No value provided for parameter {name} of {self.type.name}")
+        if hasattr(value, 'tolist'):
+            # numpy arrays and scalars
+            value = value.tolist()
+        if isinstance(value, bool):
+            # there are no logical values in the language, only numbers
+            value = int(value)
+
         if not p.compatible_value(value):
             logger.debug(f'{p=}, {name=}, {value=}')
             raise RuntimeError(f"Provided value for parameter {name} is not compatible with {self.type.name}")
 
         if p.value.is_vector and isinstance(value, str):
             # FIXME can this be more general? Do we _need_ to treat vectors differently?
-            value = Expr(Value(value, data_type=p.value.data_type, shape_type=p.value.shape_type))
+            if value == 'NULL' or value.strip().isidentifier():
+                value = Expr(Value(value.strip(), data_type=p.value.data_type, shape_type=p.value.shape_type))
+            else:
+                value = Expr.parse(value)
+                if value.is_vector:
+                    value.data_type = p.value.data_type
+        elif isinstance(value, str) and value == 'NULL':
+            value = Expr.str(value)
         elif isinstance(value, str):
             value = Expr.parse(value)
         elif not isinstance(value, Expr):
@@ -161,11 +178,15 @@ class Instance:
         self.parameters += (ComponentParameter(p.name, value), )
 
     def verify_parameters(self, instrument_parameters: tuple[InstrumentParameter, ...]):
-        """Check for instance parameters which are identifiers that match instrument parameter names,
+        """Check for identifiers in any expression of the instance that match instrument parameter names,
         and flag them as parameter objects"""
         instrument_parameter_names = [x.name for x in instrument_parameters]
-        for par in self.parameters:
-            par.value.verify_parameters(instrument_parameter_names)
+        expressions = [par.value for par in self.parameters]
+        expressions.extend(x for x in (*self.at_relative[0], *self.rotate_relative[0]) if isinstance(x, Expr))
+        expressions.extend(x for x in (self.split, self.when) if isinstance(x, Expr))
+        expressions.extend(jump.condition for jump in self.jump)
+        for expression in expressions:
+            expression.verify_parameters(instrument_parameter_names)
 
     def get_parameter(self, name: str):
         for par in self.parameters:
diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index c9ac0c6..61a7e8a 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -510,7 +510,9 @@ class Instr:
             instance.verify_parameters(self.parameters)
 
     def check_expr(self, expr: int | float | str | Expr | Value):
-        if not isinstance(expr, Expr):
+        if isinstance(expr, str):
+            expr = Expr.parse(expr)
+        elif not isinstance(expr, Expr):
             expr = Expr.best(expr)
         # check whether the expression contains any identifiers which are actually InstrumentParameters
         expr.verify_parameters([x.name for x in self.parameters])
-- 
2.43.0


From 675d8f551351f347bd78ba3ee3d8dd6253c0a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 34/62] fix: metadata of a copied component belongs to the copy

---
 src/mccode_antlr/instr/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index c6c1b97..be91cf9 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -101,7 +101,7 @@ class Instance:
                    when=ref.when, group=ref.group,
                    extend=tuple([ext for ext in ref.extend]),
                    jump=tuple([jmp.copy() for jmp in ref.jump]),
-                   metadata=tuple([md for md in ref.metadata]),
+                   metadata=tuple([MetaData.from_instance_tokens(name, md.mimetype, md.name, md.value) for md in ref.metadata]),
                    mode=ref.mode)
 
     def __post_init__(self):
-- 
2.43.0


From 8a0e3d542ee03e05c8d1f947d318fbd424163086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 35/62] fix: a component category can be an identifier

---
 src/mccode_antlr/comp/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 1921264..4b5fe81 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -41,7 +41,7 @@ class CompVisitor(McCompVisitor):
 
     def visitCategory(self, ctx: Parser.CategoryContext):
         # Return the provided identifier or string literal, minus quotes
-        self.state.category = str(ctx.StringLiteral())[1:-1] if ctx.Identifier() is None else str(ctx.Identifer())
+        self.state.category = str(ctx.StringLiteral())[1:-1] if ctx.Identifier() is None else str(ctx.Identifier())
 
     def visitTraceBlock(self, ctx: Parser.TraceBlockContext):
         self.state.TRACE(self.visit(ctx.unparsed_block()))
-- 
2.43.0


From 4f4c698726019fb628b1b19c01900e434e37ad8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 36/62] fix: a dependency can end with an escaped quote

---
 src/mccode_antlr/comp/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 4b5fe81..ba3f1dc 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -136,7 +136,7 @@ class CompVisitor(McCompVisitor):
     def visitDependency(self, ctx: Parser.DependencyContext):
         if ctx.StringLiteral() is not None:
             # the flags are the literal string without its quotes:
-            self.parent.add_c_flags(str(ctx.StringLiteral()).strip('"'))
+            self.parent.add_c_flags(str(ctx.StringLiteral())[1:-1])
 
     def visitDeclareBlock(self, ctx: Parser.DeclareBlockContext):
         self.state.DECLARE(self.visit(ctx.unparsed_block()))
-- 
2.43.0


From 4054f9bda2e7bd2476723641eb39180d52269ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 37/62] fix: sections and parameters of a copied component
 definition are replaced

---
 src/mccode_antlr/comp/visitor.py | 64 ++++++++++++++++----------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index ba3f1dc..6ff9fe9 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -1,5 +1,3 @@
-from loguru import logger
-
 from ..grammar import McCompParser as Parser, McCompVisitor
 from .comp import Comp
 from ..common import ComponentParameter, Expr, MetaData
@@ -12,6 +10,8 @@ class CompVisitor(McCompVisitor):
         self.filename = filename
         self.state = Comp()
         self.instance_name = instance_name
+        # names of the parameters of a copied definition, which can be given again
+        self.copied_parameters, self.copied_outputs = set(), set()
 
     def visitProg(self, ctx: Parser.ProgContext):
         self.state = Comp()
@@ -34,6 +34,10 @@ class CompVisitor(McCompVisitor):
         self.state = deepcopy(copy_from_comp)
         # update the name to match what we're going to call this component
         self.state.name = new_name
+        for metadata in self.state.metadata:
+            metadata.source.name = new_name
+        self.copied_parameters = {x.name for x in self.state.define + self.state.setting}
+        self.copied_outputs = {x.name for x in self.state.output}
         # add parameters, overwrite all provided details
         if ctx.NoAcc() is not None:
             self.state.no_acc()
@@ -44,14 +48,11 @@ class CompVisitor(McCompVisitor):
         self.state.category = str(ctx.StringLiteral())[1:-1] if ctx.Identifier() is None else str(ctx.Identifier())
 
     def visitTraceBlock(self, ctx: Parser.TraceBlockContext):
+        self.state.trace = ()  # a section of a copied definition is replaced
         self.state.TRACE(self.visit(ctx.unparsed_block()))
         
     def visitTraceBlockCopy(self, ctx: Parser.TraceBlockCopyContext):
-        if len(self.state.trace):
-            logger.critical(f'The component {self.state.name} is a copied definition, complete with TRACE section')
-            logger.critical(f'Now `TRACE COPY {ctx.Identifier()}` would add to the existing copied TRACE')
-            logger.critical(f'This is almost certainly not the intended behaviour, so you get only the new copy.')
-            self.state.trace = ()
+        self.state.trace = ()  # a section of a copied definition is replaced
         blocks = self.parent.get_component(str(ctx.Identifier())).trace
         if ctx.Extend() is not None:
             blocks = [x for x in blocks]
@@ -60,16 +61,27 @@ class CompVisitor(McCompVisitor):
 
     def visitComponent_define_parameters(self, ctx: Parser.Component_define_parametersContext):
         for parameter in self.visit(ctx.component_parameters()):
+            self._replace_copied_parameter(parameter.name)
             self.state.add_define(parameter)
 
     def visitComponent_set_parameters(self, ctx: Parser.Component_set_parametersContext):
         for parameter in self.visit(ctx.component_parameters()):
+            self._replace_copied_parameter(parameter.name)
             self.state.add_setting(parameter)
 
     def visitComponent_out_parameters(self, ctx: Parser.Component_out_parametersContext):
         for parameter in self.visit(ctx.component_parameters()):
+            if parameter.name in self.copied_outputs:
+                self.copied_outputs.remove(parameter.name)
+                self.state.output = tuple(x for x in self.state.output if x.name != parameter.name)
             self.state.add_output(parameter)
 
+    def _replace_copied_parameter(self, name):
+        if name in self.copied_parameters:
+            self.copied_parameters.remove(name)
+            self.state.define = tuple(x for x in self.state.define if x.name != name)
+            self.state.setting = tuple(x for x in self.state.setting if x.name != name)
+
     def visitComponent_parameters(self, ctx: Parser.Component_parametersContext):
         return [self.visit(x) for x in ctx.component_parameter()]
 
@@ -139,14 +151,11 @@ class CompVisitor(McCompVisitor):
             self.parent.add_c_flags(str(ctx.StringLiteral())[1:-1])
 
     def visitDeclareBlock(self, ctx: Parser.DeclareBlockContext):
+        self.state.declare = ()  # a section of a copied definition is replaced
         self.state.DECLARE(self.visit(ctx.unparsed_block()))
 
     def visitDeclareBlockCopy(self, ctx: Parser.DeclareBlockCopyContext):
-        if len(self.state.declare):
-            logger.critical(f'The component {self.state.name} is a copied definition, complete with DECLARE section')
-            logger.critical(f'Now `DECLARE COPY {ctx.Identifier()}` would add to the existing copied DECLARE')
-            logger.critical(f'This is almost certainly not the intended behaviour, so you get only the new copy.')
-            self.state.declare = ()
+        self.state.declare = ()  # a section of a copied definition is replaced
         blocks = self.parent.get_component(str(ctx.Identifier())).declare
         if ctx.Extend() is not None:
             blocks = [x for x in blocks]
@@ -154,9 +163,11 @@ class CompVisitor(McCompVisitor):
         self.state.DECLARE(*blocks)
 
     def visitShareBlock(self, ctx: Parser.ShareBlockContext):
+        self.state.share = ()  # a section of a copied definition is replaced
         self.state.SHARE(self.visit(ctx.unparsed_block()))
 
     def visitShareBlockCopy(self, ctx: Parser.ShareBlockCopyContext):
+        self.state.share = ()  # a section of a copied definition is replaced
         blocks = self.parent.get_component(str(ctx.Identifier())).share
         if ctx.Extend() is not None:
             blocks = [x for x in blocks]
@@ -164,14 +175,11 @@ class CompVisitor(McCompVisitor):
         self.state.SHARE(*blocks)
 
     def visitInitializeBlock(self, ctx: Parser.InitializeBlockContext):
+        self.state.initialize = ()  # a section of a copied definition is replaced
         self.state.INITIALIZE(self.visit(ctx.unparsed_block()))
 
     def visitInitializeBlockCopy(self, ctx: Parser.InitializeBlockCopyContext):
-        if len(self.state.initialize):
-            logger.critical(f'The component {self.state.name} is a copied definition, complete with INITIALIZE section')
-            logger.critical(f'Now `INITIALIZE COPY {ctx.Identifier()}` would add to the existing copied INITIALIZE')
-            logger.critical(f'This is almost certainly not the intended behaviour, so you get only the new copy.')
-            self.state.initialize = ()
+        self.state.initialize = ()  # a section of a copied definition is replaced
         blocks = self.parent.get_component(str(ctx.Identifier())).initialize
         if ctx.Extend() is not None:
             blocks = [x for x in blocks]
@@ -179,17 +187,15 @@ class CompVisitor(McCompVisitor):
         self.state.INITIALIZE(*blocks)
 
     def visitUservars(self, ctx: Parser.UservarsContext):
+        self.state.user = ()  # a section of a copied definition is replaced
         self.state.USERVARS(self.visit(ctx.unparsed_block()))
 
     def visitSaveBlock(self, ctx: Parser.SaveBlockContext):
+        self.state.save = ()  # a section of a copied definition is replaced
         self.state.SAVE(self.visit(ctx.unparsed_block()))
 
     def visitSaveBlockCopy(self, ctx: Parser.SaveBlockCopyContext):
-        if len(self.state.save):
-            logger.critical(f'The component {self.state.name} is a copied definition, complete with SAVE section')
-            logger.critical(f'Now `SAVE COPY {ctx.Identifier()}` would add to the existing copied SAVE')
-            logger.critical(f'This is almost certainly not the intended behaviour, so you get only the new copy.')
-            self.state.save = ()
+        self.state.save = ()  # a section of a copied definition is replaced
         blocks = self.parent.get_component(str(ctx.Identifier())).save
         if ctx.Extend() is not None:
             blocks = [x for x in blocks]
@@ -197,14 +203,11 @@ class CompVisitor(McCompVisitor):
         self.state.SAVE(*blocks)
 
     def visitFinallyBlock(self, ctx: Parser.FinallyBlockContext):
+        self.state.final = ()  # a section of a copied definition is replaced
         self.state.FINALLY(self.visit(ctx.unparsed_block()))
 
     def visitFinallyBlockCopy(self, ctx: Parser.FinallyBlockCopyContext):
-        if len(self.state.final):
-            logger.critical(f'The component {self.state.name} is a copied definition, complete with FINALLY section')
-            logger.critical(f'Now `FINALLY COPY {ctx.Identifier()}` would add to the existing copied FINALLY')
-            logger.critical(f'This is almost certainly not the intended behaviour, so you get only the new copy.')
-            self.state.final = ()
+        self.state.final = ()  # a section of a copied definition is replaced
         blocks = self.parent.get_component(str(ctx.Identifier())).final
         if ctx.Extend() is not None:
             blocks = [x for x in blocks]
@@ -212,14 +215,11 @@ class CompVisitor(McCompVisitor):
         self.state.FINALLY(*blocks)
 
     def visitDisplayBlock(self, ctx: Parser.DisplayBlockContext):
+        self.state.display = ()  # a section of a copied definition is replaced
         self.state.DISPLAY(self.visit(ctx.unparsed_block()))
 
     def visitDisplayBlockCopy(self, ctx: Parser.DisplayBlockCopyContext):
-        if len(self.state.display):
-            logger.critical(f'The component {self.state.name} is a copied definition, complete with DISPLAY section')
-            logger.critical(f'Now `DISPLAY COPY {ctx.Identifier()}` would add to the existing copied DISPLAY')
-            logger.critical(f'This is almost certainly not the intended behaviour, so you get only the new copy.')
-            self.state.display = ()
+        self.state.display = ()  # a section of a copied definition is replaced
         blocks = self.parent.get_component(str(ctx.Identifier())).display
         if ctx.Extend() is not None:
             blocks = [x for x in blocks]
-- 
2.43.0


From ebcf229ebe5a2db77f146a74d6a5f342bf4110c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 38/62] fix: embed a SHARE block copied from another component
 once

---
 src/mccode_antlr/translators/c_decls.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_decls.py b/src/mccode_antlr/translators/c_decls.py
index 47c6605..323898b 100644
--- a/src/mccode_antlr/translators/c_decls.py
+++ b/src/mccode_antlr/translators/c_decls.py
@@ -102,10 +102,14 @@ def declarations_pre_libraries(source, typedefs: list, component_declared_parame
             "/* ************************************************************************** */",
             "/*             SHARE user declarations for all components                     */",
             "/* ************************************************************************** */"]
+        included = set()
         for comp in sharers:
             lines.append(f"/* Shared user declarations for all components types '{comp.name}'. */")
+            # a block copied from another component definition can not be defined twice
+            blocks = [share for share in comp.share if (share.filename, share.line, share.source) not in included]
+            included.update((share.filename, share.line, share.source) for share in blocks)
             # TODO FIXME to_c includes the `#line` preprocessor directive -- which was removed from McCode3??
-            lines.extend([share.to_c() for share in comp.share])
+            lines.extend([share.to_c() for share in blocks])
         lines.extend([
             "/* ************************************************************************** */",
             "/*             End of SHARE user declarations for all components              */",
-- 
2.43.0


From f98888cef9f32cdf295b4b9d509fddd59fa779aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 39/62] fix: compiler flags keep their order

---
 src/mccode_antlr/instr/instr.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 61a7e8a..b4b1e1f 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -289,14 +289,14 @@ class Instr:
         return flag
 
     @property
-    def unique_flags(self) -> set[str]:
+    def unique_flags(self) -> tuple[str, ...]:
         # Each 'flag' in self.flags is from a single instrument component DEPENDENCY,
         # and might contain duplicates: If we accept that white space differences
-        # matter, we can deduplicate the strings 'easily'
-        uf = set(self.flags)
+        # matter, we can deduplicate the strings 'easily'. Their order matters when linking
+        uf = dict.fromkeys(self.flags)
         if any(inst.cpu for inst in self.components):
-            uf.add('-DFUNNEL')
-        return uf
+            uf['-DFUNNEL'] = None
+        return tuple(uf)
 
     def decoded_flags(self) -> list[str]:
         # The dependency strings are allowed to contain any of
-- 
2.43.0


From 3f42764102875f6aa03c7f66ba09017e86be9317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 40/62] fix: ENV, GETPATH and CMD as part of a word are plain
 text

---
 src/mccode_antlr/instr/instr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index b4b1e1f..1edbefd 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -230,6 +230,8 @@ class Instr:
 
         # Mimics McCode-3/tools/Python/mccodelib/cflags.py:evaluate_dependency_str
         #
+        from re import search
+
         def getpath(chars):
             return self._getpath(chars).as_posix()
 
@@ -253,7 +255,10 @@ class Instr:
             if start not in chars:
                 return chars
             before, after = chars.split(start, 1)
-            if '(' != after[0]:
+            if not after.startswith('('):
+                if search(r'\w$', before) or search(r'^\w', after):
+                    # part of another word, e.g., -DENVIRONMENT
+                    return before + start + replace(after, start, replacer)
                 raise ValueError(f'Missing opening parenthesis in dependency string after {start}')
             if ')' not in after:
                 raise ValueError(f'Missing closing parenthesis in dependency string after {start}')
-- 
2.43.0


From ffc40f12a24611518089d12f568da7322eb8437f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 41/62] fix: configured flags are replaced literally

---
 src/mccode_antlr/instr/instr.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 1edbefd..9b53dc4 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -274,21 +274,22 @@ class Instr:
 
     def _replace_keywords(self, flag):
         from mccode_antlr.config import config
-        from re import sub, findall
+        from re import findall
+        # the replacements are literal strings, which can contain backslashes
         if '@NEXUSFLAGS@' in flag:
-            flag = sub(r'@NEXUSFLAGS@', config['flags']['nexus'].as_str_expanded(), flag)
+            flag = flag.replace('@NEXUSFLAGS@', config['flags']['nexus'].as_str_expanded())
         if '@MCCODE_LIB@' in flag:
             print(f'The instrument {self.name} uses @MCCODE_LIB@ dependencies which no longer work.')
             print('Expect problems at compilation.')
-            flag = sub('@MCCODE_LIB@', '.', flag)
+            flag = flag.replace('@MCCODE_LIB@', '.')
         general_re = r'@(\w+)@'
         for replace in findall(general_re, flag):
             # Is this replacement something like XXXFLAGS?
             if replace.lower().endswith('flags') and replace.lower()[:-5] in config['flags']:
-                flag = sub(f'@{replace}@', config['flags'][replace.lower()[:-5]].as_str_expanded(), flag)
+                flag = flag.replace(f'@{replace}@', config['flags'][replace.lower()[:-5]].as_str_expanded())
             elif replace.lower().endswith('flags'):
                 # Punt, and just replace with the lowercase version of the keyword -- hopefully this was intended
-                flag = sub(f'@{replace}@', f'-l{replace.lower()[:-5]}', flag)
+                flag = flag.replace(f'@{replace}@', f'-l{replace.lower()[:-5]}')
             else:
                 logger.warning(f'Unknown keyword @{replace}@ in dependency string')
         return flag
-- 
2.43.0


From 9a6e9815ad8f3f9d32e7ce6d28a2de709a851b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 42/62] fix: component flags are only dropped if the same words
 are present

---
 src/mccode_antlr/loader/loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/loader/loader.py b/src/mccode_antlr/loader/loader.py
index 168f049..9577cea 100644
--- a/src/mccode_antlr/loader/loader.py
+++ b/src/mccode_antlr/loader/loader.py
@@ -23,8 +23,8 @@ def parse_mccode_instr(contents: str, registries: list[Registry], source: str =
     visitor = InstrVisitor(reader, source or '<string>')
     instr = visitor.visitProg(McInstr_parse(InputStream(contents), 'prog'))
     # the printed form of an instrument has the flags of its components, too
-    present = ' '.join(' '.join(instr.flags).split())
-    instr.flags += tuple(f for f in reader.c_flags if ' '.join(f.split()) not in present)
+    present = f" {' '.join(' '.join(instr.flags).split())} "
+    instr.flags += tuple(f for f in reader.c_flags if f" {' '.join(f.split())} " not in present)
     # include any registry added by a SEARCH statement
     instr.registries += tuple(reader.registries)
     return instr
-- 
2.43.0


From abc1668b818afd5ceabe316dfe5af669c0367ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 43/62] fix: an updated binary target keeps NeXus

---
 src/mccode_antlr/compiler/c.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/compiler/c.py b/src/mccode_antlr/compiler/c.py
index 83dd362..a283497 100644
--- a/src/mccode_antlr/compiler/c.py
+++ b/src/mccode_antlr/compiler/c.py
@@ -33,6 +33,7 @@ class CBinaryTarget:
         self.count = d.get('count', self.count)
         d_mpi = d.get('mpi', self.type & CBinaryTarget.Type.mpi)
         d_acc = d.get('acc', self.type & CBinaryTarget.Type.acc)
+        d_nexus = d.get('nexus', self.type & CBinaryTarget.Type.nexus)
         if d_mpi and d_acc:
             self.type = CBinaryTarget.Type.acc | CBinaryTarget.Type.mpi
         elif d_mpi:
@@ -41,7 +42,7 @@ class CBinaryTarget:
             self.type = CBinaryTarget.Type.acc
         else:
             self.type = CBinaryTarget.Type.single
-        if d.get('nexus', self.type & CBinaryTarget.Type.nexus):
+        if d_nexus:
             self.type |= CBinaryTarget.Type.nexus
 
     @property
-- 
2.43.0


From 0249096773d85c84eb98277a05defd69dba50d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 44/62] fix: split compiler flags like a shell

---
 src/mccode_antlr/compiler/c.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/compiler/c.py b/src/mccode_antlr/compiler/c.py
index a283497..ce99de4 100644
--- a/src/mccode_antlr/compiler/c.py
+++ b/src/mccode_antlr/compiler/c.py
@@ -1,4 +1,5 @@
 """Handles compilation of C translated instruments into usable binaries"""
+import shlex
 from enum import Flag, auto
 from typing import Union
 from pathlib import Path
@@ -98,8 +99,9 @@ def linux_split_flags(instrument: Instr, target: CBinaryTarget):
     linker_flags = target.linker_flags
     # the instrument-defined flags are always(?) linker flags:
     # the flags in an instrument *might* contain ENV, CMD, GETPATH directives which need to be expanded via decode:
+    # and are written for a shell, so that (escaped) quotes have their usual meaning
     linker_flags.extend(
-        [word for flag in instrument.decoded_flags() for word in flag.split()])
+        [word for flag in instrument.decoded_flags() for word in shlex.split(flag)])
 
     # Why is this addition necessary?
     if any('OPENACC' in word for word in compiler_flags) and any(
-- 
2.43.0


From bd83656cc07c070c4a6c19abbfa3ff22484f932c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 45/62] fix: the runtime header is configured for the flavor

---
 src/mccode_antlr/translators/target.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index f2546e0..8f6d6b7 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -90,7 +90,7 @@ class TargetVisitor:
         if len(reg) != 1:
             raise RuntimeError(f"Expected exactly one registry for file {filename}")
         # updates mccode_antlr.config.config
-        registry_defaults(reg[0], [reg[0].name])
+        registry_defaults(reg[0], [flavor])
 
         def replacement(match) -> str:
             name = match.group(1).lower()
-- 
2.43.0


From 377e2a59d009b38c880f1abaa4ba1c047b380ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 46/62] fix: the translation of a code block does not make it a
 different one

---
 src/mccode_antlr/common/block.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/common/block.py b/src/mccode_antlr/common/block.py
index 61a3dfe..2b25900 100644
--- a/src/mccode_antlr/common/block.py
+++ b/src/mccode_antlr/common/block.py
@@ -1,4 +1,4 @@
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from .utilities import escape_str_for_c
 
 @dataclass
@@ -6,7 +6,7 @@ class RawC:
     filename: str
     line: int
     source: str
-    translated: str = None
+    translated: str = field(default=None, compare=False, repr=False)  # depends on the source alone
 
     def __str__(self):
         return self.source
-- 
2.43.0


From fc6f9c65d627ec3ccf8949c3f4bce2c97a3ec609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:39 +0000
Subject: [PATCH 47/62] fix: an interrupted or concurrent write of a file list
 or configuration leaves no partial file

---
 src/mccode_antlr/cli/management.py  |  4 ++--
 src/mccode_antlr/reader/registry.py | 33 +++++++++++++++++++++++------
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index 40df507..3956639 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -55,11 +55,11 @@ def config_unset(key):
 def config_save(path, verbose):
     from pathlib import Path
     from mccode_antlr.config import config as c
+    from mccode_antlr.reader.registry import replace_file
     config_dir = Path(path or c.config_dir())
     d = {k: c[k].get() for k in list(c)}
     config_file = config_dir.joinpath('config.yaml')
-    with config_file.open('w') as file:
-        file.write(config_dump(d))
+    replace_file(config_file, config_dump(d))
     if verbose:
         print(f'Configuration written to {config_file}')
 
diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 0be5b75..a272682 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -15,6 +15,30 @@ def ensure_regex_pattern(pattern):
     return pattern
 
 
+def replace_file(path: Path, contents: str):
+    """Write a file such that it is, at any time and for everyone, either what it was before or complete"""
+    from os import replace
+    from shutil import copymode
+    from uuid import uuid4
+    path = path.resolve()
+    path.parent.mkdir(parents=True, exist_ok=True)
+    temporary = path.with_name(f'.{path.name}-{uuid4().hex}')
+    try:
+        with temporary.open('x') as file:
+            file.write(contents)
+        if path.exists():
+            copymode(path, temporary)
+        replace(temporary, path)
+    except BaseException:
+        temporary.unlink(missing_ok=True)
+        raise
+
+
+def parse_registry_lines(text: str) -> dict[str, str]:
+    """Pairs of file name and hash, one per line, which can have extra white space between and around them"""
+    return {k: v for k, v in [x.split(maxsplit=1) for x in map(str.strip, text.split('\n')) if len(x)]}
+
+
 def simple_url_validator(url: str, file_ok=False):
     from urllib.parse import urlparse
 
@@ -244,8 +268,7 @@ class GitHubRegistry(RemoteRegistry):
             if not access(registry_file_path, R_OK):
                 from loguru import logger
                 logger.error(f'Registry file {registry_file_path} exists but is not readable')
-            with registry_file_path.open('r') as file:
-                registry = {k: v for k, v in [x.strip().split(maxsplit=1) for x in file.readlines() if len(x)]}
+            registry = parse_registry_lines(registry_file_path.read_text())
         else:
             import requests
             # We allow a full-dictionary to be provided, otherwise we expect the registry file to be available from the
@@ -254,11 +277,9 @@ class GitHubRegistry(RemoteRegistry):
                 r = requests.get((registry or base_url) + registry_file)
                 if not r.ok:
                     raise RuntimeError(f"Could not retrieve {r.url} because {r.reason}")
-                registry = {k: v for k, v in [x.split(maxsplit=1) for x in r.text.split('\n') if len(x)]}
+                registry = parse_registry_lines(r.text)
             # stash-away the registry file to be re-read next time
-            registry_file_path.parent.mkdir(parents=True, exist_ok=True)
-            with registry_file_path.open('w') as file:
-                file.writelines('\n'.join([f'{k} {v}' for k, v in registry.items()]))
+            replace_file(registry_file_path, '\n'.join([f'{k} {v}' for k, v in registry.items()]))
 
         self.pooch = pooch.create(
             path=cache_path,
-- 
2.43.0


From 077fbbb35a1513f7f57cee7cbb926f5ccf9de04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:39 +0000
Subject: [PATCH 48/62] fix: only folders of the cache can be removed from the
 cache

---
 src/mccode_antlr/cli/management.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index 3956639..a787a57 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -98,12 +98,15 @@ def cache_path():
 
 
 def cache_remove(name, version, force):
+    from os.path import normpath
+    from pathlib import Path
     from shutil import rmtree
     path = cache_path()
-    if name is not None:
-        path = path.joinpath(name)
-    if version is not None:
-        path = path.joinpath(version)
+    for part in (name, version):
+        if part is not None:
+            within, path = path, Path(normpath(path.joinpath(part)))
+            if within not in path.parents:
+                raise RuntimeError(f'{part!r} is not the name of something inside of {within}')
     if not force:
         response = input(f'Remove {path} and all contents? [yN] ')
         if 'yes' == response.lower() or 'y' == response.lower():
-- 
2.43.0


From e6c81f71814eef663e86be53e32a5365c60efe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:39 +0000
Subject: [PATCH 49/62] fix: configuration values which are set and unset stay
 so

---
 src/mccode_antlr/cli/management.py | 35 +++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index a787a57..70c46e3 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -36,20 +36,39 @@ def config_get(key, verbose):
     print(config_dump(d))
 
 
-def config_set(key, value):
+def config_user_file():
+    """The user configuration file and its contents"""
+    from pathlib import Path
+    from yaml import safe_load
     from mccode_antlr.config import config as c
-    levels = key.split('.')
+    config_file = Path(c.user_config_path())
+    return config_file, (safe_load(config_file.read_text()) or {}) if config_file.exists() else {}
+
+
+def config_set(key, value):
+    from mccode_antlr.reader.registry import replace_file
+    config_file, contents = config_user_file()
+    *levels, last = key.split('.')
+    d = contents
     for level in levels:
-        c = c[level]
-    c.set(value)
+        d = d.setdefault(level, {})
+        if not isinstance(d, dict):
+            raise RuntimeError(f'{level} of {key} is a value, not a group of values, in {config_file}')
+    d[last] = value
+    replace_file(config_file, config_dump(contents))
 
 
 def config_unset(key):
-    from mccode_antlr.config import config as c
-    levels = key.split('.')
+    from mccode_antlr.reader.registry import replace_file
+    config_file, contents = config_user_file()
+    *levels, last = key.split('.')
+    d = contents
     for level in levels:
-        c = c[level]
-    del c
+        d = d.get(level) if isinstance(d, dict) else None
+    if not isinstance(d, dict) or last not in d:
+        raise RuntimeError(f'{key} is not set in {config_file}')
+    del d[last]
+    replace_file(config_file, config_dump(contents))
 
 
 def config_save(path, verbose):
-- 
2.43.0


From 487e4dd4a28cef5e893fa4bdce34984f040f424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:39 +0000
Subject: [PATCH 50/62] fix: configuration values of all sources are shown and
 saved

---
 src/mccode_antlr/cli/management.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index 70c46e3..a0dc2a3 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -7,11 +7,24 @@ def config_dump(config):
     return dump(config)
 
 
+def config_select(d, regex, prefix=''):
+    """The part of (nested) configuration values with keys, or keys of what they are a part of, matching an expression"""
+    selected = {}
+    for k, v in d.items():
+        key = f'{prefix}{k}'
+        if regex.search(key):
+            selected[k] = v
+        elif isinstance(v, dict) and (part := config_select(v, regex, f'{key}.')):
+            selected[k] = part
+    return selected
+
+
 def config_list(regex):
-    from pathlib import Path
+    from re import compile
     from mccode_antlr.config import config as c
-    config_dir = Path(c.config_dir())
-    d = {k: c[k].get() for k in list(c)}
+    d = c.flatten()
+    if regex is not None:
+        d = config_select(d, compile(regex))
     print(config_dump(d))
 
 
@@ -30,7 +43,8 @@ def config_get(key, verbose):
                 return
             else:
                 return
-    d = c.get()
+    # any single source of a configuration could hold only some of the values below a key
+    d = c.flatten() if isinstance(c.get(), dict) else c.get()
     if key:
         d = {key: d}
     print(config_dump(d))
@@ -76,7 +90,7 @@ def config_save(path, verbose):
     from mccode_antlr.config import config as c
     from mccode_antlr.reader.registry import replace_file
     config_dir = Path(path or c.config_dir())
-    d = {k: c[k].get() for k in list(c)}
+    d = c.flatten()
     config_file = config_dir.joinpath('config.yaml')
     replace_file(config_file, config_dump(d))
     if verbose:
-- 
2.43.0


From f40d3f9428de1b9840ad4cf8cc4902555a690103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:39 +0000
Subject: [PATCH 51/62] fix: any text is the same in the generated program

---
 src/mccode_antlr/common/utilities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/utilities.py b/src/mccode_antlr/common/utilities.py
index 8ebe4fb..f919fae 100644
--- a/src/mccode_antlr/common/utilities.py
+++ b/src/mccode_antlr/common/utilities.py
@@ -1,4 +1,7 @@
 def escape_str_for_c(s: str):
     if s is None:
         return ''
-    return s.encode('unicode-escape').decode('utf-8').replace('"', r'\"')
+    # in a C string a hexadecimal escape sequence has no end, and two question marks can start a trigraph
+    special = {ord('"'): r'\"', ord('\\'): r'\\', ord('?'): r'\?', ord('\n'): r'\n', ord('\r'): r'\r', ord('\t'): r'\t'}
+    return ''.join(special.get(b) or (chr(b) if 32 <= b < 127 else f'\\{b:03o}')
+                   for b in s.encode('utf-8', errors='surrogateescape'))
-- 
2.43.0


From a544d2a130dcfb02e546e8eef7613cc539182ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:40 +0000
Subject: [PATCH 52/62] fix: a loaded instrument knows its source file

---
 src/mccode_antlr/loader/loader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mccode_antlr/loader/loader.py b/src/mccode_antlr/loader/loader.py
index 9577cea..b4256e2 100644
--- a/src/mccode_antlr/loader/loader.py
+++ b/src/mccode_antlr/loader/loader.py
@@ -22,6 +22,7 @@ def parse_mccode_instr(contents: str, registries: list[Registry], source: str =
     reader = Reader(registries=registries)
     visitor = InstrVisitor(reader, source or '<string>')
     instr = visitor.visitProg(McInstr_parse(InputStream(contents), 'prog'))
+    instr.source = source
     # the printed form of an instrument has the flags of its components, too
     present = f" {' '.join(' '.join(instr.flags).split())} "
     instr.flags += tuple(f for f in reader.c_flags if f" {' '.join(f.split())} " not in present)
-- 
2.43.0


From e5682fd1ba4ab1990b672be1b2b267a4b22a4b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:40 +0000
Subject: [PATCH 53/62] fix: the printed dependency is the McCode runtime
 library

---
 src/mccode_antlr/translators/c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index 3084f04..ce49616 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -288,7 +288,7 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
             # If it is, we would need to do some trickery to ... write out the
             self.out(f'#include "{self.include_path("mccode-r.h")}"')
             self.out(f'#include "{self.include_path("mcstas-r.h" if is_mcstas else "mcxtrace-r.h")}"')
-            print(f"Dependency: mccode_antlr-r.o\nDependency: {'mcstas-r.o' if is_mcstas else 'mcxtrace-r.o'}")
+            print(f"Dependency: mccode-r.o\nDependency: {'mcstas-r.o' if is_mcstas else 'mcxtrace-r.o'}")
 
         # # TODO insert includes here?
         # if len(self.includes):
-- 
2.43.0


From d97ca119f8a658442313b61a98d543d9b2cbc35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:57 +0000
Subject: [PATCH 54/62] fix: escape all fields of the metadata table

---
 src/mccode_antlr/translators/c_decls.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_decls.py b/src/mccode_antlr/translators/c_decls.py
index 323898b..2207616 100644
--- a/src/mccode_antlr/translators/c_decls.py
+++ b/src/mccode_antlr/translators/c_decls.py
@@ -85,7 +85,8 @@ def declarations_pre_libraries(source, typedefs: list, component_declared_parame
     def metadata_table():
         def one_line(defined_by, name, mimetype, value):
             from ..common.utilities import escape_str_for_c
-            return f' {{"{defined_by}", "{name}", "{mimetype}", "{escape_str_for_c(value)}"}}, '
+            fields = ', '.join(f'"{escape_str_for_c(x)}"' for x in (defined_by, name, mimetype, value))
+            return f' {{{fields}}}, '
 
         metadata = source.collect_metadata()
         lines = ['struct metadata_table_struct metadata_table[] = {']
-- 
2.43.0


From 48b3d4592c92e6c16b955f95016266632750e517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:57 +0000
Subject: [PATCH 55/62] fix: describe parameters without a default value, or
 with quotes, for NeXus

---
 src/mccode_antlr/translators/c_initialise.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index 14b5340..c818f05 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -151,6 +151,7 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
         return '\n'.join(pl)
 
     def nexus_lines():
+        from ..common.utilities import escape_str_for_c
         # If NeXus output is requested, add a group for this instance,
         # and loop over its parameter values, adding them to the group:
         gstr = f'"{index:04d}_{comp.name}"'
@@ -166,11 +167,11 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
         # loop over component instance parameters and set their values in the NeXus group ...
         for default in comp.type.setting:
             p = comp.get_parameter(default.name)
-            dstr = f'{default.value:p}'
-            vstr = f'{p.value:p}'
+            # a parameter does not need to have a default value
+            dstr, vstr = ['""' if str(x) == 'None' else f'{x:p}' for x in (default.value, p.value)]
             tstr = f'"{default.value.mccode_c_type}"'
             if not (default.value.is_str or p.value.is_str):
-                dstr, vstr = [f'"{x}"' for x in (dstr, vstr)]
+                dstr, vstr = ['""' if x == '""' else f'"{escape_str_for_c(x)}"' for x in (dstr, vstr)]
             lns.append(f'    mccomp_param_nexus(nxhandle, {gstr}, "{default.name}", {dstr}, {vstr}, {tstr});')
 
         return '\n'.join(lns + ['    );','    }','  }', '#endif'])
-- 
2.43.0


From ce6a07c38a09d76407666748e1477f2e85a4022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:57 +0000
Subject: [PATCH 56/62] fix: do not consume the list of parameters given by the
 caller

---
 src/mccode_antlr/run/range.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index 342de7d..69cf653 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -139,6 +139,7 @@ class Singular:
 
 def parse_list(range_type, unparsed: list[str]):
     ranges = {}
+    unparsed = list(unparsed)
     while len(unparsed):
         if '=' in unparsed[0]:
             k, v = unparsed[0].split('=', 1)
-- 
2.43.0


From f768613635691f64099f6438cb15cf4d88c3a358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:58 +0000
Subject: [PATCH 57/62] fix: evaluate C assignments without changing the given
 or shared values

---
 src/mccode_antlr/translators/c_listener.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/translators/c_listener.py b/src/mccode_antlr/translators/c_listener.py
index 822e575..29e79ad 100644
--- a/src/mccode_antlr/translators/c_listener.py
+++ b/src/mccode_antlr/translators/c_listener.py
@@ -501,7 +501,7 @@ def evaluate_c_defined_variables(
     from ..grammar import McInstr_parse, McInstr_ErrorListener
     from ..common import Expr, DataType
     lines = [f'{line};' for line in initialized_in.split(';') if len(line.strip())]
-    found = {} if known is None else known
+    found = {} if known is None else dict(known)
     for line in lines:
         tree = McInstr_parse(InputStream(line), 'assignment', make_error_listener(McInstr_ErrorListener, line))
         visitor = EvalCVisitor(found=found, verbose=verbose)
@@ -509,7 +509,7 @@ def evaluate_c_defined_variables(
         found = visitor.assigned
 
     def get_found(name, data_type):
-        expr = found.get(name, Expr.id(name)).simplify()
+        expr = found.get(name, Expr.id(name)).simplify().copy()  # can be shared with other variables
         if expr.is_singular:
             expr.data_type = DataType.from_name(data_type)
         return expr
-- 
2.43.0


From 317dbb871c14bd55a6e5360c54bb384d350d8f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:58 +0000
Subject: [PATCH 58/62] fix: keep rounding an integer expression, which can be
 a fraction, and round whole numbers

---
 src/mccode_antlr/common/expression.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 856bcf5..73c510c 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -543,7 +543,7 @@ class BinaryOp(Op):
         return self.left == other.left and self.right == other.right
 
     def __round__(self, n=None):
-        return self if self.data_type.is_int else UnaryOp('round', self)
+        return UnaryOp('round', self)
 
     @property
     def is_scalar(self):
@@ -681,7 +681,7 @@ class UnaryOp(Op):
         return self.op == other.op and self.value == other.value
 
     def __round__(self, n=None):
-        return self if self.data_type.is_int else UnaryOp('round', self)
+        return UnaryOp('round', self)
 
     @property
     def is_scalar(self):
@@ -743,9 +743,9 @@ class Value:
         self._shape = shape_type
 
     def __int__(self):
-        if self.data_type != DataType.int:
-            raise RuntimeError('Non-integer data type Value; round first')
-        return self._value
+        if self.is_id or self.data_type.is_str or self._value != round(self._value):
+            raise RuntimeError('Non-integer Value; round first')
+        return int(self._value)
 
     @property
     def value(self):
-- 
2.43.0


From a18af40e2a852e233bbb16d4389587baffa6c686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:58 +0000
Subject: [PATCH 59/62] fix: a remote registry knows whether a file is
 available

---
 src/mccode_antlr/reader/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index a272682..e536f97 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -205,7 +205,7 @@ class RemoteRegistry(Registry):
         return matches[0]
 
     def is_available(self, name: str, ext: str = None, exact: bool = True):
-        return self.pooch.registry_files(self.fullname(name, ext, exact))
+        return self.known(name, ext, strict=exact)
 
     def path(self, name: str, ext: str = None, exact: bool = True) -> Path:
         return Path(self.pooch.fetch(self.fullname(name, ext, exact)))
-- 
2.43.0


From b2fa4c7d28f565be8c2fa55fd5955c462a3e0e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:58 +0000
Subject: [PATCH 60/62] fix: search the folder of a path with spaces even if
 its last word is a known folder

---
 src/mccode_antlr/reader/registry.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index e536f97..4854bad 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -430,10 +430,17 @@ def ordered_registries(registries: list[Registry]):
     return sorted(registries, key=lambda x: x.priority, reverse=True)
 
 
+def _specification_parts(spec: str) -> list[str]:
+    """The words of a registry specification, which is a single one for the path to a folder, even with spaces"""
+    folder = spec.strip()
+    folder = folder[1:-1] if folder.startswith('"') and folder.endswith('"') else folder
+    return [folder] if folder and Path(folder).is_dir() else spec.split()
+
+
 def registries_match(registry: Registry, spec):
     if isinstance(spec, Registry):
         return registry == spec
-    parts = spec.split()
+    parts = _specification_parts(spec)
     path = Path(parts[1] if len(parts) == 2 else parts[0])
     if path.exists() and registry.root == path.resolve():
         return True
@@ -459,12 +466,7 @@ def registry_from_specification(spec: str):
     """
     if isinstance(spec, Registry):
         return spec
-    parts = spec.split()
-    # the path to a folder can contain spaces
-    folder = spec.strip()
-    folder = folder[1:-1] if folder.startswith('"') and folder.endswith('"') else folder
-    if folder and Path(folder).is_dir():
-        parts = [folder]
+    parts = _specification_parts(spec)
     if len(parts) == 0:
         return None
     elif len(parts) == 1:
-- 
2.43.0


From 4490d500f9ff022d2a0eb813f030914511793cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:56 +0000
Subject: [PATCH 61/62] fix: embed the runtime from the first registry which
 has each file, also from memory

---
 src/mccode_antlr/translators/target.py | 35 +++++++++++++-------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index 8f6d6b7..be62a38 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -59,15 +59,19 @@ class TargetVisitor:
         registries = self.registries if which is None else [x for x in self.registries if x.name in which]
         return any([reg.known(name, strict=True) for reg in registries])
 
-    def locate(self, name: str, which: str = None):
+    def registry_of(self, name: str, which: str = None):
+        """The first registry which has the named file"""
         registries = self.registries if which is None else [x for x in self.registries if x.name in which]
         for reg in registries:
             if reg.known(name, strict=True):
-                return reg.path(name)
+                return reg
         names = [reg.name for reg in registries]
         msg = "registry " + names[0] if len(names) == 1 else 'registries: ' + ','.join(names)
         raise RuntimeError(f'{name} not found in {msg}')
 
+    def locate(self, name: str, which: str = None):
+        return self.registry_of(name, which).path(name)
+
     def library_path(self, filename=None):
         return self.locate(filename)
 
@@ -76,21 +80,17 @@ class TargetVisitor:
         These file(s) have the extension .h.in and are changed to .h after replacing all "@MCCODE_*@ keys
         """
         import re
-        from importlib.resources import as_file
         from mccode_antlr.config import config, registry_defaults
         if not filename.endswith(".h.in"):
             raise RuntimeError(f"Expected to configure only header files, not {filename}")
-        with as_file(self.library_path(filename)) as file_at:
-            not_configured_name = str(file_at)
-            with open(file_at, 'r') as file:
-                contents = file.read()
+        reg = self.registry_of(filename)
+        # a file held in memory has no path
+        not_configured_name = str(reg.path(filename) or filename)
+        contents = reg.contents(filename)
 
         # It's not great to do this here. TODO Find a better place for this
-        reg = [reg for reg in self.registries if reg.unique(filename)]
-        if len(reg) != 1:
-            raise RuntimeError(f"Expected exactly one registry for file {filename}")
         # updates mccode_antlr.config.config
-        registry_defaults(reg[0], [flavor])
+        registry_defaults(reg, [flavor])
 
         def replacement(match) -> str:
             name = match.group(1).lower()
@@ -113,13 +113,12 @@ class TargetVisitor:
         self.out(f'/* end of configured version of file "{not_configured_name}" */')
 
     def embed_file(self, filename):
-        """Reads the library file, even if embedded in a module archive, writes to the output IO Stream"""
-        from importlib.resources import as_file
-        with as_file(self.library_path(filename)) as file_at:
-            with open(file_at, 'r') as file:
-                self.out(f'/* embedding file "{file_at}" */')
-                self.output.write(file.read())
-                self.out(f'/* end of file "{file_at}" */')
+        """Reads the library file, from a folder, a cache, or memory, writes to the output IO Stream"""
+        registry = self.registry_of(filename)
+        file_at = registry.path(filename) or filename
+        self.out(f'/* embedding file "{file_at}" */')
+        self.output.write(registry.contents(filename))
+        self.out(f'/* end of file "{file_at}" */')
 
     def include_path(self, filename=None):
         if filename is None:
-- 
2.43.0


From fe1735827d9dddec352ff914bd5ae7150befd310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:56 +0000
Subject: [PATCH 62/62] fix: GETPATH in a flag gives the file of that name only

---
 src/mccode_antlr/instr/instr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 9b53dc4..398f136 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -221,7 +221,7 @@ class Instr:
     def _getpath(self, filename: str):
         from pathlib import Path
         for registry in self.registries:
-            if registry.known(filename):
+            if registry.known(filename, strict=True) and registry.path(filename) is not None:
                 return registry.path(filename).absolute().resolve()
         return Path()
 
-- 
2.43.0

