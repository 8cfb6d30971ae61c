"""A small, independent reader of C-like expressions: the oracle for what a piece of expression text means.

C precedence and associativity; '^' is the instrument language's power operator (binds tighter than unary, right
associative).  Numbers are doubles (so '/' is real division); %, << and >> work on integers, comparisons give 0/1.
"""
import math, re

TOKEN = re.compile(r'\s*(?:(\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|\d+(?:[eE][-+]?\d+)?)'
                   r'|([A-Za-z_]\w*)|("[^"]*")|(->|<<|>>|<=|>=|==|!=|&&|\|\||--|\+\+|[-+*/%^<>!?:()\[\],.]))')
PREC = {'?': 1, '||': 2, '&&': 3, '==': 4, '!=': 4, '<': 5, '>': 5, '<=': 5, '>=': 5, '<<': 6, '>>': 6,
        '+': 7, '-': 7, '*': 8, '/': 8, '%': 8, '^': 11}
UNARY = 9


class Undefined(Exception):
    """The value is not defined (division by zero, overflow, ...)"""


class Malformed(Exception):
    pass


def tokens(text):
    out, i = [], 0
    text = text.rstrip()
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m or m.end() == i:
            raise Malformed(f'cannot read {text!r} at {i}')
        num, name, string, op = m.groups()
        out.append(('num', float(num)) if num else ('id', name) if name else ('str', string) if string else ('op', op))
        i = m.end()
    return out


def parse(text):
    toks = tokens(text)
    node, rest = _expr(toks, 0, 0)
    if rest != len(toks):
        raise Malformed(f'trailing text in {text!r}')
    return node


def _expr(t, i, limit):
    if i >= len(t):
        raise Malformed('unexpected end')
    kind, v = t[i]
    if kind == 'op' and v in '+-!' and len(v) == 1:
        right, i = _expr(t, i + 1, UNARY)
        left = ('u' + v, right)
    elif kind == 'op' and v == '(':
        left, i = _expr(t, i + 1, 0)
        i = _need(t, i, ')')
    elif kind in ('num', 'str', 'id'):
        left, i = (kind, v), i + 1
    else:
        raise Malformed(f'unexpected {v}')
    while i < len(t):
        kind, v = t[i]
        if kind != 'op':
            raise Malformed(f'unexpected {v}')
        if v == '(':
            args, i = [], i + 1
            while True:
                if t[i] == ('op', ')') and not args:
                    break
                a, i = _expr(t, i, 0)
                args.append(a)
                if i < len(t) and t[i] == ('op', ','):
                    i += 1
                    continue
                break
            i = _need(t, i, ')')
            left = ('call', left, args)
            continue
        if v == '[':
            a, i = _expr(t, i + 1, 0)
            i = _need(t, i, ']')
            left = ('item', left, a)
            continue
        if v in ('.', '->'):
            left, i = ('member', left, v, t[i + 1][1]), i + 2
            continue
        if v not in PREC or PREC[v] < limit:
            break
        if v == '?':
            a, i = _expr(t, i + 1, 0)
            i = _need(t, i, ':')
            b, i = _expr(t, i, PREC['?'])
            left = ('?', left, a, b)
        else:
            right, i = _expr(t, i + 1, PREC[v] if v == '^' else PREC[v] + 1)
            left = (v, left, right)
    return left, i


def _need(t, i, v):
    if i >= len(t) or t[i] != ('op', v):
        raise Malformed(f'expected {v}')
    return i + 1


FUNCS = {'fmod': math.fmod, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'sqrt': math.sqrt, 'abs': abs, 'fabs': abs, 'floor': math.floor,
         'exp': math.exp, 'pow': lambda a, b: a ** b, 'atan2': math.atan2, 'max': max, 'min': min,
         'f0': lambda: 4.0, 'f1': lambda x: 2 * x + 1, 'f2': lambda x, y: 3 * x - y}


def binop(o, x, y):
    try:
        if o == '+': return x + y
        if o == '-': return x - y
        if o == '*': return x * y
        if o == '/':
            if y == 0: raise Undefined()
            return x / y
        if o == '^':
            r = x ** y
            if isinstance(r, complex): raise Undefined()
            return r
        if o in ('%', '<<', '>>'):
            if x != int(x) or y != int(y): raise Undefined()
            x, y = int(x), int(y)
            if o == '%':
                if y == 0: raise Undefined()
                return math.fmod(x, y)
            if y < 0 or y > 40 or x < 0: raise Undefined()
            return float(x << y if o == '<<' else x >> y)
        if o == '==': return float(x == y)
        if o == '!=': return float(x != y)
        if o == '<': return float(x < y)
        if o == '>': return float(x > y)
        if o == '<=': return float(x <= y)
        if o == '>=': return float(x >= y)
    except (OverflowError, ZeroDivisionError, ValueError):
        raise Undefined()
    raise Malformed(o)


def value(n, env):
    k = n[0]
    if k == 'num': return n[1]
    if k == 'str': return n[1]
    if k == 'id':
        if n[1] not in env: raise Malformed(f'unknown {n[1]}')
        return env[n[1]]
    if k == 'u-': return -value(n[1], env)
    if k == 'u+': return value(n[1], env)
    if k == 'u!': return float(not value(n[1], env))
    if k == '||': return float(bool(value(n[1], env)) or bool(value(n[2], env)))
    if k == '&&': return float(bool(value(n[1], env)) and bool(value(n[2], env)))
    if k == '?': return value(n[2], env) if value(n[1], env) else value(n[3], env)
    if k == 'call':
        try:
            return float(env.get('()', FUNCS)[n[1][1]](*[value(a, env) for a in n[2]]))
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Undefined()
    if k == 'item': return env[n[1][1] + '[]'](value(n[2], env))
    if k == 'member': return env[n[1][1] + n[2] + n[3]]
    return binop(k, value(n[1], env), value(n[2], env))


def ceval(text, env):
    return value(parse(text), env)


def try_value(node, env):
    try:
        v = value(node, env)
    except Undefined:
        return None
    if isinstance(v, float) and (math.isinf(v) or math.isnan(v) or abs(v) > 1e60):
        return None
    return v


def close(x, y):
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    return abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))
