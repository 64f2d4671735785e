"""Independent reference semantics for NRWAL formulas.

Formulas are trees (JSON lists), rendered to text for the code under test and
evaluated here with a running error bound, so that results can be compared
soundly although the code may compute in float32 or associate sums and
products differently.

Nodes
  ['n', text]                    number literal
  ['v', name]                    variable
  ['b', op, l, r, style]         op in + - * / ** (style: spacing, ^)
  ['u', x, style]                unary minus (style from 8 on: unary plus)
  ['p', x]                       explicit parentheses
  ['f', fname, [args], style]    numpy function
  ['c', op, l, r]                comparison, rendered in parentheses
  ['r', text]                    reference (path), value from the environment
"""
import math

import numpy as np

from harness.core import Discard, HarnessError, Violation

U64 = 2.0 ** -52
U32 = 2.0 ** -22
BIG = 1e25
TINY = 1e-25


class Undef(Exception):
    """The reference does not determine the value (singular or unstable)."""


class Num:
    """Value v, absolute error bound e, magnitude m of the terms involved.

    t tells how it is computed: 'f' floating-point, 'i' python integers (of
    literals only), 'N' possibly numpy integers, i.e. numpy functions and
    comparisons of integer literals only."""
    __slots__ = ('v', 'e', 'm', 't')

    def __init__(self, v, e=0.0, m=None, t='f'):
        self.t = t
        self.v = v
        self.e = e
        self.m = abs(v) if m is None else max(m, abs(v))
        if not math.isfinite(v) or self.m > BIG or not math.isfinite(e):
            raise Undef('out of range')
        if v != 0 and abs(v) < TINY:
            raise Undef('underflow')

    def __repr__(self):
        return 'Num({!r}, {:.1e})'.format(self.v, self.e)


CONSTANTS = {'np.pi': math.pi, 'np.e': math.e}


def literal(x, u=U64):
    x = float(CONSTANTS.get(x, x))
    exact = u == U64 or float(np.float32(x)) == x
    return Num(x, 0.0 if exact else u * abs(x))


def add(a, b, u, sign=1):
    m = a.m + b.m
    return Num(a.v + sign * b.v, a.e + b.e + u * m, m)


def mul(a, b, u):
    m = a.m * b.m
    return Num(a.v * b.v, abs(a.v) * b.e + abs(b.v) * a.e + a.e * b.e + u * m,
               m)


def div(a, b, u):
    if b.v == 0 or abs(b.v) <= 8 * b.e:
        raise Undef('division by zero')
    v = a.v / b.v
    m = (a.m / abs(b.v)) * (b.m / abs(b.v))
    return Num(v, (a.e + abs(v) * b.e) / (abs(b.v) - b.e) + u * m, m)


def power(a, b, u):
    try:
        if a.v > 0 and a.v > 8 * a.e:
            v = math.pow(a.v, b.v)
            rel = 2 * (abs(b.v) * a.e / a.v
                       + abs(math.log(a.v)) * b.e) + 4 * u
            if rel > 0.5:
                raise Undef('unstable power')
            return Num(v, rel * abs(v))
        if b.e != 0 or b.v != int(b.v) or abs(b.v) > 64:
            raise Undef('power of non-positive base')
        n = int(b.v)
        if n == 0:
            if a.e:
                raise Undef('0 ** 0 neighbourhood')
            return Num(1.0)
        if a.v == 0 or abs(a.v) <= 8 * a.e:
            if n < 0:
                raise Undef('division by zero')
            if a.e:
                raise Undef('unstable power')
            return Num(0.0)
        v = math.pow(a.v, n)
        rel = 2 * abs(n) * a.e / abs(a.v) + 4 * u
        if rel > 0.5:
            raise Undef('unstable power')
        return Num(v, rel * abs(v))
    except (OverflowError, ValueError, ZeroDivisionError) as e:
        raise Undef(str(e))


def compare(op, a, b):
    d = a.v - b.v
    if not (a.e == 0 and b.e == 0) and abs(d) <= 8 * (a.e + b.e):
        raise Undef('comparison too close')
    return {'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0,
            '==': d == 0, '!=': d != 0}[op]


def call(name, args, u):
    if name == 'np.maximum':
        a, b = args
        return Num(max(a.v, b.v), max(a.e, b.e), max(a.m, b.m))
    if name == 'np.minimum':
        a, b = args
        return Num(min(a.v, b.v), max(a.e, b.e), max(a.m, b.m))
    if name == 'np.where':
        c, a, b = args
        return a if c else b
    if name == 'np.power':
        return power(args[0], args[1], u)
    if name == 'np.clip':
        a, lo, hi = args
        return Num(min(max(a.v, lo.v), hi.v), max(a.e, lo.e, hi.e),
                   max(a.m, lo.m, hi.m))
    a, = args
    if name == 'np.abs':
        return Num(abs(a.v), a.e, a.m)
    if name == 'np.square':
        return mul(a, a, u)
    if name in ('np.sin', 'np.cos', 'np.arctan', 'np.tanh'):
        if a.m > 1e6 or a.e > 0.01:
            raise Undef('range')
        v = getattr(math, {'np.arctan': 'atan'}.get(name, name[3:]))(a.v)
        return Num(v, a.e + 4 * u * (1 + a.m))
    if name in ('np.floor', 'np.ceil'):
        if a.e and abs(a.v - round(a.v)) <= 8 * a.e or a.m > 1e6:
            raise Undef('step')
        return Num(float(getattr(math, name[3:])(a.v)))
    if name == 'np.exp':
        if abs(a.v) > 40 or a.e > 0.3:
            raise Undef('exp range')
        v = math.exp(a.v)
        return Num(v, v * (2 * a.e + 4 * u * (1 + a.m)))
    if name in ('np.log', 'np.log10'):
        if a.v <= 0 or a.v <= 8 * a.e:
            raise Undef('log range')
        v = math.log(a.v) if name == 'np.log' else math.log10(a.v)
        return Num(v, 2 * a.e / a.v + 8 * u * (1 + abs(v)))
    if name == 'np.sqrt':
        if a.v == 0 and a.e == 0:
            return Num(0.0)
        if a.v <= 0 or a.v <= 8 * a.e:
            raise Undef('sqrt range')
        v = math.sqrt(a.v)
        return Num(v, a.e / v + 4 * u * v)
    raise HarnessError('unknown function ' + name)


FLOATS = {'np.exp', 'np.log', 'np.log10', 'np.sqrt', 'np.sin', 'np.cos',
          'np.arctan', 'np.tanh'}


def typed(num, args, numpy=False):
    """num as the result of an operation on args."""
    kinds = [a.t for a in args]
    t = 'f' if 'f' in kinds else 'N' if numpy or 'N' in kinds else 'i'
    if t == 'N' and max([num.m] + [a.m for a in args]) > 2.0 ** 53:
        raise Undef('numpy integers are limited')
    return Num(num.v, num.e, num.m, t)


def boolean(x):
    return Num(float(x), t='N') if isinstance(x, bool) else x


def plus(node):
    """Is a sign a plus sign?"""
    return len(node) > 2 and node[2] >= 8


def evaluate(node, env, u=U64):
    """Evaluate a tree; env maps names and reference texts to Num."""
    t = node[0]
    if t == 'n':
        x = literal(node[1], u)
        if node[1].lstrip('+-').isdigit():
            x.t = 'i'
        return x
    if t in ('v', 'r'):
        if node[1] not in env:
            raise HarnessError('no value for ' + node[1])
        x = env[node[1]]
        if isinstance(x, Undef):
            raise Undef(str(x))
        return x
    if t == 'p':
        return evaluate(node[1], env, u)
    if t == 'u':
        a = evaluate(node[1], env, u)
        return Num(a.v if plus(node) else -a.v, a.e, a.m, a.t)
    if t == 'b':
        try:
            a = evaluate(node[2], env, u)
        except Undef:
            evaluate(node[3], env, u)     # may have to be discarded
            raise
        b = evaluate(node[3], env, u)
        op = node[1]
        a, b = boolean(a), boolean(b)
        if op == '+':
            return typed(add(a, b, u), [a, b])
        if op == '-':
            return typed(add(a, b, u, -1), [a, b])
        if op == '*':
            return typed(mul(a, b, u), [a, b])
        if op == '/':
            return div(a, b, u)
        if op == '**':
            kinds = {a.t, b.t}
            if kinds == {'i'} and abs(b.v) * math.log2(abs(a.v) + 2) > 1e6:
                raise Discard('python would compute a huge integer')
            if 'f' not in kinds and 'N' in kinds:
                raise Undef('numpy refuses some powers of integers')
            return typed(power(a, b, u), [a, b])
        raise HarnessError('op ' + op)
    if t == 'c':
        return compare(node[1], evaluate(node[2], env, u),
                       evaluate(node[3], env, u))
    if t == 'f':
        args = [evaluate(x, env, u) for x in node[2]]
        nums = [boolean(x) for x in args]
        if node[1] == 'np.power' and 'f' not in [x.t for x in nums]:
            raise Undef('numpy refuses some powers of integers')
        out = call(node[1], args, u)
        if node[1] in FLOATS:
            return out
        return typed(out, nums[1:] if node[1] == 'np.where' else nums, True)
    raise HarnessError('node {!r}'.format(node))


def variables(node, out=None):
    """Names read by the formula (set)."""
    if out is None:
        out = set()
    t = node[0]
    if t == 'v':
        out.add(node[1])
    elif t in ('p', 'u'):
        variables(node[1], out)
    elif t in ('b', 'c'):
        variables(node[2], out)
        variables(node[3], out)
    elif t == 'f':
        for x in node[2]:
            variables(x, out)
    return out


def refs(node, out=None):
    if out is None:
        out = set()
    t = node[0]
    if t == 'r':
        out.add(node[1])
    elif t in ('p', 'u'):
        refs(node[1], out)
    elif t in ('b', 'c'):
        refs(node[2], out)
        refs(node[3], out)
    elif t == 'f':
        for x in node[2]:
            refs(x, out)
    return out


def size(node):
    t = node[0]
    if t in ('p', 'u'):
        return 1 + size(node[1])
    if t in ('b', 'c'):
        return 1 + size(node[2]) + size(node[3])
    if t == 'f':
        return 1 + sum(size(x) for x in node[2])
    return 1


def ops(node, out=None):
    """Multiset (list) of operators and functions in the tree."""
    if out is None:
        out = []
    t = node[0]
    if t == 'u':
        out.append('pos' if plus(node) else 'neg')
        ops(node[1], out)
    elif t == 'p':
        ops(node[1], out)
    elif t in ('b', 'c'):
        out.append(node[1])
        ops(node[2], out)
        ops(node[3], out)
    elif t == 'f':
        out.append(node[1])
        for x in node[2]:
            ops(x, out)
    return out


_SP = [(' ', ' '), ('', ''), (' ', ''), ('  ', '  ')]
_PREC = {'+': 1, '-': 1, '*': 2, '/': 2, '**': 4}


def _prec(node):
    t = node[0]
    if t == 'b':
        return _PREC[node[1]]
    if t == 'u':
        return 3
    return 5


def render(node, caret=False):
    """Text of the formula; caret allows '^' for power where style asks."""
    t = node[0]
    if t == 'n' or t == 'v' or t == 'r':
        return node[1]
    if t == 'p':
        return '(' + render(node[1], caret) + ')'
    if t == 'u':
        x = node[1]
        s = render(x, caret)
        if _prec(x) < 3:
            s = '(' + s + ')'
        sp = ' ' if (node[2] if len(node) > 2 else 0) % 4 == 3 else ''
        return ('+' if plus(node) else '-') + sp + s
    if t == 'c':
        a, b = _SP[(node[4] if len(node) > 4 else 0) % 4]
        return '(' + render(node[2], caret) + a + node[1] + b \
            + render(node[3], caret) + ')'
    if t == 'f':
        style = node[3] if len(node) > 3 else 0
        sep = ', ' if style % 2 == 0 else ','
        # '^' is not python: never inside a function call
        args = []
        for x in node[2]:
            s = render(x, False)
            if x[0] == 'c' and style % 3 == 0:
                s = s[1:-1]
            args.append(s)
        return node[1] + '(' + sep.join(args) + ')'
    if t == 'b':
        op = node[1]
        style = node[4] if len(node) > 4 else 0
        left = render(node[2], caret)
        right = render(node[3], caret)
        if op == '**':
            if _prec(node[2]) < 5:
                left = '(' + left + ')'
            if _prec(node[3]) < 3:
                right = '(' + right + ')'
        else:
            if _prec(node[2]) < _PREC[op]:
                left = '(' + left + ')'
            if _prec(node[3]) <= _PREC[op]:
                right = '(' + right + ')'
        a, b = _SP[style % 4]
        txt = op
        if op == '**' and caret and style // 4 % 2 == 1:
            txt = '^'
        return left + a + txt + b + right
    raise HarnessError('node {!r}'.format(node))


# ----------------------------------------------------------------------
def tol(num, u):
    return 8 * num.e + 64 * u * num.m + 1e-28


def site_env(values, i, u):
    """Environment of Num for index i of the (scalar or list) values."""
    out = {}
    for k, v in values.items():
        if isinstance(v, list):
            v = v[i]
        out[k] = literal(v, u)
    return out


def reference(node, values, u, extra=None):
    """Evaluate node for scalar/list values.

    Returns (is_array, [Num | Undef, ...]).
    """
    names = variables(node)
    lens = {len(values[k]) for k in names if isinstance(values[k], list)}
    if len(lens) > 1:
        raise HarnessError('mixed lengths')
    is_array = bool(lens)
    n = lens.pop() if lens else 1
    out = []
    for i in range(n):
        try:
            x = evaluate(node, site_env(values, i, u), u)
            out.append(boolean(x))
        except Undef as e:
            out.append(e)
    return is_array, out


def check_value(what, got, is_array, expected, u):
    """Compare a value of the code under test with reference elements.

    Returns the number of elements actually compared."""
    try:
        if type(got) is int:        # python integers have no upper bound
            got = float(got)
        arr = np.asarray(got)
        if arr.dtype == object:
            raise Violation('{}: result is not numeric: {!r} ({})'.format(
                what, got, type(got).__name__))
        if np.iscomplexobj(arr):
            if all(isinstance(x, Undef) for x in expected):
                return 0
            raise Violation('{}: complex result {!r}'.format(what, got))
        arr = arr.astype(float)
    except (TypeError, ValueError) as e:
        raise Violation('{}: result is not numeric: {!r} ({})'.format(
            what, got, e))
    shape = (len(expected),) if is_array else ()
    if arr.shape != shape:
        raise Violation('{}: result has shape {} instead of {}'.format(
            what, arr.shape, shape))
    flat = arr.reshape(-1)
    n = 0
    for i, ex in enumerate(expected):
        if isinstance(ex, Undef):
            continue
        n += 1
        t = tol(ex, u)
        if not abs(float(flat[i]) - ex.v) <= t:
            raise Violation('{}: element {} is {!r}, expected {!r} (+- {:.1e})'
                            .format(what, i, float(flat[i]), ex.v, t))
    return n


def all_undef(expected):
    return all(isinstance(x, Undef) for x in expected)


def any_undef(expected):
    return any(isinstance(x, Undef) for x in expected)
