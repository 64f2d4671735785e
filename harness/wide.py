"""Large formulas as text, with python and numpy themselves as the oracle.

The text is evaluated by python with the inputs as float64; elements that
depend on rounding (they move when the inputs move by 1e-13) or that are not
finite are not compared.
"""
import ast
import re
import warnings

import numpy as np

from harness import gen
from harness.core import st, expect

ONE = ['np.exp', 'np.log', 'np.sqrt', 'np.abs', 'np.square', 'np.log10',
       'np.sin', 'np.cos', 'np.arctan', 'np.tanh', 'np.tan', 'np.arcsinh',
       'np.log2', 'np.log1p', 'np.expm1', 'np.cbrt', 'np.sign', 'np.sinh',
       'np.cosh', 'np.negative', 'np.reciprocal', 'np.degrees', 'np.radians',
       'np.fabs', 'np.absolute', 'np.exp2', 'np.nan_to_num', 'np.floor',
       'np.ceil', 'np.trunc', 'np.rint', 'np.array', 'np.positive']
TWO = ['np.maximum', 'np.minimum', 'np.hypot', 'np.arctan2', 'np.add',
       'np.subtract', 'np.multiply', 'np.divide', 'np.fmax', 'np.fmin',
       'np.float_power', 'np.mod', 'np.logaddexp', 'np.copysign']
KW = ['np.round({}, decimals={n})', 'np.clip({}, a_min={n}, a_max=1e3)',
      'np.round({}, {n})', 'np.clip({}, {n}, 250.5)',
      'np.power(np.abs({}), {n})', 'np.where({} > {n}, {}, {})',
      'np.where(({} <= {}) & ({} > {n}), {}, {})',
      'np.where(({} < {}) | ({} >= {n}), {}, {})']
CONST = ['np.pi', 'np.e']


class Text:
    """Draws formula texts."""

    def __init__(self, draw, names, funcs=True, arith=('+', '-', '*', '/'),
                 call_names=None, extra=()):
        self.draw = draw
        self.names = list(names)
        self.call_names = list(call_names or names)
        self.funcs = funcs
        self.arith = list(arith)
        self.extra = list(extra)

    def pick(self, xs):
        return self.draw(st.sampled_from(xs))

    def k(self, n):
        return self.draw(st.integers(0, n))

    def op(self):
        o = self.pick(self.arith)
        return self.pick([o, ' ' + o + ' ', ' ' + o + ' ', o + ' '])

    def atom(self, inside=False):
        k = self.k(9)
        if k <= 5:
            return self.pick(self.call_names if inside else self.names)
        if k == 6 and self.extra and not inside:
            return self.pick(self.extra)
        if k == 7 and self.funcs and inside and self.k(3) == 0:
            return self.pick(CONST)
        return self.draw(gen.number_text())

    def call(self, d):
        k = self.k(7)
        if k <= 3:
            return '{}({})'.format(self.pick(ONE), self.flat(d - 1, 2, True))
        if k <= 5:
            return '{}({}{}{})'.format(
                self.pick(TWO), self.flat(d - 1, 2, True),
                self.pick([', ', ',', ' , ']), self.flat(d - 1, 2, True))
        t = self.pick(KW)
        args = [self.flat(d - 1, 1, True) for _ in range(t.count('{}'))]
        return t.format(*args, n=self.pick(['0', '1', '2']))

    def part(self, d, inside=False):
        k = self.k(11)
        if d <= 0 or k <= 6:
            return self.atom(inside)
        if k == 7 and self.funcs:
            return self.call(d)
        if k == 8:
            return '(-{})'.format(self.part(d - 1, inside))
        if k == 9:
            return '{}{}{}'.format(self.atom(inside), self.pick([
                '**', ' ** ']), self.pick(['2', '3', '0.5', '2.0', '1.5']))
        return self.pick(['({})', '({})', '( {} )', '(({}))']).format(
            self.flat(d - 1, 3, inside))

    def flat(self, d, hi, inside=False):
        out = self.part(d, inside)
        for _ in range(self.k(hi)):
            out += self.op() + self.part(d - 1, inside)
        return out

    def long(self):
        """Many terms, or many levels."""
        k = self.k(3)
        if k <= 1:
            out = self.part(2)
            for _ in range(self.draw(st.integers(10, 40))):
                out += self.op() + self.part(1)
            return out
        if k == 2:
            out = self.part(1)
            for _ in range(self.draw(st.integers(5, 14))):
                o, x = self.op(), self.part(1)
                out = '({})'.format(out + o + x if self.k(1)
                                    else x + o + out)
            return out
        return self.flat(4, 6)


def names_of(text):
    tree = ast.parse(text.strip(), mode='eval')
    return sorted({n.id for n in ast.walk(tree) if isinstance(n, ast.Name)}
                  - {'np', 'pd'})


def expanded(text, size):
    """Length of the text with references written out."""
    names = re.findall(r'[A-Za-z_]\w*', text)
    return len(text) + sum(size.get(n, 0) + 2 for n in names if n in size)


def evaluate(text, env, dtype=float):
    """Value of the text, or None where python refuses."""
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            return eval(text.strip(), {'np': np, '__builtins__': {}},
                        {k: v if np.ndim(v) == 0 else np.array(
                            v, dtype=dtype) for k, v in env.items()})
    except (ArithmeticError, TypeError, ValueError):
        return None


def shaken(env, eps):
    out = {}
    for i, (k, v) in enumerate(sorted(env.items())):
        v = np.array(v, dtype=float)
        sg = np.where((np.arange(v.size).reshape(v.shape) + i) % 2, 1, -1)
        v = v * (1 + eps * sg) + eps * 1e-9 * sg
        out[k] = v if np.ndim(env[k]) else float(v)
    return out


def expected(text, env, extra=lambda e, dtype: {}, single=False):
    """(value, mask of the elements that can be compared, tolerance, mask of
    the elements that are always nan) or None.

    extra: further names computed from the (shaken) inputs; single: arrays
    may be computed in single precision."""
    vals = []
    for eps in (0, 1e-13, -1e-13) + ((0, 1e-7) if single else ()):
        e = shaken(env, eps) if eps else dict(env)
        dtype = np.float32 if len(vals) == 3 else float
        e.update(extra(e, dtype))
        v = evaluate(text, e, dtype)
        if v is None or np.asarray(v).dtype.kind not in 'fi':
            return None
        vals.append(np.asarray(v, dtype=float))
    if len({v.shape for v in vals}) > 1:
        return None
    with np.errstate(all='ignore'):
        ok = np.isfinite(vals[0])
        ok &= np.abs(vals[0]) < (1e30 if single else 1e200)
        tol = 1e-5 if single else 1e-10
        for v in vals[1:]:
            ok &= np.abs(v - vals[0]) <= tol * np.abs(vals[0]) + 1e-300
    nan = np.logical_and.reduce([np.isnan(v) for v in vals])
    # terms may cancel exactly in one order of the operations only
    big = [1.0] + [float(x) for x in re.findall(
        r'(?<![\w.])[0-9]+\.?[0-9]*(?:[eE][-+]?[0-9]+)?', text)]
    for v in e.values():
        v = np.asarray(v, dtype=float)
        big += [float(np.max(np.abs(v[np.isfinite(v)]), initial=0))]
    tol = np.where(vals[0] == 0, tol * min(max(big), 1e100) ** 2, 20 * tol
                   * np.abs(vals[0]))
    return vals[0], ok, tol, nan


def compare(what, got, exp):
    """Number of compared elements."""
    val, ok, tol = exp[:3]
    got = np.asarray(got)
    expect(got.shape == val.shape, '{}: shape {} instead of {}', what,
           got.shape, val.shape)
    if not ok.any():
        return 0
    got = got.astype(float)
    with np.errstate(all='ignore'):
        bad = ok & ~(np.abs(got - val) <= tol + 1e-290)
    if bad.any():
        i = tuple(int(x[0]) for x in np.nonzero(bad)) if val.ndim else ()
        expect(False, '{}: element {} is {!r} instead of {!r}', what, i,
               float(got[i]), float(val[i]))
    return int(ok.sum())


RANGES = [(0.5, 9), (0.01, 2), (-5, 5), (20, 3000), (-1, 0)]


@st.composite
def inputs(draw, names):
    """Description of the inputs; see expand."""
    n = draw(st.sampled_from([0, 1, 2, 3, 17, 64, 100, 101, 256, 300]))
    return {'n': n, 'seed': draw(st.integers(0, 10 ** 6)),
            'spec': {k: [draw(st.integers(0, len(RANGES) - 1)),
                         bool(n) and draw(st.integers(0, 2)) > 0]
                     for k in names}}


def expand(desc):
    """name -> float or list of floats."""
    out = {}
    for k, (rng, arr) in desc['spec'].items():
        r = np.random.RandomState([desc['seed'], sum(
            (i + 1) * ord(c) for i, c in enumerate(k))])
        lo, hi = RANGES[rng]
        x = np.round(r.uniform(lo, hi, desc['n'] if arr else None), 4)
        out[k] = [float(v) for v in x] if arr else float(x)
    return out
