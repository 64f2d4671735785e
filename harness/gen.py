"""Hypothesis strategies that build the cases (JSON data only)."""
import copy
import keyword

from harness.core import st

# names chosen so that they contain each other, contain digits and the letter
# e next to digits (scientific notation look-alikes), and reserved prefixes
NAMES = [
    'a', 'b', 'c', 'x', 'y', 'depth', 'dep', 'depth2', 'depth_m', 'a_b', 'ab',
    'a1', 'a2', 'a10', 'e', 'E', 'e1', 'e5', 'x1e5', 'co2e', 'co2e3', 'm2',
    'n', 'np_x', 'pdx', 'num_turbines', 'turbines', 'turbine_capacity',
    'area', 'are', 'cost', 'capex', 'capex_multi', 'A', 'aB', '_x', 'x_', 'x2',
    'dist_p_to_s', 'dist_p_to_s_nolimit', 'pos', 'system', 'osw', 'd_3MW',
    'v_2020', 'lambda_', 'mean', 'npv', 'inf_rate', 'nanx', 'ex', 'exp_',
    're', 'logger', 'values', 'items', 'copy', 'Equation', 'kwargs', 'cls',
    'operator', 'name', 'x0', 'x10', 'x_0', 'y0',
    'log', 'exp', 'max', 'min', 'sum', 'abs', 'sqrt', 'pi', 'power', 'int',
    'float', 'len', 'round', 'maximum', 'str', 'range', 'key', 'value', 'T',
    'Depth', 'COST', 'Area', '\u03b7', '\u03b7_el', 'gr\u00f6\u00dfe', 'prix_\u00e9t\u00e9',
    'workspace_1', 'workspace_2', 'workspace_3', 'workspace_4', 'workspace',
    'annual_energy_production_net_of_losses_and_of_curtailment',
    'annual_energy_production_net_of_losses_and_of_curtailments',
]
RESERVED = set(keyword.kwlist) | {
    'np', 'pd', 'inf', 'nan',
    'infinity', 'self', 'inputs', 'equation_directory', 'interp_extrap_power',
    'use_nearest_power', 'interp_extrap_year', 'use_nearest_year'}
FORBIDDEN = ('eval', 'exec', 'import', '__')


def ok_name(s):
    low = s.lower()
    return (s.isidentifier() and s not in RESERVED and low not in RESERVED
            and not any(f in s for f in FORBIDDEN))


random_name = st.from_regex(r'\A[a-zA-Z_][a-zA-Z0-9_]{0,7}\Z').filter(ok_name)
name = st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES),
                 st.sampled_from(NAMES), random_name)


def names(lo, hi):
    return st.lists(name, min_size=lo, max_size=hi, unique=True)


@st.composite
def number_text(draw):
    kind = draw(st.integers(0, 7))
    if kind <= 2:
        return str(draw(st.integers(0, 12)))
    if kind <= 4:
        return '{}.{}'.format(draw(st.integers(0, 99)),
                              draw(st.sampled_from(
                                  ['0', '5', '25', '125', '3', '07', '91'])))
    m = draw(st.sampled_from(['1', '2', '3.5', '7.25', '12', '0.5', '.5',
                              '4.']))
    if kind == 5:
        return m
    return '{}{}{}{}'.format(m, draw(st.sampled_from(['e', 'E'])),
                             draw(st.sampled_from(['', '-', '+'])),
                             draw(st.sampled_from(['0', '1', '2', '3', '02',
                                                   '4'])))


FUN1 = ['np.exp', 'np.log', 'np.sqrt', 'np.abs', 'np.square', 'np.log10',
        'np.sin', 'np.cos', 'np.arctan', 'np.tanh', 'np.floor', 'np.ceil']
FUN2 = ['np.maximum', 'np.minimum']
CMP = ['<', '>', '<=', '>=', '==', '!=']
OPS = ['+', '-', '*', '/', '**']


@st.composite
def expr(draw, leaves, depth=4, funcs=True, cmps=True, ops=None, unary=True,
         parens=True, sci=True, numbers=True, bare_cmp=True, power=False):
    """A formula tree over the given leaf nodes.

    power: np.power and np.clip as well (only where all leaves are float
    inputs, since numpy refuses negative powers of integers)"""
    ops = ops or ['+', '-', '-', '*', '/', '/', '**']

    def leaf():
        k = draw(st.integers(0, 3))
        if leaves and (k or not numbers):
            return draw(st.sampled_from(leaves))
        return num()

    def num():
        t = draw(number_text())
        if not sci and ('e' in t or 'E' in t):
            t = '2.5'
        return ['n', t]

    seen = []

    def go(d):
        # a part may occur again elsewhere in the formula
        old = [n for n, size in seen if size <= d]
        if old and draw(st.integers(0, 9)) == 9:
            return copy.deepcopy(draw(st.sampled_from(old)))
        out = new(d)
        if out[0] not in 'nvr':
            seen.append((out, d))
        return out

    def new(d):
        k = draw(st.integers(0, 19))
        if d <= 0 or k <= 2:
            return leaf()
        if k <= 12:
            op = draw(st.sampled_from(ops))
            style = draw(st.integers(0, 7))
            if op == '**':
                base = go(d - 1)
                kk = draw(st.integers(0, 5))
                if kk <= 3:
                    ex = ['n', draw(st.sampled_from(
                        ['2', '3', '2', '0.5', '1', '1.5', '2.0']))]
                    if kk == 3 and unary:
                        ex = ['u', ex, style]
                else:
                    ex = go(d - 2)
                return ['b', op, base, ex, style]
            return ['b', op, go(d - 1), go(d - 1), style]
        if k == 13:
            # left-nested chains of one precedence level
            lo = draw(st.booleans())
            pool = [o for o in (('+', '-', '-') if lo else ('*', '/', '/'))
                    if o in ops]
            if not pool:
                return leaf()
            out = go(d - 2)
            for _ in range(draw(st.integers(2, 4))):
                out = ['b', draw(st.sampled_from(pool)), out, go(d - 2),
                       draw(st.integers(0, 3))]
            return out
        if k == 14 and unary:
            return ['u', go(d - 1), draw(st.sampled_from(
                [0, 1, 2, 3, 8, 11]))]
        if k == 15 and parens:
            return ['p', go(d - 1)]
        if k == 16 and funcs:
            f = draw(st.sampled_from(FUN1))
            return ['f', f, [go(d - 1)], 0]
        if k == 17 and power and draw(st.booleans()):
            base = draw(st.sampled_from(leaves))
            if draw(st.booleans()):
                base = ['b', '+', base, go(d - 2), draw(st.integers(0, 3))]
            kk = draw(st.integers(0, 2))
            if kk == 0:
                ex = draw(st.sampled_from(leaves))
                ex = ['u', ex, 0] if draw(st.booleans()) else ex
            elif kk == 1:
                ex = ['n', draw(st.sampled_from(['2', '3', '0.5', '1']))]
                ex = ['u', ex, 0] if draw(st.booleans()) else ex
            else:
                lo = draw(number_text())
                return ['f', 'np.clip', [base, ['n', lo], ['b', '+', ['n', lo],
                                                           ['n', '7.5'], 0]],
                        draw(st.integers(0, 1))]
            return ['f', 'np.power', [base, ex], draw(st.integers(0, 1))]
        if k == 17 and funcs:
            f = draw(st.sampled_from(FUN2))
            return ['f', f, [go(d - 1), go(d - 1)], draw(st.integers(0, 1))]
        if k == 18 and funcs and cmps:
            c = ['c', draw(st.sampled_from(CMP)), go(d - 2), go(d - 2),
                 draw(st.integers(0, 3))]
            return ['f', 'np.where', [c, go(d - 1), go(d - 1)],
                    draw(st.integers(0, 5))]
        if k == 19 and cmps and bare_cmp:
            c = ['c', draw(st.sampled_from(CMP)), go(d - 2), go(d - 2),
                 draw(st.integers(0, 3))]
            return ['b', '*', c, leaf(), draw(st.integers(0, 3))]
        return ['b', draw(st.sampled_from([o for o in ops if o != '**'])),
                go(d - 1), go(d - 1), draw(st.integers(0, 7))]

    return go(depth)


def vleaves(nms):
    return [['v', n] for n in nms]


# ----------------------------------------------------------------------
int_val = st.integers(-9, 12)
dec_val = st.integers(-4000, 9000).map(lambda i: i / 64.0)
dec_val2 = st.integers(1, 99999).map(lambda i: i / 1000.0)
big_val = st.sampled_from([1e5, 12345.678, 2.5e6, 1000.0, 1e-3])
# values of defaults: zero and negative numbers, too
signed = st.one_of(dec_val2, dec_val2, st.integers(-3, 9),
                   st.sampled_from([0, 0.0, -1.5, 1e-6, 1e6]))
# numbers as written in files, with extreme magnitudes and many digits
file_num = st.one_of(st.integers(-5, 9), dec_val2, st.sampled_from(
    [1.5e-13, 2.0e-9, 6.02e18, 123456789.12345679, 0.1234567890123, 1e15,
     -7.25e-8, 33333333333.0, 0, -1, 1e-5, 1e5, 1e16]))
value = st.one_of(int_val, dec_val, dec_val2, dec_val2, st.integers(1, 20),
                  big_val)


@st.composite
def values(draw, nms, arrays=True, maxlen=4, force_array=False):
    """Mapping name -> scalar or list (all lists of one length)."""
    n = draw(st.integers(1, maxlen))
    out = {}
    for i, k in enumerate(nms):
        if arrays and (draw(st.booleans()) or (force_array and i == 0)):
            out[k] = [draw(value) for _ in range(n)]
        else:
            out[k] = draw(value)
    return out
