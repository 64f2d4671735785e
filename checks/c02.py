"""C02: an equation reports exactly the variables it needs."""
import re

import numpy as np

from harness import gen, ref, wide
from harness.core import Sub, st, attempt, expect, must, must_raise, Violation
from NRWAL import Equation

RULE = ('A case is a formula, a split of its variables into supplied at the '
        'call / supplied as default / missing, and extra unused names; '
        'non-trivial: the formula has at least two variables, or a variable '
        'next to a number in scientific notation, or a keyword argument.')


@st.composite
def case_vars(draw):
    nms = draw(gen.names(1, 7))
    node = draw(gen.expr(gen.vleaves(nms), depth=draw(st.integers(1, 5))))
    used = sorted(ref.variables(node))
    vals = draw(gen.values(used, arrays=False))
    how = {k: draw(st.sampled_from('ccccddm')) for k in used}
    if draw(st.booleans()):
        how = {k: 'c' if v == 'm' else v for k, v in how.items()}
    extra = [x for x in draw(gen.names(0, 3)) if x not in used]
    return {'node': node, 'values': vals, 'how': how, 'extra': extra,
            'ctor': draw(st.booleans()), 'named': draw(st.booleans())}


def pred_vars(case, ctx):
    node, vals, how = case['node'], case['values'], case['how']
    text = ref.render(node)
    want = sorted(ref.variables(node))
    name = 'zz_equation_name' if case['named'] else None
    dflt = {k: float(vals[k]) for k in want if how[k] == 'd'}
    if case['ctor'] and dflt:
        eqn = must(text, Equation, text, name=name, default_variables=dflt)
    else:
        eqn = must(text, Equation, text, name=name)
        if dflt:
            must('set defaults', eqn.set_default_variables, dflt)
    got = must('variables', lambda: eqn.variables)
    expect(list(got) == want, '{!r} reports variables {!r} instead of {!r}',
           text, got, want)
    expect(sorted(must('parse_variables', Equation.parse_variables, text))
           == want, 'parse_variables({!r}) differs', text)
    # what a caller does with the list does not reach other equations
    got = Equation(text).variables
    if isinstance(got, list):
        got.append('zz_more')
        got[:-1] = []
    other = must(text, Equation, text)
    expect(list(other.variables) == want,
           'another equation {!r} reports variables {!r}', text,
           other.variables)
    kw = {k: vals[k] for k in want if how[k] == 'c'}
    missing = [k for k in want if how[k] == 'm']
    is_array, exp = ref.reference(node, vals, ref.U64)
    if missing:
        must_raise('{!r} without {}'.format(text, missing), RuntimeError,
                   eqn.evaluate, **kw)
        must_raise('{!r} without {} (alias)'.format(text, missing),
                   RuntimeError, eqn.eval, **kw)
        # supplying them repairs it: the refusal left nothing behind
        kw.update({k: vals[k] for k in missing})
        ctx.label('missing')
    ok, got = attempt(eqn.evaluate, **kw)
    if not ok:
        if ref.any_undef(exp):
            expect(isinstance(got, RuntimeError), 'wrong error {!r}', got)
            ctx.label('singular')
            return
        raise Violation('{!r} raised {!r} with all variables'.format(
            text, got))
    ref.check_value(text, got, False, exp, ref.U64)
    # unused inputs change nothing (also of other shapes)
    kw2 = dict(kw)
    for i, k in enumerate(case['extra']):
        kw2[k] = np.arange(3.) if i % 2 else 4.25
    got2 = must('with extra inputs', eqn.evaluate, **kw2)
    ref.check_value(text + ' +extra', got2, False, exp, ref.U64)
    expect(list(eqn.variables) == want, 'variables changed by evaluation')
    if case['extra']:
        ctx.label('extra')
    if dflt:
        ctx.label('default')
    ctx.nontriv(len(want) >= 2 or ('e-' in text and want))


@st.composite
def case_kwargs(draw):
    """Formulas with reductions and keyword arguments."""
    nms = draw(gen.names(2, 3))
    f = draw(st.sampled_from(['np.sum', 'np.mean', 'np.max', 'np.nansum']))
    kwname, kwtext = 'axis', draw(st.sampled_from(['0', '-1']))
    sp = draw(st.sampled_from(['=', ' = ', '= ']))
    return {'names': nms, 'f': f, 'kw': kwname + sp + kwtext,
            'op': draw(st.sampled_from(['+', '*', '-'])),
            'vals': [draw(gen.dec_val2) for _ in range(3)],
            's': draw(gen.dec_val2)}


def pred_kwargs(case, ctx):
    a, b = case['names'][:2]
    text = '{} {} {}({} {} {}, {})'.format(
        b, case['op'], case['f'], a, '*', b, case['kw'])
    eqn = must(text, Equation, text)
    got = list(must('variables', lambda: eqn.variables))
    expect(got == sorted([a, b]), '{!r} reports variables {!r}', text, got)
    arr = np.array(case['vals'])
    out = must('evaluate', eqn.evaluate, **{a: arr, b: case['s']})
    red = {'np.sum': sum, 'np.nansum': sum, 'np.max': max,
           'np.mean': lambda x: sum(x) / len(x)}[case['f']]
    inner = red([v * case['s'] for v in case['vals']])
    want = {'+': case['s'] + inner, '*': case['s'] * inner,
            '-': case['s'] - inner}[case['op']]
    expect(abs(float(out) - want) <= 1e-9 * (abs(want) + abs(inner)
                                             + case['s']),
           '{!r} gives {!r} instead of {!r}', text, out, want)
    ctx.nontriv()


@st.composite
def case_tokens(draw):
    """Adversarial token sequences: names and numbers side by side."""
    toks = []
    nms = draw(gen.names(1, 4))
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.integers(0, 3))
        if k == 0:
            toks.append(['n', draw(gen.number_text())])
        else:
            toks.append(['v', draw(st.sampled_from(nms))])
    seps = [draw(st.sampled_from(
        ['+', '-', '*', '/', '**', ' + ', ' - ', '* ', ' /', '>', '<', ' > ',
         ' == ', '==', '!=', '<=', '>=', ' % ', '%', '-(', '+(', '*(-']))
        for _ in toks[1:]]
    return {'toks': toks, 'seps': seps}


def pred_tokens(case, ctx):
    text = case['toks'][0][1]
    depth = 0
    for tok, sep in zip(case['toks'][1:], case['seps']):
        text += sep + tok[1]
        depth += sep.count('(')
    text += ')' * depth
    if re.search(r'\*\*[-( ]*[0-9]+[) ]*\*\*[-( ]*[0-9]', text):
        return                # python would compute huge integers
    want = sorted({t[1] for t in case['toks'] if t[0] == 'v'})
    # the names python itself sees
    import ast
    tree = ast.parse(text, mode='eval')
    seen = sorted({n.id for n in ast.walk(tree) if isinstance(n, ast.Name)})
    if seen != want:
        return
    eqn = must(text, Equation, text)
    got = must('variables', lambda: eqn.variables)
    expect(list(got) == want, '{!r} reports variables {!r} instead of {!r}',
           text, got, want)
    for k in want:
        kw = {x: 2.0 for x in want if x != k}
        must_raise('{!r} without {}'.format(text, k), RuntimeError,
                   eqn.evaluate, **kw)
    ok, out = attempt(eqn.evaluate, **{x: 1.25 for x in want})
    try:
        val = eval(text, {}, {x: 1.25 for x in want})
    except ArithmeticError:
        val = None
    if val is not None and not isinstance(val, complex):
        expect(ok, '{!r} raised {!r}', text, out)
        expect(abs(float(out) - float(val)) <= 1e-9 * (1 + abs(val)),
               '{!r} gives {!r} instead of {!r}', text, out, val)
    ctx.nontriv(len(want) >= 2 or any(t[0] == 'n' and 'e' in t[1].lower()
                                      for t in case['toks']))


# ----------------------------------------------------------------------
@st.composite
def case_wide(draw):
    nms = draw(gen.names(1, draw(st.sampled_from([4, 12, 25]))))
    t = wide.Text(draw, nms)
    return {'text': t.long() if draw(st.integers(0, 3)) else t.flat(4, 4),
            'inputs': draw(wide.inputs(nms)), 'skip': draw(st.integers(0, 30)),
            'dflt': draw(st.integers(0, 3))}


def pred_wide(case, ctx):
    """Long formulas with many names, numpy functions and keywords."""
    text = case['text']
    want = wide.names_of(text)
    eqn = must(text, Equation, text)
    expect(list(must('variables', lambda: eqn.variables)) == want,
           '{!r} reports variables {} instead of {}', text, eqn.variables,
           want)
    vals = {k: v for k, v in wide.expand(case['inputs']).items()
            if k in want}
    kw = {k: np.array(v) for k, v in vals.items()}
    dflt = {k: kw.pop(k) for i, k in enumerate(sorted(want))
            if case['dflt'] and i % 3 == case['dflt'] - 1
            and not isinstance(vals[k], list)}
    dflt = {k: float(v) for k, v in dflt.items()}
    if dflt:
        must('defaults', eqn.set_default_variables, dflt)
    exp = wide.expected(text, vals)
    ok, out = attempt(eqn.evaluate, **kw)
    n = 0
    if exp is not None:
        expect(ok, '{!r} raised {!r}', text, out)
    if ok and exp is not None:
        n = wide.compare(text, out, exp)
    if kw:
        miss = sorted(kw)[case['skip'] % len(kw)]
        must_raise('{!r} without {}'.format(text, miss), RuntimeError,
                   eqn.evaluate, **{k: v for k, v in kw.items()
                                    if k != miss})
    ctx.label('{} names'.format(min(len(want), 10)))
    ctx.nontriv(n > 0 and len(want) >= 2)


# ----------------------------------------------------------------------
@st.composite
def case_masks(draw):
    """Conditions joined with & | ^ and ~, with and without spaces."""
    nms = draw(gen.names(4, 7))
    masks, nums = nms[:2], nms[2:]

    def cond(d):
        k = draw(st.integers(0, 5))
        if k <= 1 or d <= 0:
            return draw(st.sampled_from(masks + ['({}{}{})'.format(
                draw(st.sampled_from(nums)),
                draw(st.sampled_from(['>', ' < ', '<=', '==', ' != '])),
                draw(st.sampled_from(nums + ['2', '1.5'])))]))
        if k == 2:
            return '~' + cond(d - 1)
        o = draw(st.sampled_from(['&', '|', '^', ' & ', ' | ', '& ']))
        t = cond(d - 1) + o + cond(d - 1)
        return '({})'.format(t)
    text = 'np.where({}, {}, {})'.format(cond(2), *[draw(st.sampled_from(
        nums + ['2.5', '-' + nums[0], nums[0] + '*2'])) for _ in range(2)])
    if draw(st.booleans()):
        text = '{}*{}'.format(text, nums[-1])
    return {'text': text, 'masks': masks, 'nums': nums, 'n': draw(
        st.integers(1, 5)), 'seed': draw(st.integers(0, 9999)),
        'skip': draw(st.integers(0, 9))}


def pred_masks(case, ctx):
    text, r = case['text'], np.random.RandomState(case['seed'])
    want = wide.names_of(text)
    vals = {k: r.rand(case['n']) < 0.5 for k in case['masks']}
    vals.update({k: r.randint(0, 4, case['n']) / 2 for k in case['nums']})
    vals = {k: v for k, v in vals.items() if k in want}
    eqn = must(text, Equation, text)
    expect(list(must('variables', lambda: eqn.variables)) == want,
           '{!r} reports variables {} instead of {}', text, eqn.variables,
           want)
    exp = eval(text, {'np': np, '__builtins__': {}}, dict(vals))
    got = must('{!r} with {}'.format(text, vals), eqn.evaluate, **vals)
    expect(np.shape(got) == np.shape(exp) and np.allclose(
        got, exp, rtol=1e-12, atol=0), '{!r} with {}: {} instead of {}', text,
           vals, got, exp)
    miss = want[case['skip'] % len(want)] if want else None
    if miss:
        must_raise('{!r} without {}'.format(text, miss), RuntimeError,
                   eqn.evaluate, **{k: v for k, v in vals.items()
                                    if k != miss})
    used = [k for k in case['masks'] if k in want]
    ctx.label('{} masks'.format(len(used)))
    ctx.nontriv(bool(used))


SUBS = [
    Sub('masks', case_masks(), pred_masks, 500, 8000),
    Sub('variables', case_vars(), pred_vars, 2500, 50000),
    Sub('keyword-arguments', case_kwargs(), pred_kwargs, 300, 3000),
    Sub('tokens', case_tokens(), pred_tokens, 2000, 40000),
    Sub('wide', case_wide(), pred_wide, 600, 10000),
]
