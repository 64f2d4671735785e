"""C01: an equation evaluates to the value its formula denotes."""
import copy

import numpy as np

from harness import gen, ref, wide
from harness.core import Sub, st, attempt, equal, expect, must, Violation
from NRWAL import Equation

RULE = ('A case is a formula tree (rendered with varying spacing, parentheses '
        'and number notation) with values for its variables; non-trivial: at '
        'least two operators or functions and at least one element of the '
        'result is determined by the reference (no singularity) and compared.')
ASSUMPTIONS = ['reference evaluation in float64 with a running error bound; '
               'elements where the bound cannot decide (division by zero, '
               'overflow, near-tie comparison) are not compared']


def pick_unit(values):
    """float32 rounding applies when integer arrays or lists take part."""
    for v in values.values():
        if isinstance(v, list):
            return ref.U32
    return ref.U64


def to_input(v, kind=0):
    if isinstance(v, list):
        if kind == 1:
            return list(v)
        if kind == 2:
            return tuple(v)
        return np.array(v)
    return v


@st.composite
def case_formula(draw):
    nms = draw(gen.names(1, 5))
    lv = gen.vleaves(nms)
    if draw(st.integers(0, 3)):
        node = draw(gen.expr(lv, depth=draw(st.integers(1, 5)), power=True))
    else:
        # the same parts again and again
        lv = lv[:2] + [draw(gen.expr(lv, depth=2, bare_cmp=False))
                       for _ in range(2)]
        node = draw(gen.expr(lv, depth=draw(st.integers(1, 3))))
    if draw(st.integers(0, 9)) == 0:
        node = ['c', draw(st.sampled_from(gen.CMP)), node, draw(gen.expr(
            gen.vleaves(nms), depth=2)), draw(st.integers(0, 3))]
    used = sorted(ref.variables(node))
    vals = draw(gen.values(used, arrays=draw(st.booleans())))
    return {'node': node, 'values': vals, 'order': draw(st.booleans()),
            'pad': draw(st.integers(0, 3))}


def pred_formula(case, ctx):
    node, vals = case['node'], case['values']
    text = ref.render(node)
    if node[0] == 'c' and case['pad'] != 2:
        text = text[1:-1]
    if case['pad'] == 1:
        text = text + ' '
    elif case['pad'] == 2:
        text = '(' + text + ')'
    u = pick_unit(vals)
    is_array, exp = ref.reference(node, vals, u)
    eqn = must('Equation({!r})'.format(text), Equation, text)
    keys = sorted(vals, reverse=case['order'])
    kw = {k: to_input(vals[k]) for k in keys}
    ok, got = attempt(eqn.evaluate, **kw)
    if not ok:
        if ref.any_undef(exp):
            expect(isinstance(got, RuntimeError),
                   'evaluation error is not a RuntimeError: {!r}', got)
            ctx.label('singular')
            return
        raise Violation('{!r} raised {!r}'.format(text, got))
    n = ref.check_value(text, got, is_array, exp, u)
    kw = {k: to_input(vals[k]) for k in sorted(vals)}
    got2 = must('eval alias', eqn.eval, **kw)
    ref.check_value(text + ' (alias)', got2, is_array, exp, u)
    expect(equal(got, got2)
           or ref.any_undef(exp), 'eval and evaluate differ')
    o = ref.ops(node)
    for x in set(o):
        ctx.label('op ' + x)
    if any(c in text for c in ('e-', 'E-')):
        ctx.label('negative exponent literal')
    ctx.label('array' if is_array else 'scalar')
    ctx.nontriv(len(o) >= 2 and n > 0)


@st.composite
def case_ints(draw):
    nms = draw(gen.names(1, 4))
    node = draw(gen.expr(gen.vleaves(nms), depth=draw(st.integers(1, 4)),
                         power=True))
    used = sorted(ref.variables(node))
    n = draw(st.integers(1, 4))
    vals = {k: (draw(st.integers(-9, 30)) if draw(st.booleans()) else
                [draw(st.integers(-9, 30)) for _ in range(n)]) for k in used}
    if draw(st.integers(0, 3)) == 0:
        # large integers keep all their digits
        big = st.builds(lambda b, k, s: s * ((1 << b) + k),
                        st.integers(23, 45), st.integers(-3, 3),
                        st.sampled_from([1, 1, -1]))
        vals = {k: draw(st.one_of(big, st.integers(1, 9))) for k in used}
        if draw(st.booleans()) and len(used) > 1:
            vals[used[0]] = draw(big)
            vals[used[1]] = vals[used[0]] + draw(st.integers(-3, 3))
            node = ['b', '-', ['v', used[0]], ['v', used[1]], 0]
            vals = {k: vals[k] for k in used[:2]}
    return {'node': node, 'values': vals,
            'skip': draw(st.integers(0, 1)),
            'np': draw(st.sampled_from(['int64', 'int32', 'int16', 'uint8',
                                        'uint32', 'int8']))}


def pred_ints(case, ctx):
    """Integers (python, numpy scalar, integer arrays) act like floats."""
    node, vals = case['node'], case['values']
    text = ref.render(node)
    eqn = must('Equation({!r})'.format(text), Equation, text)
    u = pick_unit(vals)
    is_array, exp = ref.reference(node, vals, u)

    kind = np.iinfo(case['np'])
    flat = [x for v in vals.values()
            for x in (v if isinstance(v, list) else [v])]
    dtype = case['np'] if all(kind.min <= x <= kind.max for x in flat) \
        else 'int64'
    ctx.label(dtype)

    def as_int(v):
        return (np.array(v, dtype=dtype) if isinstance(v, list)
                else int(v))

    def as_np_int(v):
        return np.array(v, dtype=dtype) if isinstance(v, list) \
            else np.dtype(dtype).type(v)

    def as_float(v):
        return np.array(v, dtype=float) if isinstance(v, list) else float(v)
    n = 0
    for i, conv in enumerate((as_int, as_np_int, as_float, as_int)):
        kw = {k: conv(v) for k, v in vals.items()}
        e = eqn
        if i == 3:
            # the same as default values
            part = {k: kw.pop(k) for k in sorted(kw)[case['skip']:]}
            e = Equation(text, default_variables=part)
        ok, got = attempt(e.evaluate, **kw)
        if not ok:
            expect(ref.any_undef(exp), '{!r} raised {!r} for {}', text, got,
                   conv.__name__)
            ctx.label('singular')
            continue
        n = ref.check_value('{} {}'.format(text, conv.__name__), got,
                            is_array, exp, u)
    ctx.nontriv(n > 0 and len(ref.ops(node)) >= 1 and bool(vals))


@st.composite
def case_number(draw):
    x = draw(st.one_of(
        st.integers(-10**9, 10**9), gen.dec_val,
        st.floats(-1e12, 1e12, allow_nan=False).filter(
            lambda f: f == 0 or abs(f) > 1e-20)))
    return {'x': x, 'text': draw(st.booleans())}


def pred_number(case, ctx):
    x = case['x']
    eqn = must('Equation(number)', Equation,
               repr(x) if case['text'] else x)
    expect(list(eqn.variables) == [], 'number {!r} has variables {!r}', x,
           eqn.variables)
    got = must('evaluate number', eqn.evaluate)
    expect(abs(float(got) - float(x)) <= 1e-15 * abs(x),
           'number {!r} evaluates to {!r}', x, got)
    got = must('evaluate number', eqn.evaluate, a=3, b=np.ones(2))
    expect(np.ndim(got) == 0 and float(got) == float(eqn.evaluate()),
           'unused inputs change a constant')
    ctx.nontriv(x != int(x) or abs(x) > 1000)


# ----------------------------------------------------------------------
@st.composite
def case_wide(draw):
    """Long and deep formulas with many variables and numpy functions."""
    nms = draw(gen.names(1, draw(st.sampled_from([3, 8, 20]))))
    t = wide.Text(draw, nms, arith=('+', '-', '*', '/'))
    text = t.long() if draw(st.booleans()) else t.flat(4, 3)
    return {'text': text, 'inputs': draw(wide.inputs(nms)),
            'box': draw(st.integers(0, 2))}


def pred_wide(case, ctx):
    text = case['text']
    want = wide.names_of(text)
    vals = {k: v for k, v in wide.expand(case['inputs']).items()
            if k in want}
    eqn = must(text, Equation, text)
    got = list(must('variables', lambda: eqn.variables))
    expect(got == want, '{!r} reports variables {} instead of {}', text, got,
           want)
    exp = wide.expected(text, vals)
    ok, out = attempt(eqn.evaluate, **{k: to_input(v, case['box'])
                                       for k, v in vals.items()})
    if exp is None:
        ctx.label('singular')
    else:
        # numpy does not refuse single elements
        expect(ok, '{!r} raised {!r}', text, out)
    n = 0
    if ok and exp is not None:
        n = wide.compare(text, out, exp)
    ctx.label('{} characters'.format(len(text) // 100 * 100))
    ctx.nontriv(n > 0 and len(text) > 40)


# ----------------------------------------------------------------------
def variant(draw, node, nms):
    """The tree with one operator, number or name changed."""
    spots = []

    def walk(x):
        if x[0] in 'bvn':
            spots.append(x)
        for y in x[1:]:
            if isinstance(y, list) and y and isinstance(y[0], str):
                walk(y)
            elif isinstance(y, list):
                for z in y:
                    walk(z)
    node = copy.deepcopy(node)
    walk(node)
    x = draw(st.sampled_from(spots))
    if x[0] == 'b':
        x[1] = draw(st.sampled_from(
            [o for o in '+-*/' if o != x[1]] if len(x[1]) == 1 else ['*']))
    elif x[0] == 'v':
        x[1] = draw(st.sampled_from(nms))
    else:
        x[1] = draw(gen.number_text())
    return node


@st.composite
def case_several(draw):
    """Equations that resemble each other, evaluated in turn."""
    nms = draw(gen.names(2, 4))
    nodes = [draw(gen.expr(gen.vleaves(nms), depth=3))]
    for _ in range(draw(st.integers(1, 3))):
        nodes.append(variant(draw, draw(st.sampled_from(nodes)), nms))
    label = draw(st.one_of(st.none(), st.just('zz_label')))
    return {'nodes': nodes,
            'names': [label if draw(st.integers(0, 4)) else 'zz_other'
                      for _ in nodes],
            'vals': [draw(gen.values(nms)) for _ in range(2)],
            'steps': draw(st.lists(st.tuples(
                st.integers(0, len(nodes) - 1), st.integers(0, 1),
                st.booleans()), min_size=2, max_size=8))}


def pred_several(case, ctx):
    texts = [ref.render(x) for x in case['nodes']]
    eqns = [must(t, Equation, t, name=n)
            for t, n in zip(texts, case['names'])]
    m = 0
    for i, j, new in case['steps']:
        node = case['nodes'][i]
        vals = {k: case['vals'][j][k] for k in ref.variables(node)}
        if new:
            eqns[i] = must(texts[i], Equation, texts[i],
                           name=case['names'][i])
        expect(list(eqns[i].variables) == sorted(vals),
               '{!r} after {}: variables {}', texts[i], texts,
               eqns[i].variables)
        u = pick_unit(vals)
        is_array, exp = ref.reference(node, vals, u)
        ok, got = attempt(eqns[i].evaluate, **{
            k: to_input(v) for k, v in vals.items()})
        if not ok:
            expect(ref.any_undef(exp), '{!r} raised {!r}', texts[i], got)
            continue
        m += ref.check_value('{!r} with {}'.format(texts[i], texts), got,
                             is_array, exp, u)
    ctx.nontriv(m >= 2 and len(set(texts)) > 1)


SUBS = [
    Sub('several', case_several(), pred_several, 600, 10000),
    Sub('formula', case_formula(), pred_formula, 3000, 60000),
    Sub('integers', case_ints(), pred_ints, 1200, 20000),
    Sub('numbers', case_number(), pred_number, 600, 8000),
    Sub('wide', case_wide(), pred_wide, 800, 15000),
]
