"""C04: equation arithmetic composes values and leaves operands unchanged."""
import copy
import operator

import numpy as np

from harness import gen, ref, wide
from harness.core import Sub, st, attempt, expect, must, Violation
from NRWAL import Equation

RULE = ('A case is a tree of equation arithmetic over generated operand '
        'formulas with defaults, followed by updates of the participants; '
        'non-trivial: at least two operations or an operand that is itself '
        'compound, and the value is determined by the reference.')
ASSUMPTIONS = ['where both operands read a name with different defaults the '
               'right default is expected (flat namespace of the result)']

OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul,
       '/': operator.truediv, '**': operator.pow}


@st.composite
def operand(draw, nms, right):
    k = draw(st.integers(0, 9))
    if k <= 1 or (k == 2 and right):
        t = draw(gen.number_text())
        neg = draw(st.booleans())
        node = ['u', ['n', t], 0] if neg else ['n', t]
    elif k == 3:
        # bare comparison of plain values, not parenthesised
        node = ['c', draw(st.sampled_from(gen.CMP)),
                ['v', draw(st.sampled_from(nms))],
                draw(st.sampled_from([['n', draw(gen.number_text())]]
                                     + gen.vleaves(nms))),
                draw(st.integers(0, 3))]
    else:
        node = draw(gen.expr(gen.vleaves(nms), depth=draw(st.integers(0, 3)),
                             bare_cmp=False))
    kind = 'eqn'
    if right:
        kind = draw(st.sampled_from(['eqn', 'eqn', 'str', 'num']))
    if kind == 'num' and not (node[0] == 'n' or node[0] == 'u'
                              and node[1][0] == 'n'):
        kind = 'str'
    dflt = {}
    if kind == 'eqn':
        for n in nms:
            if draw(st.integers(0, 4)) == 0:
                dflt[n] = draw(gen.signed)
    return {'node': node, 'kind': kind, 'dflt': dflt,
            'named': draw(st.booleans())}


@st.composite
def tree(draw, nms, depth, right=False):
    if depth <= 0 or draw(st.integers(0, 3)) == 0:
        return {'leaf': draw(operand(nms, right))}
    return {'op': draw(st.sampled_from(['+', '-', '-', '*', '/', '**'])),
            'l': draw(tree(nms, depth - 1)),
            'r': draw(tree(nms, depth - 1, True))}


@st.composite
def case_compose(draw):
    nms = draw(gen.names(1, 4))
    t = {'op': draw(st.sampled_from(['+', '-', '-', '*', '/', '**'])),
         'l': draw(tree(nms, draw(st.integers(0, 2)))),
         'r': draw(tree(nms, draw(st.integers(0, 2)), True))}
    return {'names': nms, 'tree': t, 'values': draw(gen.values(
        nms, arrays=False)), 'supply': [draw(st.booleans()) for _ in nms],
        'upd': draw(gen.signed)}


def text_of(node):
    s = ref.render(node)
    if node[0] == 'c':
        s = s[1:-1]
    return s


def literal_value(node):
    if node[0] == 'u':
        x = float(node[1][1])
        return x if ref.plus(node) else -x
    return float(node[1])


class Rec:
    """A real equation next to its model."""

    def __init__(self, eqn, node, dflt):
        self.eqn, self.node, self.dflt = eqn, node, dflt


def build(t, recs):
    """Returns (object usable as operand, Rec)."""
    if 'leaf' in t:
        o = t['leaf']
        txt = text_of(o['node'])
        if o['kind'] == 'str':
            return txt, Rec(None, o['node'], {})
        if o['kind'] == 'num':
            return literal_value(o['node']), Rec(None, o['node'], {})
        name = 'equation_name' if o['named'] else None
        e = must(txt, Equation, txt, name=name,
                 default_variables=dict(o['dflt']) or None)
        rec = Rec(e, o['node'], dict(o['dflt']))
        recs.append(rec)
        return e, rec
    a, ra = build(t['l'], recs)
    b, rb = build(t['r'], recs)
    out = must('{} of equations'.format(t['op']), OPS[t['op']], a, b)
    expect(isinstance(out, Equation), 'arithmetic gives {!r}', type(out))
    expect(out is not a and out is not b, 'arithmetic returns an operand')
    va, vb = ref.variables(ra.node), ref.variables(rb.node)
    dflt = dict(ra.dflt)
    for k, v in rb.dflt.items():
        if not (k in dflt and k in va and k not in vb):
            dflt[k] = v
    rec = Rec(out, ['b', t['op'], ra.node, rb.node, 0], dflt)
    recs.append(rec)
    return out, rec


def count_ops(t):
    return 0 if 'leaf' in t else 1 + count_ops(t['l']) + count_ops(t['r'])


def check_rec(rec, vals, supplied, what):
    want = sorted(ref.variables(rec.node))
    got = must('variables', lambda: rec.eqn.variables)
    expect(list(got) == want, '{}: variables {!r} instead of {!r}', what, got,
           want)
    d = must('defaults', lambda: rec.eqn.default_variables)
    for k in want:
        expect((k in d) == (k in rec.dflt), '{}: default of {} is {}', what,
               k, 'present' if k in d else 'absent')
        if k in d:
            expect(float(d[k]) == float(rec.dflt[k]),
                   '{}: default of {} is {!r} instead of {!r}', what, k, d[k],
                   rec.dflt[k])
    env = {}
    kw = {}
    for k in want:
        if k in rec.dflt and k not in supplied:
            env[k] = rec.dflt[k]
        else:
            env[k] = kw[k] = vals[k]
    _, exp = ref.reference(rec.node, env, ref.U64)
    ok, got = attempt(rec.eqn.evaluate, **kw)
    if not ok:
        if ref.any_undef(exp):
            return 0
        raise Violation('{}: {!r} raised {!r}'.format(
            what, ref.render(rec.node), got))
    return ref.check_value('{}: {}'.format(what, ref.render(rec.node)), got,
                           False, exp, ref.U64)


def pred_compose(case, ctx):
    recs = []
    vals = case['values']
    supplied = {n for n, s in zip(case['names'], case['supply']) if s}
    _, top = build(case['tree'], recs)
    n = check_rec(top, vals, supplied, 'result')
    for i, r in enumerate(recs):
        check_rec(r, vals, supplied, 'participant {}'.format(i))
    # later updates of any one participant leave all others alone
    for i, r in enumerate(recs):
        key = case['names'][i % len(case['names'])]
        upd = {key: float(case['upd']) + i}
        must('set defaults', r.eqn.set_default_variables, upd)
        r.dflt.update(upd)
        upd[key] = -12345.0      # caller's dictionary is not kept
        for j, s in enumerate(recs):
            check_rec(s, vals, supplied, 'participant {} after update of {}'
                      .format(j, i))
    o = ref.ops(top.node)
    for x in set(o):
        ctx.label('op ' + x)
    ctx.nontriv(n > 0 and (count_ops(case['tree']) >= 2 or len(o) >= 3))


@st.composite
def case_replace(draw):
    nms = draw(gen.names(1, 4))
    a = draw(gen.expr(gen.vleaves(nms), depth=2))
    b = draw(gen.expr(gen.vleaves(nms), depth=2))
    return {'a': a, 'b': b, 'names': nms,
            'values': draw(gen.values(nms, arrays=False)),
            'dflt': {n: draw(gen.signed) for n in nms
                     if draw(st.booleans())},
            'upd': draw(gen.signed)}


def pred_replace(case, ctx):
    """Replacing the formula gives a new equation with the same defaults."""
    ta, tb = ref.render(case['a']), ref.render(case['b'])
    dflt = case['dflt']
    src = copy.deepcopy(dflt)
    e = must(ta, Equation, ta, name='nm', default_variables=src)
    ra = Rec(e, case['a'], dict(dflt))
    new = must('replace_equation', e.replace_equation, tb)
    expect(new is not e, 'replace_equation returns the same object')
    rb = Rec(new, case['b'], dict(dflt))
    expect(src == dflt, 'the dictionary of defaults changed')
    n = 0
    for _ in range(2):
        n += check_rec(ra, case['values'], set(), 'original')
        n += check_rec(rb, case['values'], set(), 'replaced')
        upd = {case['names'][0]: case['upd']}
        new.set_default_variables(upd)
        rb.dflt.update(upd)
        src[case['names'][-1]] = -1e5   # not shared with the caller either
    ctx.nontriv(n >= 2 and ta != tb)


# ----------------------------------------------------------------------
@st.composite
def case_chain(draw):
    """Many operations in a row; results and operands are used again."""
    nms = draw(gen.names(1, 6))
    t = wide.Text(draw, nms)
    leaves = [t.flat(2, 2) for _ in range(draw(st.integers(2, 5)))]
    ops = []
    for i in range(draw(st.integers(2, 25))):
        hi = len(leaves) + i - 1
        ops.append([draw(st.sampled_from('+-*/+-*/p')),
                    draw(st.sampled_from([hi, hi, draw(st.integers(0, hi))])),
                    draw(st.sampled_from(['e', 'e', 'n', 's', 'i'])),
                    draw(st.integers(0, min(hi, len(leaves) + 2))),
                    draw(gen.number_text())])
    return {'leaves': leaves, 'ops': ops, 'inputs': draw(wide.inputs(nms))}


def pred_chain(case, ctx):
    texts = list(case['leaves'])
    eqs = [must(t, Equation, t) for t in texts]
    vals = wide.expand(case['inputs'])
    for op, i, kind, j, num in case['ops']:
        if len(texts[i]) + len(texts[j]) > 1500:
            i, j = 0, 0
        op = '**' if op == 'p' else op
        if op == '**':
            kind, num = 'n', '2'
        if kind == 'e':
            right, rt = eqs[j], texts[j]
        elif kind == 's':
            right = rt = texts[j % len(case['leaves'])]
        else:
            rt = num
            right = float(num)
        what = '({}) {} ({})'.format(texts[i], op, rt)
        if kind == 'i':
            # augmented assignment makes a new equation, too
            x = eqs[i]
            x = must(what, {'+': operator.iadd, '-': operator.isub,
                            '*': operator.imul, '/': operator.itruediv,
                            '**': operator.ipow}[op], x, right)
            expect(x is not eqs[i], 'the left operand was changed')
        else:
            x = must(what, OPS[op], eqs[i], right)
        eqs.append(x)
        texts.append(what)
    n = 0
    for e, t in zip(eqs, texts):
        want = wide.names_of(t)
        expect(list(e.variables) == want, '{}: variables {} instead of {}',
               t, e.variables, want)
        v = {k: vals[k] for k in want}
        exp = wide.expected(t, v)
        ok, out = attempt(e.evaluate, **{k: np.array(x) if isinstance(
            x, list) else x for k, x in v.items()})
        if exp is not None and exp[1].all():
            expect(ok, '{} raised {!r}', t, out)
        if ok and exp is not None:
            n += bool(wide.compare(t, out, exp)) and t not in case['leaves']
    ctx.label('{} operations'.format(len(case['ops']) // 5 * 5))
    ctx.nontriv(n >= 2)


SUBS = [
    Sub('compose', case_compose(), pred_compose, 1600, 30000),
    Sub('replace', case_replace(), pred_replace, 600, 8000),
    Sub('chain', case_chain(), pred_chain, 500, 8000),
]
