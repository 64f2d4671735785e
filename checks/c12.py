"""C12: a config entry evaluates to what its expression says."""
import os
import random

import numpy as np

from harness import cfg, gen, lib, ref, wide
from harness.core import (Sub, st, attempt, expect, must, scratch_dir,
                          Violation)
from NRWAL import NrwalConfig

RULE = ('A case is a generated library, a config over it (constants, '
        'arithmetic over inputs, entries and library equations, numpy calls, '
        'group and directory aliases) in two orders, and inputs; non-trivial: '
        'at least one compared entry that refers to another entry or to the '
        'library.')
ASSUMPTIONS = ['inputs do not supply names of the constants of the config (C09)',
               'apart from the check of it, a name read by library equations '
               'of two directories with different defaults is not combined '
               'in one expression (known finding)']


@st.composite
def case_values(draw):
    c = draw(cfg.config())
    c['order2'] = list(draw(st.permutations(list(range(len(c['entries']))))))
    c['shadow'] = draw(st.lists(st.sampled_from([0, -7.5, 1e4, 3]),
                                min_size=2, max_size=2))
    return c


def pred_values(case, ctx):
    inputs = cfg.given_inputs(case)
    u = cfg.unit(inputs)
    m, want = cfg.pruned(case, inputs, u)
    if not want:
        return
    d = cfg.write_library(case, scratch_dir())
    o2 = [case['entries'][i][0] for i in case['order2']
          if case['entries'][i][0] in m.spec]
    n = 0
    for order in (m.order, o2, m.names, m.names[::-1]):
        data = m.plain(d, order)
        c = must('config {}'.format(data), NrwalConfig, data)
        out = must('evaluate {} with {}'.format(data, inputs), c.evaluate,
                   cfg.real_inputs(inputs, np))
        for name in m.equations():
            expect(name in out, 'no output {} of {}', name, data)
            a, exp = want[name]
            what = '{} of {} with {}'.format(name, data, inputs)
            k = ref.check_value(what, out[name], a, exp, u)
            expect(np.array_equal(np.asarray(c[name]),
                                  np.asarray(out[name])),
                   'indexing gives another value for {}', name)
            if k and (m.reads(name) & m.entries or ref.refs(m.node(name))):
                n += 1
        for name in out:
            expect(name in m.spec and m.is_eqn(name),
                   'unexpected output {!r}', name)
            ref.check_value('{} of {}'.format(name, data), out[name],
                            want[name][0], want[name][1], u)
    # inputs with the names of equations (say, earlier results) are not read
    for order in (m.order, m.names[::-1]):
        data = m.plain(d, order)
        c = must('config {}'.format(data), NrwalConfig, data)
        more = {k: case['shadow'][i % 2] for i, k in enumerate(m.equations())
                if k not in c[k].variables and i % 3 != case['order2'][0] % 3}
        if not more:
            break
        out = must('evaluate {} with {}'.format(data, dict(inputs, **more)),
                   c.evaluate, dict(more, **cfg.real_inputs(inputs, np)))
        for name in m.equations():
            ref.check_value('{} of {} with {} and {}'.format(
                name, data, inputs, more), out[name], want[name][0],
                want[name][1], u)
        ctx.label('shadowed')
    for name in m.equations():
        for o in set(ref.ops(m.node(name))):
            ctx.label('op ' + o)
        if any(r.partition('::')[0] in m.alias for r in ref.refs(
                m.node(name))):
            ctx.label('through alias')
    ctx.nontriv(n > 0)


# ----------------------------------------------------------------------
@st.composite
def case_arith(draw):
    """One deep expression over inputs, constants and entries."""
    nms = draw(st.lists(st.sampled_from(cfg.POOL), min_size=3, max_size=6,
                        unique=True))
    vs, es = nms[:-2], nms[-2:]
    lv = gen.vleaves(nms)
    if draw(st.booleans()):
        # calls that can hold each other
        one = draw(cfg.np_call(lv, draw(st.integers(0, 2))))
        two = draw(cfg.np_call(lv[:2] + [one, one], draw(st.integers(0, 1))))
        lv = lv + [one, two] * draw(st.integers(1, 2))
    node = draw(gen.expr(lv, depth=draw(st.integers(2, 6)), funcs=False,
                         cmps=False))
    return {'vars': vs, 'ents': es, 'node': node,
            'spec': [draw(gen.expr(gen.vleaves(vs[:2]), depth=1, funcs=False,
                                   cmps=False)), draw(cfg.number_entry)],
            'values': draw(gen.values(vs)),
            'pad': draw(st.integers(0, 3)), 'last': draw(st.booleans())}


def pred_arith(case, ctx):
    vals = case['values']
    u = cfg.unit(vals)
    e1, e2 = case['ents']
    node = case['node']
    names = ref.variables(node)
    sp = case['spec'][0]
    if not ref.variables(sp):
        sp = ['b', '*', ['v', case['vars'][0]], ['n', '2'], 0]
    sub = substitute(node, {e1: sp, e2: ['n', str(case['spec'][1])]
                            if not str(case['spec'][1]).startswith('-') else
                            ['u', ['n', str(case['spec'][1])[1:]], 0]})
    if not ref.variables(sub):
        return
    arr, exp = ref.reference(sub, vals, u)
    if ref.any_undef(exp):
        return
    text = ref.render(node)
    text = [text, ' ' + text, text + ' ', '  ' + text + '  '][case['pad']]
    data = {'result_x': text}
    rest = {}
    if e1 in names:
        if ref.any_undef(ref.reference(sp, vals, u)[1]):
            return
        rest[e1] = ref.render(sp)
    if e2 in names:
        rest[e2] = case['spec'][1]
    data = dict(rest, **data) if case['last'] else dict(data, **rest)
    d = scratch_dir()
    data['equation_directory'] = d
    c = must('config {}'.format(data), NrwalConfig, data)
    out = must('evaluate {}'.format(data), c.evaluate,
               cfg.real_inputs({k: vals[k] for k in ref.variables(sub)}, np))
    k = ref.check_value('{!r} in {}'.format(text, data), out['result_x'],
                        arr, exp, u)
    ops = ref.ops(node)
    for o in set(ops):
        ctx.label('op ' + o)
    ctx.nontriv(k and len(ops) >= 2)


def substitute(node, env):
    t = node[0]
    if t == 'v':
        return env.get(node[1], node)
    if t in ('p', 'u'):
        return [t, substitute(node[1], env)] + node[2:]
    if t in ('b', 'c'):
        return [t, node[1], substitute(node[2], env),
                substitute(node[3], env)] + node[4:]
    if t == 'f':
        return [t, node[1], [substitute(x, env) for x in node[2]]] + node[3:]
    return node


# ----------------------------------------------------------------------
@st.composite
def case_conflict(draw):
    """Equations of two directories that give one name two defaults."""
    ex = gen.expr(gen.vleaves(['v', 'v', 'w']), depth=1, funcs=False,
                  cmps=False)
    return {'left': draw(ex), 'right': draw(ex),
            'op': draw(st.sampled_from(['+', '-', '*', '/'])),
            'dflt': [draw(gen.signed), draw(gen.signed)],
            'v': draw(gen.signed), 'w': draw(gen.signed),
            'swap': draw(st.booleans())}


def pred_conflict(case, ctx):
    left, right = case['left'], case['right']
    s = scratch_dir()
    for i, (d, node) in enumerate((('one', left), ('two', right))):
        lib.write({'f': {'file': {'e': {'e': node}}, 'ext': 'yaml'},
                   'variables': {'vars': {'v': case['dflt'][i]},
                                 'ext': 'yaml'}}, os.path.join(s, 'lib', d))
    refs = ['one::f::e', 'two::f::e']
    data = {'equation_directory': os.path.join(s, 'lib'),
            'o': '{} {} {}'.format(refs[0], case['op'], refs[1]),
            'x': refs[0], 'y': refs[1], 'z': 'x {} y'.format(case['op'])}
    if case['swap']:
        data = dict(reversed(list(data.items())))

    def value(v1, v2):
        try:
            a, b = [ref.evaluate(n, {'v': ref.literal(v),
                                     'w': ref.literal(case['w'])})
                    for n, v in ((left, v1), (right, v2))]
            return ref.evaluate(['b', case['op'], ['v', 'a'], ['v', 'b'], 0],
                                {'a': a, 'b': b}), a, b
        except ref.Undef as e:
            return e
    d1, d2 = case['dflt']
    exp, alt, flat = value(d1, d2), value(case['v'], case['v']), value(d2, d2)
    if any(isinstance(x, ref.Undef) for x in (exp, alt, flat)):
        return
    if not ref.variables(left) or not ref.variables(right):
        return
    c = must('config {}'.format(data), NrwalConfig, data)

    def get(out, k):
        return out[k] if k in out else c.global_variables[k]
    out = dict(must('evaluate', c.evaluate, {'w': case['w']}))
    ref.check_value('x of {}'.format(data), get(out, 'x'), False, [exp[1]],
                    ref.U64)
    ref.check_value('y of {}'.format(data), get(out, 'y'), False, [exp[2]],
                    ref.U64)
    both = 'v' in ref.variables(left) and 'v' in ref.variables(right)
    for k in 'oz':
        what = '{} of {} with w={}, v by default {}'.format(
            k, data, case['w'], case['dflt'])
        ok, err = attempt(ref.check_value, what, get(out, k), False, exp[:1],
                          ref.U64)
        if not ok:
            if not both or not attempt(ref.check_value, what, get(out, k),
                                       False, flat[:1], ref.U64)[0]:
                raise err
            ctx.known_finding('C12-conflicting-defaults')
            ctx.label('default of the right operand (known finding)')
    # an input applies to both
    out = must('evaluate', c.evaluate, {'w': case['w'], 'v': case['v']})
    for k in 'oz':
        ref.check_value('{} of {} with v={}'.format(k, data, case['v']),
                        get(out, k), False, alt[:1], ref.U64)
    ctx.nontriv(d1 != d2 and 'v' in ref.variables(left))


# ----------------------------------------------------------------------
@st.composite
def case_wide(draw):
    """Configs of many entries with long expressions."""
    pool = draw(st.lists(st.sampled_from(cfg.POOL), min_size=6, max_size=28,
                         unique=True))
    n_in = draw(st.integers(1, 4))
    ins, ents = pool[:n_in], pool[n_in:]
    libtexts = {'e{}q'.format(i): wide.Text(draw, ins).flat(2, 2)
                for i in range(3)}
    refs = ['zlib::' + k for k in libtexts]
    texts, size = {}, {}
    for i, k in enumerate(ents):
        prev = ents[max(0, i - 3):i]
        t = wide.Text(draw, ins + prev, extra=refs)
        j = draw(st.integers(0, 9))
        if j == 0:
            text = repr(draw(gen.dec_val2))
        elif j == 1:
            text = t.long()
        elif j == 2 and prev:
            text = draw(st.sampled_from(prev))
        elif j == 3:
            text = draw(st.sampled_from(refs))
        else:
            text = t.flat(3, 4)
        if wide.expanded(text, size) > 3000:
            text = '{} - 1.5'.format(ins[0])
        size[k] = wide.expanded(text, size)
        texts[k] = text
    return {'texts': texts, 'lib': libtexts,
            'order': list(draw(st.permutations(ents))),
            'inputs': draw(wide.inputs(ins))}


def pred_wide(case, ctx):
    texts = case['texts']
    vals = wide.expand(case['inputs'])
    lib_env = {'zlib::' + k: k for k in case['lib']}

    def py(t):
        for r, k in lib_env.items():
            t = t.replace(r, k)
        return t

    def extra(e, dtype=float):
        out = {}
        for k, t in list(case['lib'].items()) + [
                (k, py(t)) for k, t in texts.items()]:
            v = wide.evaluate(t, dict(e, **out), dtype) if not set(
                wide.names_of(t)) - set(e) - set(out) else None
            if v is not None and np.asarray(v).dtype.kind in 'fi':
                out[k] = v
        return out
    have = extra(dict(vals))
    # entries python cannot evaluate are left out, with their users
    texts = {k: t for k, t in texts.items() if k in have}
    d = scratch_dir()
    lib.dump({k: t for k, t in case['lib'].items() if k in have},
             os.path.join(d, 'zlib.yaml'))
    data = {'equation_directory': d}
    data.update({k: texts[k] for k in case['order'] if k in texts})
    exps = {k: wide.expected(k, vals, extra, True) for k in texts}
    known = all(e is not None and e[1].all() for e in exps.values())
    ok, c = attempt(NrwalConfig, data)
    if not ok:
        expect(not known, 'config {} refused: {!r}', data, c)
        return
    ok, out = attempt(c.evaluate, {k: np.array(v) if isinstance(v, list)
                                   else v for k, v in vals.items()})
    if not ok:
        expect(not known, 'config {} raised {!r}', data, out)
        return
    n = 0
    for k, exp in exps.items():
        if exp is None or k not in out:
            expect(k in out or exp is None or not np.ndim(exp[0]),
                   'no output {} of {}', k, data)
            continue
        n += bool(wide.compare('{} of {}'.format(k, data), out[k], exp))
    ctx.label('{} entries'.format(len(texts) // 5 * 5))
    ctx.nontriv(n >= 3)


# ----------------------------------------------------------------------
@st.composite
def case_large(draw):
    """Hundreds of entries that read each other through numpy calls."""
    return {'n': draw(st.sampled_from([12, 40, 101, 130, 160, 210])),
            'order': draw(st.sampled_from(['reverse', 'mixed', 'forward'])),
            'salt': draw(st.integers(0, 999)),
            'back': draw(st.sampled_from([1, 1, 2, 7])),
            'x': draw(gen.dec_val2)}


def pred_large(case, ctx):
    n, rnd = case['n'], random.Random(case['salt'])
    texts, want = {}, {}
    x = float(case['x'])
    for i in range(n):
        k = 'ent_{}'.format(i)
        ref_ = 'ent_{}'.format(max(0, i - rnd.randint(1, case['back'])))
        if i == 0:
            texts[k], want[k] = 'np.minimum(x_in, 1e9) + 1', min(x, 1e9) + 1
        else:
            f = rnd.choice(['maximum', 'minimum'])
            c = rnd.choice([-3, 0.5, 12])
            texts[k] = 'np.{}({}, {}) + {}'.format(f, ref_, c, i)
            want[k] = (max if f == 'maximum' else min)(want[ref_], c) + i
    order = list(texts)
    if case['order'] == 'reverse':
        order.reverse()
    elif case['order'] == 'mixed':
        rnd.shuffle(order)
    c = must('config of {} entries'.format(n), NrwalConfig,
             {k: texts[k] for k in order})
    expect(c.required_inputs == ['x_in'], 'required {}', c.required_inputs)
    out = must('{} entries in {} order'.format(n, case['order']), c.evaluate,
               {'x_in': x})
    expect(sorted(out) == sorted(texts), 'outputs are not the {} entries', n)
    for k in texts:
        expect(abs(float(out[k]) - want[k]) <= 1e-9 * (1 + abs(want[k])),
               '{} is {!r} instead of {!r}', k, out[k], want[k])
    ctx.label('{} entries'.format(n), case['order'])
    ctx.nontriv(n > 100)


SUBS = [
    Sub('values', case_values(), pred_values, 900, 15000),
    Sub('arithmetic', case_arith(), pred_arith, 1500, 30000),
    Sub('wide', case_wide(), pred_wide, 400, 6000),
    Sub('large', case_large(), pred_large, 24, 400),
    Sub('conflict', case_conflict(), pred_conflict, 300, 4000, shards=1),
]
