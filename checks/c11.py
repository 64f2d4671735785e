"""C11: merging groups or directories is a right-biased union."""
import copy
import json
import os

from checks.c09 import scope
from harness import gen, lib, libgen, ref
from harness.core import Sub, st, expect, must, scratch_dir
from NRWAL import EquationGroup, EquationDirectory

RULE = ('A case is a chain of merges of generated groups or directories '
        '(right operand as object, path or dictionary) followed by updates of '
        'the result and of the operands; non-trivial: operands share at '
        'least one key or at least one default differs between them.')
ASSUMPTIONS = ['for directories the defaults come from variables files; which '
               'defaults of the left operand reach equations of the right '
               'one is not specified']

VS = libgen.VARS[:4]


@st.composite
def group_with_refs(draw):
    g = draw(libgen.group(VS, lo=1, hi=4, nested=1))
    eqs = [k for k, v in g.items() if 'g' not in v]
    if eqs and draw(st.booleans()):
        # an entry that refers to a sibling keeps its meaning after the merge
        g['ref_entry'] = {'ref': draw(st.sampled_from(eqs)),
                          'by': draw(gen.expr(gen.vleaves(VS), depth=1,
                                              bare_cmp=False))}
    return g


def resolve(group):
    """(dictionary to load, model without references)."""
    data, model = {}, {}
    for k, v in group.items():
        if 'ref' in v:
            data[k] = '{} * ({})'.format(v['ref'], ref.render(v['by']))
            model[k] = {'e': ['b', '*', lib.node_of(group[v['ref']]),
                              v['by'], 0]}
        else:
            data[k] = lib.plain({k: v})[k]
            model[k] = v
    return data, model


@st.composite
def case_groups(draw):
    n = draw(st.integers(2, 3))
    return {'groups': [draw(group_with_refs()) for _ in range(n)],
            'how': [draw(st.sampled_from(['obj', 'dict', 'yaml', 'json']))
                    for _ in range(n)],
            'dflt': [{k: draw(gen.signed) for k in VS
                      if draw(st.integers(0, 3)) == 0} for _ in range(n)],
            'right_assoc': draw(st.booleans()),
            'upd': draw(st.integers(0, 50)),
            'values': draw(gen.values(VS, arrays=False))}


class Obj:
    """Real object with its model: entries and per-equation defaults."""

    def __init__(self, real, model, top, state):
        self.real, self.model, self.top, self.state = real, model, top, state


def check_group(what, o, vals):
    expect(sorted(o.real.keys()) == sorted(o.model),
           '{}: keys {} instead of {}', what, sorted(o.real.keys()),
           sorted(o.model))
    n = 0
    lv = lib.leaves(o.model)
    expect(len(o.real.all_equations) == len(lv), '{}: {} equations instead '
           'of {}', what, len(o.real.all_equations), len(lv))
    for p, e in lv:
        key = '::'.join(p)
        eqn = must('{} {}'.format(what, key), lambda: o.real[key])
        node = lib.node_of(e)
        n += lib.check_eqn('{} {}'.format(what, key), eqn, node, vals)
        check_dflt('{} {}'.format(what, key), eqn, node, o.state[p])
        need = {k: v for k, v in vals.items() if k not in o.state[p]}
        n += lib.check_eqn('{} {} with defaults'.format(what, key), eqn, node,
                           need, dflt=o.state[p])
    return n


def check_dflt(what, eqn, node, want, lenient=()):
    have = eqn.default_variables
    for k in ref.variables(node):
        if k in lenient:
            continue
        expect((k in have) == (k in want), '{}: {} {} a default', what, k,
               'has' if k in have else 'has not')
        if k in want:
            expect(float(have[k]) == float(want[k]),
                   '{}: default of {} is {!r} instead of {!r}', what, k,
                   have[k], want[k])


def merge(a, b, real):
    model = dict(a.model)
    model.update(b.model)
    top = dict(a.top)
    top.update(b.top)
    state = {}
    for p, _ in lib.leaves(model):
        src = b if p[0] in b.model else a
        state[p] = dict(src.state[p])
        state[p].update(b.top)
    return Obj(real, model, top, state)


def pred_groups(case, ctx):
    vals = case['values']
    d = scratch_dir()
    objs = []
    for i, g in enumerate(case['groups']):
        data, model = resolve(g)
        how, top = case['how'][i], dict(case['dflt'][i])
        if i and how != 'obj':
            top = {}
        if how in ('yaml', 'json'):
            src = os.path.join(d, 'g{}.{}'.format(i, how))
            lib.dump(data, src)
        else:
            src = data
        real = must('group', EquationGroup, copy.deepcopy(src))
        if top:
            must('set', real.set_default_variables, dict(top))
        arg = real if how == 'obj' or not i else src
        objs.append((Obj(real, model, top, {p: dict(top) for p, _ in
                                            lib.leaves(model)}), arg))
    keep = json.dumps([a for _, a in objs if isinstance(a, dict)])
    (a, _), (b, barg) = objs[:2]
    parts = [a] + ([b] if barg is b.real else [])
    if len(objs) == 3 and case['right_assoc'] and barg is b.real:
        c, carg = objs[2]
        bc = merge(b, c, must('b + c', lambda: b.real + carg))
        out = merge(a, bc, must('a + (b + c)', lambda: a.real + bc.real))
        parts += [bc] + ([c] if carg is c.real else [])
    else:
        out = merge(a, b, must('a + b', lambda: a.real + barg))
        if len(objs) == 3:
            c, carg = objs[2]
            parts += [out] + ([c] if carg is c.real else [])
            out = merge(out, c, must('(a + b) + c', lambda: out.real + carg))
    expect(isinstance(out.real, EquationGroup), 'the sum is {!r}',
           type(out.real))
    parts.append(out)
    n = 0
    for i, o in enumerate(parts):
        n += check_group('part {} of {}'.format(i, len(parts)), o, vals)
    # later updates of one object stay there
    for j, o in enumerate(parts):
        key = VS[(case['upd'] + j) % len(VS)]
        upd = {key: 1000.25 + j}
        lv = lib.leaves(o.model)
        if (case['upd'] + j) % 3 and lv:
            p = lv[case['upd'] % len(lv)][0]
            o.real['::'.join(p)].set_default_variables(upd)
            o.state[p].update(upd)
        else:
            o.real.set_default_variables(upd)
            for p in o.state:
                o.state[p].update(upd)
        for i, q in enumerate(parts):
            check_group('part {} after updating part {}'.format(i, j), q,
                        vals)
    expect(json.dumps([x for _, x in objs if isinstance(x, dict)]) == keep,
           'a dictionary operand changed')
    shared = len(set(a.model) & set(b.model))
    ctx.label('shared keys' if shared else 'disjoint')
    ctx.nontriv(n and (shared or a.top != b.top))


# ----------------------------------------------------------------------
@st.composite
def case_dirs(draw):
    trees = [draw(libgen.directory(variables=VS, levels=1, with_vars=True,
                                   files=(1, 2), dirs=(0, 2), nested=1, hi=2))
             for _ in range(2)]
    return {'trees': trees, 'how': draw(st.sampled_from(['obj', 'path'])),
            'self': draw(st.integers(0, 9)) == 0,
            'upd': draw(st.integers(0, 50)),
            'values': draw(gen.values(VS, arrays=False))}


def check_dir(what, real, tree, state, vals, lenient=None):
    expect(sorted(real.keys()) == sorted(lib.visible(tree)),
           '{}: keys {} instead of {}', what, sorted(real.keys()),
           sorted(lib.visible(tree)))
    lv = lib.dir_leaves(tree)
    expect(len(real.all_equations) == len(lv), '{}: number of equations',
           what)
    for p, keys in lib.objects(tree):
        o = must(what, lambda: real['::'.join(p)])
        expect(sorted(o.keys()) == sorted(keys), '{} {}: keys {}', what, p,
               sorted(o.keys()))
    n = 0
    for p, e in lv:
        key = '::'.join(p)
        w = '{} {}'.format(what, key)
        eqn = must(w, lambda: real[key])
        node = lib.node_of(e)
        n += lib.check_eqn(w, eqn, node, vals)
        check_dflt(w, eqn, node, state[p], (lenient or {}).get(p, ()))
    return n


def pred_dirs(case, ctx):
    vals = case['values']
    d = scratch_dir()
    ta, tb = case['trees']
    if case['self']:
        tb = ta
    for n, t in (('la', ta), ('lb', tb)):
        lib.write(t, os.path.join(d, n))
    a = must('a', EquationDirectory, os.path.join(d, 'la'))
    b = must('b', EquationDirectory, os.path.join(d, 'lb'))
    if case['self']:
        out = must('a + a', lambda: a + a)
    elif case['how'] == 'path':
        out = must('a + path', lambda: a + os.path.join(d, 'lb'))
    else:
        out = must('a + b', lambda: a + b)
    expect(isinstance(out, EquationDirectory), 'the sum is {!r}', type(out))
    merged = dict(ta)
    merged.update(tb)
    sa, sb = scope(ta), scope(tb)
    top_b = tb.get('variables', {}).get('vars', {})
    # below a left sub-directory its own variables file stays nearest
    state, lenient = {}, {}
    for p, _ in lib.dir_leaves(merged):
        if p[0] in tb:
            state[p] = dict(sb[p])
            lenient[p] = [k for k in VS if k not in sb[p]]
        else:
            local = ta[p[0]]['dir'].get('variables', {}).get('vars', {}) \
                if 'dir' in ta[p[0]] else {}
            state[p] = dict(sa[p])
            state[p].update({k: v for k, v in top_b.items()
                             if k not in local})
    n = check_dir('merged', out, merged, state, vals, lenient)
    check_dir('left', a, ta, sa, vals)
    check_dir('right', b, tb, sb, vals)
    # update the sum: operands stay; update the operands: the sum stays
    upd = {k: 777.5 for k in VS}
    must('set', out.set_default_variables, dict(upd), force_update=True)
    check_dir('left after updating the sum', a, ta, sa, vals)
    check_dir('right after updating the sum', b, tb, sb, vals)
    full = {p: dict(upd) for p in state}
    check_dir('sum after updating it', out, merged, full, vals)
    for o in (a, b):
        must('set', o.set_default_variables, {k: -5.5 for k in VS},
             force_update=True)
        for e in o.all_equations:
            e.set_default_variables({VS[0]: -7.5})
    check_dir('sum after updating operands', out, merged, full, vals)
    shared = len(set(ta) & set(tb))
    ctx.label('shared keys' if shared else 'disjoint')
    if top_b:
        ctx.label('right variables file')
    ctx.nontriv(n and (shared or top_b))


SUBS = [
    Sub('groups', case_groups(), pred_groups, 600, 12000),
    Sub('directories', case_dirs(), pred_dirs, 500, 8000),
]
