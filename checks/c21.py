"""C21: copied and pickled objects behave like the original."""
import copy
import os
import pickle
import struct
import subprocess
import sys

import numpy as np

from checks.c09 import scope
from harness import cfg, gen, lib, libgen, ref
from harness.core import (Sub, st, attempt, equal, expect, must, scratch_dir, REPO,
                          HarnessError, Violation)
from NRWAL import Equation, EquationDirectory, EquationGroup, NrwalConfig

RULE = ('A case is an equation (possibly a combination), a group, a directory '
        'or a config (with inputs, evaluated or not) that is deep-copied, or '
        'pickled and unpickled here or in another process; original and copy '
        'are compared with the reference, then each is changed in turn and '
        'both are compared again. Non-trivial: a default, input or output is '
        'carried over and at least one value was compared.')
ASSUMPTIONS = ['copies are made with copy.deepcopy or pickle, not copy.copy']

WAYS = ['deepcopy', 'deepcopy', 'pickle', 'pickle', 'pickle2', 'process',
        'twice']
VS = libgen.VARS[:4]

WORKER = r'''
import logging, pickle, struct, sys
sys.path.insert(0, sys.argv[1])
logging.disable(logging.CRITICAL)
inp, out = sys.stdin.buffer, sys.stdout.buffer
while True:
    head = inp.read(8)
    if len(head) < 8:
        break
    data = inp.read(struct.unpack('<q', head)[0])
    try:
        obj = pickle.loads(data)
        res = ('ok', str(obj), pickle.dumps(obj))
    except BaseException as e:
        res = ('error', repr(e)[:500], b'')
    res = pickle.dumps(res)
    out.write(struct.pack('<q', len(res)) + res)
    out.flush()
'''
_WORKER = []


def other_process(data):
    """Unpickle in another process, print, pickle again there."""
    if not _WORKER or _WORKER[0].poll() is not None or _WORKER[1] != os.getpid():
        p = subprocess.Popen([sys.executable, '-c', WORKER, REPO],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL)
        _WORKER[:] = [p, os.getpid()]
    p = _WORKER[0]
    try:
        p.stdin.write(struct.pack('<q', len(data)) + data)
        p.stdin.flush()
        n = struct.unpack('<q', p.stdout.read(8))[0]
        res = pickle.loads(p.stdout.read(n))
    except Exception as e:
        p.kill()
        raise HarnessError('worker: {!r}'.format(e))
    if res[0] == 'error':
        raise Violation('cannot unpickle in another process: ' + res[1])
    return res[1:]


def clone(what, obj, way):
    if way == 'deepcopy':
        out = must(what, copy.deepcopy, obj)
    elif way == 'twice':
        out = must(what, lambda: pickle.loads(pickle.dumps(copy.deepcopy(
            copy.deepcopy(obj)))))
    elif way == 'process':
        data = must(what, pickle.dumps, obj)
        text, data = other_process(data)
        expect(text == str(obj), '{}: printed as {!r} in another process',
               what, text)
        out = must(what, pickle.loads, data)
    else:
        out = must(what, lambda: pickle.loads(pickle.dumps(
            obj, 2 if way == 'pickle2' else pickle.HIGHEST_PROTOCOL)))
    expect(type(out) is type(obj) and out is not obj, '{}: {} gives {!r}',
           what, way, type(out))
    expect(must(what, str, out) == str(obj), '{}: printed as {!r} instead of '
           '{!r}', what, str(out), str(obj))
    return out


def check_one(what, eqn, node, dflt, vals):
    have = eqn.default_variables
    for k in ref.variables(node):
        expect((k in have) == (k in dflt) and (
            k not in dflt or float(have[k]) == float(dflt[k])),
            '{}: default of {} is {!r} instead of {!r}', what, k,
            have.get(k), dflt.get(k))
    need = {k: v for k, v in vals.items() if k not in dflt}
    return (lib.check_eqn(what, eqn, node, vals)
            + lib.check_eqn(what + ' with defaults', eqn, node, need,
                            dflt=dflt))


dflts = st.dictionaries(st.sampled_from(VS), gen.signed, max_size=3)


# ----------------------------------------------------------------------
@st.composite
def case_eqn(draw):
    nodes = [draw(gen.expr(gen.vleaves(VS), depth=draw(st.integers(0, 3)),
                           bare_cmp=False)) for _ in range(2)]
    return {'nodes': nodes, 'op': draw(st.sampled_from(
        [None, None, '+', '-', '*', '/'])), 'dflt': draw(dflts),
        'name': draw(st.sampled_from([None, 'eqn_1', 'A'])),
        'way': draw(st.sampled_from(WAYS)), 'set': draw(dflts),
        'used': draw(st.booleans()), 'first': draw(st.integers(0, 1)),
        'values': draw(gen.values(VS, arrays=False))}


def pred_eqn(case, ctx):
    a, b = case['nodes']
    vals = case['values']
    eqn = must('equation', Equation, ref.render(a), name=case['name'],
               default_variables=dict(case['dflt']))
    node = a
    if case['op']:
        other = must('equation', Equation, ref.render(b),
                     default_variables=dict(case['dflt']))
        eqn = must('combination', lambda: {
            '+': eqn + other, '-': eqn - other, '*': eqn * other,
            '/': eqn / other}[case['op']])
        node = ['b', case['op'], a, b, 0]
    what = '{} of {!r}'.format(case['way'], ref.render(node))
    if case['used']:
        # also after the equation was used
        attempt(eqn.evaluate, **vals)
        str(eqn)
    out = clone(what, eqn, case['way'])
    expect(out.full == eqn.full, '{}: formula {!r}', what, out.full)
    pair = [[eqn, dict(case['dflt']), 'original'],
            [out, dict(case['dflt']), 'copy']]
    n = 0
    for i in range(3):
        for e, d, w in pair:
            n += check_one('{}: {} after {} changes'.format(what, w, i), e,
                           node, d, vals)
        if i < 2:
            e, d, w = pair[(case['first'] + i) % 2]
            upd = {k: v + i for k, v in case['set'].items()}
            e.set_default_variables(dict(upd))
            d.update(upd)
    ctx.label(case['way'])
    ctx.nontriv(n and any(k in case['dflt'] for k in ref.variables(node)))


# ----------------------------------------------------------------------
@st.composite
def case_lib(draw):
    tree = draw(libgen.directory(variables=VS, levels=2, with_vars=True,
                                 dirs=(0, 2), nested=1))
    tree = draw(libgen.deep(tree, VS))
    parts = ['::'.join(p) for p, _ in lib.objects(tree)]
    return {'tree': tree, 'part': draw(st.sampled_from([''] * 2 + parts)),
            'flags': [draw(st.booleans()), draw(st.booleans())],
            'way': draw(st.sampled_from(WAYS)), 'set': draw(dflts),
            'early': draw(dflts), 'first': draw(st.integers(0, 1)),
            'values': draw(gen.values(VS, arrays=False))}


def snapshot(o):
    """Defaults of an object and of everything below it."""
    out = [dict(o.default_variables)]
    if hasattr(o, 'values'):
        out += [snapshot(v) for v in o.values()
                if hasattr(v, 'default_variables')]
    return out


POWER = {'zz_2MW': '2 * depth', 'zz_6MW': 'depth ** 2'}


def pred_lib(case, ctx):
    tree, vals = case['tree'], case['values']
    d = os.path.join(scratch_dir(), 'lib')
    lib.write(tree, d)
    lib.dump(dict(POWER), os.path.join(d, 'zz.yaml'))
    interp, near = case['flags']
    obj = must('directory', EquationDirectory, d, interp_extrap_power=interp,
               use_nearest_power=near)
    state = scope(tree)
    must('set', obj.set_default_variables, dict(case['early']),
         force_update=True)
    for p in state:
        state[p].update(case['early'])
    part = case['part']
    pre = tuple(part.split('::')) if part else ()
    if part:
        obj = must(part, lambda: obj[part])
    what = '{} of {!r}'.format(case['way'], part or 'directory')
    out = clone(what, obj, case['way'])
    leaves = [(p[len(pre):], e, state[p]) for p, e in lib.dir_leaves(tree)
              if p[:len(pre)] == pre]
    pair = [[obj, {p: dict(s) for p, _, s in leaves}, 'original'],
            [out, {p: dict(s) for p, _, s in leaves}, 'copy']]
    n = 0
    for i in range(3):
        for o, s, w in pair:
            w = '{}: {} after {} changes'.format(what, w, i)
            expect(list(o.keys()) == list(obj.keys()), '{}: keys {}', w,
                   list(o.keys()))
            extra = 0 if part else 2
            expect(len(o.all_equations) == len(leaves) + extra,
                   '{}: number of equations', w)
            for p, e, _ in leaves:
                key = '::'.join(p)
                eqn = must(w, lambda: o[key])
                n += check_one(w + ' ' + key, eqn, lib.node_of(e), s[p], vals)
            if not part:
                lookup(w, o, interp, near)
        if i < 2:
            o, s, w = pair[(case['first'] + i) % 2]
            other = pair[1 - (case['first'] + i) % 2]
            shot = snapshot(other[0])
            upd = {k: v + i for k, v in case['set'].items()}
            if isinstance(o, EquationDirectory):
                o.set_default_variables(dict(upd), force_update=True)
            else:
                o.set_default_variables(dict(upd))
            for p in s:
                s[p].update(upd)
            expect(snapshot(other[0]) == shot, '{}: defaults of the {} '
                   'changed with those of the {}: {} instead of {}', what,
                   other[2], w, snapshot(other[0]), shot)
    # equations taken from a copy belong to the copy
    mine = {id(e) for e in obj.all_equations}
    expect(not any(id(e) in mine for e in out.all_equations),
           '{}: shares equations with the original', what)
    ctx.label(case['way'], 'part' if part else 'directory')
    ctx.nontriv(n and any(set(s) & ref.variables(lib.node_of(e))
                          for _, e, s in leaves))


def lookup(what, o, interp, near):
    ok, e = attempt(lambda: o['zz::zz_5MW'])
    if not interp and not near:
        expect(not ok and isinstance(e, KeyError), '{}: lookup gave {!r}',
               what, e)
        return
    expect(ok, '{}: lookup raised {!r}', what, e)
    got = must(what, e.evaluate, depth=10.0)
    want = 20 + 80 * 3 / 4 if interp else 100
    expect(abs(got - want) < 1e-9, '{}: lookup gives {} instead of {}', what,
           got, want)


# ----------------------------------------------------------------------
@st.composite
def case_cfg(draw):
    c = draw(cfg.config(hi=5, lo=1, depth=2))
    c['way'] = draw(st.sampled_from(WAYS))
    c['stage'] = draw(st.sampled_from(['built', 'inputs', 'partial',
                                       'evaluated', 'evaluated', 'reset']))
    c['mult'] = draw(st.sampled_from([2, 3, 0.5]))
    c['first'] = draw(st.integers(0, 1))
    return c


def same(a, b):
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return equal(a, b)


def show(c, m):
    """What a config shows of itself, as plain data."""
    return {'keys': list(c.keys()), 'text': str(c),
            'constants': dict(c.global_variables),
            'required': list(c.required_inputs),
            'missing': list(c.missing_inputs), 'solvable': c.solvable,
            'solved': c.solved, 'todo': list(c.to_be_solved),
            'variables': list(c.all_variables)}


def pred_cfg(case, ctx):
    inputs = cfg.given_inputs(case)
    u = cfg.unit(inputs)
    m, want = cfg.pruned(case, inputs, u)
    other = {k: [x * case['mult'] for x in v] if isinstance(v, list)
             else v * case['mult'] for k, v in inputs.items()}
    m2, want2 = cfg.pruned(case, other, u)
    if m.names != m2.names or not m.equations():
        return
    d = cfg.write_library(case, scratch_dir())
    c = must('config', NrwalConfig, m.plain(d))
    stage, what = case['stage'], '{} of a config'.format(case['way'])
    real, real2 = cfg.real_inputs(inputs, np), cfg.real_inputs(other, np)
    given = {}
    if stage in ('inputs', 'evaluated', 'reset'):
        given = dict(real)
    elif stage == 'partial':
        given = {k: v for k, v in real.items() if k in sorted(real)[::2]}
    if given:
        must('inputs', setattr, c, 'inputs', dict(given))
    if stage in ('evaluated', 'reset'):
        must('evaluate', c.evaluate)
    if stage == 'reset':
        must('reset', c.reset_output)
    before = show(c, m)
    ins, outs = copy.deepcopy(dict(c.inputs)), copy.deepcopy(dict(c.outputs))
    out = clone(what, c, case['way'])

    def untouched(o, w):
        expect(show(o, m) == before, '{}: {} shows {} instead of {}', what, w,
               show(o, m), before)
        expect(same(dict(o.inputs), ins), '{}: {} has inputs {} instead of {}',
               what, w, o.inputs, ins)
        expect(same(dict(o.outputs), outs), '{}: {} has outputs {}', what, w,
               o.outputs)
        for k in m.names:
            x = o[k]
            expect(same(x, outs[k]) if k in outs else not isinstance(
                x, (float, np.ndarray)), '{}: {} [{}] is {!r}', what, w, k, x)

    untouched(out, 'copy')
    pair = [(c, 'original'), (out, 'copy')]
    if case['first']:
        pair.reverse()
    (a, wa), (b, wb) = pair
    got = must('evaluate', a.evaluate, dict(real2))
    n = 0
    for k in m.equations():
        n += ref.check_value('{}: {} of the {}'.format(what, k, wa), got[k],
                             want2[k][0], want2[k][1], u)
    untouched(b, wb + ' after evaluating the ' + wa)
    keep = copy.deepcopy(dict(a.outputs))
    must('clear', setattr, b, 'inputs', None)
    got = must('evaluate', b.evaluate, dict(real))
    for k in m.equations():
        n += ref.check_value('{}: {} of the {}'.format(what, k, wb), got[k],
                             want[k][0], want[k][1], u)
    expect(same(dict(a.outputs), keep), '{}: the {} changed by evaluating '
           'the {}', what, wa, wb)
    got = must('evaluate', a.evaluate)
    for k in m.equations():
        ref.check_value('{}: {} of the {} again'.format(what, k, wa), got[k],
                        want2[k][0], want2[k][1], u)
    ctx.label(case['way'], stage)
    ctx.nontriv(n > 0)


SUBS = [
    Sub('equation', case_eqn(), pred_eqn, 800, 12000),
    Sub('library', case_lib(), pred_lib, 400, 6000),
    Sub('config', case_cfg(), pred_cfg, 500, 8000),
]
