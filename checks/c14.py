"""C14: evaluation depends only on the config and its current inputs."""
import copy
import json
import os

import numpy as np
import pandas as pd

from harness import cfg, gen, lib, ref
from harness.core import (Sub, st, attempt, expect, must, scratch_dir,
                          Violation)
from NRWAL import NrwalConfig

RULE = ('A case is a history of operations (assign, update, clear inputs, '
        'change one input, evaluate with and without inputs, reset outputs, '
        'read) on one or two configs made from the same objects; after each '
        'evaluation the outputs are compared with those of a fresh config and '
        'with the reference. Non-trivial: two or more evaluations with '
        'different inputs and at least one compared value.')
ASSUMPTIONS = ['inputs do not supply names the config defines']


@st.composite
def case_history(draw):
    c = draw(cfg.config(hi=5, lo=1, depth=2, arrays=False))
    names = sorted(c['values'])
    n = draw(st.integers(1, 3))
    ops = []
    pos = st.one_of(gen.dec_val2, st.integers(1, 9))

    def some(full):
        out = {}
        for k in names:
            if full or draw(st.integers(0, 2)) == 0:
                out[k] = [draw(pos) for _ in range(n)] if draw(
                    st.booleans()) else draw(pos)
        return out

    for i in range(draw(st.integers(3, 9) if draw(st.integers(0, 9))
                        else st.integers(10, 30))):
        kind = draw(st.sampled_from(
            ['eval', 'eval', 'evalin', 'evalin', 'set', 'set', 'setdf',
             'item', 'clear', 'reset', 'resetkey', 'read', 'evaldf',
             'again', 'again']))
        op = {'op': kind, 'who': draw(st.integers(0, 1)),
              'pick': draw(st.integers(0, 9))}
        if kind in ('evalin', 'set'):
            op['in'] = some(i == 0 or draw(st.integers(0, 4)) == 0)
        elif kind in ('setdf', 'evaldf'):
            op['in'] = {k: [draw(pos) for _ in range(n)] for k in names
                        if draw(st.booleans())}
        elif kind == 'item':
            op['in'] = {draw(st.sampled_from(names)): draw(pos)}
        elif kind == 'again':
            # the caller changes the inputs it gave before, in place, and
            # gives the same object again
            op['in'] = some(draw(st.integers(0, 3)) == 0)
            op['way'] = draw(st.sampled_from(['evaluate', 'inputs']))
        ops.append(op)
    c['n'] = n
    c['first'] = some(draw(st.integers(0, 3)) > 0)
    c['ops'] = ops
    c['two'] = draw(st.booleans())
    return c


class Side:
    """A real config and the inputs it should have."""

    def __init__(self, data, first, own):
        self.c = must('config', NrwalConfig, data,
                      inputs=real(first) if first else None)
        self.cur = dict(first)
        self.shown = {}          # expected outputs (real values), or None
        self.kept = []           # results of earlier evaluations
        self.own = own


def real(part):
    return {k: (np.array(v, dtype=float) if isinstance(v, list) else v)
            for k, v in part.items()}


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(
        a, b, equal_nan=a.dtype.kind == 'f')


def same_outputs(what, got, want):
    expect(sorted(got) == sorted(want), '{}: outputs {} instead of {}', what,
           sorted(got), sorted(want))
    for k in want:
        expect(same(got[k], want[k]), '{}: {} is {!r} but a fresh config '
               'gives {!r}', what, k, got[k], want[k])


def pred_history(case, ctx):
    full = {k: (v[0] if isinstance(v, list) else v)
            for k, v in case['values'].items()}
    m, _ = cfg.pruned(case, full, ref.U64)
    if not m.equations():
        return
    d = cfg.write_library(case, scratch_dir())
    data = m.plain(d)
    text = json.dumps(data)
    sides = [Side(data, case['first'], True)]
    if case['two']:
        sides.append(Side(data, {}, True))
    req = set(m.required())
    given = [real({k: 3.25 for k in sorted(case['values'])}) for _ in sides]
    for k in sorted(case['values'])[::2]:
        for g in given:
            g[k] = np.array([3.25] * case['n'])
    n_eval = set()
    compared = 0
    for i, op in enumerate(case['ops']):
        s = sides[op['who'] % len(sides)]
        c = s.c
        kind = op['op']
        what = 'step {} ({})'.format(i, kind)
        arg = None
        if kind in ('evalin', 'set'):
            arg = real(op['in'])
        elif kind in ('setdf', 'evaldf'):
            arg = pd.DataFrame(op['in'])
        elif kind == 'again':
            arg = given[op['who'] % len(sides)]
            for k, v in op['in'].items():
                if isinstance(arg[k], np.ndarray):
                    arg[k][:] = v
                elif not isinstance(v, list):
                    arg[k] = v
                else:
                    arg[k] = np.array(v, dtype=float)
        keep = copy.deepcopy(arg)
        if kind in ('set', 'setdf'):
            c.inputs = arg
            s.cur.update(op['in'])
        elif kind == 'item':
            (k, v), = op['in'].items()
            c.inputs[k] = float(v)
            s.cur[k] = v
        elif kind == 'clear':
            c.inputs = None
            s.cur = {}
        elif kind == 'reset':
            must(what, c.reset_output)
            s.shown = {}
        elif kind == 'resetkey':
            keys = m.equations()
            k = keys[op['pick'] % len(keys)]
            must(what, c.reset_output, k)
            # (the last result may be what the config shows)
            del s.kept[-1:]
            if s.shown is not None:
                s.shown.pop(k, None)
        elif kind in ('eval', 'evalin', 'evaldf', 'again'):
            if kind == 'again':
                s.cur.update({k: v.tolist() if isinstance(v, np.ndarray)
                              else v for k, v in keep.items()})
            elif arg is not None:
                s.cur.update(op['in'])
            if kind == 'again' and op['way'] == 'inputs':
                c.inputs = arg
            # both names of the call
            call = c.eval if len(s.cur) % 2 else c.evaluate
            ok, out = attempt(call, arg) if arg is not None \
                else attempt(call)
            compared += after_eval(what, m, data, s, ok, out, req)
            if ok:
                n_eval.add(json.dumps(s.cur, sort_keys=True))
        if arg is not None:
            unchanged(what, arg, keep)
        # what the object shows
        for q in sides:
            show(what, m, q, req)
        ctx.label(kind)
        expect(json.dumps(data) == text, '{}: the config dictionary changed',
               what)
    # the ways of giving inputs are equivalent
    for s in sides:
        if req - set(s.cur):
            continue
        ways = []
        for way in range(5):
            x = must('config', NrwalConfig, data,
                     inputs=real(s.cur) if way == 0 else None)
            if way == 1:
                x.inputs = real(s.cur)
            ways.append(
                attempt(x.evaluate, real(s.cur)) if way == 2 else
                attempt(x.eval, real(s.cur)) if way == 3 else
                attempt(x.evaluate, inputs=real(s.cur)) if way == 4 else
                attempt(x.evaluate))
        expect(len({ok for ok, _ in ways}) == 1, 'ways of giving inputs '
               'differ: {}', ways)
        if ways[0][0]:
            for _, o in ways[1:]:
                same_outputs('other way of giving inputs', o, ways[0][1])
    ctx.nontriv(compared and len(n_eval) >= 2)


def after_eval(what, m, data, s, ok, out, req):
    miss = req - set(s.cur)
    if miss:
        expect(not ok, '{}: evaluated although {} are missing', what,
               sorted(miss))
        s.shown = None
        return 0
    fresh = must('fresh config', NrwalConfig, data)
    fok, fout = attempt(fresh.evaluate, real(s.cur))
    u = cfg.unit(s.cur)
    want = m.values(s.cur, u)
    undef = any(ref.any_undef(v) for _, v in want.values())
    if not ok:
        if undef and not fok:
            s.shown = None
            return 0
        raise Violation('{}: evaluate with {} raised {!r}; a fresh config '
                        'gives {!r}'.format(what, s.cur, out, fout))
    expect(fok, '{}: only the fresh config raises {!r}', what, fout)
    same_outputs('{} with {}'.format(what, s.cur), out, fout)
    n = 0
    for name in m.equations():
        a, exp = want[name]
        n += ref.check_value('{}: {} with {}'.format(what, name, s.cur),
                             out[name], a, exp, u)
    s.shown = copy.deepcopy(dict(out))
    s.kept.append((what, out, s.shown.copy()))
    return n


def unchanged(what, arg, keep):
    if isinstance(arg, pd.DataFrame):
        expect(arg.equals(keep) and list(arg.columns) == list(keep.columns),
               '{}: the data frame changed', what)
        return
    expect(list(arg) == list(keep), '{}: the inputs dictionary changed', what)
    for k in keep:
        expect(type(arg[k]) is type(keep[k]) and same(arg[k], keep[k]),
               '{}: input {} changed', what, k)


def show(what, m, s, req):
    c = s.c
    for when, out, was in s.kept:
        same_outputs('{}: the result of {}'.format(what, when), out, was)
    got = must('inputs', lambda: dict(c.inputs))
    expect(sorted(got) == sorted(s.cur), '{}: inputs {} instead of {}', what,
           sorted(got), sorted(s.cur))
    for k, v in s.cur.items():
        w = np.array(v, dtype=float)
        g = np.asarray(got[k], dtype=float)
        expect(g.shape == w.shape and np.allclose(g, w, rtol=1e-6, atol=0),
               '{}: input {} is {!r} instead of {!r}', what, k, got[k], v)
    expect(list(c.missing_inputs) == sorted(req - set(s.cur)),
           '{}: missing inputs {}', what, list(c.missing_inputs))
    if s.shown is None:
        return
    same_outputs(what + ' outputs', dict(c.outputs), s.shown)
    for k in s.shown:
        expect(same(c[k], s.shown[k]), '{}: indexing {} shows {!r} instead '
               'of {!r}', what, k, c[k], s.shown[k])
        expect(same(must('get', c.get, k, None), s.shown[k]),
               '{}: get({}) differs', what, k)
    todo = [n for n in m.equations() if n not in s.shown]
    if todo:
        expect(not c.solved and set(todo) <= set(c.to_be_solved),
               '{}: to_be_solved is {} instead of {}', what, c.to_be_solved,
               todo)
    else:
        expect(c.solved, '{}: not solved', what)


# ----------------------------------------------------------------------
OVER = ['k', 'k2', 'x', 'y', 'rate', 'lib_in']


@st.composite
def case_override(draw):
    """Histories in which inputs also give names that the config or the
    library define."""
    val = st.one_of(gen.dec_val2, st.integers(1, 9))
    uses = ['np.multiply(k, x)', 'k * x', 'np.add(k2, rate) + x',
            'f::q * k', 'f::q', 'np.maximum(d0, k) * y', 'd0 + 1',
            'np.exp(k / 100) * f::r', 'f::r', 'x + y', 'np.add(x, y) - k2',
            'np.divide(d1, k2)', 'np.sqrt(rate) * k']
    ents = {'d0': draw(st.sampled_from(['k + 1', 'np.add(k, 1)', 'x * k',
                                        'np.add(x, k)'])),
            'd1': draw(st.sampled_from(['np.multiply(d0, y)', 'd0 * y']))}
    for i in range(draw(st.integers(1, 4))):
        ents['o{}'.format(i)] = draw(st.sampled_from(uses))
    ops = []
    for _ in range(draw(st.integers(2, 9))):
        kind = draw(st.sampled_from(['eval', 'evalin', 'evalin', 'evalin',
                                     'set', 'clear', 'reset']))
        op = {'op': kind}
        if kind in ('evalin', 'set'):
            op['in'] = {n: draw(val) for n in draw(st.lists(
                st.sampled_from(OVER + (['d0', 'o0'] if draw(
                    st.integers(0, 5)) == 0 else [])), unique=True))}
            if draw(st.booleans()):
                op['in'].update({n: draw(val) for n in ('x', 'y', 'lib_in')})
        ops.append(op)
    return {'ents': ents, 'ops': ops, 'vals': [draw(val) for _ in range(3)],
            'perm': draw(st.permutations(range(len(ents))))}


def pred_override(case, ctx):
    d = scratch_dir()
    k, k2, rate = case['vals']
    with open(os.path.join(d, 'f.json'), 'w') as f:
        json.dump({'q': 'k * rate + lib_in', 'r': 'rate ** 2 + lib_in'}, f)
    with open(os.path.join(d, 'variables.json'), 'w') as f:
        json.dump({'rate': float(rate)}, f)
    data = {'equation_directory': d, 'k': k, 'k2': k2}
    ents = list(case['ents'].items())
    data.update(ents[i] for i in case['perm'])
    c = must('config {}'.format(data), NrwalConfig, data)
    before = dict(c.global_variables)
    cur, kept, m = {}, [], 0
    over = False
    for i, op in enumerate(case['ops']):
        what = 'step {} ({}) of {}'.format(i, op['op'], case['ops'])
        if op['op'] == 'clear':
            c.inputs = None
            cur = {}
        elif op['op'] == 'reset':
            c.reset_output()
        elif op['op'] == 'set':
            c.inputs = dict(op['in'])
            cur.update(op['in'])
        else:
            cur.update(op.get('in', {}))
            ok, out = attempt(c.evaluate, *([dict(op['in'])] if 'in' in op
                                            else []))
            fok, fout = attempt(must('config', NrwalConfig, data).evaluate,
                                dict(cur))
            expect(ok == fok, '{} with {}: {!r}, but a fresh config gives '
                   '{!r} ({})', what, cur, out, fout, data)
            if ok:
                same_outputs('{} with {} ({})'.format(what, cur, data), out,
                             fout)
                kept.append((what, out, copy.deepcopy(dict(out))))
                m += 1
                over = over or bool(set(cur) & {'k', 'k2', 'rate'})
        for when, out, was in kept:
            same_outputs('{}: the result of {}'.format(what, when), out, was)
        expect(dict(c.global_variables) == before,
               '{}: the constants changed from {} to {}', what, before,
               dict(c.global_variables))
    ctx.nontriv(m >= 2 and over)


# ----------------------------------------------------------------------
@st.composite
def case_pair(draw):
    """Two configs over one library directory evaluated alternately."""
    a = draw(cfg.config(hi=4, lo=1, depth=2, arrays=False))
    b = draw(cfg.config(hi=4, lo=1, depth=2, arrays=False))
    return {'a': a, 'b': b, 'first': draw(st.booleans()),
            'rounds': draw(st.integers(1, 3))}


def pred_pair(case, ctx):
    a, b = dict(case['a']), dict(case['b'])
    b['tree'] = a['tree']
    # entries of b were generated for another library: keep what resolves
    eqs = cfg.lib_eqs(a['tree'])
    objs = set(cfg.lib_objects(a['tree']))
    ok = []
    alias = {}
    keepn = set()
    for n, s in b['entries']:
        if 'alias' in s:
            if s['alias'] in objs:
                alias[n] = s['alias']
                ok.append([n, s])
                keepn.add(n)
            continue
        if 'expr' in s:
            good = all(r in eqs for r in ref.refs(s['expr']))
            if not good:
                continue
            rd = set(ref.variables(s['expr']))
            for r in ref.refs(s['expr']):
                rd |= ref.variables(eqs[r])
            dropped = {x for x, _ in b['entries']} - keepn
            if rd & dropped:
                continue
        ok.append([n, s])
        keepn.add(n)
    b['entries'] = ok
    b['order'] = list(range(len(ok)))
    dflt = cfg.lib_defaults(a['tree'])
    d = cfg.write_library(a, scratch_dir())
    runs = []
    for c in (a, b):
        base = {k: 3.5 for k in cfg.SHARED + list(cfg.PRIVATE.values())}
        inp = {k: v for k, v in dict(base, **c['values']).items()
               if k not in {n for n, _ in c['entries']} and k not in dflt}
        m, want = cfg.pruned(c, inp, ref.U64)
        if any(k in dflt for n in m.names if m.is_eqn(n)
               for k in ref.variables(m.node(n)) if k not in m.entries):
            return
        runs.append((m, want, inp))
    if not runs[0][0].equations() or not runs[1][0].equations():
        return
    cs = [None, None]
    n = 0
    order = [0, 1] if case['first'] else [1, 0]
    for i in order:
        cs[i] = must('config', NrwalConfig, runs[i][0].plain(d))
    for _ in range(case['rounds'] + 1):
        for i in order:
            m, want, inp = runs[i]
            out = must('evaluate', cs[i].evaluate, dict(inp))
            for name in m.equations():
                n += ref.check_value('config {} {}'.format('ab'[i], name),
                                     out[name], False, want[name][1],
                                     ref.U64)
            expect(list(cs[i].required_inputs) == m.required(),
                   'required inputs of config {} are {} instead of {}',
                   'ab'[i], list(cs[i].required_inputs), m.required())
    ctx.nontriv(n > 2 and len(eqs) > 1)


# ----------------------------------------------------------------------
# several configs over one library, each with its own constants
S_VARS = ['v0', 'v1', 'v2', 'v_d', 'v00']


@st.composite
def case_siblings(draw):
    cfgs = []
    for _ in range(draw(st.integers(2, 4))):
        cfgs.append({'const': {k: draw(st.integers(1, 50)) for k in draw(
            st.lists(st.sampled_from(S_VARS), max_size=3, unique=True))},
            'lib': draw(st.integers(0, 1)),
            'style': draw(st.integers(0, 3)),
            'flag': draw(st.booleans())})
    steps = [['make', i] for i in range(len(cfgs))]
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(['eval', 'eval', 'make', 'edit']))
        steps.append([kind, draw(st.integers(0, len(cfgs) - 1)),
                      draw(st.integers(1, 30))])
        if kind == 'edit':
            steps.append(['make', steps[-1][1], 0])
            steps.append(['eval', steps[-1][1], draw(st.integers(1, 30))])
    return {'cfgs': cfgs, 'steps': steps,
            'coef': [draw(st.integers(1, 9)) for _ in S_VARS],
            'dflt': draw(st.sampled_from([None, 7, 0]))}


def pred_siblings(case, ctx):
    s = scratch_dir()
    libs = []
    terms = ['{} * {}'.format(c, v) for c, v in zip(case['coef'], S_VARS)]
    extra = [0, 1000]

    def write(n):
        lib.dump({'e': ' + '.join(terms + [str(extra[n])]),
                  'f_2MW': 'v0', 'f_4MW': '3 * v0'},
                 os.path.join(s, 'lib{}'.format(n), 'eqns.yaml'))

    for n in range(2):
        d = os.path.join(s, 'lib{}'.format(n))
        os.makedirs(d)
        write(n)
        if case['dflt'] is not None and n == 0:
            lib.dump({'v_d': case['dflt']}, os.path.join(d,
                                                         'variables.yaml'))
        libs.append(d)
    made = {}
    for step in case['steps']:
        i = step[1]
        c = case['cfgs'][i]
        dflt = case['dflt'] if c['lib'] == 0 else None
        const = c['const']
        if step[0] == 'edit':
            # the file changes: what is built from now on reads the new
            # content, and nothing is said of what was built before
            extra[c['lib']] += 10 ** 4 * step[2]
            write(c['lib'])
            made = {j: o for j, o in made.items()
                    if case['cfgs'][j]['lib'] != c['lib']}
            ctx.label('edited library')
            continue
        if step[0] == 'eval' and i not in made:
            continue
        need = [v for v in S_VARS if v not in const
                and not (v == 'v_d' and dflt is not None)]
        what = 'config {} after {} of {}'.format(i, case['steps'],
                                                 case['cfgs'])
        if step[0] == 'make':
            data = {'equation_directory': libs[c['lib']]}
            data['o'] = ['eqns::e', 'eqns::e * 2', 'g::e + 0',
                         '2 * np.add(x_e, 0) - x_e'][c['style']]
            if c['style'] == 2:
                data['g'] = 'eqns'
            if c['style'] == 3:
                data['x_e'] = 'eqns::e'
            if c['flag']:
                data['interp_extrap_power'] = True
                data['p'] = 'eqns::f_3MW'
            data.update(const)
            made[i] = must(what, NrwalConfig, data)
        obj = made[i]
        expect(list(obj.required_inputs) == sorted(need),
               '{}: required inputs {} instead of {}', what,
               list(obj.required_inputs), sorted(need))
        if step[0] != 'eval':
            continue
        vals = {v: float(step[2] + k) for k, v in enumerate(S_VARS)}
        out = must(what, obj.evaluate, {v: vals[v] for v in need})
        full = dict(vals, **const)
        if dflt is not None and 'v_d' not in const:
            full['v_d'] = dflt
        if need == []:
            continue
        want = sum(k * full[v] for k, v in zip(case['coef'], S_VARS)) \
            + extra[c['lib']]
        want *= 2 if c['style'] == 1 else 1
        expect(abs(float(out['o']) - want) <= 1e-9 * abs(want),
               '{}: o is {} instead of {}', what, out['o'], want)
        if c['flag'] and 'v0' in need:
            expect(float(out['p']) == 2 * full['v0'],
                   '{}: p is {} instead of {}', what, out['p'],
                   2 * full['v0'])
    used = {c['lib'] for c in case['cfgs']}
    ctx.label('one library' if len(used) == 1 else 'two libraries')
    ctx.nontriv(len({json.dumps([c['lib'], sorted(c['const'])])
                     for c in case['cfgs']}) > 1)


SUBS = [
    Sub('override', case_override(), pred_override, 500, 8000),
    Sub('history', case_history(), pred_history, 1400, 20000, shards=4),
    Sub('pairs', case_pair(), pred_pair, 300, 5000),
    Sub('siblings', case_siblings(), pred_siblings, 250, 4000, shards=2),
]
