"""C13: a config knows exactly which inputs it still needs."""
import json
import os

import numpy as np
import pandas as pd

from harness import cfg, ref
from harness.core import (Sub, st, attempt, expect, must, must_raise,
                          scratch_dir)
from NRWAL import NrwalConfig

RULE = ('A case is a generated config over a generated library (with library '
        'defaults and config entries that define names read by the library) '
        'and a partition of the inputs supplied step by step; non-trivial: '
        'at least two required inputs and a library default or constant that '
        'is not required.')
ASSUMPTIONS = ['a name with a library default is not also read directly by a '
               'config expression']


@st.composite
def case_inputs(draw):
    c = draw(cfg.config(hi=6, depth=2))
    c['steps'] = [draw(st.integers(0, 3)) for _ in range(len(c['values']))]
    c['alike'] = draw(st.integers(-20, 60))
    c['how'] = [draw(st.sampled_from(['ctor', 'set', 'item', 'eval', 'df']))
                for _ in range(4)]
    return c


def supply(c, how, part):
    """Give inputs to the config in one of the documented ways."""
    real = cfg.real_inputs(part, np)
    if how == 'item':
        for k, v in real.items():
            c.inputs[k] = v.astype(np.float32) if isinstance(v, np.ndarray) \
                else float(v)
    elif how == 'df' and any(isinstance(v, list) for v in part.values()):
        cols = {k: v for k, v in part.items() if isinstance(v, list)}
        c.inputs = pd.DataFrame(cols)
        c.inputs = {k: v for k, v in part.items() if k not in cols}
    else:
        c.inputs = real


def pred_inputs(case, ctx):
    inputs = cfg.given_inputs(case)
    u = cfg.unit(inputs)
    m, want = cfg.pruned(case, inputs, u)
    if not want:
        return
    d = cfg.write_library(case, scratch_dir())
    data = m.plain(d)
    req = m.required()
    steps = [{} for _ in range(4)]
    for i, k in enumerate(sorted(inputs)):
        steps[case['steps'][i]][k] = inputs[k]
    first = steps[0] if case['how'][0] == 'ctor' else {}
    c = must('config {}'.format(data), NrwalConfig, data,
             inputs=cfg.real_inputs(first, np) or None)
    have = set(first)

    def look(when):
        expect(list(c.required_inputs) == req,
               '{}: required inputs {} instead of {} of {}', when,
               list(c.required_inputs), req, data)
        miss = [k for k in req if k not in have]
        expect(list(c.missing_inputs) == miss,
               '{}: missing inputs {} instead of {}', when,
               list(c.missing_inputs), miss)
        expect(bool(c.solvable) == (not miss), '{}: solvable is {!r}', when,
               c.solvable)
        check_constants(when)
        return miss

    def check_constants(when):
        got = dict(c.global_variables)
        for n in m.constants():
            expect(n in got, '{}: constant {} not reported', when, n)
        for n, v in got.items():
            expect(n in m.maybe_constants(), '{}: {} reported as constant {} '
                   'of {}', when, n, v, data)
            ref.check_value('{}: constant {}'.format(when, n), v, False,
                            want[n][1], u)

    look('at start')
    # inputs with similar names are not the required ones
    known = set(inputs) | set(data) | set(cfg.SHARED) | set(
        cfg.PRIVATE.values()) | set(cfg.lib_defaults(case['tree']))
    alike = [f(k) for k in req + sorted(known) for f in (
        str.upper, str.swapcase, str.capitalize, '{}_'.format, '_{}'.format,
        lambda x: x[:-1], '{}s'.format)]
    # (np and pd are the modules in formulas)
    alike = [k for k in alike if k.isidentifier() and k not in known
             and k not in ('np', 'pd')]
    if alike and case['alike'] >= 0:
        c.inputs = {alike[(case['alike'] + 7 * i) % len(alike)]: 1.5 + i
                    for i in range(3)}
        look('with similar names')
        ctx.label('similar names')
    for i, part in enumerate(steps):
        miss = [k for k in req if k not in have]
        if miss:
            must_raise('evaluate without {}'.format(miss), RuntimeError,
                       c.evaluate)
            expect(not set(c.outputs) & set(m.equations()),
                   'an unsolvable config has outputs {}', dict(c.outputs))
        if i == 0 and first:
            continue
        supply(c, case['how'][i], part)
        have |= set(part)
        look('after step {}'.format(i))
    out = must('evaluate {}'.format(data), c.evaluate)
    n = 0
    for name in m.equations():
        expect(name in out, 'solvable config did not yield {}', name)
        n += ref.check_value('{} of {} with {}'.format(name, data, inputs),
                             out[name], want[name][0], want[name][1], u)
    look('after evaluation')
    expect(c.solved, 'not solved after evaluation')
    # each required input really is needed
    for k in req[:3]:
        c2 = must('config', NrwalConfig, data)
        less = {x: v for x, v in inputs.items() if x != k}
        must_raise('evaluate without {}'.format(k), RuntimeError,
                   c2.evaluate, cfg.real_inputs(less, np))
        expect(list(c2.missing_inputs) == [k], 'missing is {} instead of {}',
               list(c2.missing_inputs), [k])
    # defaults and inputs outside the required ones are not
    c3 = must('config', NrwalConfig, data)
    only = {k: inputs[k] for k in req}
    w3 = m.values(only, cfg.unit(only))
    if not any(ref.any_undef(v) for _, v in w3.values()):
        out = must('evaluate with required inputs only', c3.evaluate,
                   cfg.real_inputs(only, np))
        for name in m.equations():
            ref.check_value('{} with required inputs'.format(name),
                            out[name], w3[name][0], w3[name][1],
                            cfg.unit(only))
    extra = m.used_defaults() or m.constants()
    ctx.label('uses defaults' if m.used_defaults() else 'no defaults')
    ctx.nontriv(n and len(req) >= 2 and extra)


# ----------------------------------------------------------------------
def dump(path, data):
    with open(path, 'w') as f:
        json.dump(data, f)


@st.composite
def case_direct(draw):
    names = ['k', 'y', 'depth', 'k2']
    defs = draw(st.lists(st.sampled_from(names), max_size=3, unique=True))
    sub = draw(st.lists(st.sampled_from(names), max_size=2, unique=True))
    ents = []
    for i in range(draw(st.integers(1, 3))):
        terms = draw(st.lists(st.sampled_from(
            names + ['a::e', 'a::f', 's::b::g', '2', 'out_0']), min_size=1,
            max_size=3))
        ents.append([t for t in terms if t != 'out_0' or i > 0] or ['y'])
    return {'root': {k: 2.0 + i for i, k in enumerate(defs)},
            'sub': {k: 30.0 + i for i, k in enumerate(sub)},
            'ents': ents,
            'glob': draw(st.lists(st.sampled_from(names), max_size=1)),
            'give': [draw(st.booleans()) for _ in names]}


def pred_direct(case, ctx):
    """Config expressions which read names of variables files directly: what
    is reported and what evaluate does fit together."""
    names = ['k', 'y', 'depth', 'k2']
    eqs = {'a::e': ('k * 2', lambda x: x['k'] * 2),
           'a::f': ('depth + k2', lambda x: x['depth'] + x['k2']),
           's::b::g': ('y - k', lambda x: x['y'] - x['k'])}
    d = os.path.join(scratch_dir(), 'lib')
    os.makedirs(os.path.join(d, 's'))
    dump(os.path.join(d, 'a.yaml'), {'e': 'k * 2', 'f': 'depth + k2'})
    dump(os.path.join(d, 's', 'b.yaml'), {'g': 'y - k'})
    for sub, vs in (('', case['root']), ('s', case['sub'])):
        if vs:
            dump(os.path.join(d, sub, 'variables.yaml'), vs)
    data = {'equation_directory': d}
    for n in case['glob']:
        data[n] = 5.5
    for i, terms in enumerate(case['ents']):
        data['out_{}'.format(i)] = ' + '.join(terms)
    c = must('config {}'.format(data), NrwalConfig, data)
    req = list(c.required_inputs)
    given = {n: 11.0 + i for i, (n, g) in enumerate(zip(
        names, case['give'])) if g and n not in case['glob']}
    c.inputs = given
    miss = list(c.missing_inputs)
    expect(set(req) <= set(names), 'required inputs {} of {}', req, data)
    expect(miss == [r for r in req if r not in given],
           'missing inputs {}, required {}, given {}', miss, req, given)
    expect(bool(c.solvable) == (not miss), 'solvable is {!r} with missing '
           'inputs {}', c.solvable, miss)
    # required inputs are read, somewhere, and have no value of their own
    for n in req:
        expect(n not in case['glob'], 'constant {} is required', n)
        expect(n in ' '.join(data['out_{}'.format(i)] + ' ' + ' '.join(
            eqs[t][0] for t in terms if t in eqs)
            for i, terms in enumerate(case['ents'])).split(),
            '{} is required and never read in {}', n, data)
    ok, out = attempt(c.evaluate)
    if miss:
        expect(not ok and isinstance(out, RuntimeError),
               'evaluate without {} gave {!r}', miss, out)
        must('evaluate with the missing inputs', c.evaluate,
             {n: 1.0 for n in miss})
    else:
        expect(ok, 'a config with no missing inputs cannot be evaluated: '
               '{!r} ({}, library defaults {} {}, given {})', out, data,
               case['root'], case['sub'], given)
    # everything given: everything decided
    full = {n: 3.0 + 2 * i for i, n in enumerate(names)
            if n not in case['glob']}
    out = must('evaluate {} with {}'.format(data, full), c.evaluate, full)
    env = dict(full)
    env.update({n: 5.5 for n in case['glob']})
    for i, terms in enumerate(case['ents']):
        v = 0.0
        for t in terms:
            v += eqs[t][1](env) if t in eqs else \
                float(t) if t == '2' else env[t]
        env['out_{}'.format(i)] = v
        expect(float(out['out_{}'.format(i)]) == v if
               'out_{}'.format(i) in out else 'out_{}'.format(i) in
               c.global_variables,
               'out_{} of {} with {} is {!r} instead of {!r}', i, data, full,
               out.get('out_{}'.format(i)), v)
    direct = any(t in case['root'] for terms in case['ents'] for t in terms)
    ctx.label('reads a library default directly' if direct else 'other')
    ctx.label('missing' if miss else 'complete')
    ctx.nontriv(direct)


SUBS = [Sub('inputs', case_inputs(), pred_inputs, 1200, 20000,
            shards=4),
        Sub('direct', case_direct(), pred_direct, 300, 8000, shards=1)]
