"""C03: array evaluation is elementwise scalar evaluation."""
import copy
import os

import numpy as np
import pandas as pd

from harness import gen, ref, wide
from harness.core import (Sub, st, attempt, expect, must, scratch_dir,
                          Violation)
from NRWAL import Equation, NrwalConfig

RULE = ('A case is a formula with a mix of scalar and array inputs; '
        'non-trivial: at least one array of two or more distinct elements '
        'is compared element by element with scalar evaluations.')


@st.composite
def case_arrays(draw):
    nms = draw(gen.names(1, 4))
    node = draw(gen.expr(gen.vleaves(nms), depth=draw(st.integers(1, 4))))
    used = sorted(ref.variables(node))
    vals = draw(gen.values(used, arrays=True, maxlen=5, force_array=True))
    n = max([len(v) for v in vals.values() if isinstance(v, list)] + [1])
    return {'node': node, 'values': vals,
            'kinds': {k: draw(st.integers(0, 4)) for k in used},
            'perm': draw(st.permutations(list(range(n)))),
            'default': draw(st.one_of(st.none(), st.integers(0, 3)))}


def box(v, kind):
    if not isinstance(v, list):
        return np.float64(v) if kind == 4 else v
    if kind == 1:
        return list(v)
    if kind == 2:
        return tuple(v)
    if kind == 3:
        return np.array(v, dtype=np.float32)
    return np.array(v)


def snapshot(d):
    return {k: (type(v), np.array(v, copy=True), getattr(v, 'dtype', None))
            for k, v in d.items()}


def same(a, b):
    return (a[0] is b[0] and a[2] == b[2] and a[1].shape == b[1].shape
            and np.array_equal(a[1], b[1]))


def pred_arrays(case, ctx):
    node, vals = case['node'], case['values']
    text = ref.render(node)
    eqn = must(text, Equation, text)
    u = ref.U32
    is_array, exp = ref.reference(node, vals, u)
    kw = {k: box(v, case['kinds'][k]) for k, v in vals.items()}
    dflt = {}
    if case['default'] is not None and vals:
        # a default value, also an array, acts like the same input
        k = sorted(vals)[case['default'] % len(vals)]
        dflt = {k: kw.pop(k)}
        eqn.set_default_variables(dflt)
        ctx.label('array default' if isinstance(vals[k], list)
                  else 'scalar default')
    dbefore = snapshot(dflt)
    before = snapshot(kw)
    keys = list(kw)
    ok, got = attempt(eqn.evaluate, **kw)
    expect(list(kw) == keys, 'input names changed')
    for k, v in snapshot(kw).items():
        expect(same(before[k], v), 'evaluation changed input {}', k)
    for x in (dflt, {k: eqn.default_variables[k] for k in dflt}):
        for k, v in snapshot(x).items():
            expect(same(dbefore[k], v), 'evaluation changed default {}', k)
    if not ok:
        expect(ref.any_undef(exp), '{!r} raised {!r}', text, got)
        ctx.label('singular')
        return
    n = ref.check_value(text, got, is_array, exp, u)
    kw.update({k: v for k, v in dflt.items() if isinstance(vals[k], list)})
    if is_array:
        # reordering the sites reorders the results
        perm = case['perm']
        kwp = {}
        for k, v in kw.items():
            if isinstance(vals[k], list):
                kwp[k] = box([vals[k][i] for i in perm], case['kinds'][k])
            else:
                kwp[k] = v
        gotp = must('permuted', eqn.evaluate, **kwp)
        ref.check_value(text + ' permuted', gotp, True,
                        [exp[i] for i in perm], u)
        # one site at a time
        for i, e in enumerate(exp):
            if isinstance(e, ref.Undef):
                continue
            one = must('site {}'.format(i), eqn.evaluate, **{
                k: (vals[k][i] if isinstance(vals[k], list) else v)
                for k, v in kw.items()})
            ref.check_value('{} site {}'.format(text, i), one, False, [e], u)
        # two-dimensional inputs: rows are independent
        kw2 = {k: (np.array([vals[k], vals[k][::-1]], dtype=float)
                   if isinstance(vals[k], list) else v)
               for k, v in kw.items()}
        ok, got2 = attempt(eqn.evaluate, **kw2)
        if ok:
            got2 = np.asarray(got2)
            expect(got2.shape == (2, len(exp)), '2-d result has shape {}',
                   got2.shape)
            ref.check_value(text + ' row 0', got2[0], True, exp, u)
            ref.check_value(text + ' row 1', got2[1], True, exp[::-1], u)
        else:
            expect(ref.any_undef(exp), '2-d inputs raised {!r}', got2)
    distinct = any(isinstance(v, list) and len(set(v)) > 1
                   for v in vals.values())
    ctx.nontriv(is_array and n >= 2 and distinct)


@st.composite
def case_config(draw):
    nms = draw(gen.names(2, 4))
    outs = ['o_{}'.format(i) for i in range(draw(st.integers(1, 3)))]
    n = draw(st.integers(1, 5))
    nodes = [draw(gen.expr(gen.vleaves(nms), depth=3, bare_cmp=False)) for _ in outs]
    nodes = [x if ref.variables(x) else ['b', '+', x, ['v', nms[0]], 0]
             for x in nodes]
    used = sorted(set().union(*[ref.variables(x) for x in nodes]))
    vals = {k: ([draw(gen.value) for _ in range(n)] if draw(st.integers(0, 2))
                else draw(gen.value)) for k in used}
    return {'nodes': dict(zip(outs, nodes)), 'values': vals, 'n': n,
            'mode': draw(st.sampled_from(['dict', 'frame', 'ctor', 'attr'])),
            'index': draw(st.integers(0, 2)),
            'perm': draw(st.permutations(list(range(n)))),
            'objects': draw(st.sampled_from([0, 0, 1, 4])),
            'text': draw(st.booleans()), 'box': draw(st.integers(0, 3))}


def pred_config(case, ctx):
    d = scratch_dir()
    with open(os.path.join(d, 'lib.yaml'), 'w') as f:
        f.write('eqn: 1\n')
    cfg = {'equation_directory': d}
    nodes = case['nodes']
    for k, node in nodes.items():
        cfg[k] = ref.render(node)
    n, vals, u = case['n'], case['values'], ref.U32
    if case['mode'] == 'frame':
        vals = {k: (v if isinstance(v, list) else [v] * n)
                for k, v in vals.items()}
    orders = [list(range(n)), case['perm']]
    for order in orders:
        data = {k: box([v[i] for i in order], case['box'])
                if isinstance(v, list) else v for k, v in vals.items()}
        if case['mode'] == 'frame':
            idx = [list(range(n)), list(range(n))[::-1],
                   ['s{}'.format(i) for i in range(n)]][case['index']]
            inp = pd.DataFrame(data, index=idx)
            for k in list(data)[:case['objects']]:
                # numbers in a column of objects
                inp[k] = pd.Series(list(inp[k]), index=idx, dtype=object)
            if case['text']:
                inp['site_name'] = ['site {}'.format(i) for i in order]
        else:
            inp = data
        keep = copy.deepcopy(inp)
        if case['mode'] == 'ctor':
            c = must('config', NrwalConfig, dict(cfg), inputs=inp)
            ok, got = attempt(c.evaluate)
        elif case['mode'] == 'attr':
            c = must('config', NrwalConfig, dict(cfg))
            c.inputs = inp
            ok, got = attempt(c.evaluate)
        else:
            c = must('config', NrwalConfig, dict(cfg))
            ok, got = attempt(c.evaluate, inp)
        if isinstance(inp, pd.DataFrame):
            expect(inp.equals(keep) and list(inp.dtypes) == list(keep.dtypes)
                   and list(inp.columns) == list(keep.columns),
                   'the data frame changed')
        else:
            expect(list(inp) == list(keep), 'input names changed')
            for k in keep:
                expect(type(inp[k]) is type(keep[k])
                       and np.array_equal(inp[k], keep[k])
                       and getattr(inp[k], 'dtype', 0)
                       == getattr(keep[k], 'dtype', 0),
                       'input {} changed', k)
        m = 0
        for k, node in nodes.items():
            if not ref.variables(node):
                continue
            arr, exp = ref.reference(node, vals, u)
            if arr:
                exp = [exp[i] for i in order]
            if not ok:
                continue
            m += ref.check_value('{} = {}'.format(k, cfg[k]), got[k], arr,
                                 exp, u)
        if not ok:
            und = False
            for node in nodes.values():
                und = und or ref.any_undef(ref.reference(node, vals, u)[1])
            if not und:
                raise Violation('evaluate raised {!r}'.format(got))
            ctx.label('singular')
            return
    ctx.label(case['mode'])
    ctx.nontriv(m >= 2 and n >= 2)


# ----------------------------------------------------------------------
@st.composite
def case_wide(draw):
    """Many sites, grids of sites, and many variables."""
    nms = draw(gen.names(1, draw(st.sampled_from([2, 6, 12]))))
    t = wide.Text(draw, nms)
    shapes = draw(st.sampled_from(['flat', 'flat', 'grid', 'column']))
    return {'text': t.long() if draw(st.integers(0, 3)) == 0
            else t.flat(3, 3), 'inputs': draw(wide.inputs(nms)),
            'shapes': shapes, 'sites': draw(st.lists(st.integers(0, 10 ** 4),
                                                     min_size=2, max_size=4)),
            'boxes': [draw(st.integers(0, 2)) for _ in nms],
            'how': draw(st.sampled_from(['eqn', 'eqn', 'config', 'frame']))}


def pred_wide(case, ctx):
    text = case['text']
    vals = wide.expand(case['inputs'])
    want = wide.names_of(text)
    if not want:
        return
    n = case['inputs']['n']
    raw = {}
    for i, (k, v) in enumerate(sorted(vals.items())):
        if isinstance(v, list):
            v = np.array(v)
            if case['how'] == 'eqn' and case['shapes'] == 'grid' and i % 2:
                v = np.outer(v[:20], [1.0, 0.5, 2.0])
            elif case['how'] == 'eqn' and case['shapes'] == 'grid':
                v = np.resize(v, 3)
            elif case['how'] == 'eqn' and case['shapes'] == 'column' \
                    and i % 2:
                v = v[:20, None]
        raw[k] = v
    if case['how'] == 'frame' and not n:
        return
    if case['how'] == 'frame':
        raw = {k: (v if np.ndim(v) else np.full(n, v))
               for k, v in raw.items()}
    raw = {k: v for k, v in raw.items() if k in want}
    box = {k: ((list, tuple)[b - 1](v.tolist()) if b and np.ndim(v) == 1
               and case['how'] != 'frame' else np.array(v) if np.ndim(v)
               else v)
           for (k, v), b in zip(sorted(raw.items()), case['boxes'])}
    keep = copy.deepcopy(box)
    exp = wide.expected(text, raw, single=case['how'] != 'eqn')
    if case['how'] == 'eqn':
        eqn = must(text, Equation, text)
        ok, out = attempt(eqn.evaluate, **box)
    else:
        d = scratch_dir()
        c = must('config', NrwalConfig, {'equation_directory': d,
                                         'out_': 'np.positive({})'
                                         .format(text)})
        inp = pd.DataFrame(box) if case['how'] == 'frame' else box
        ok, out = attempt(c.evaluate, inp)
        if ok:
            out = out['out_']
        if case['how'] == 'frame':
            expect(list(inp.columns) == list(keep), 'the frame changed')
            box = {k: inp[k].values for k in inp}
    for k, v in keep.items():
        expect(np.array_equal(v, box[k]) and type(v) is type(box[k]),
               'input {} changed', k)
    m = 0
    if exp is not None:
        expect(ok, '{!r} raised {!r}', text, out)
    if ok and exp is not None:
        m = wide.compare(text, out, exp)
        if m and case['how'] == 'eqn' and np.ndim(out):
            # single sites
            full = {k: np.broadcast_to(v, np.shape(out)).ravel()
                    for k, v in raw.items()}
            for s in case['sites']:
                s %= np.size(out)
                site = {k: float(v[s]) for k, v in full.items()}
                # (python floats refuse what arrays make inf or nan)
                own = wide.expected(text, site)
                if exp[1].ravel()[s] and own is not None and own[1]:
                    one = must('one site', eqn.evaluate, **site)
                    wide.compare('{!r} site {}'.format(text, s), one,
                                 (exp[0].ravel()[s], exp[1].ravel()[s],
                                  exp[2].ravel()[s]))
    ctx.label('{} elements'.format(10 ** len(str(m))))
    ctx.label(case['how'] + ' ' + case['shapes'])
    ctx.nontriv(m >= 2)


# ----------------------------------------------------------------------
INTS = ['uint8', 'uint16', 'uint32', 'uint64', 'int8', 'int16', 'int32',
        'int64']
LAYOUTS = ['plain', 'step', 'reverse', 'readonly', 'column', 'subset', 'list',
           'tuple']


@st.composite
def case_dtypes(draw):
    """Arrays of all number types and memory layouts, with gaps (nan)."""
    nms = draw(gen.names(1, 4))
    t = wide.Text(draw, nms)
    n = draw(st.sampled_from([0, 1, 2, 3, 5, 40]))
    spec = {}
    for k in nms:
        kind = draw(st.sampled_from(INTS + ['float32', 'float64', 'float64',
                                            'scalar', 'scalar']))
        gap = draw(st.integers(0, 3)) if kind in ('float32', 'float64') else 0
        spec[k] = [kind, draw(st.sampled_from(LAYOUTS)), gap,
                   draw(st.integers(0, 10 ** 5))]
    ops = draw(st.lists(st.sampled_from(['-', '-', '+', '*', '/']),
                        min_size=1, max_size=3))
    text = t.flat(2, 2)
    if draw(st.booleans()):
        text = ' {} '.join(draw(st.sampled_from(nms))
                           for _ in range(len(ops) + 1)).format(*ops)
    return {'text': text, 'n': n, 'spec': spec,
            'how': draw(st.sampled_from(['eqn', 'eqn', 'default', 'config',
                                         'ctor', 'frame']))}


def layout(v, how):
    """The same values in another memory layout, and what owns it."""
    n = len(v)
    if how == 'step':
        own = np.zeros(2 * n, dtype=v.dtype)
        own[::2] = v
        return own[::2], own
    if how == 'reverse':
        own = v[::-1].copy()
        return own[::-1], own
    if how == 'column':
        own = np.zeros((n, 3), dtype=v.dtype)
        own[:, 1] = v
        return own[:, 1], own
    if how == 'subset':
        own = np.zeros(n + 5, dtype=v.dtype)
        own[2:n + 2] = v
        return own[2:n + 2], own
    if how == 'readonly':
        v.flags.writeable = False
    if how == 'list':
        return v.tolist(), None
    if how == 'tuple':
        return tuple(v.tolist()), None
    return v, None


def pred_dtypes(case, ctx):
    text, n = case['text'], case['n']
    want = wide.names_of(text)
    raw, box, owner = {}, {}, {}
    for k in want:
        kind, lay, gap, seed = case['spec'][k]
        r = np.random.RandomState(seed)
        if kind == 'scalar':
            raw[k] = box[k] = float(np.round(r.uniform(-3, 9), 3))
            if case['how'] != 'frame':
                if lay == 'column':
                    box[k] = np.array(raw[k])
                elif lay == 'step':
                    raw[k] = float(round(raw[k]))
                    box[k] = np.array(int(raw[k]))
                elif lay == 'reverse':
                    box[k] = np.float32(raw[k])
                elif lay == 'subset':
                    box[k] = np.float64(raw[k])
            continue
        if kind in INTS:
            info = np.iinfo(kind)
            v = r.randint(max(info.min, -99), min(info.max, 1000), n)
        else:
            v = np.round(r.uniform(-3, 30, n), 2)
        v = v.astype(kind)
        for i in range(gap if n > 1 else 0):
            v[r.randint(n)] = [np.nan, np.nan, np.inf][i]
        raw[k] = v.astype(float)
        if case['how'] == 'frame':
            lay = 'plain'
        box[k], owner[k] = layout(v, lay)
    if case['how'] == 'frame' and (not n or not any(
            np.ndim(v) for v in raw.values())):
        return
    exp = wide.expected(text, raw, single=True)
    keep = copy.deepcopy(box)
    flags = {k: str(v.flags) for k, v in box.items()
             if isinstance(v, np.ndarray)}
    okeep = copy.deepcopy(owner)
    if case['how'] in ('eqn', 'default'):
        eqn = must(text, Equation, text)
        kw = dict(box)
        if case['how'] == 'default' and kw:
            k = sorted(kw)[0]
            eqn.set_default_variables({k: kw.pop(k)})
        ok, out = attempt(eqn.evaluate, **kw)
    else:
        d = scratch_dir()
        cfg = {'equation_directory': d, 'out_': 'np.positive({})'.format(
            text)}
        inp = box
        if case['how'] == 'frame':
            inp = pd.DataFrame(box, index=['s{}'.format(i)
                                           for i in range(n)])
        if case['how'] == 'ctor':
            ok, out = attempt(must('config', NrwalConfig, cfg, inputs=inp)
                              .evaluate)
        else:
            ok, out = attempt(must('config', NrwalConfig, cfg).evaluate, inp)
        if ok:
            out = out.get('out_') if want else None
    for k, v in keep.items():
        expect(type(v) is type(box[k]) and getattr(v, 'dtype', 0)
               == getattr(box[k], 'dtype', 0)
               and np.array_equal(v, box[k], equal_nan=True),
               'input {} changed', k)
        expect(k not in flags or flags[k] == str(box[k].flags),
               'the array {} has other flags', k)
        expect(owner.get(k) is None or np.array_equal(
            owner[k], okeep[k], equal_nan=True), 'the owner of {} changed', k)
    if exp is None or out is None or not want:
        ctx.label('singular')
        return
    expect(ok, '{!r} with {} raised {!r}', text, case['spec'], out)
    m = wide.compare(text, out, exp)
    # gaps stay gaps
    gap = exp[3]
    if gap.any():
        ctx.label('gaps')
        expect(np.isnan(np.asarray(out, dtype=float)[gap]).all(),
               '{!r}: {!r} has values where the inputs have none', text, out)
    ctx.label(case['how'])
    for k in want:
        ctx.label(case['spec'][k][0])
    ctx.nontriv(m >= 1 and n >= 2 or n == 0)


SUBS = [
    Sub('dtypes', case_dtypes(), pred_dtypes, 900, 15000),
    Sub('arrays', case_arrays(), pred_arrays, 1600, 30000),
    Sub('config', case_config(), pred_config, 900, 15000),
    Sub('wide', case_wide(), pred_wide, 700, 12000),
]
