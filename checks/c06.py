"""C06: equations of one group may refer to each other by name."""
import os

import numpy as np

from harness import gen, lib, ref, wide
from harness.core import (Sub, st, attempt, expect, must, must_raise,
                          scratch_dir, Violation)
from NRWAL import EquationGroup, EquationDirectory

RULE = ('A case is a group whose entries form a generated reference graph '
        'with names that contain each other, in a generated order; '
        'non-trivial: at least one entry refers to another entry (or the '
        'references are circular).')


@st.composite
def refgroup(draw, lo=2, hi=6, depth=2):
    pool = draw(gen.names(lo + 1, hi + 4))
    n_ent = draw(st.integers(lo, max(lo, len(pool) - 1)))
    n_ent = min(n_ent, hi)
    ents, ext = pool[:n_ent], pool[n_ent:] or ['zeta']
    group = {}
    for i, k in enumerate(ents):
        prev = ents[max(0, i - 3):i]
        if draw(st.integers(0, 6)) == 0:
            group[k] = {'num': draw(st.one_of(
                st.integers(-5, 9), st.integers(-5, -1), gen.dec_val2))}
            continue
        lv = gen.vleaves(ext) + gen.vleaves(prev) * 2
        node = draw(gen.expr(lv, depth=draw(st.integers(0, depth)),
                             bare_cmp=False))
        if prev and draw(st.integers(0, 5)) == 0:
            # a reference where the text around it binds tightest
            r = ['v', draw(st.sampled_from(prev))]
            r = draw(st.sampled_from([
                ['b', '**', r, ['n', '2'], 0], ['u', r, 0],
                ['b', '**', ['n', '2'], r, 1],
                ['b', '-', ['n', '1'], r, 2]]))
            node = ['b', draw(st.sampled_from(['+', '*', '-', '/'])), r,
                    node, draw(st.integers(0, 3))]
        group[k] = {'e': node}
    return group, ext


@st.composite
def case_refs(draw):
    group, ext = draw(refgroup())
    names = list(group)
    order = draw(st.permutations(names))
    nested = None
    if draw(st.booleans()):
        # a nested group that uses names of the parent as its own variables
        lv = gen.vleaves(ext + names)
        nested = {'q_in': {'e': draw(gen.expr(lv, depth=2, bare_cmp=False))},
                  'q_out': {'e': ['b', '*', ['v', 'q_in'],
                                  draw(gen.expr(lv, depth=1,
                                                bare_cmp=False)), 0]}}
    return {'group': group, 'order': list(order), 'ext': ext,
            'nested': nested, 'nest_first': draw(st.booleans()),
            # a sub-group is not an equation: its name stays a variable
            'nest_name': draw(st.sampled_from(['nested_sub', ext[0]])),
            'values': draw(gen.values(ext, arrays=draw(st.booleans()))),
            'parent_values': draw(gen.values(names, arrays=False)),
            'route': draw(st.sampled_from(['dict', 'yaml', 'json', 'dir']))}


def closure(name, group, seen=None):
    """External variables of an entry after following references."""
    out = set()
    for v in ref.variables(lib.node_of(group[name])):
        if v in group:
            out |= closure(v, group)
        else:
            out.add(v)
    return out


def depth_of(name, group):
    ds = [depth_of(v, group) for v in ref.variables(lib.node_of(group[name]))
          if v in group]
    return 1 + max(ds) if ds else 0


def value(name, group, env, u, cache):
    if name in cache:
        r = cache[name]
    else:
        e2 = dict(env)
        node = lib.node_of(group[name])
        for v in ref.variables(node):
            if v in group:
                e2[v] = value(v, group, env, u, cache)
        try:
            r = ref.evaluate(node, e2, u)
        except ref.Undef as e:
            r = e
        cache[name] = r
    return r


def load(route, data):
    d = scratch_dir()
    if route == 'dict':
        return EquationGroup(data)
    if route == 'dir':
        lib.dump(data, os.path.join(d, 'grp.yaml'))
        return EquationDirectory(d)['grp']
    fp = os.path.join(d, 'grp.' + route)
    lib.dump(data, fp)
    return EquationGroup(fp)


def check_entries(what, g, group, vals, ctx):
    """Compare every entry of the real group with the model."""
    u = ref.U32 if any(isinstance(v, list) for v in vals.values()) \
        else ref.U64
    n = 0
    import numpy as np
    for name in group:
        want = sorted(closure(name, group))
        eqn = must('{}[{}]'.format(what, name), lambda: g[name])
        got = list(must('variables', lambda: eqn.variables))
        expect(got == want, '{} {}: variables {!r} instead of {!r}', what,
               name, got, want)
        lens = {len(vals[k]) for k in want if isinstance(vals[k], list)}
        m = lens.pop() if lens else None
        exp = []
        for i in range(m or 1):
            env = ref.site_env({k: vals[k] for k in want}, i, u)
            exp.append(value(name, group, env, u, {}))
        kw = {k: (np.array(vals[k]) if isinstance(vals[k], list)
                  else vals[k]) for k in want}
        ok, out = attempt(eqn.evaluate, **kw)
        if not ok:
            und = ref.any_undef(exp)
            if not und:
                raise Violation('{} {} raised {!r}'.format(what, name, out))
            continue
        k = ref.check_value('{} {}'.format(what, name), out, m is not None,
                            exp, u)
        if k and depth_of(name, group):
            n += 1
            ctx.label('reference depth {}'.format(min(
                depth_of(name, group), 4)))
    return n


def pred_refs(case, ctx):
    group = {k: case['group'][k] for k in case['order']}
    data = lib.plain(group)
    sub_name = case['nest_name']
    if case['nested']:
        nd = {sub_name: lib.plain(case['nested'])}
        data = dict(nd, **data) if case['nest_first'] else dict(data, **nd)
    src = repr(data)
    g = must('group', load, case['route'], data)
    expect(repr(data) == src, 'loading changed the dictionary')
    n = check_entries('group', g, group, case['values'], ctx)
    if case['nested']:
        sub = must('nested', lambda: g[sub_name])
        ctx.label('sub-group named like a variable' if sub_name in case['ext']
                  else 'sub-group')
        vals = dict(case['parent_values'], **case['values'])
        n += check_entries('nested', sub, case['nested'], vals, ctx)
        eqn = must('path', lambda: g[sub_name + '::q_out'])
        expect(list(eqn.variables) == sorted(closure('q_out',
                                                     case['nested'])),
               'path retrieval differs')
    # the sum of the parts lists every equation once
    expect(len(must('all', lambda: g.all_equations))
           == len(group) + (2 if case['nested'] else 0), 'all_equations')
    ctx.nontriv(n > 0)


@st.composite
def case_cycle(draw):
    group, ext = draw(refgroup(2, 5, 1))
    names = list(group)
    k = draw(st.integers(1, len(names)))
    ring = draw(st.permutations(names))[:k]
    for i, nm in enumerate(ring):
        nxt = ring[(i + 1) % k]
        op = draw(st.sampled_from(['+', '*', '-', '/']))
        other = draw(gen.expr(gen.vleaves(ext), depth=1, bare_cmp=False))
        nodes = [['v', nxt], other]
        if draw(st.booleans()):
            nodes.reverse()
        kind = draw(st.integers(0, 3))
        node = ['b', op, nodes[0], nodes[1], draw(st.integers(0, 3))]
        if kind == 0:
            node = ['v', nxt]
        elif kind == 1:
            node = ['f', 'np.maximum', nodes, 0]
        group[nm] = {'e': node}
    return {'group': group, 'order': list(draw(st.permutations(names))),
            'ring': ring, 'route': draw(st.sampled_from(
                ['dict', 'yaml', 'nested', 'dir']))}


def pred_cycle(case, ctx):
    data = lib.plain({k: case['group'][k] for k in case['order']})
    if case['route'] == 'nested':
        must_raise('nested circular group {}'.format(data), ValueError,
                   EquationGroup, {'outer': {'inner': data}})
    elif case['route'] == 'dir':
        must_raise('circular group {}'.format(data),
                   (ValueError, RuntimeError), load, 'dir', data)
    else:
        must_raise('circular group {}'.format(data), ValueError, load,
                   case['route'], data)
    ctx.label('cycle length {}'.format(len(case['ring'])))
    ctx.nontriv()


# ----------------------------------------------------------------------
@st.composite
def case_chain(draw):
    n = draw(st.integers(6, 40))
    steps = [[draw(st.sampled_from(['+', '-', '+', '*'])),
              draw(st.integers(1, 3)), draw(st.booleans()),
              draw(st.integers(0, 12)) == 0] for _ in range(n)]
    perm = draw(st.permutations(list(range(n))))
    return {'steps': steps, 'order': draw(st.sampled_from(
        ['forward', 'backward', 'mixed'])), 'perm': list(perm),
        'ring': draw(st.integers(0, 4)) == 0, 'x': draw(st.integers(1, 4)),
        'route': draw(st.sampled_from(['dict', 'yaml', 'dir']))}


def pred_chain(case, ctx):
    """Long chains of references, in any order of writing."""
    names = ['k_{:03d}'.format(i * 7 % 100) if i % 2 else 'c{}'.format(i)
             for i in range(len(case['steps']))]
    data = {}
    want = {}
    x = float(case['x'])
    for i, (op, c, front, call) in enumerate(case['steps']):
        if i == 0:
            data[names[0]] = 'x_in'
            want[names[0]] = x
            continue
        prev = names[i - 1]
        a, b = (prev, str(c)) if front else (str(c), prev)
        # products only where the value stays small
        if op == '*' and abs(want[prev]) > 1e9:
            op = '+'
        p = want[prev]
        want[names[i]] = {'+': p + c, '*': p * c,
                          '-': p - c if front else c - p}[op]
        data[names[i]] = '{} {} {}'.format(a, op, b)
        if call:
            data[names[i]] = 'np.add({}, 0)'.format(data[names[i]])
    if case['ring']:
        data[names[0]] = names[-1] + ' + x_in'
    order = list(data)
    if case['order'] == 'backward':
        order.reverse()
    elif case['order'] == 'mixed':
        order = [order[i] for i in case['perm']]
    data = {k: data[k] for k in order}
    if case['ring']:
        must_raise('ring of {} entries: {}'.format(len(data), data),
                   (ValueError, RuntimeError), load, case['route'], data)
        ctx.label('ring')
        ctx.nontriv()
        return
    g = must('chain', load, case['route'], data)
    for k in names:
        e = must(k, lambda: g[k])
        expect(list(e.variables) == ['x_in'], '{} of {}: variables {}', k,
               data, e.variables)
        got = must(k, e.evaluate, x_in=x)
        expect(abs(float(got) - want[k]) <= 1e-12 * max(1e10, abs(want[k])),
               '{} of {} is {} instead of {}', k, data, got, want[k])
    ctx.label('chain')
    ctx.nontriv()


# ----------------------------------------------------------------------
@st.composite
def case_wide(draw):
    """Many entries, long chains of references, long formulas."""
    pool = draw(gen.names(6, 24))
    n_ent = max(3, len(pool) - draw(st.integers(1, 4)))
    ents, ext = pool[:n_ent], pool[n_ent:] or ['zeta']
    texts, size = {}, {}
    for i, k in enumerate(ents):
        prev = ents[max(0, i - 2):i]
        t = wide.Text(draw, ext + (prev if draw(st.booleans()) else []))
        text = t.flat(2, 2)
        if prev and draw(st.integers(0, 3)):
            text = draw(st.sampled_from(
                ['{1} - {0}', '{0}*{1}', '({0}) / {1}', '-{1}**2 + {0}',
                 'np.maximum({1}, {0})', '2 - {1}', '{1}'])).format(
                     text, prev[-1])
        if wide.expanded(text, size) > 3000:
            text = '{} - 1.5'.format(ext[0])
        size[k] = wide.expanded(text, size)
        texts[k] = text
    return {'texts': texts, 'order': list(draw(st.permutations(ents))),
            'inputs': draw(wide.inputs(ext)),
            'route': draw(st.sampled_from(['dict', 'yaml', 'json', 'dir']))}


def pred_wide(case, ctx):
    texts = case['texts']
    need = {}
    depth = {}
    for k, t in texts.items():
        names = wide.names_of(t)
        need[k] = set().union(*[need.get(x, {x}) for x in names])
        depth[k] = 1 + max([depth.get(x, 0) for x in names] or [0])
    g = must('group', load, case['route'],
             {k: texts[k] for k in case['order']})
    vals = wide.expand(case['inputs'])

    def extra(e, dtype=float):
        out = {}
        for k, t in texts.items():
            v = wide.evaluate(t, dict(e, **out), dtype) if not set(
                wide.names_of(t)) - set(e) - set(out) else None
            if v is not None and np.asarray(v).dtype.kind in 'fi':
                out[k] = v
        return out
    have = extra(dict(vals))
    n = 0
    for k, t in texts.items():
        e = must(k, lambda: g[k])
        expect(list(e.variables) == sorted(need[k]), '{} of {}: variables {} '
               'instead of {}', k, texts, e.variables, sorted(need[k]))
        if k not in have:
            continue
        v = {x: vals[x] for x in need[k]}
        exp = wide.expected(k, v, extra)
        ok, out = attempt(e.evaluate, **{x: np.array(y) if isinstance(
            y, list) else y for x, y in v.items()})
        if exp is None:
            continue
        if exp[1].all():
            expect(ok, '{} of {} raised {!r}', k, texts, out)
        if ok:
            n += bool(wide.compare('{} of {}'.format(k, texts), out, exp)
                      and depth[k] > 2)
    ctx.label('depth {}'.format(min(max(depth.values()), 12)))
    ctx.nontriv(n)


SUBS = [
    Sub('references', case_refs(), pred_refs, 1500, 25000),
    Sub('cycles', case_cycle(), pred_cycle, 600, 8000),
    Sub('chains', case_chain(), pred_chain, 60, 1500, shards=2),
    Sub('wide', case_wide(), pred_wide, 250, 4000),
]
