"""C15: circular configs are refused and acyclic ones never are."""
import os

from harness import cfg, gen, lib, ref
from harness.core import (Sub, st, expect, must, must_raise, scratch_dir)
from NRWAL import NrwalConfig

RULE = ('A case is a config whose reference graph is generated: with a ring '
        'of 1-30 entries placed among other entries, or acyclic with shared '
        'references, names that contain each other and names that occur in '
        'numbers and library paths; non-trivial: every ring, and every '
        'acyclic case with a reference chain of two or more entries.')
ASSUMPTIONS = ['cycles that only close through a variable of a library '
               'equation are outside the property']

NAMES = ['a', 'a1', 'a10', 'e', 'e5', 'x1e5', 'e1', 'E', 'ab', 'a_b', 'b',
         'e_5', '_e5', 'x', 'e2', 'co2e', 'b1', 'bb', 'e05', 'cost', 'cost_a',
         'n', 'np_a', 'abs', 'exp', 'log', 'maximum', 'E2']
NAMES = [n for n in NAMES if gen.ok_name(n)]
# families of numbered names
FAMILY = ['x{}'.format(i) for i in (0, 1, 2, 3, 10, 11)] + [
    'cost_{}'.format(i) for i in (0, 1, 2, 12)] + ['y0', 'y1', 'y', 'y_']


@st.composite
def entry_names(draw, lo, hi):
    if draw(st.integers(0, 2)) == 0:
        few = draw(st.sampled_from([FAMILY, FAMILY[:6] + ['y'],
                                    FAMILY[6:]]))
        return draw(st.lists(st.sampled_from(few), min_size=lo,
                             max_size=hi, unique=True))
    return draw(st.lists(st.sampled_from(NAMES), min_size=lo, max_size=hi,
                         unique=True))


INPUTS = ['inp', 'inp2', 'in_e5']


def library(names):
    """Files and equations named like the entries."""
    return {'zlib': {'dir': {
        'a': {'file': {n: {'e': ['b', '*', ['v', 'inp'],
                                 ['n', str(i + 2)], 0]}
                       for i, n in enumerate(names)}, 'ext': 'yaml'},
        'e5': {'file': {n: {'num': i + 1.5} for i, n in enumerate(names)},
               'ext': 'json'}}}}


@st.composite
def case_acyclic(draw):
    ents = draw(entry_names(2, 9))
    specs = []
    chain = 0
    if draw(st.integers(0, 19)) == 0:
        # long chains of references: 1 in calls, 2 mixed, 3 in arithmetic
        chain = draw(st.integers(1, 3))
        pre = draw(st.sampled_from(
            ['k', 'e', 'balance_of_system_cost_of_the_whole_site_']))
        ents = [pre + str(i) for i in range(draw(st.integers(10, 40)))]
    for i, n in enumerate(ents):
        prev = ents[max(0, i - 3):i]
        lv = gen.vleaves(prev) * 3 + gen.vleaves(INPUTS)
        if chain:
            node = ['b', '+', ['v', ents[i - 1]], ['v', 'inp'], 0] if i \
                else ['v', 'inp']
            if chain == 1 or chain == 2 and draw(st.booleans()):
                node = ['f', 'np.maximum', [node, ['v', 'inp2']], 0]
            specs.append([n, node])
            continue
        lv += [['r', 'zlib::a::' + draw(st.sampled_from(ents))],
               ['r', 'zlib::a::' + n], ['r', 'zlib::e5::' + n]]
        k = draw(st.integers(0, 9))
        if k == 0:
            node = draw(st.sampled_from(lv))
        elif k == 1:
            node = ['n', draw(st.sampled_from(['1e5', '2E1', '1e-2', '5',
                                               '3.5e2']))]
        elif k == 2:
            node = draw(cfg.np_call([x for x in lv if x[0] == 'v'], 1))
        else:
            node = draw(gen.expr(lv, depth=draw(st.integers(1, 2)),
                                 funcs=False, cmps=False))
        if not ref.variables(node) and not ref.refs(node) and node[0] != 'n':
            node = ['b', '+', node, ['v', 'inp'], 0]
        specs.append([n, node])
    return {'specs': specs, 'order': list(draw(st.permutations(
        list(range(len(ents)))))), 'route': draw(st.sampled_from(
            ['dict', 'yaml', 'json'])),
        'values': draw(gen.values(INPUTS, arrays=False))}


def pred_acyclic(case, ctx):
    names = [n for n, _ in case['specs']]
    tree = library(sorted(names))
    eqs = cfg.lib_eqs(tree)
    env = {k: ref.literal(v) for k, v in case['values'].items()}
    want = {}
    undef = False
    depth = {}
    for n, node in case['specs']:
        e = dict(env)
        for v in ref.variables(node):
            if v in want:
                e[v] = want[v]
        for r in ref.refs(node):
            e[r] = ref.evaluate(eqs[r], env)
        try:
            x = ref.evaluate(node, e)
            want[n] = ref.boolean(x)
        except ref.Undef as err:
            want[n] = err
            undef = True
        depth[n] = 1 + max([depth[v] for v in ref.variables(node)
                            if v in depth] or [0])
    const = set()
    for n, node in case['specs']:
        if not any(v not in const for v in ref.variables(node)) and all(
                not ref.variables(eqs[r]) for r in ref.refs(node)):
            const.add(n)
    if any(isinstance(want[n], ref.Undef) for n in const):
        return               # a singular constant cannot be built
    d = scratch_dir()
    lib.write(tree, os.path.join(d, 'lib'))
    data = {'equation_directory': os.path.join(d, 'lib')}
    for i in case['order']:
        n, node = case['specs'][i]
        data[n] = ref.render(node)
    src = data
    if case['route'] != 'dict':
        src = os.path.join(d, 'c.' + case['route'])
        lib.dump(data, src)
    c = must('acyclic config {}'.format(data), NrwalConfig, src)
    expect(sorted(c.keys()) == sorted(names), 'keys {}', list(c.keys()))
    if not undef:
        out = must('evaluate {}'.format(data), c.evaluate,
                   dict(case['values']))
        for n in names:
            if n not in const:
                expect(n in out, 'no output {} of {}', n, data)
                ref.check_value('{} of {}'.format(n, data), out[n], False,
                                [want[n]], ref.U64)
    ctx.label('chain {}'.format(min(6, max(depth.values()))))
    ctx.nontriv(max(depth.values()) >= 2)


@st.composite
def case_cycle(draw):
    if draw(st.integers(0, 7)) == 0:
        # long rings
        size = draw(st.integers(7, 30))
        pre = draw(st.sampled_from(
            ['k', 'cost_', 'e', 'balance_of_system_cost_of_the_whole_site_']))
        ents = ['{}{}'.format(pre, i) for i in draw(st.permutations(
            list(range(size))))]
        k = draw(st.integers(size - 3, size))
    else:
        ents = draw(entry_names(1, 8))
        k = draw(st.integers(1, min(6, len(ents))))
    ring = ents[:k]
    calls = draw(st.integers(0, 3)) == 0     # only references in calls
    rest = ents[k:]
    specs = []
    for i, n in enumerate(ring):
        nxt = ['v', ring[(i + 1) % k]]
        other = draw(gen.expr(gen.vleaves(INPUTS), depth=1, funcs=False,
                              cmps=False))
        kind = draw(st.integers(1, 2) if calls else st.integers(0, 8))
        if kind == 0 and k > 1:
            node = nxt
        elif kind == 1:
            node = ['f', 'np.maximum', [nxt, other], 0]
        elif kind == 2:
            node = ['b', '*', ['f', 'np.exp', [['b', '+', nxt, other, 0]], 0],
                    other, 0]
        elif kind == 3:
            node = ['b', '/', ['n', '1e5'], ['p', ['b', '-', other, nxt, 1]],
                    1]
        elif kind == 4:
            node = ['u', ['b', '*', nxt, other, 1], 0]
        else:
            node = ['b', draw(st.sampled_from(['+', '-', '*', '/', '**'])),
                    nxt, other, draw(st.integers(0, 3))]
            if draw(st.booleans()):
                node[2], node[3] = node[3], node[2]
        specs.append([n, node])
    for i, n in enumerate(rest):
        lv = gen.vleaves(INPUTS + ring + rest[:i])
        node = draw(gen.expr(lv, depth=1, funcs=False, cmps=False))
        if not ref.variables(node):
            # singular constants cannot be built, cycle or not
            node = ['b', '+', node, ['v', 'inp'], 0]
        specs.append([n, node])
    return {'specs': specs, 'ring': ring,
            'order': list(draw(st.permutations(list(range(len(ents)))))),
            'route': draw(st.sampled_from(['dict', 'yaml', 'json']))}


def pred_cycle(case, ctx):
    d = scratch_dir()
    lib.write(library(sorted(n for n, _ in case['specs'])),
              os.path.join(d, 'lib'))
    data = {'equation_directory': os.path.join(d, 'lib')}
    for i in case['order']:
        n, node = case['specs'][i]
        data[n] = ref.render(node)
    src = data
    if case['route'] != 'dict':
        src = os.path.join(d, 'c.' + case['route'])
        lib.dump(data, src)
    must_raise('circular config {}'.format(data), RuntimeError, NrwalConfig,
               src)
    ctx.label('ring of {}'.format(len(case['ring']) if len(case['ring']) < 7
                                  else '7-30'))
    ctx.nontriv()
    # the same config with one reference of the ring cut is accepted
    cut = dict(data)
    cut[case['ring'][-1]] = 'inp * 2'
    must('config without the cycle {}'.format(cut), NrwalConfig, cut)


SUBS = [
    Sub('acyclic', case_acyclic(), pred_acyclic, 1000, 16000, shards=4),
    Sub('cycles', case_cycle(), pred_cycle, 1000, 16000),
]
