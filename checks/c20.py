"""C20: printed forms and views show what is stored."""
import os
import re

import numpy as np

from checks.c09 import scope
from harness import cfg, gen, lib, libgen, ref
from harness.core import (Sub, st, attempt, equal, expect, must, must_raise,
                          scratch_dir)
from NRWAL import Equation, EquationGroup, EquationDirectory, NrwalConfig

RULE = ('A case is a generated equation, library or config that is printed '
        'and listed, before and after default values are set; non-trivial: '
        'an equation with a default and one without is shown, or a hierarchy '
        'with at least two levels.')
ASSUMPTIONS = ['a combined equation shows the defaults its operands had when '
               'they were combined', 'head and tail with at least one line']


def parse_eqn(text):
    """(name, names without value, {name: value}) of "name(a, b, c=1.0)"."""
    m = re.match(r'(.*?)\((.*)\)\Z', text)
    if not m:
        return None
    free, given = [], {}
    for part in [p.strip() for p in m.group(2).split(',') if p.strip()]:
        k, eq, v = part.partition('=')
        if eq:
            if k in given:
                return None
            given[k] = float(v)
        else:
            free.append(part)
    return m.group(1), sorted(free), given


def check_shown(what, text, name, node, dflt):
    """The printed form of a single stored equation."""
    vs = ref.variables(node)
    if not vs and '(' not in text:
        # a number is shown as such
        expect(Equation.is_num(text), '{}: shown as {!r}', what, text)
        if node[0] == 'n':
            expect(float(text) == float(node[1]), '{}: {!r} instead of {!r}',
                   what, text, node[1])
        return
    got = parse_eqn(text)
    want = (name, sorted(v for v in vs if v not in dflt),
            {v: float(dflt[v]) for v in vs if v in dflt})
    expect(got == want, '{}: printed {!r}, expected {!r}', what, text, want)


def tree_of(text):
    """[(line, children)] of lines indented by tabs."""
    root = []
    stack = [root]
    for line in text.split('\n'):
        n = len(line) - len(line.lstrip('\t'))
        expect(n < len(stack), 'line {!r} is not below another one in {!r}',
               line, text)
        del stack[n + 1:]
        stack[n].append((line[n:], []))
        stack.append(stack[n][-1][1])
    return root


def check_lines(what, obj):
    text = str(obj)
    expect(repr(obj) == text, '{}: repr differs from str', what)
    lines = text.split('\n')
    for n in (1, 2, 3, len(lines), len(lines) + 3):
        expect(obj.head(n).split('\n') == lines[:n], '{}: head({}) is {!r}',
               what, n, obj.head(n))
        expect(obj.tail(n).split('\n') == lines[-n:], '{}: tail({}) is {!r}',
               what, n, obj.tail(n))
    expect(obj.head() == obj.head(5) and obj.tail() == obj.tail(5),
           '{}: five lines are the default', what)
    return text


def check_views(what, obj, keys):
    got = list(obj.keys())
    expect(sorted(got) == sorted(keys), '{}: keys {} instead of {}', what,
           got, keys)
    expect([k for k, _ in obj.items()] == got, '{}: items and keys differ',
           what)
    vals = list(obj.values())
    for (k, v), v2 in zip(obj.items(), vals):
        expect(v is v2, '{}: items and values differ at {}', what, k)
        one = obj[k]
        expect(type(one) is type(v) and str(one) == str(v),
               '{}[{}] is {!r}, items have {!r}', what, k, one, v)
    expect(len(vals) == len(got), '{}: {} values for {} keys', what,
           len(vals), len(got))


# ----------------------------------------------------------------------
@st.composite
def case_eqn(draw):
    names = draw(gen.names(1, 4))
    node = draw(gen.expr(gen.vleaves(names), depth=draw(st.integers(0, 3))))
    other = draw(gen.expr(gen.vleaves(names), depth=1))
    ops = [{k: draw(gen.signed) for k in draw(st.lists(
        st.sampled_from(names + ['unused_name']), max_size=2, unique=True))}
        for _ in range(draw(st.integers(0, 4)))]
    return {'node': node, 'other': other, 'ops': ops,
            'name': draw(st.sampled_from([None, 'eqn_a', 'b_3MW', 'q_2020'])),
            'show': [draw(st.booleans()) for _ in ops],
            'op': draw(st.sampled_from(['+', '-', '*', '/', '**'])),
            'init': draw(st.booleans())}


def pred_eqn(case, ctx):
    node = case['node']
    ops = case['ops']
    dflt = {}
    kw = {}
    if case['init'] and ops:
        kw['default_variables'] = dict(ops[0])
        dflt.update(ops[0])
    e = must('equation', Equation, ref.render(node), name=case['name'], **kw)
    shown = case['name'] or 'Equation'
    for i, op in enumerate(ops):
        if case['show'][i]:
            check_shown('before update {}'.format(i), str(e), shown, node,
                        dflt)
        e.set_default_variables(dict(op))
        dflt.update(op)
    check_shown('{} with defaults {}'.format(ref.render(node), dflt), str(e),
                shown, node, dflt)
    expect(repr(e) == str(e), 'repr differs from str')
    # evaluation and arithmetic do not change what is shown
    o = must('other', Equation, ref.render(case['other']), name='other')
    before = str(e), str(o)
    f = {'+': lambda: e + o, '-': lambda: e - o, '*': lambda: e * o,
         '/': lambda: e / o, '**': lambda: e ** o}[case['op']]
    both = must('combination', f)
    expect((str(e), str(o)) == before, 'operands changed')
    text = str(both)
    expect(before[0] in text and before[1] in text and case['op'] in text
           and text.index(before[0]) <= text.rindex(before[1]),
           '{!r} does not show {!r} {} {!r}', text, before[0], case['op'],
           before[1])
    # the full text is a formula of its own
    for what, eq in (('equation', e), ('combination', both)):
        twin = must('full text of the ' + what, Equation, eq.full,
                    default_variables=dict(eq.default_variables))
        expect(list(twin.variables) == list(eq.variables),
               'the full text {!r} of the {} reads {}', eq.full, what,
               list(twin.variables))
        inp = {v: 1.0 + i / 4.0 for i, v in enumerate(eq.variables)}
        (ok, x), (ok2, y) = attempt(eq.evaluate, **inp), attempt(
            twin.evaluate, **inp)
        expect(ok == ok2 and (not ok or x == y or x != x and y != y),
               'the full text {!r} of the {} gives {!r} instead of {!r}',
               eq.full, what, y, x)
    rep = must('replaced', e.replace_equation, ref.render(case['other']))
    check_shown('replaced', str(rep), shown, case['other'], dflt)
    vs = ref.variables(node)
    ctx.nontriv(vs & set(dflt) and vs - set(dflt))
    ctx.label('shown before a change' if any(case['show']) else 'other')


# ----------------------------------------------------------------------
@st.composite
def case_tree(draw):
    vs = libgen.VARS[:5]
    tree = draw(libgen.directory(variables=vs, levels=2, with_vars=True,
                                 dirs=(0, 2), nested=1,
                                 odd=draw(st.booleans())))
    tree = draw(libgen.deep(tree, vs))
    return {'tree': tree, 'set': {k: draw(gen.signed) for k in draw(
        st.lists(st.sampled_from(vs), min_size=1, max_size=2, unique=True))},
        'early': draw(st.booleans())}


def check_group(what, nodes, g, state, prefix):
    """nodes: printed children of a group."""
    expect(len(nodes) == len(g), '{}: {} lines for entries {}', what,
           len(nodes), list(g))
    for (line, sub), (k, v) in zip(nodes, g.items()):
        w = '{}::{}'.format(what, k)
        if 'g' in v:
            expect(line == k, '{}: shown as {!r}', w, line)
            check_group(w, sub, v['g'], state, prefix + (k,))
        else:
            expect(not sub, '{}: lines below an equation', w)
            check_shown(w, line, k, lib.node_of(v), state[prefix + (k,)])


def check_dir(what, nodes, t, state, prefix):
    left = list(nodes)

    def take(text):
        hit = [x for x in left if x[0] == text]
        expect(len(hit) == 1, '{}: {} is shown {} times in {}', what, text,
               len(hit), [x[0] for x in nodes])
        left.remove(hit[0])
        return hit[0][1]
    for k, v in t.items():
        if 'dir' in v:
            if lib.visible(v['dir']):
                check_dir(what + '::' + k, take(k), v['dir'], state,
                          prefix + (k,))
        elif 'vars' in v:
            sub = take('variables.' + v['ext'])
            got = {}
            for line, below in sub:
                a, _, b = line.partition(':')
                expect(a not in got and not below, '{}: {} shown twice', what,
                       a)
                got[a.strip()] = float(b)
            expect(got == {a: float(b) for a, b in v['vars'].items()},
                   '{}: variables shown as {}', what, got)
        else:
            check_group(what + '::' + k, take(k + '.' + v['ext']), v['file'],
                        state, prefix + (k,))
    expect(not left, '{}: also shows {}', what, [x[0] for x in left])


def pred_tree(case, ctx):
    tree = case['tree']
    d = os.path.join(scratch_dir(), 'lib')
    lib.write(tree, d)
    obj = must('directory', EquationDirectory, d)
    state = scope(tree)

    def look(when):
        nodes = tree_of(check_lines(when, obj))
        check_dir(when, nodes[1:], tree, state, ())
        views(when, obj, tree)
        for p, keys in lib.objects(tree):
            o = obj['::'.join(p)]
            check_lines('{} {}'.format(when, '::'.join(p)), o)
            if isinstance(o, EquationGroup):
                g = tree
                for k in p:
                    g = g[k]
                    g = g['dir'] if 'dir' in g else g['file'] \
                        if 'file' in g else g['g'] if 'g' in g else g
                check_group('::'.join(p), tree_of(str(o))[1:], g, state, p)
                expect(p[-1] in str(o).split('\n')[0],
                       'the name {} is not in the first line of {!r}', p[-1],
                       str(o))
    if case['early']:
        look('fresh')
    obj.set_default_variables(dict(case['set']), force_update=True)
    for p in state:
        state[p].update(case['set'])
    look('after update of {}'.format(case['set']))
    shown = [(ref.variables(lib.node_of(e)), state[p])
             for p, e in lib.dir_leaves(tree)]
    ctx.nontriv(any(v & set(s) and v - set(s) for v, s in shown))
    ctx.label('levels' if any('dir' in v for v in tree.values()) else 'flat')


def views(what, obj, tree):
    check_views(what, obj, lib.visible(tree))
    for k in list(lib.visible(tree)) + ['nothing_like_it', 'a::b']:
        expect((k in obj) == (k in lib.visible(tree)),
               '{}: {!r} in it is {}', what, k, k in obj)
    paths = [p for p, _ in lib.dir_leaves(tree)]
    eqs = obj.all_equations
    expect(len(eqs) == len(paths), '{}: {} equations listed instead of {}',
           what, len(eqs), len(paths))
    ids = {id(e) for e in eqs}
    for p in paths:
        expect(id(obj['::'.join(p)]) in ids, '{}: {} is not listed', what,
               '::'.join(p))
    for p, keys in lib.objects(tree):
        o = obj['::'.join(p)]
        check_views('::'.join(p), o, keys)
        for k in list(keys) + ['nothing_like_it']:
            expect((k in o) == (k in keys), '{}: {!r} in {} is {}', what, k,
                   '::'.join(p), k in o)


# ----------------------------------------------------------------------
@st.composite
def case_config(draw):
    return draw(cfg.config(hi=5, depth=2, arrays=False))


def pred_config(case, ctx):
    inputs = cfg.given_inputs(case)
    m, want = cfg.pruned(case, inputs, cfg.unit(inputs))
    if not m.names:
        return
    d = cfg.write_library(case, scratch_dir())
    c = must('config', NrwalConfig, m.plain(d))
    text = check_lines('config', c)
    nodes = tree_of(text)
    expect(os.path.basename(d) in nodes[0][0], 'the equation directory is not '
           'shown in {!r}', nodes[0][0])
    expect(list(c.keys()) == m.order, 'keys {} instead of {}', list(c.keys()),
           m.order)
    expect([k for k, _ in c.items()] == m.order and len(list(c.values()))
           == len(m.order), 'items or values differ from keys')
    for (k, v), v2 in zip(c.items(), c.values()):
        expect(v is v2, 'items and values differ at {}', k)
    # every entry once, with the printed form of what it stands for below it
    i = 1
    lines = text.split('\n')
    for k, v in c.items():
        expect(i < len(lines) and lines[i] == k, 'line {} of {!r} is not {}',
               i, text, k)
        for x in str(v).split('\n'):
            i += 1
            expect(i < len(lines) and lines[i] == '\t' + x,
                   'line {} of {!r} is not {!r}', i, text, x)
        i += 1
    expect(i == len(lines), 'more lines than entries in {!r}', text)
    for k in m.equations():
        got = parse_eqn(str(c[k]))
        expect(got and got[0] == k and sorted(got[1] + list(got[2]))
               == list(c[k].variables), 'entry {} of {} is printed as {!r}', k,
               m.plain(d), str(c[k]))
    # entries are separate objects, also when they mean the same
    eqs = [c[k] for k in m.names if m.is_eqn(k)]
    expect(len({id(e) for e in eqs}) == len(eqs), 'entries of {} share an '
           'equation', m.plain(d))
    mark = object()
    expect(c.get('nothing_like_it', mark) is mark, 'get of a missing key')
    must_raise('missing key', KeyError, lambda: c['nothing_like_it'])
    names = c.all_variables
    expect(list(names) == sorted(set(names)), 'all_variables {} not sorted or '
           'with duplicates', names)
    known = set(m.names) | set(m.dflt) | set(m.required())
    expect(set(m.required()) | set(m.constants()) <= set(names) <= known,
           'all_variables {} of {}, required {}, constants {}', names,
           m.plain(d), m.required(), m.constants())
    for when in (0, 1):
        for k, v in c.items():
            x = c.get(k, mark)
            expect(x is c[k] or np.array_equal(x, c[k]), 'get({}) is {!r}', k,
                   x)
            if not hasattr(type(c), k):
                y = getattr(c, k)
                expect(y is x or np.array_equal(x, y),
                       'attribute {} is {!r}', k, y)
            if k in c.outputs:
                expect(equal(x, c.outputs[k]),
                       '{} is {!r} instead of its output', k, x)
            else:
                expect(x is v, '{} is {!r} without output', k, x)
        if when == 0:
            must('evaluate', c.evaluate, cfg.real_inputs(inputs, np))
    for k in m.equations():
        ref.check_value('c[{}]'.format(k), c[k], want[k][0], want[k][1],
                        cfg.unit(inputs))
    expect(str(c) == text, 'the printed config changed by evaluation')
    ctx.nontriv(len(m.names) > 2)
    ctx.label('with groups' if any(not m.is_eqn(n) for n in m.names)
              else 'equations only')


SUBS = [
    Sub('equation', case_eqn(), pred_eqn, 1200, 20000),
    Sub('tree', case_tree(), pred_tree, 500, 8000),
    Sub('config', case_config(), pred_config, 500, 8000),
]
