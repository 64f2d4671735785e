"""C07: retrieval keys resolve exactly, and math in keys follows precedence."""
import os

import numpy as np

from harness import gen, lib, libgen, ref, wide
from harness.core import (Sub, st, attempt, expect, must, must_raise,
                          scratch_dir)
from NRWAL import Equation, EquationGroup, EquationDirectory

RULE = ('A case is a generated nested group or directory of equation files '
        'and retrieval keys (existing paths, damaged paths, arithmetic over '
        'paths); non-trivial: a path of two or more parts or a key with at '
        'least one operator whose value was compared.')
ASSUMPTIONS = ['variables of generated equations are never entry names '
               '(references inside groups are property C06)']


def nested_get(obj, path):
    for k in path:
        obj = obj[k]
    return obj


DAMAGE = ['last', 'first', 'extra', 'case', 'prefix', 'suffix', 'drop',
          'middle', 'empty', 'swap', 'double', 'lead', 'scratch']


def damage(path, kind, salt):
    p = list(path)
    i = salt % len(p)
    if kind == 'last':
        p[-1] = 'absent'
    elif kind == 'first':
        p[0] = 'absent'
    elif kind == 'extra':
        p.append(p[-1])
    elif kind == 'case':
        p[i] = p[i].swapcase()
    elif kind == 'prefix':
        p[i] = p[i][:-1] or 'zz'
    elif kind == 'suffix':
        p[i] = p[i] + '_'
    elif kind == 'drop':
        p = p[1:] or ['nothing']
    elif kind == 'middle':
        p.insert(i, 'absent')
    elif kind == 'empty':
        p.append('')
    elif kind == 'double':
        p.insert(i, '')
    elif kind == 'lead':
        p.insert(0, '')
    elif kind == 'scratch':
        p = [['workspace_1'], ['workspace_0'], ['workspace_2'],
             p[:-1] + ['workspace_1'], p[:1] + ['workspace_1'],
             ['workspace']][salt]
    else:
        p.reverse()
    return tuple(p)


@st.composite
def case_paths(draw):
    kind = draw(st.sampled_from(['group', 'dir', 'dir']))
    if kind == 'group':
        model = {'file': draw(libgen.group(hi=4, nested=2))}
    else:
        model = {'dir': draw(libgen.directory(levels=2, with_vars=True,
                                               odd=draw(st.booleans())))}
    used = libgen.VARS
    return {'kind': kind, 'model': model,
            'values': draw(gen.values(used, arrays=False)),
            'damage': [[draw(st.sampled_from(DAMAGE)),
                        draw(st.integers(0, 5))] for _ in range(3)]}


def build(case):
    """(object, {path: node}, {path: keys}, set of file parts positions)"""
    if case['kind'] == 'group':
        g = case['model']['file']
        obj = must('group', EquationGroup, lib.plain(g))
        eqs = {p: lib.node_of(e) for p, e in lib.leaves(g)}
        objs = dict(lib.group_objects(g))
    else:
        t = case['model']['dir']
        d = scratch_dir()
        lib.write(t, os.path.join(d, 'lib'))
        obj = must('directory', EquationDirectory, os.path.join(d, 'lib'))
        eqs = {p: lib.node_of(e) for p, e in lib.dir_leaves(t)}
        objs = dict(lib.objects(t))
    return obj, eqs, objs


def with_ext(tree, path):
    """The same path with file extensions written out."""
    out = []
    for k in path:
        v = tree.get(k) if tree is not None else None
        if v and 'file' in v:
            out.append(k + '.' + v['ext'])
            tree = None
        else:
            out.append(k)
            tree = v['dir'] if v and 'dir' in v else None
    return tuple(out)


def all_exist(case, eqs, objs):
    out = set(eqs) | set(objs)
    if case['kind'] == 'dir':
        def go(t, pre):
            for k, v in t.items():
                if 'vars' in v:
                    out.add(pre + (k,))
                    out.update(pre + (k, n) for n in v['vars'])
                elif 'dir' in v:
                    go(v['dir'], pre + (k,))
        go(case['model']['dir'], ())
    return out


def var_paths(tree, pre=()):
    """Path -> node of the values in variables files."""
    out = {}
    for k, v in tree.items():
        if 'vars' in v:
            out.update({pre + (k, n): ['n', repr(x)]
                        for n, x in v['vars'].items() if x >= 0})
        elif 'dir' in v and not lib.hidden(k):
            out.update(var_paths(v['dir'], pre + (k,)))
    return out


def model_at(tree, path):
    """Value of a variables file, or a dictionary."""
    v = tree
    for k in path:
        v = v.get('dir', v.get('vars', v)) if isinstance(v, dict) else v
        v = v[k]
    return v


def pred_paths(case, ctx):
    obj, eqs, objs = build(case)
    vals = case['values']
    n = 0

    def check_all(when):
        nonlocal n
        for p, node in eqs.items():
            key = '::'.join(p)
            e = must('[{}]'.format(key), lambda: obj[key])
            expect(isinstance(e, Equation), '[{}] is {!r}', key, type(e))
            n += lib.check_eqn(when + key, e, node, vals) * (len(p) > 1)
            e2 = must('chained {}'.format(key), nested_get, obj, p)
            lib.check_eqn(when + 'chained ' + key, e2, node, vals)
            e3 = must('get({})'.format(key), obj.get, key, None)
            expect(isinstance(e3, Equation), 'get({}) gave {!r}', key, e3)
            lib.check_eqn(when + 'get ' + key, e3, node, vals)
            if case['kind'] == 'dir':
                ke = '::'.join(with_ext(case['model']['dir'], p))
                e4 = must('[{}]'.format(ke), lambda: obj[ke])
                lib.check_eqn(when + ke, e4, node, vals)
        for p, keys in objs.items():
            key = '::'.join(p)
            o = must('[{}]'.format(key), lambda: obj[key])
            expect(sorted(o.keys()) == sorted(keys),
                   '[{}] has keys {!r} instead of {!r}', key,
                   sorted(o.keys()), sorted(keys))
            o = must('get', obj.get, key, None)
            expect(o is not None and sorted(o.keys()) == sorted(keys),
                   'get({}) differs', key)

    check_all('')
    exist = all_exist(case, eqs, objs)
    for (kind, salt) in case['damage']:
        for p in list(eqs) + list(objs):
            q = damage(p, kind, salt)
            if q in exist or len(q) == 1 and Equation.is_num(q[0]):
                continue
            key = '::'.join(q)
            must_raise('absent path [{}]'.format(key), KeyError,
                       lambda: obj[key])
            token = object()
            got = must('get of absent path {}'.format(key), obj.get, key,
                       token)
            expect(got is token, 'get({}) gave {!r}', key, got)
            if len(q) == 1:
                expect(q[0] not in obj, '{!r} in object', q[0])
            ctx.label('absent ' + kind)
    if case['kind'] == 'dir':
        tree = case['model']['dir']
        for p in exist - set(eqs) - set(objs):
            v = model_at(tree, p)
            if isinstance(v, dict):
                continue
            for how, got in (('', must('[]', lambda: obj['::'.join(p)])),
                             ('get', must('get', obj.get, '::'.join(p), 77)),
                             ('chained', must('chained', nested_get, obj,
                                              p))):
                expect(not isinstance(got, Equation)
                       and float(got) == float(v), '{} {} is {!r} instead '
                       'of {!r}', how, p, got, v)
    for k in {p[0] for p in exist}:
        expect(k in obj, '{!r} not in object', k)
    check_all('later ')
    ctx.nontriv(n > 0)


SPECIAL = ['workspace_1', 'workspace_2', 'workspace_3', 'a', 'b', 'obj',
           'out1', 'wkey', 'pk']


@st.composite
def case_math(draw):
    kind = draw(st.sampled_from(['group', 'group', 'dir', 'dir', 'dir']))
    if kind == 'group':
        names = draw(st.sampled_from([None, None, SPECIAL]))
        model = {'file': draw(libgen.group(lo=2, hi=4, nested=1,
                                           names=names))}
        paths = [p for p, _ in lib.leaves(model['file'])]
    else:
        model = {'dir': draw(libgen.directory(
            levels=1, depth=1, with_vars=draw(st.booleans())))}
        paths = [p for p, _ in lib.dir_leaves(model['dir'])]
        paths += sorted(var_paths(model['dir']))
    lv = [['r', '::'.join(p)] for p in paths]
    keys = [draw(gen.expr(lv, depth=draw(st.integers(1, 4)), funcs=False,
                          cmps=False)) for _ in range(draw(st.integers(1,
                                                                       3)))]
    return {'kind': kind, 'model': model, 'keys': keys,
            'ext': draw(st.booleans()), 'pad': draw(st.integers(0, 3)),
            'values': draw(gen.values(libgen.VARS, arrays=False))}


def pred_math(case, ctx):
    obj, eqs, _ = build(case)
    env = {'::'.join(p): n for p, n in eqs.items()}
    if case['kind'] == 'dir':
        env.update({'::'.join(p): n for p, n in var_paths(
            case['model']['dir']).items()})
    vals = case['values']
    for node in case['keys']:
        text = ref.render(node, caret=True)
        if case['kind'] == 'dir' and case['ext']:
            full = {'::'.join(p): '::'.join(with_ext(case['model']['dir'], p))
                    for p in eqs}
            text = ref.render(relabel(node, full), caret=True)
        text = ['', ' ', '', '  '][case['pad']] + text + \
            ['', ' ', '  ', ''][case['pad']]
        ops = ref.ops(node)
        if not ops and (ref.refs(node) or case['pad']):
            text = text.strip()
        eqn = must('key {!r}'.format(text), lambda: obj[text])
        if not ops and isinstance(eqn, float):
            # the value of a variables file itself
            ref.check_value(text, eqn, False, [ref.evaluate(
                env[sorted(ref.refs(node))[0]], {})], ref.U64)
            continue
        expect(isinstance(eqn, Equation), '{!r} gave {!r}', text, type(eqn))
        if 'variables::' in text:
            ctx.label('value of a variables file')
        k = lib.check_eqn('key {!r}'.format(text), eqn, node, vals, env)
        for o in set(ops):
            ctx.label('op ' + o)
        ctx.nontriv(k and len(ops) > 0 and ref.refs(node))
        # the parts are still what they were
        for p, n in eqs.items():
            key = '::'.join(p)
            lib.check_eqn('after {!r}: {}'.format(text, key),
                          must(key, lambda: obj[key]), n, vals)
        ok, same = attempt(obj.get, text, None)
        expect(ok and isinstance(same, Equation), 'get({!r}) differs', text)
        lib.check_eqn('again {!r}'.format(text), same, node, vals, env)
    # nothing of the arithmetic can be retrieved afterwards
    for k in ('workspace_1', 'workspace_0', 'workspace_2', 'workspace',
              '$workspace_1', '$workspace_2'):
        if k in obj.keys():
            continue
        must_raise('key {!r} after {}'.format(k, [
            ref.render(x, caret=True) for x in case['keys']]), KeyError,
            lambda: obj[k])
    # an absent path anywhere in the arithmetic is a KeyError
    node = case['keys'][0]
    if ref.refs(node) and ref.ops(node):
        r = sorted(ref.refs(node))[0]
        bad = relabel(node, {r: r + '_absent'})
        text = ref.render(bad, caret=True)
        must_raise('key {!r}'.format(text), KeyError, lambda: obj[text])
        expect(must('get', obj.get, text, 'no') == 'no', 'get of {!r}', text)


def relabel(node, names):
    t = node[0]
    if t == 'r':
        return ['r', names.get(node[1], node[1])]
    if t in ('p', 'u'):
        return [t, relabel(node[1], names)] + node[2:]
    if t in ('b', 'c'):
        return [t, node[1], relabel(node[2], names),
                relabel(node[3], names)] + node[4:]
    if t == 'f':
        return [t, node[1], [relabel(x, names) for x in node[2]]] + node[3:]
    return node


# ----------------------------------------------------------------------
@st.composite
def case_wide(draw):
    """Many entries, deep paths, long arithmetic in keys."""
    nd = draw(st.integers(0, 4))
    ng = draw(st.integers(0 if nd else 1, 4))
    parts = []
    for pool, n in ((libgen.DIR_NAMES, nd), (libgen.FILE_NAMES, 1),
                    (libgen.EQ_NAMES, ng)):
        parts.append([draw(st.sampled_from(pool)) for _ in range(n)])
    dirs, fil, grps = parts
    names = draw(st.lists(st.sampled_from(libgen.EQ_NAMES), min_size=2,
                          max_size=25, unique=True))
    texts = {n: wide.Text(draw, libgen.VARS[:4]).flat(2, 1) for n in names}
    keys = []
    for _ in range(draw(st.integers(1, 2))):
        t = wide.Text(draw, ['P{}_'.format(i) for i in range(len(names))],
                      funcs=False)
        keys.append(t.long() if draw(st.booleans()) else t.flat(4, 4))
    return {'dirs': dirs, 'file': fil[0], 'groups': grps, 'texts': texts,
            'keys': keys, 'inputs': draw(wide.inputs(libgen.VARS[:4])),
            'caret': draw(st.booleans()), 'at': draw(st.integers(0, 9)),
            'ext': draw(st.sampled_from(libgen.EXTS))}


def pred_wide(case, ctx):
    texts = case['texts']
    data = dict(texts)
    for k in reversed(case['groups']):
        data = {k: data, 'zz_other': '1.5'}
    path = case['dirs'] + [case['file']] + case['groups']
    d = scratch_dir()
    full = os.path.join(d, 'lib', *case['dirs'])
    os.makedirs(full)
    lib.dump(data, os.path.join(full, case['file'] + '.' + case['ext']))
    obj = must('directory', EquationDirectory, os.path.join(d, 'lib'))
    # the object the keys are used on: any level above the equations
    at = case['at'] % len(path)
    obj = nested_get(obj, path[:at])
    rest = path[at:]
    names = list(texts)
    vals = wide.expand(case['inputs'])

    def extra(e, dtype=float):
        out = {}
        for i, k in enumerate(names):
            v = wide.evaluate(texts[k], e, dtype)
            if v is not None and np.asarray(v).dtype.kind in 'fi':
                out['P{}_'.format(i)] = v
        return out
    have = extra(vals)
    n = 0
    for key in case['keys'] + ['P{}_'.format(i) for i in range(len(names))]:
        real = key
        used = [i for i in range(len(names))
                if 'P{}_'.format(i) in wide.names_of(key)]
        for i in reversed(used):
            real = real.replace('P{}_'.format(i),
                                '::'.join(rest + [names[i]]))
        if case['caret']:
            real = real.replace('**', '^')
        e = must('key {!r}'.format(real), lambda: obj[real])
        expect(isinstance(e, Equation), '{!r} gave {!r}', real, e)
        want = sorted(set().union(*[wide.names_of(texts[names[i]])
                                    for i in used]))
        expect(list(e.variables) == want, '{!r}: variables {} instead of {}',
               real, e.variables, want)
        if any('P{}_'.format(i) not in have for i in used):
            continue
        kw = {k: vals[k] for k in want}
        exp = wide.expected(key, dict(vals), extra)
        ok, out = attempt(e.evaluate, **{k: np.array(v) if isinstance(
            v, list) else v for k, v in kw.items()})
        if exp is None:
            continue
        if exp[1].all():
            expect(ok, '{!r} raised {!r}', real, out)
        if ok:
            n += bool(wide.compare('{!r} of {}'.format(real, texts), out,
                                   exp)) and (len(rest) > 1 or key != real)
    for bad in (rest[:-1] + ['absent', names[0]], rest + ['absent'],
                rest[:1] + rest + [names[0]], rest + rest[-1:] + names[:1]):
        text = '::'.join(bad)
        ok, got = attempt(lambda: obj[text])
        if ok or not isinstance(got, KeyError):
            # the same names can stand on several levels
            expect(ok and exists(data, case, path[:at] + bad),
                   '[{}] gave {!r}', text, got)
    ctx.label('path of {}'.format(len(rest) + 1))
    ctx.nontriv(n)


def exists(data, case, path):
    """Whether a path of the generated library exists."""
    pre = case['dirs'] + [case['file']]
    if path[:len(pre)] != pre[:len(path)]:
        return False
    for k in path[len(pre):]:
        if not isinstance(data, dict) or k not in data:
            return False
        data = data[k]
    return True


SUBS = [
    Sub('paths', case_paths(), pred_paths, 500, 10000),
    Sub('math', case_math(), pred_math, 900, 15000),
    Sub('wide', case_wide(), pred_wide, 250, 4000),
]
