"""C10: loading files is faithful and independent of the file format."""
import collections
import hashlib
import json
import os

import yaml

from checks import c06
from harness import gen, lib, libgen, ref
from harness.core import Sub, st, expect, must, scratch_dir
from NRWAL import Equation, EquationGroup, EquationDirectory

RULE = ('A case is a generated group (nested, with references and bare '
        'numbers) written in several formats, or a generated directory tree '
        'with hidden names, other files, empty sub-directories and '
        'variables files, or a history of writing, removing and loading '
        'files below one path; non-trivial: at least two equations, and for '
        'trees at least one ignored item (histories: a path is loaded again '
        'after its contents changed).')
ASSUMPTIONS = ['no two files of one directory have the same name up to the '
               'extension']


def snapshot(path):
    out = {}
    for base, dirs, files in os.walk(path):
        dirs.sort()
        for f in sorted(files) + [d + '/' for d in dirs]:
            fp = os.path.join(base, f)
            s = os.stat(fp)
            h = ''
            if os.path.isfile(fp):
                with open(fp, 'rb') as fh:
                    h = hashlib.sha1(fh.read()).hexdigest()
            out[os.path.relpath(fp, path)] = (s.st_mode, h, s.st_mtime_ns)
    return out


# ----------------------------------------------------------------------
@st.composite
def case_formats(draw):
    group, ext = draw(c06.refgroup(2, 5))
    inner, ext2 = draw(c06.refgroup(2, 4, 1))
    deeper = {'g1': {'e': draw(gen.expr(gen.vleaves(ext), depth=2,
                                        bare_cmp=False))}}
    names = set(group) | set(inner)
    ext_all = sorted(set(ext) | set(ext2))
    return {'group': group, 'order': list(draw(st.permutations(
        list(group)))), 'inner': inner if draw(st.booleans()) else None,
        'deeper': deeper, 'style': draw(st.integers(0, 5)),
        'inner_vals': draw(gen.values(sorted(names), arrays=False)),
        'values': draw(gen.values(ext_all, arrays=False)),
        'wrap': draw(st.integers(0, 7)),
        'as_text': draw(st.booleans())}


def yaml_text(data, style, indent=0):
    """The same mapping, written by hand in different YAML styles."""
    out = []
    pad = ' ' * indent
    for k, v in data.items():
        if isinstance(v, dict):
            out.append('{}{}:'.format(pad, k))
            out.append(yaml_text(v, style, indent + 2))
        elif isinstance(v, str) and style == 1:
            out.append('{}{}: >-\n{}  {}'.format(pad, k, pad, v.strip()))
        elif isinstance(v, str) and style == 2:
            out.append("{}{}: '{}'  # {}".format(pad, k, v, k))
        elif isinstance(v, str):
            out.append('{}"{}": "{}"'.format(pad, k, v))
        else:
            out.append('{}{}: {}'.format(pad, k, repr(v)))
    return '\n'.join(out)


def wrapped(text, k):
    """The same document with other bytes around it."""
    if k == 1:
        text = '---\n' + text
    elif k == 2:
        text = text + '...\n'
    elif k == 3:
        text = text.replace('\n', '\r\n')
    elif k == 4:
        text = '# \u20ac per m\u00b2, \u0394t\n' + text
    elif k == 5:
        text = '\n\n' + text.rstrip('\n')
    elif k == 6:
        text = '%YAML 1.1\n---\n' + text + '# caf\u00e9\n'
    return text


def pred_formats(case, ctx):
    group = {k: case['group'][k] for k in case['order']}
    data = lib.plain(group)
    if case['as_text']:
        data = {k: (str(v) if not isinstance(v, dict) else v)
                for k, v in data.items()}
    nested = {}
    if case['inner']:
        nested['zz_sub'] = dict(lib.plain(case['inner']),
                                zz_deep=lib.plain(case['deeper']))
    data = dict(data, **nested)
    d = scratch_dir()
    objs = {}
    for ext in ('yaml', 'yml', 'json'):
        fp = os.path.join(d, 'a.' + ext)
        lib.dump(data, fp)
        objs[ext] = must(ext, EquationGroup, fp)
    objs['dict'] = must('dict', EquationGroup, json.loads(json.dumps(data)))
    fp = os.path.join(d, 'b.yaml')
    text = '# comment\n' + yaml_text(data, case['style']) + '\n'
    if case['style'] == 5:
        text = '# flow style\n' + json.dumps(data, indent=1) + '\n'
    text = wrapped(text, case['wrap'])
    with open(fp, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    with open(fp, encoding='utf-8') as f:
        if yaml.safe_load(f) != data:
            fp = os.path.join(d, 'a.yaml')   # style cannot express the data
        else:
            ctx.label('yaml style {}'.format(case['style']))
            ctx.label('yaml wrapping {}'.format(case['wrap']))
    objs['styled'] = must('styled', EquationGroup, fp)
    os.makedirs(os.path.join(d, 'x'))
    lib.dump(data, os.path.join(d, 'x', 'grp.json'))
    objs['dir'] = must('dir', EquationDirectory, os.path.join(d, 'x'))['grp']

    n = 0
    for name, g in objs.items():
        expect(sorted(g.keys()) == sorted(data), '{}: keys {} instead of {}',
               name, sorted(g.keys()), sorted(data))
        expect([k for k, _ in g.items()] == list(g.keys())
               and len(list(g.values())) == len(data),
               '{}: items, keys and values disagree', name)
        n += c06.check_entries(name, g, group, case['values'], ctx)
        cnt = len(group)
        if case['inner']:
            sub = g['zz_sub']
            expect(sorted(sub.keys()) == sorted(list(case['inner'])
                                                + ['zz_deep']),
                   '{}: nested keys {}', name, sorted(sub.keys()))
            vals = dict(case['inner_vals'], **case['values'])
            n += c06.check_entries(name + ' nested', sub, case['inner'], vals,
                                   ctx)
            c06.check_entries(name + ' deeper', g['zz_sub::zz_deep'],
                              case['deeper'], vals, ctx)
            cnt += len(case['inner']) + 1
        expect(len(g.all_equations) == cnt, '{}: {} equations instead of {}',
               name, len(g.all_equations), cnt)
    ctx.nontriv(len(group) >= 2)


# ----------------------------------------------------------------------
JUNK = ['README.md', 'notes.txt', '.hidden.yaml', '__init__.yaml',
        'x.yaml.bak', 'data.csv', 'script.py', 'yaml', 'json', '.json',
        '__x.json', '.variables.yaml', '__variables.yaml', 'variables.txt',
        'variables', 'eqns_yaml', 'a.yaml~', 'f.jsonx', '.gitkeep',
        'array.txt', '__init__.py', 'myaml', 'upper.YAML', 'Mixed.Json',
        'u.YML', 'VARIABLES.yaml.old', 'x.yaml ', 'x.yam', 'x.yamll']
HIDDEN_DIRS = ['.git', '__pycache__', '.hidden', '__x']


@st.composite
def messy(draw, levels=2, odd=False):
    vs = libgen.VARS[:4]
    tree = draw(libgen.directory(variables=vs, levels=0, files=(0, 2),
                                 with_vars=True, hi=3, odd=odd))
    for n in draw(st.lists(st.sampled_from(JUNK), max_size=3, unique=True)):
        if n not in tree:
            tree[n] = {'junk': draw(st.sampled_from(
                ['', ': [', '{"a": ', 'a: [1, 2]\n', '- x\n', '\x01', 'q: 2',
                 '{"q": 2}']))}
    for n in draw(st.lists(st.sampled_from(HIDDEN_DIRS), max_size=1)):
        tree[n] = {'dir': {'bad': {'file': {'zq': {'num': 1}},
                                   'ext': 'yaml'},
                           'k': {'junk': ''}}}
    if levels > 0:
        for n in draw(st.lists(libgen.stems(libgen.DIR_NAMES, odd),
                               max_size=2, unique=True)):
            if n not in tree:
                tree[n] = {'dir': draw(messy(levels - 1, odd))}
    # a file and a directory cannot share a name after the extension is gone
    return tree


@st.composite
def case_tree(draw):
    return {'tree': draw(libgen.deep(
        draw(messy(odd=draw(st.booleans()))), libgen.VARS[:4])),
            'slash': draw(st.booleans()),
            'links': draw(st.sampled_from([0, 0, 1, 2, 3])),
            'values': draw(gen.values(libgen.VARS[:4], arrays=False))}


def compare(path, obj, tree, vals, out):
    want = lib.visible(tree)
    got = list(must('keys', obj.keys))
    expect(sorted(got) == sorted(want), 'directory {!r}: keys {} instead of '
           '{}', path, sorted(got), sorted(want))
    expect(len(list(obj.items())) == len(got) == len(list(obj.values())),
           'items and values')
    for k in want:
        v = tree[k]
        o = must('[{}]'.format(k), lambda: obj[k])
        if 'dir' in v:
            compare(path + (k,), o, v['dir'], vals, out)
        elif 'vars' in v:
            expect(sorted(o.keys()) == sorted(v['vars']), 'variables {}',
                   list(o.keys()))
            for n, x in v['vars'].items():
                expect(float(o[n]) == float(x), 'variable {} is {!r}', n,
                       o[n])
            table = {n: float(x) for n, x in dict(o.var_dict).items()}
            expect(table == {n: float(x) for n, x in v['vars'].items()},
                   'values of the variables file are {}', table)
        else:
            compare_group(path + (k,), o, v['file'], vals, out)


def compare_group(path, obj, group, vals, out):
    expect(sorted(obj.keys()) == sorted(group), 'group {!r}: keys {} instead '
           'of {}', path, sorted(obj.keys()), sorted(group))
    for k, v in group.items():
        if 'g' in v:
            compare_group(path + (k,), obj[k], v['g'], vals, out)
        else:
            e = obj[k]
            expect(isinstance(e, Equation), '{} is {!r}', path + (k,),
                   type(e))
            node = lib.node_of(v)
            lib.check_eqn('{}'.format(path + (k,)), e, node, vals)
            out.append(tuple(sorted(ref.variables(node))))


def ignored(tree):
    n = 0
    for k, v in tree.items():
        if 'junk' in v or lib.hidden(k):
            n += 1
        elif 'dir' in v:
            n += ignored(v['dir']) or (0 if lib.visible(v['dir']) else 1)
    return n


def make_links(d, salt):
    """Replace some files (and a directory) by links to copies elsewhere."""
    store = os.path.join(scratch_dir(), 'store')
    os.makedirs(store)
    for n, (base, dirs, files) in enumerate(sorted(os.walk(d))):
        for i, f in enumerate(sorted(files)):
            if (i + n) % salt == 0:
                fp = os.path.join(base, f)
                to = os.path.join(store, '{}_{}.dat'.format(n, i))
                os.rename(fp, to)
                os.symlink(to, fp)
    if salt == 2:
        for i, f in enumerate(sorted(os.listdir(d))):
            fp = os.path.join(d, f)
            if os.path.isdir(fp) and not os.path.islink(fp):
                to = os.path.join(store, 'dir_{}'.format(i))
                os.rename(fp, to)
                os.symlink(to, fp)


def pred_tree(case, ctx):
    tree = case['tree']
    d = os.path.join(scratch_dir(), 'lib')
    lib.write(tree, d)
    if case['links']:
        make_links(d, case['links'])
        ctx.label('symbolic links')
    before = snapshot(d)
    obj = must('directory', EquationDirectory,
               d + ('/' if case['slash'] else ''))
    out = []
    compare((), obj, tree, case['values'], out)
    eqs = must('all_equations', lambda: obj.all_equations)
    expect(len(eqs) == len(out), '{} equations listed instead of {}',
           len(eqs), len(out))
    expect(len({id(e) for e in eqs}) == len(eqs), 'an equation is listed '
           'twice')
    have = collections.Counter(tuple(e.variables) for e in eqs)
    expect(have == collections.Counter(out), 'listed equations differ')
    must('str', str, obj)
    expect(snapshot(d) == before, 'loading changed the directory')
    n = ignored(tree)
    ctx.label('ignored items' if n else 'nothing ignored')
    ctx.nontriv(len(out) >= 2 and n > 0)


# ----------------------------------------------------------------------
# histories: the files below one path change between loads
H_FILES = ['eqns', 'sub/eqns', 'sub/more', 'x', 'sub/deep/eqns']
H_NAMES = ['a', 'ab', 'cap']


@st.composite
def case_rewrite(draw):
    steps = []
    few = draw(st.lists(st.integers(0, len(H_FILES) - 1), min_size=1,
                        max_size=3, unique=True))
    for _ in range(draw(st.integers(4, 12))):
        k = draw(st.integers(0, 9))
        f = draw(st.sampled_from(few))
        if k <= 3:
            steps.append(['write', f, [draw(st.integers(1000, 9999))
                                       for _ in H_NAMES],
                          draw(st.integers(0, 1))])
        elif k == 4:
            steps.append(['remove', f])
        elif k <= 6:
            steps.append(['group', f])
        else:
            steps.append(['dir', draw(st.sampled_from(['', 'sub',
                                                       'sub/deep']))])
        if k > 4 and draw(st.booleans()):
            steps[-1].append(draw(st.integers(1, 50)))
    return {'steps': steps, 'ext': [draw(st.sampled_from(libgen.EXTS))
                                    for _ in H_FILES],
            'mtime': draw(st.booleans()), 'x': draw(st.integers(1, 30))}


def pred_rewrite(case, ctx):
    root = os.path.join(scratch_dir(), 'lib')
    os.makedirs(os.path.join(root, 'sub', 'deep'))
    lib.dump({'a': '5000 * q'}, os.path.join(root, 'keep.yaml'))
    lib.dump({'a': '5000 * q'}, os.path.join(root, 'sub', 'keep.yaml'))
    lib.dump({'a': '5000 * q'}, os.path.join(root, 'sub', 'deep',
                                             'keep.yaml'))
    paths = [os.path.join(root, f + '.' + e)
             for f, e in zip(H_FILES, case['ext'])]
    disk = {}
    loads = {}
    stale = 0
    x = float(case['x'])

    def see(what, grp, i):
        coefs, nv = disk[i]
        # (one entry per coefficient, the variable name depends on nv)
        expect(sorted(grp.keys()) == sorted(H_NAMES), '{}: keys {}', what,
               sorted(grp.keys()))
        for n, c in zip(H_NAMES, coefs):
            v = 'q{}'.format(nv)
            e = grp[n]
            expect(list(e.variables) == [v], '{}: {} has variables {} '
                   'instead of {}', what, n, e.variables, [v])
            got = must(what, e.evaluate, **{v: x})
            expect(float(got) == c * x, '{}: {} is {} instead of {} * {} '
                   '(what the file says now)', what, n, got, c, x)
            expect(dict(e.default_variables) == {}, '{}: {} has default '
                   'variables {}', what, n, e.default_variables)

    for step in case['steps']:
        op = step[0]
        if op == 'write':
            i = step[1]
            lib.dump({n: '{} * q{}'.format(c, step[3])
                      for n, c in zip(H_NAMES, step[2])}, paths[i])
            disk[i] = (step[2], step[3])
            if case['mtime']:
                os.utime(paths[i], (1500000000, 1500000000))
            loads = {k: True for k in loads}
        elif op == 'remove':
            if step[1] in disk:
                os.remove(paths[step[1]])
                del disk[step[1]]
                loads = {k: True for k in loads}
        elif op == 'group':
            i = step[1]
            if i not in disk:
                continue
            stale += loads.get(i, False)
            loads[i] = False
            g = must('load', EquationGroup, paths[i])
            see('group {} after {}'.format(H_FILES[i], case['steps']), g, i)
            if len(step) > 2:
                must('defaults', g.set_default_variables,
                     {'q{}'.format(k): step[2] for k in range(4)})
        else:
            sub = step[1]
            stale += loads.get('d' + sub, False)
            loads['d' + sub] = False
            d = must('load', EquationDirectory, os.path.join(root, sub))
            pre = sub + '/' if sub else ''
            for i, f in enumerate(H_FILES):
                if not f.startswith(pre):
                    continue
                parts = f[len(pre):].split('/')
                o = d
                for k in parts[:-1]:
                    o = o[k]
                what = 'directory {!r}, file {} after {}'.format(
                    sub, f, case['steps'])
                expect((parts[-1] in o.keys()) == (i in disk),
                       '{}: {} although the file {}', what,
                       'listed' if parts[-1] in o.keys() else 'not listed',
                       'exists' if i in disk else 'is gone')
                if i in disk:
                    see(what, o[parts[-1]], i)
            if len(step) > 2:
                must('defaults', d.set_default_variables,
                     {'q{}'.format(k): step[2] for k in range(4)})
    ctx.label('reloaded after a change' if stale else 'no reload')
    ctx.nontriv(stale)


SUBS = [
    Sub('formats', case_formats(), pred_formats, 500, 8000),
    Sub('tree', case_tree(), pred_tree, 700, 12000),
    Sub('rewrite', case_rewrite(), pred_rewrite, 250, 5000, shards=2),
]
