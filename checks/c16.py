"""C16: config files, dictionaries and pointers are equivalent."""
import os

import numpy as np

from harness import cfg, gen, lib, ref
from harness.core import (Sub, st, attempt, expect, must, scratch_dir,
                          Violation)
from NRWAL import EquationDirectory, NrwalConfig

RULE = ('A case is a generated config written as dictionary, YAML and JSON, '
        'and spread over several files in several directories with chains of '
        'pointers, next to files of the same name with other contents, or a '
        'history of writing and loading config files; non-trivial: a compared entry that is read through a pointer (for '
        'the format check: a compared entry that refers to another entry or '
        'the library; for histories: a file is loaded again after a change).')
ASSUMPTIONS = ['a pointer stands for the text of the entry it points to, '
               'names in it are those of the main config']

EXTS = ['yaml', 'yml', 'json']
DIRS = ['', 'a', 'a/b', 'c', 'conf.d', 'a-b', 'with space']
FILES = ['main', 'other', 'base', 'x1', 'v2.1', 'more_costs', 'it.json.d']
FLAGS = ['interp_extrap_power', 'use_nearest_power', 'interp_extrap_year',
         'use_nearest_year']
OTHER_KEYS = ['zz_1', 'zz', 'value', 'turbine_cost', 'capex_2']


class Cwd:
    """Work in another directory for a while."""

    def __init__(self, path):
        self.path = path

    def __enter__(self):
        self.old = os.getcwd()
        os.makedirs(self.path, exist_ok=True)
        os.chdir(self.path)

    def __exit__(self, *exc):
        os.chdir(self.old)


def look(what, c, m, want, inputs, u):
    """Entries, required inputs and outputs of a config; number compared."""
    expect(sorted(c.keys()) == sorted(m.spec), '{}: entries {} instead of {}',
           what, sorted(c.keys()), sorted(m.spec))
    expect(list(c.required_inputs) == m.required(),
           '{}: required inputs {} instead of {}', what,
           list(c.required_inputs), m.required())
    out = must(what + ': evaluate', c.evaluate, cfg.real_inputs(inputs, np))
    done = set()
    for name in m.equations():
        expect(name in out, '{}: no output {}', what, name)
    for name in out:
        expect(name in m.spec, '{}: unexpected output {}', what, name)
        a, exp = want[name]
        if ref.check_value('{}: {}'.format(what, name), out[name], a, exp, u):
            done.add(name)
    got = dict(c.global_variables)
    for name in m.constants():
        expect(name in got, '{}: constant {} missing', what, name)
        if ref.check_value('{}: {}'.format(what, name), got[name], False,
                           want[name][1], u):
            done.add(name)
    return done


# ----------------------------------------------------------------------
@st.composite
def case_formats(draw):
    c = draw(cfg.config(hi=6, depth=2))
    c['where'] = draw(st.sampled_from(DIRS))
    c['name'] = draw(st.sampled_from(FILES))
    c['relative'] = draw(st.booleans())
    c['slash'] = draw(st.sampled_from(['', '/']))
    return c


def pred_formats(case, ctx):
    inputs = cfg.given_inputs(case)
    u = cfg.unit(inputs)
    m, want = cfg.pruned(case, inputs, u)
    if not want:
        return
    s = scratch_dir()
    data = m.plain(cfg.write_library(case, s))
    n = look('dictionary {}'.format(data), must('dictionary', NrwalConfig,
                                                dict(data)), m, want, inputs,
             u)
    where = os.path.join(s, 'cfg', case['where'])
    os.makedirs(where, exist_ok=True)
    for ext in EXTS:
        fp = os.path.join(where, case['name'] + '.' + ext)
        lib.dump(data, fp)
        before = open(fp).read()
        if case['relative']:
            with Cwd(os.path.dirname(where)):
                # both paths from where the program runs
                rel = os.path.relpath(data['equation_directory'])
                lib.dump(dict(data, equation_directory=rel + case['slash']),
                         fp)
                near = os.path.normpath(os.path.join(where, rel))
                if near.startswith(s + os.sep) and not os.path.exists(near):
                    # not this one
                    os.makedirs(near)
                    lib.dump({'nothing': 1}, os.path.join(near, 'eqns.yaml'))
                before = open(fp).read()
                c = must('{} file of {}'.format(ext, data), NrwalConfig,
                         os.path.relpath(fp))
        else:
            c = must('{} file of {}'.format(ext, data), NrwalConfig, fp)
        look('{} file of {}'.format(ext, data), c, m, want, inputs, u)
        expect(open(fp).read() == before, 'the config file was changed')
    ctx.label('relative path' if case['relative'] else 'absolute path')
    ctx.nontriv(any(m.reads(x) & m.entries or ref.refs(m.node(x))
                    for x in n if m.is_eqn(x)))


# ----------------------------------------------------------------------
@st.composite
def case_pointers(draw):
    c = draw(cfg.config(hi=6, depth=2))
    n = draw(st.integers(2, 5) if draw(st.integers(0, 5))
             else st.integers(6, 10))
    files = []
    for _ in range(n):
        files.append([draw(st.sampled_from(DIRS)), draw(st.sampled_from(
            FILES)), draw(st.sampled_from(EXTS))])
    c['files'] = files
    # an entry is in the main file or at the end of a chain of pointers
    # through files of increasing number
    c['chain'] = []
    for _ in c['entries']:
        k = draw(st.integers(0, 3) if n <= 5 else st.integers(0, n - 1))
        hops = []
        if k:
            hops = sorted(draw(st.lists(st.integers(1, n - 1), min_size=1,
                                        max_size=k, unique=True)))
        keys = []
        for h in hops:
            keys.append(draw(st.sampled_from(['same', 'same'] + OTHER_KEYS)))
        c['chain'].append([hops, keys])
    c['decoys'] = [draw(st.booleans()) for _ in range(4)]
    c['dot'] = draw(st.booleans())
    c['flags'] = [draw(st.sampled_from([None, True, False]))
                  for _ in range(n)]
    c['power'] = draw(st.sampled_from([3, 5, 8, 11]))
    return c


def pred_pointers(case, ctx):
    inputs = cfg.given_inputs(case)
    u = cfg.unit(inputs)
    tree = case['tree']
    tree['pw'] = {'file': {'cost_4MW': {'num': 10.0},
                           'cost_8MW': {'num': 18.0}}, 'ext': 'yaml'}
    m, want = cfg.pruned(case, inputs, u)
    if not want:
        return
    s = scratch_dir()
    d = cfg.write_library(case, s)
    plain = m.plain(d)
    root = os.path.join(s, 'cfg')
    paths = []
    for dd, name, ext in case['files']:
        fp = os.path.join(root, dd, name + '.' + ext)
        while fp in paths:
            fp = fp[:-1 - len(ext)] + '_.' + ext
        paths.append(fp)

    def rel(frm, to):
        p = os.path.relpath(to, os.path.dirname(frm))
        if case['dot'] and not p.startswith('.'):
            p = './' + p
        return p

    contents = [{} for _ in paths]
    contents[0]['equation_directory'] = d
    far = set()
    slot = {case['entries'][i][0]: case['chain'][i]
            for i in range(len(case['entries']))}
    for name in m.order:
        hops, keys = slot[name]
        at = 0
        key = name
        for h, k in zip(hops, keys):
            k = name if k == 'same' else k
            while k in contents[h] or (k in m.spec and k != name):
                k += '_q'
            contents[at][key] = rel(paths[at], paths[h]) + '::' + k
            at, key = h, k
            # a decoy of the right name until the real one is known
            contents[h][k] = None
        contents[at][key] = plain[name]
        if hops:
            far.add(name)
            ctx.label('{} hops'.format(len(hops)))
    # only the main config gives the flags and the equation directory
    flag = case['flags'][0]
    if flag is not None:
        contents[0]['interp_extrap_power'] = flag
    for i in range(1, len(paths)):
        if case['flags'][i] is not None:
            for f in FLAGS:
                contents[i][f] = case['flags'][i]
        if case['decoys'][0]:
            contents[i]['equation_directory'] = os.path.join(s, 'no_such')
        if case['decoys'][1]:
            # entries of the other files that nothing points to
            for name in m.names:
                contents[i].setdefault(name, 987654)
            contents[i]['unused_1'] = '1 + no_such_file_entry'
    pw = 'pw::cost_{}MW'.format(case['power'])
    use_pw = flag or case['power'] in (8,)
    if use_pw:
        contents[0]['pw_x'] = pw + ' * pw_in'
    for fp, data in zip(paths, contents):
        os.makedirs(os.path.dirname(fp), exist_ok=True)
        lib.dump(data, fp)
    if case['decoys'][2]:
        # same relative paths below another place give other values
        for base in (os.path.join(s, 'cwd'), root):
            for a in range(len(paths)):
                for b in range(len(paths)):
                    fp = os.path.normpath(os.path.join(
                        base, rel(paths[a], paths[b])))
                    if not os.path.exists(fp) and fp.startswith(s + os.sep):
                        os.makedirs(os.path.dirname(fp), exist_ok=True)
                        if os.path.isdir(fp):
                            continue
                        lib.dump({k: 1234567 for k in contents[b]}, fp)
    what = 'files {}'.format(dict(zip([os.path.relpath(p, root)
                                       for p in paths], contents)))
    with Cwd(os.path.join(s, 'cwd')):
        c = must(what, NrwalConfig, paths[0])
    if use_pw:
        got = must(what + ': pw_x', lambda: c['pw_x'].evaluate(pw_in=1.0))
        ref.check_value(what + ': pw_x', got, False,
                        [ref.Num(10.0 + 2.0 * (case['power'] - 4))], u)
        # the rest is compared without the extra entry
        with open(paths[0]):
            contents[0].pop('pw_x')
        lib.dump(contents[0], paths[0])
        c = must(what, NrwalConfig, paths[0])
    n = look(what, c, m, want, inputs, u)
    ctx.nontriv(bool(n & far))


# ----------------------------------------------------------------------
BAD = ['missing', 'nokey', 'nosep', 'twosep', 'times', 'plus', 'parens',
       'minus', 'divide', 'before', 'dict', 'chain', 'product', 'badfile']


@st.composite
def case_bad(draw):
    return {'bad': draw(st.sampled_from(BAD)),
            'ext': draw(st.sampled_from(EXTS)),
            'ext2': draw(st.sampled_from(EXTS)),
            'dir': draw(st.sampled_from(DIRS)),
            'name': draw(st.sampled_from(cfg.POOL)),
            'key': draw(st.sampled_from(OTHER_KEYS)),
            'num': draw(st.sampled_from(['2', '2.5', 'inp', 'k', '1e3'])),
            'value': draw(st.sampled_from([3.5, '2 * inp', 'inp ** 2'])),
            'first': draw(st.booleans())}


def pred_bad(case, ctx):
    s = scratch_dir()
    os.makedirs(os.path.join(s, 'lib'))
    main = os.path.join(s, 'main.' + case['ext'])
    other = os.path.join(s, case['dir'], 'other.' + case['ext2'])
    os.makedirs(os.path.dirname(other), exist_ok=True)
    ptr = os.path.relpath(other, s) + '::' + case['key']
    name = case['name']
    lib.dump({name: 98765, case['key']: case['value'], 'k': 5, 'x': 1},
             other)
    num = case['num']

    def data(text):
        rest = {'k': 4, 'other_x': 'inp + k'}
        one = {name: text}
        one = dict(one, **rest) if case['first'] else dict(rest, **one)
        one['equation_directory'] = os.path.join(s, 'lib')
        return one

    def build(text, as_dict=False):
        if as_dict:
            with Cwd(s):
                return NrwalConfig(data(text))
        lib.dump(data(text), main)
        c = NrwalConfig(main)
        return c

    # the pointer itself is good
    c = must('pointer {}'.format(ptr), build, ptr)
    out = must('evaluate', c.evaluate, {'inp': 3.0})
    val = {3.5: 3.5, '2 * inp': 6.0, 'inp ** 2': 9.0}[case['value']]
    got = out[name] if name in out else c.global_variables[name]
    ref.check_value('pointer {}'.format(ptr), got, False, [ref.Num(val)],
                    ref.U64)
    bad = case['bad']
    text = {'missing': ptr.replace('other.', 'others.'),
            'nokey': ptr + '_zz', 'nosep': ptr.partition('::')[0],
            'twosep': ptr + '::' + case['key'],
            'times': ptr + ' * ' + num, 'plus': ptr + ' + ' + num,
            'parens': '(' + ptr + ')', 'minus': ptr + ' - ' + num,
            'divide': ptr + ' / ' + num, 'before': num + ' * ' + ptr,
            'dict': ptr, 'chain': ptr, 'product': ptr + ' * ' + ptr,
            'badfile': ptr}[bad]
    if bad == 'missing':
        # files of that name elsewhere are not meant
        miss = text.partition('::')[0]
        for d in DIRS + ['lib', 'x']:
            fp = os.path.join(s, d, os.path.basename(miss))
            if os.path.abspath(fp) != os.path.abspath(
                    os.path.join(s, miss)):
                os.makedirs(os.path.dirname(fp), exist_ok=True)
                lib.dump({case['key']: case['value']}, fp)
    if bad == 'chain':
        lib.dump({case['key']: './none.yaml::' + case['key']}, other)
    if bad == 'badfile':
        with open(other, 'w') as f:
            f.write('[1, 2]\n')
    ok, res = attempt(build, text, bad == 'dict')
    if ok:
        raise Violation('{} pointer {!r} was accepted: {}'.format(
            bad, text, dict(res.items())))
    expect(isinstance(res, Exception), '{} pointer: {!r}', bad, res)
    ctx.label(bad)
    ctx.nontriv()


# ----------------------------------------------------------------------
_PACKAGED = []


def packaged():
    if not _PACKAGED:
        d = EquationDirectory(NrwalConfig.DEFAULT_DIR)
        paths = []

        def walk(obj, pre):
            for k, v in obj.items():
                if hasattr(v, 'evaluate'):
                    paths.append('::'.join(pre + (k,)))
                elif hasattr(v, 'items'):
                    walk(v, pre + (k,))
        walk(d, ())
        _PACKAGED.append((d, sorted(p for p in paths if not any(
            x in p for x in '+-*/^() '))))
    return _PACKAGED[0]


case_default = st.fixed_dictionaries({
    'i': st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=4),
    'route': st.sampled_from(['dict', 'yaml', 'json', 'pointer']),
    'seed': st.integers(1, 10 ** 6)})


def pred_default(case, ctx):
    d, paths = packaged()
    s = scratch_dir()
    chosen = [paths[i % len(paths)] for i in case['i']]
    data = {'entry_{}'.format(j): p + ' * two_x'
            for j, p in enumerate(chosen)}
    data['two_x'] = 2
    src = data
    if case['route'] == 'pointer':
        other = dict(data, equation_directory=os.path.join(s, 'nothing'))
        lib.dump(other, os.path.join(s, 'o.yaml'))
        src = os.path.join(s, 'm.yaml')
        lib.dump({k: 'o.yaml::' + k for k in data}, src)
    elif case['route'] != 'dict':
        src = os.path.join(s, 'm.' + case['route'])
        lib.dump(data, src)
    c = must('config without equation_directory {}'.format(data), NrwalConfig,
             src)
    eqs = [d[p] for p in chosen]
    rnd = np.random.RandomState(case['seed'])
    inputs = {k: float(np.round(rnd.uniform(0.5, 9), 2))
              for k in sorted({v for e in eqs for v in e.variables})}
    out = must('evaluate {}'.format(data), c.evaluate, dict(inputs))
    n = 0
    for j, (p, e) in enumerate(zip(chosen, eqs)):
        exp = e.evaluate(**{v: inputs[v] for v in e.variables})
        name = 'entry_{}'.format(j)
        got = out[name] if name in out else c.global_variables[name]
        if np.all(np.isfinite(exp)):
            n += 1
            expect(np.allclose(got, 2 * np.asarray(exp), rtol=1e-6, atol=0),
                   '{} with {}: {} instead of {}', p, inputs, got,
                   2 * np.asarray(exp))
    ctx.label(case['route'])
    ctx.nontriv(n)


# ----------------------------------------------------------------------
# histories: config files change between loads
R_FILES = ['main', 'a/main', 'a/other', 'other', 'b/main', 'b/other']


@st.composite
def case_rewrite(draw):
    steps = []
    few = draw(st.lists(st.integers(0, len(R_FILES) - 1), min_size=1,
                        max_size=3, unique=True))
    for _ in range(draw(st.integers(4, 10))):
        f = draw(st.sampled_from(few))
        if draw(st.booleans()):
            to = draw(st.one_of(st.none(), st.sampled_from(few)))
            steps.append(['write', f, draw(st.integers(1000, 9999)), to,
                          draw(st.integers(0, 3))])
        else:
            steps.append(['load', f, draw(st.integers(1, 9)),
                          draw(st.booleans())])
    return {'steps': steps, 'ext': draw(st.sampled_from(EXTS)),
            'mtime': draw(st.booleans()), 'cwd': draw(st.booleans()),
            'coef': draw(st.integers(1000, 9999))}


def pred_rewrite(case, ctx):
    s = scratch_dir()
    libdir = os.path.join(s, 'lib')
    os.makedirs(libdir)
    ext = case['ext']
    paths = [os.path.join(s, 'cfg', f + '.' + ext) for f in R_FILES]
    for p in paths:
        os.makedirs(os.path.dirname(p), exist_ok=True)
    lib.dump({'e': '1111 * q'}, os.path.join(libdir, 'lib.yaml'))
    disk = {}
    coef = 1111
    changed = {}
    stale = 0

    def value(i, entry):
        """Value of an entry (x: number, y: pointer or number) at q = 1."""
        num, to, _ = disk[i]
        if entry == 'x' or to is None:
            return num
        return disk[to][0]

    for step in case['steps']:
        if step[0] == 'write':
            _, i, num, to, how = step
            if to is not None and (to == i or to not in disk):
                to = None
            nxt = to
            while nxt is not None:
                # files that load each other are no part of the property
                nxt = disk[nxt][1]
                if nxt == i:
                    to = nxt = None
            if how == 0:
                # the library changes as well
                coef = num
                lib.dump({'e': '{} * q'.format(coef)},
                         os.path.join(libdir, 'lib.yaml'))
                if case['mtime']:
                    os.utime(os.path.join(libdir, 'lib.yaml'),
                             (1500000000, 1500000000))
            disk[i] = (num, to, how)
            data = {'equation_directory': libdir, 'x': num}
            if to is None:
                data['y'] = num
            else:
                rel = os.path.relpath(paths[to], os.path.dirname(paths[i]))
                data['y'] = rel + '::x'
            data['z'] = 'lib::e + x - y'
            lib.dump(data, paths[i])
            if case['mtime']:
                os.utime(paths[i], (1500000000, 1500000000))
            changed = {k: True for k in changed}
        else:
            _, i, q, use = step
            if i not in disk:
                continue
            what = '{} after {}'.format(R_FILES[i], case['steps'])
            stale += changed.get(i, False)
            changed[i] = False
            if case['cwd']:
                with Cwd(os.path.dirname(paths[i])):
                    c = must(what, NrwalConfig, os.path.basename(paths[i]))
            else:
                c = must(what, NrwalConfig, paths[i])
            gv = c.global_variables
            for k in 'xy':
                expect(float(gv[k]) == value(i, k), '{}: {} is {} instead of '
                       '{}', what, k, gv[k], value(i, k))
            out = must(what, c.evaluate, {'q': float(q)})
            want = coef * q + value(i, 'x') - value(i, 'y')
            expect(float(out['z']) == want, '{}: z is {} instead of {}',
                   what, out['z'], want)
            if use:
                # what is done with one config does not matter for the next
                c.inputs = {'q': 77.0}
                attempt(c.evaluate)
    ctx.label('reloaded after a change' if stale else 'no reload')
    ctx.nontriv(stale)


SUBS = [
    Sub('formats', case_formats(), pred_formats, 300, 5000),
    Sub('pointers', case_pointers(), pred_pointers, 500, 8000, shards=4),
    Sub('malformed', case_bad(), pred_bad, 400, 3000, shards=1),
    Sub('rewrite', case_rewrite(), pred_rewrite, 250, 4000, shards=2),
    Sub('packaged', case_default, pred_default, 30, 400, shards=1),
]
