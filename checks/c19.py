"""C19: malformed definitions and inputs are rejected, never evaluated."""
import datetime
import decimal
import os

import numpy as np
import pandas as pd

from harness import cfg, gen, lib, ref
from harness.core import (Sub, st, attempt, expect, must, scratch_dir,
                          Violation)
from NRWAL import (Equation, EquationDirectory, EquationGroup, NrwalConfig,
                   VariableGroup)

RULE = ('A case puts one malformed part (formula, name, value, file, key, '
        'reference or input) in an otherwise valid generated definition, by '
        'every route it can enter; every case is non-trivial, since each is '
        'refused and the same case without the malformed part is accepted.')
ASSUMPTIONS = ['text that python reads as a valid formula (such as a tuple) '
               'is not malformed']

NAMES = ['depth', 'cap_mw', 'x1', 'cost_a', 'e5', 'a_b', 'rate', 'zeta']

# A and B stand for valid expressions, V for a name
BAD = ['A +', '* A', 'A * / B', 'V B', 'A V', 'V (B)', '(A', 'A)', '((A) + B',
       'A + B)', 'A ! B', 'A $ B', 'A ? B', 'A @@ B', 'A + 2x', '3 V',
       'A + 1.2.3', 'A ** * B', 'A .. V', 'np.nosuch(A)', 'np.log(A',
       'np.log V)', 'A + "x"', "A + 'x'", 'A - no::such', 'no::such',
       'V = B', 'A == == B', '', '  ', 'V;B', 'A + ()', 'A * [B]',
       'A + np.nosuch(B)', 'V )( B', '(A + B))', '((A)', 'A + * B',
       'A / / B', 'A + 1e', 'A + e5 5', 'if V', 'A and', 'A is', '1.5.2',
       'A + B]', '+', '-', '*', '/', 'A -', 'A /', 'A **', 'A ~ B',
       'A :: B', '::V', 'V::', 'A + :: + B', 'A &', 'np.',
       'A + np.pi(B)', 'A - (B', 'A * ((B) - V', 'np.maximum(A, B',
       'A * {B}', 'A + B[', 'V.x * A', 'A + B C_', 'np.exp(A))',
       'sub::no_such * A', 'A / sub::eqns', 'sub + A', 'A + sub::eqns::zz']
# only refused where an expression is split (configs and keys)
SPLIT = ['np.array([A, B]) * V', 'A * np.sum([B])', '(A) * {B}']
AROUND = ['{}', '{}', 'A + {}', '{} * A', 'A * ({})', '({}) - B',
          'A - ({}) / (B)', 'np.maximum({}, A)', 'np.exp(A + {})',
          'A + B * ({})']
NO_CALL = ['* A', '*', 'V = B', '**', 'A ** * B', '', '  ']
ROUTES = ['equation', 'sum', 'replace', 'group', 'yaml', 'json', 'dir',
          'config', 'cfgfile', 'pointer']


@st.composite
def case_formula(draw):
    route = draw(st.sampled_from(ROUTES))
    split = route in ('config', 'cfgfile', 'pointer')
    bad = draw(st.sampled_from(BAD + (SPLIT if split else [])))
    around = draw(st.sampled_from(AROUND))
    if 'np.' in around and (bad in NO_CALL or '[' in bad):
        around = '{}'
    if around in ('A + {}', 'A - {}', '{} * A') and bad in (
            '+', '-', '', '  ', '* A', '*', 'A +', 'A -', 'A *', 'A **',
            '/', 'A /', 'np.', '+ A') or bad == 'A +' and '{} ' in around:
        around = 'A * ({})'
    vs = draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=4,
                       unique=True))
    lv = gen.vleaves(vs)
    a, b = [draw(gen.expr(lv, depth=draw(st.integers(0, 2)), cmps=False,
                          funcs=False)) for _ in range(2)]
    if not ref.variables(a):
        a = ['b', '+', a, lv[0], 0]
    if not ref.variables(b):
        b = ['b', '*', b, lv[-1], 1]
    return {'bad': bad, 'around': around, 'a': a, 'b': b, 'vars': vs,
            'route': route}


def fill(case, text):
    """Insert the expressions (each in parentheses unless a plain name)."""
    def part(node):
        t = ref.render(node)
        return t if node[0] in ('v', 'n') else '(' + t + ')'
    out = ''
    full = case['around'].replace('{}', text)
    i = 0
    while i < len(full):
        w = full[i]
        alone = (i == 0 or not (full[i - 1].isalnum() or full[i - 1] == '_')) \
            and (i + 1 == len(full) or not (full[i + 1].isalnum()
                                            or full[i + 1] == '_'))
        if alone and w == 'A':
            out += part(case['a'])
        elif alone and w == 'B':
            out += part(case['b'])
        elif alone and w == 'V':
            out += case['vars'][0]
        else:
            out += w
        i += 1
    return out


def use(route, text, vals, s):
    """Bring a formula in by a route and evaluate it."""
    if route in ('equation', 'sum', 'replace'):
        if route == 'equation':
            e = Equation(text)
        elif route == 'sum':
            e = Equation('depth * 2') + text
        else:
            e = Equation('depth * 2').replace_equation(text)
        return e.evaluate(**dict(vals, depth=2.0))
    if route in ('group', 'yaml', 'json', 'dir'):
        data = {'good': 'zz_1 * 2', 'n': {'entry': text, 'more': 3}}
        src = data
        if route != 'group':
            ext = 'yaml' if route == 'dir' else route
            os.makedirs(os.path.join(s, route), exist_ok=True)
            src = os.path.join(s, route, 'f.' + ext)
            lib.dump(data, src)
        if route == 'dir':
            e = EquationDirectory(os.path.join(s, route))['f::n::entry']
        else:
            e = EquationGroup(src)['n::entry']
        return e.evaluate(**dict(vals))
    os.makedirs(os.path.join(s, 'lib', 'sub'), exist_ok=True)
    lib.dump({'one': 'depth * 2'}, os.path.join(s, 'lib', 'sub',
                                                'eqns.yaml'))
    data = {'k_1': 4, 'entry_x': text, 'other_x': 'depth + k_1',
            'equation_directory': os.path.join(s, 'lib')}
    src = data
    if route in ('cfgfile', 'pointer'):
        if route == 'pointer':
            lib.dump({'entry_x': text}, os.path.join(s, 'p.yaml'))
            data = dict(data, entry_x='p.yaml::entry_x')
        src = os.path.join(s, 'main.yaml')
        lib.dump(data, src)
    c = NrwalConfig(src)
    inputs = dict(vals, depth=2.0)
    # an unresolved reference cannot be supplied, either
    inputs.update({k: 2.0 for k in c.required_inputs
                   if ':' in k or '"' in k or "'" in k or '.' in k})
    out = c.evaluate(inputs)
    return out['entry_x'] if 'entry_x' in out \
        else c.global_variables['entry_x']


def pred_formula(case, ctx):
    s = scratch_dir()
    vals = {v: 1.5 + i for i, v in enumerate(case['vars'])}
    text = fill(case, case['bad'])
    ok, got = attempt(use, case['route'], text, vals, s)
    if ok:
        raise Violation('malformed formula {!r} ({}) gave {!r}'.format(
            text, case['route'], got))
    expect(isinstance(got, Exception), '{!r}: {!r}', text, got)
    # without the malformed part it is fine
    names = [['v', v] for v in case['vars'][:2]]
    good = fill(dict(case, a=names[0], b=names[1]), 'V')
    got = must('formula {!r} ({})'.format(good, case['route']), use,
               case['route'], good, vals, scratch_dir())
    expect(np.isfinite(got), 'formula {!r} ({}) gave {!r}', good,
           case['route'], got)
    ctx.label(case['route'])
    ctx.nontriv()


# ----------------------------------------------------------------------
KEYS = ['a +', '* a', 'a * / b', 'a b', '(a', 'a)', 'a + b)', 'a + (b',
        'a ! b', 'a $ b', 'a + 2x', '3 a', 'a + no', 'no', 'no * 2', 'a::b',
        'n::no', 'n::x::y', 'n + a', 'n * 2', '', ' ', 'a[0]', 'a * [b]',
        '{a}', 'a + {b}', '[a]', 'a ** * b', 'a / / b', 'a, b', '::a', 'a::',
        'n::', 'a + n::no', '(n::x', 'n::x)', 'a + 1.2.3', 'a = b',
        '((a) + b', 'a + ()', '()', 'a + no::x', 'n::no - a', 'np.log(a)',
        'a.b', 'a == b', 'a_3MW', 'a_2020', 'n::x_4MW']

case_key = st.fixed_dictionaries({
    'key': st.sampled_from(KEYS),
    'around': st.sampled_from(['{}', '{}', 'a + ({})', '({}) * b',
                               '2 * ({}) - n::x', 'b / ({}) + 1']),
    'route': st.sampled_from(['group', 'dir', 'nested', 'config']),
    'deep': st.booleans(),
    'nums': st.lists(gen.dec_val2, min_size=3, max_size=3)})


def pred_key(case, ctx):
    a, b, x = case['nums']
    data = {'a': a, 'b': 'q * {}'.format(b), 'n': {'x': x, 'y': 'q + 1'}}
    s = scratch_dir()
    os.makedirs(os.path.join(s, 'd'))
    if case['route'] == 'dir':
        # the same names as files and directories
        lib.dump({k: data[k] for k in 'ab'}, os.path.join(s, 'd', 'f.yaml'))
        lib.dump(data['n'], os.path.join(s, 'd', 'n.yaml'))
        obj = EquationDirectory(os.path.join(s, 'd'))
        names = {'a': 'f::a', 'b': 'f::b'}
    elif case['route'] == 'config':
        lib.dump(data, os.path.join(s, 'd', 'f.yaml'))
        obj = NrwalConfig({'grp': 'f', 'equation_directory':
                           os.path.join(s, 'd')})['grp']
        names = {}
    elif case['route'] == 'nested':
        obj = EquationGroup({'m': data})['m']
        names = {}
    else:
        obj = EquationGroup(data)
        names = {}
    key = case['around'].replace('{}', case['key'])
    if names:
        out = ''
        for i, w in enumerate(key):
            alone = (i == 0 or key[i - 1] not in '_:.' and not key[
                i - 1].isalnum()) and (i + 1 == len(key) or key[
                    i + 1] not in '_' and not key[i + 1].isalnum())
            out += names[w] if alone and w in names else w
        key = out
    before = {k: lookup(obj, k, names) for k in ('a', 'b', 'n::x', 'n::y')}
    if case['key'] in ('', ' ') and '{}' == case['around']:
        pass
    ok, got = attempt(lambda: obj[key])
    if ok:
        ok, got = attempt(lambda: got.evaluate(q=3.0))
        if ok:
            raise Violation('malformed key {!r} gave {!r}'.format(key, got))
    expect(isinstance(got, Exception), '{!r}: {!r}', key, got)
    after = {k: lookup(obj, k, names) for k in ('a', 'b', 'n::x', 'n::y')}
    expect(before == after, 'the refused key {!r} changed {} to {}', key,
           before, after)
    ctx.label(case['route'])
    ctx.nontriv()


def lookup(obj, key, names):
    e = must('key {}'.format(key), lambda: obj[names.get(key, key)])
    return float(must('value', lambda: e.evaluate(q=3.0)))


# ----------------------------------------------------------------------
VALUES = {
    'none': None, 'list': [1, 2], 'empty list': [], 'tuple': (1, 2),
    'set': {1}, 'bytes': b'a * 2', 'date': datetime.date(2020, 1, 1),
    'object': object(), 'nested list': {'x': [1]}, 'none below': {'x': None},
    'list of text': ['a', 'b'], 'array': np.array([1.0, 2.0]),
    'complex': 2j, 'decimal': decimal.Decimal(2), 'function': len}
BAD_NAMES = [1, 2.5, '3', '1e5', -2, '4.5', '-1', 2020, '0']


@st.composite
def case_define(draw):
    return {'what': draw(st.sampled_from(
        ['value', 'name', 'varvalue', 'varname', 'type', 'file', 'ext',
         'content', 'dirfile', 'vartext'])),
        'value': draw(st.sampled_from(sorted(VALUES))),
        'name': draw(st.sampled_from(BAD_NAMES)),
        'key': draw(st.sampled_from(NAMES)),
        'depth': draw(st.integers(0, 2)),
        'route': draw(st.sampled_from(['group', 'yaml', 'json', 'dir',
                                       'config', 'cfgfile'])),
        'ext': draw(st.sampled_from(['txt', 'csv', '', 'py', 'yam', 'jso',
                                     'yaml.bak', 'json5'])),
        'text': draw(st.sampled_from(
            ['[1, 2]', '3', '"text"', '', 'null', '{"a": ', 'a: b: c',
             '- a\n- b', 'a: [1', '{a: 1, b'])),
        'pos': draw(st.booleans())}


def nest(d, depth):
    for i in range(depth):
        d = {'n{}'.format(i): d, 'also': 'a * 2'}
    return d


def pred_define(case, ctx):
    s = scratch_dir()
    what = case['what']
    route = case['route']
    d = os.path.join(s, 'd')
    os.makedirs(os.path.join(d, 'below'))
    good = {'a': 2.0, 'b_1': 'a_x * 3'}
    lib.dump(good, os.path.join(d, 'good.yaml'))

    def merged(key, val):
        one = {key: val}
        return {**one, **good} if case['pos'] else {**good, **one}

    def put(data, fp):
        ok, e = attempt(lib.dump, data, fp)
        return ok

    def load(data):
        """Bring in a definition by the route of the case."""
        if route == 'group':
            return EquationGroup(nest(data, case['depth']))
        if route in ('yaml', 'json', 'dir'):
            ext = 'yaml' if route == 'dir' else route
            fp = os.path.join(d, 'below', 'f.' + ext)
            if not put(nest(data, case['depth']), fp):
                return None
            if route == 'dir':
                return EquationDirectory(d)
            return EquationGroup(fp)
        data = dict(data, equation_directory=d)
        if route == 'config':
            return NrwalConfig(data)
        fp = os.path.join(s, 'c.yaml')
        if not put(data, fp):
            return None
        return NrwalConfig(fp)

    def refused(text, fun, *args):
        ok, got = attempt(fun, *args)
        if ok:
            if got is None:
                return False
            raise Violation('{} ({}) was accepted: {}'.format(
                text, route, attempt(str, got)[1]))
        expect(isinstance(got, Exception), '{}: {!r}', text, got)
        return True

    if what in ('value', 'name'):
        val = VALUES[case['value']] if what == 'value' else 'a_x * 2'
        key = case['key'] if what == 'value' else case['name']
        if route == 'json' and not isinstance(val, (type(None), list, dict,
                                                    str)):
            return
        if route in ('yaml', 'dir', 'cfgfile') and isinstance(
                val, (tuple, set, bytes)) and not isinstance(val, set):
            return             # yaml has no such values
        if isinstance(val, np.ndarray) and route == 'group':
            pass
        got = refused('{!r}: {!r}'.format(key, val), load, merged(key, val))
        if not got:
            return
        must('the rest of the definition', load, good)
    elif what in ('varvalue', 'varname', 'vartext'):
        val = VALUES[case['value']]
        key = case['key']
        if what == 'varname':
            val, key = 2.0, case['name']
        if what == 'vartext':
            val = ['2 * a', 'text', 'a', ''][case['depth'] + case['pos']]
        data = {'zz': 1.5}
        data = {key: val, **data} if case['pos'] else {**data, key: val}
        if route in ('group', 'config'):
            refused('variables {!r}: {!r}'.format(key, val), VariableGroup,
                    data)
        else:
            ext = 'json' if route == 'json' else 'yaml'
            if isinstance(val, (tuple, bytes)):
                return
            fp = os.path.join(d, 'below', 'variables.' + ext)
            lib.dump(good, os.path.join(d, 'below', 'eq.yaml'))
            if not put(data, fp):
                return
            refused('variables file {!r}: {!r}'.format(key, val),
                    EquationDirectory, d)
            refused('variables file {!r}: {!r} of a config'.format(key, val),
                    NrwalConfig, {'equation_directory': d, 'o': 'a_x * 2'})
    elif what == 'type':
        for x in (VALUES['list'], None, 3, 2.5, VALUES['set'], (1,), b'a'):
            refused('group {!r}'.format(x), EquationGroup, x)
            refused('variables {!r}'.format(x), VariableGroup, x)
            refused('config {!r}'.format(x), NrwalConfig, x)
    elif what == 'file':
        for f in (EquationGroup, VariableGroup, NrwalConfig):
            for ext in ('yaml', 'yml', 'json'):
                refused('missing file', f, os.path.join(d, 'none.' + ext))
        refused('missing directory', EquationDirectory,
                os.path.join(s, 'none'))
        refused('missing equation_directory', NrwalConfig,
                {'equation_directory': os.path.join(s, 'none'), 'o': 'a * 2'})
    elif what == 'ext':
        fp = os.path.join(s, 'f.' + case['ext'] if case['ext'] else 'f')
        with open(fp, 'w') as f:
            f.write('a_b: 2\nb_c: "zz * 3"\n')
        for f in (EquationGroup, VariableGroup, NrwalConfig):
            refused('file type {!r}'.format(case['ext']), f, fp)
    else:
        text = case['text']
        for ext in ('yaml', 'yml', 'json'):
            fp = os.path.join(d, 'below', 'f.' + ext)
            with open(fp, 'w') as f:
                f.write(text)
            refused('{} file {!r}'.format(ext, text), EquationGroup, fp)
            refused('{} file {!r}'.format(ext, text), VariableGroup, fp)
            refused('{} config {!r}'.format(ext, text), NrwalConfig, fp)
            refused('directory with {} file {!r}'.format(ext, text),
                    EquationDirectory, d)
            os.remove(fp)
        must('the directory without the file', EquationDirectory, d)
    ctx.label(what)
    ctx.nontriv()


# ----------------------------------------------------------------------
INPUTS = {
    'none': None, 'text': 'text', 'number text': '2', 'dict': {'a': 1},
    'set': {1.0}, 'bytes': b'2', 'series': pd.Series([1.0, 2.0]),
    'frame': pd.DataFrame({'a': [1.0]}), 'object': object(),
    'function': len, 'date': datetime.date(2020, 1, 1),
    'equation': Equation('2'), 'generator': (x for x in (1, 2)),
    'range': range(3), 'decimal': decimal.Decimal(2), 'type': float}
CONTAINERS = {
    'list': [1.0], 'tuple': (1.0,), 'text': 'depth', 'number': 3.0,
    'array': np.ones(3), 'series': pd.Series({'depth': 1.0}),
    'object': object(), 'set': {'depth'}, 'pairs': [('depth', 1.0)],
    'bool': True, 'bytes': b'depth'}


@st.composite
def case_inputs(draw):
    c = draw(cfg.config(hi=5, depth=2, arrays=draw(st.booleans())))
    n = draw(st.integers(1, 5))
    c['steps'] = []
    for _ in range(n):
        c['steps'].append([
            draw(st.sampled_from(['value', 'container', 'key', 'lengths',
                                  'evalue', 'text', 'good'])),
            draw(st.sampled_from(sorted(INPUTS))),
            draw(st.sampled_from(sorted(CONTAINERS))),
            draw(st.sampled_from([1, 2.5, None, 'tuple'])),
            draw(st.integers(0, 20)),
            draw(st.sampled_from(['set', 'eval', 'ctor']))])
    return c


def same(x, y):
    return set(x) == set(y) and all(
        np.array_equal(np.asarray(x[k]), np.asarray(y[k])) for k in x)


def pred_inputs(case, ctx):
    inputs = cfg.given_inputs(case)
    u = cfg.unit(inputs)
    m, want = cfg.pruned(case, inputs, u)
    if not want:
        return
    d = cfg.write_library(case, scratch_dir())
    data = m.plain(d)
    c = must('config {}'.format(data), NrwalConfig, data,
             inputs=cfg.real_inputs(inputs, np))
    names = sorted(inputs)
    n = 0

    def check(when):
        out = must(when + ': evaluate', c.evaluate)
        for name in m.equations():
            expect(name in out, '{}: no output {}', when, name)
            ref.check_value('{}: {}'.format(when, name), out[name],
                            want[name][0], want[name][1], u)

    for kind, val, cont, key, i, how in case['steps']:
        before = dict(c.inputs)
        name = names[i % len(names)]
        if kind == 'good':
            check('in between')
            continue
        if kind == 'evalue':
            # on one equation
            e = Equation('{} * 2 + other_v'.format(name),
                         default_variables={'other_v': 1.0})
            ok, got = attempt(e.evaluate, **{name: INPUTS[val]})
            expect(not ok, 'input {!r} gave {!r}', val, got)
            got = must('equation after a refused input', e.evaluate,
                       **{name: 2.0})
            expect(got == 5.0, 'equation gives {} after a refused input', got)
            n += 1
            continue
        if kind == 'lengths' or kind == 'text':
            # accepted as input, refused when it is used
            bad = {name: np.array(['a', 'b'])} if kind == 'text' else {
                k: np.arange(2.0 + j) for j, k in enumerate(names[:2])}
            used = set()
            for x in m.equations():
                used |= m.reads(x)
            if kind == 'lengths':
                pair = set(names[:2])
                if len(pair) < 2 or not any(
                        pair <= m.reads(x) for x in m.equations()):
                    continue
            elif not any(name in m.reads(x) and ref.ops(m.node(x))
                         for x in m.equations()):
                continue
            c.inputs = bad
            ok, got = attempt(c.evaluate)
            if ok and kind == 'text':
                # only formulas that pass it through, such as where, can
                c.inputs = None
                c.inputs = cfg.real_inputs(inputs, np)
                continue
            if ok:
                raise Violation('arrays of lengths 2 and 3 gave {}'.format(
                    got))
            c.inputs = None
            c.inputs = cfg.real_inputs(inputs, np)
        else:
            if kind == 'value':
                arg = dict(zip(names[:2], [7.5, 7.5]))
                arg[name] = INPUTS[val]
            elif kind == 'key':
                arg = {name: 7.5,
                       (1, 2) if key == 'tuple' else key: 1.0}
            else:
                arg = CONTAINERS[cont]
            what = 'inputs {} {!r}'.format(how, arg)
            if how == 'set':
                ok, got = attempt(setattr, c, 'inputs', arg)
            elif how == 'eval':
                ok, got = attempt(c.evaluate, arg)
            else:
                ok, got = attempt(NrwalConfig, data, inputs=arg)
            if ok:
                raise Violation('{} accepted: {!r}'.format(what, got))
            expect(isinstance(got, Exception), '{}: {!r}', what, got)
            expect(same(c.inputs, before), '{}: refused but the inputs '
                   'changed from {} to {}', what, before, dict(c.inputs))
        n += 1
        check('after refused {}'.format(kind))
        ctx.label(kind)
    ctx.nontriv(n)


SUBS = [
    Sub('formulas', case_formula(), pred_formula, 1600, 30000),
    Sub('keys', case_key, pred_key, 600, 3000, shards=1),
    Sub('definitions', case_define(), pred_define, 600, 6000, shards=1),
    Sub('inputs', case_inputs(), pred_inputs, 500, 8000),
]
