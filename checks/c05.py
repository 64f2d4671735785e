"""C05: formulas cannot import or execute arbitrary code."""
import json
import os

import yaml

from harness import gen, ref
from harness.core import (Sub, st, attempt, expect, must, must_raise,
                          scratch_dir, Violation)
from NRWAL import Equation, EquationGroup, EquationDirectory, NrwalConfig

RULE = ('A case is a formula with a forbidden fragment (or a call of a python '
        'builtin) inserted at a generated position, offered on one entry '
        'route; effects, if any, would go to a canary path in the scratch '
        'directory of the case. Non-trivial: every refused case whose '
        'fragment would have been executable python.')

# fragment templates; {p} is the canary path in the scratch directory
FRAGS = [
    "__import__('os').__class__", "os.mkdir('{p}')", "os.path", "sys.path",
    "sys.exit(7)", "().__class__", "(1).__class__", "x.__len__()", "x.__",
    "__.x", "eval('1')", "exec('1')", "eval(x)", "exec(x)",
    "np.os.mkdir('{p}')", "np.sys.exit(3)", "x.__class__.__mro__",
    "[c for c in ().__class__.__base__.__subclasses__()]",
    "os.system('touch {p}')", "copy.os.mkdir('{p}')", "eval (x)",
    "exec ('1')", "a.b.__c", "import os", "import sys", "from os import path",
    "__import__('os').mkdir('{p}') + os.x", "os.environ", "sys.modules",
    "logging.os.mkdir('{p}')", "np.lib.os.getcwd()", "x.__dict__",
    "EXECUTE.exec", "retrieval.eval",
]
BUILTIN = [
    "open('{p}', 'w')", "__import__('os').mkdir('{p}')", "print(x)",
    "globals()", "locals()", "vars()", "compile('1', 'f', 'single')",
    "getattr(x, 'y')", "setattr(np, 'q', 1)", "type(x)", "dir(x)",
    "open('{p}','a').write('1')", "exit()", "quit(x)", "__import__('shutil')",
    "delattr(np, 'nope')", "object()", "memoryview(x)", "len(x)", "str(x)",
    "range(3)", "sum(x)", "open(x)", "id(x)", "hash(x)", "repr(x)",
]
ROUTES = ['equation', 'replace', 'add-right', 'sub-right', 'mul-right',
          'div-right', 'pow-right', 'group', 'nested-group', 'group-yaml',
          'group-json', 'directory', 'directory-variables', 'config',
          'config-math', 'config-np', 'config-file', 'group-sum', 'key-group',
          'key-directory']


def place(node, frag, where, long=0):
    """Insert the fragment into the text of a formula."""
    text = ref.render(node)
    text = '{} + '.format(text) * long + text
    forms = ['{f}', '{f} * {t}', '{t} + {f}', '({f}) + {t}', '{t}*({t}-{f})',
             '{f} ', ' {f}', '{t} + {f} * 2', 'np.maximum({f}, {t})',
             '({t} > 0) * {f}', 'np.maximum({t}, {f})',
             'np.where({t}>0,{t},{f})', '{t} + \n {f}', '{t}*{t}*{t}*{t}*{f}',
             '(({t} - ({f})))', '{t} > {f}',
             # these only for forbidden text, which is refused anywhere
             '{t} # {f}', '{t} if {f} else {t}', '{t}; {f}', '({t}, {f})',
             '{t} + "{f}"', '{t} #\n+ {f}']
    return forms[where % len(forms)].replace('{f}', frag).replace('{t}', text)


@st.composite
def case_forbidden(draw):
    nms = ['x'] + [n for n in draw(gen.names(1, 2)) if n != 'x']
    return {'node': draw(gen.expr(gen.vleaves(nms), depth=2, funcs=False,
                                  cmps=False)),
            'frag': draw(st.sampled_from(FRAGS)),
            'where': draw(st.integers(0, 21)),
            'long': draw(st.sampled_from([0, 0, 0, 1, 3, 40, 600])),
            'route': draw(st.sampled_from(ROUTES))}


def offer(route, text, d, kw):
    """Feed a formula into the package by one route and evaluate it."""
    if route == 'equation':
        return Equation(text).evaluate(**kw)
    if route == 'replace':
        return Equation('x * 2').replace_equation(text).evaluate(**kw)
    if route.endswith('-right'):
        e = Equation('x')
        e = {'add': lambda: e + text, 'sub': lambda: e - text,
             'mul': lambda: e * text, 'div': lambda: e / text,
             'pow': lambda: e ** text}[route.split('-')[0]]()
        return e.evaluate(**kw)
    if route == 'group':
        return EquationGroup({'k1': 'x', 'k2': text})['k2'].evaluate(**kw)
    if route == 'nested-group':
        return EquationGroup({'k1': 'x', 's': {'t': {'k2': text}}})[
            's::t::k2'].evaluate(**kw)
    if route == 'group-sum':
        return (EquationGroup({'k1': 'x'}) + {'k2': text})[
            'k2'].evaluate(**kw)
    if route in ('group-yaml', 'group-json'):
        fp = os.path.join(d, 'g.' + route[6:])
        with open(fp, 'w') as f:
            if route == 'group-yaml':
                yaml.safe_dump({'k1': 'x', 'k2': text}, f)
            else:
                json.dump({'k1': 'x', 'k2': text}, f)
        return EquationGroup(fp)['k2'].evaluate(**kw)
    sub = os.path.join(d, 'lib')
    os.makedirs(os.path.join(sub, 'deep'), exist_ok=True)
    if route == 'directory':
        with open(os.path.join(sub, 'deep', 'g.yaml'), 'w') as f:
            yaml.safe_dump({'k2': text}, f)
        return EquationDirectory(sub)['deep::g::k2'].evaluate(**kw)
    if route == 'directory-variables':
        with open(os.path.join(sub, 'deep', 'variables.yaml'), 'w') as f:
            yaml.safe_dump({'q': text}, f)
        with open(os.path.join(sub, 'deep', 'g.yaml'), 'w') as f:
            yaml.safe_dump({'k2': 'q * x'}, f)
        return EquationDirectory(sub)['deep::g::k2'].evaluate(**kw)
    with open(os.path.join(sub, 'g.yaml'), 'w') as f:
        yaml.safe_dump({'k1': 'x'}, f)
    if route == 'key-group':
        out = EquationGroup({'k1': 'x'})['k1 + ' + text]
        return out.evaluate(**kw)
    if route == 'key-directory':
        out = EquationDirectory(sub)['g::k1 * ' + text]
        return out.evaluate(**kw)
    cfg = {'equation_directory': sub, 'ok': 'x * 2'}
    if route == 'config':
        cfg['k2'] = text
    elif route == 'config-math':
        cfg['k2'] = 'g::k1 + ' + text + ' * ok'
    elif route == 'config-np':
        cfg['k2'] = '2 * np.abs(' + text + ')'
    elif route == 'config-file':
        cfg['k2'] = text
        fp = os.path.join(d, 'cfg.yaml')
        with open(fp, 'w') as f:
            yaml.safe_dump(cfg, f)
        cfg = fp
    c = NrwalConfig(cfg)
    return c.evaluate(kw)['k2']


def pred_forbidden(case, ctx):
    d = scratch_dir()
    canary = os.path.join(d, 'canary')
    frag = case['frag'].replace('{p}', canary)
    route = case['route']
    long = min(case['long'], 3 if route.startswith(('config', 'key')) else 600)
    text = place(case['node'], frag, case['where'], long)
    cwd = sorted(os.listdir(d))
    kw = {n: 2.0 for n in ref.variables(case['node']) | {'x'}}
    ok, out = attempt(offer, route, text, d, kw)
    expect(not os.path.exists(canary), 'route {}: {!r} was executed', route,
           text)
    expect(not ok, 'route {}: {!r} was accepted and gave {!r}', route, text,
           out)
    expect(isinstance(out, Exception), 'route {}: {!r} ended the process: '
           '{!r}', route, text, out)
    # the plain formula is refused when it is made, before any evaluation
    must_raise('Equation({!r})'.format(text), ValueError, Equation, text)
    must_raise('replace', ValueError, Equation('x').replace_equation, text)
    must_raise('group', ValueError, EquationGroup, {'k1': 'x', 'k2': text})
    must_raise('nested', ValueError, EquationGroup, {'s': {'k2': text}})
    expect(not os.path.exists(canary), '{!r} was executed', text)
    new = [x for x in os.listdir(d) if x not in cwd]
    expect(set(new) <= {'lib', 'g.yaml', 'g.json', 'cfg.yaml'},
           'new files {}', new)
    ctx.label('route ' + route)
    ctx.nontriv()


@st.composite
def case_builtin(draw):
    nms = ['x'] + [n for n in draw(gen.names(1, 2)) if n != 'x']
    return {'node': draw(gen.expr(gen.vleaves(nms), depth=2, funcs=False,
                                  cmps=False)),
            'frag': draw(st.sampled_from(BUILTIN)),
            'where': draw(st.integers(0, 15)),
            'route': draw(st.sampled_from(
                [r for r in ROUTES if r not in ('key-group',
                                                'key-directory')]))}


def pred_builtin(case, ctx):
    d = scratch_dir()
    canary = os.path.join(d, 'canary')
    text = place(case['node'], case['frag'].replace('{p}', canary),
                 case['where'])
    kw = {n: 2.0 for n in ref.variables(case['node']) | {'x'}}
    ok, out = attempt(offer, case['route'], text, d, kw)
    expect(not os.path.exists(canary), 'route {}: {!r} was executed',
           case['route'], text)
    expect(not ok, 'route {}: {!r} gave {!r}', case['route'], text, out)
    # on its own: refused although all other names have values
    ok, eqn = attempt(Equation, text)
    if ok:
        err = must_raise(text, RuntimeError, eqn.evaluate, **kw)
        expect(not os.path.exists(canary), '{!r} was executed', text)
        expect(err is not None, 'no error')
    ctx.label('route ' + case['route'])
    ctx.nontriv()


HARMLESS = ['cost', 'pos', 'system', 'osw', 'position', 'sysx', 'os', 'sys',
            'important', 'import_cost', 'a__b', '__x', 'exe', 'eva', 'osx',
            'close', 'loss', 'losses', 'pos_sys', 'ex_ec', 'e_val', 'impor',
            'cosine', 'boss', 'x__', 'basis', 'analysis']


@st.composite
def case_harmless(draw):
    nms = draw(st.lists(st.sampled_from(HARMLESS), min_size=1, max_size=4,
                        unique=True))
    node = draw(gen.expr(gen.vleaves(nms), depth=draw(st.integers(1, 4)),
                         bare_cmp=False))
    used = sorted(ref.variables(node))
    return {'node': node, 'values': draw(gen.values(used, arrays=False)),
            'route': draw(st.sampled_from(['equation', 'group', 'file',
                                           'config']))}


def pred_harmless(case, ctx):
    node, vals = case['node'], case['values']
    text = ref.render(node)
    if any(s in text for s in ('os.', 'sys.', '__.', '.__')):
        return
    _, exp = ref.reference(node, vals, ref.U64)
    if ref.any_undef(exp) or not vals:
        return
    d = scratch_dir()
    if case['route'] == 'equation':
        got = must(text, lambda: Equation(text).evaluate(**vals))
    elif case['route'] == 'group':
        got = must(text, lambda: EquationGroup(
            {'k1': text})['k1'].evaluate(**vals))
    elif case['route'] == 'file':
        with open(os.path.join(d, 'g.json'), 'w') as f:
            json.dump({'k1': text}, f)
        got = must(text, lambda: EquationDirectory(d)['g::k1'].evaluate(
            **vals))
    else:
        with open(os.path.join(d, 'g.json'), 'w') as f:
            json.dump({'k1': '1'}, f)
        got = must(text, lambda: NrwalConfig(
            {'equation_directory': d, 'k1': text}).evaluate(vals)['k1'])
    n = ref.check_value(text, got, False, exp, ref.U64)
    if not n:
        raise Violation('not compared')
    ctx.label('route ' + case['route'])
    ctx.nontriv()


SUBS = [
    Sub('forbidden', case_forbidden(), pred_forbidden, 1500, 20000),
    Sub('builtins', case_builtin(), pred_builtin, 900, 10000),
    Sub('harmless', case_harmless(), pred_harmless, 900, 10000),
]
