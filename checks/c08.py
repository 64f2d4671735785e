"""C08: power and year lookups are exact, interpolated or nearest."""
import os
import re

from harness import gen, lib, libgen, ref
from harness.core import (Sub, st, attempt, expect, must, must_raise,
                          scratch_dir, Violation)
from NRWAL import EquationGroup, EquationDirectory, NrwalConfig

RULE = ('A case is a group with several base names and power/year suffixes, a '
        'choice of the four lookup flags, a route (group, nested group, '
        'directory, sum, config with flags as arguments or entries) and '
        'several requests; non-trivial: a request that is not stored under '
        'its exact name and has a candidate, or has one only under another '
        'flag or base name.')
ASSUMPTIONS = ['entries of one base name have distinct powers or years; for '
               'equal distances either entry is accepted']

BASES = ['p', 'pslt', 'pslt_x', 'psl', 'P', 'inst', 'inst_2020', 'p_3MW',
         'q_MW', 'eqn_a', 'eqn', 'a_2', 'x_x']
FLAGS = ['interp_extrap_power', 'use_nearest_power', 'interp_extrap_year',
         'use_nearest_year']


def parse(name):
    """(kind, base, value) of an entry name, or None."""
    m = re.match(r'\A(.*)_([0-9]+)[mM][wW]\Z', name)
    if m:
        return 'power', m.group(1), int(m.group(2))
    m = re.match(r'\A(.*)_([0-9]{4})\Z', name)
    if m and 1800 <= int(m.group(2)) <= 2200:
        return 'year', m.group(1), int(m.group(2))
    return None


@st.composite
def suffix(draw, kind):
    if kind == 'power':
        n = draw(st.one_of(st.integers(0, 20), st.integers(1, 20),
                           st.integers(1, 300)))
        return '_{:0{}d}{}'.format(n, draw(st.sampled_from([1, 1, 1, 2])), draw(st.sampled_from(
            ['MW', 'MW', 'MW', 'mw', 'Mw'])))
    if kind == 'year':
        n = draw(st.one_of(st.integers(2010, 2040), st.integers(1800, 2200),
                           st.sampled_from([1800, 1999, 2000, 2200])))
        return '_{}'.format(n)
    return draw(st.sampled_from(
        ['', '_MW', '_5', '_12345', '_1799', '_2201', '_999', '_MW_', '_kW',
         '_3MWh', '_5MW2', '3MW', '2020', '_2020x', '_20_20', '_x3MW',
         '_2500']))


@st.composite
def entries(draw):
    bases = draw(st.lists(st.sampled_from(BASES), min_size=1, max_size=3,
                          unique=True))
    out = {}
    seen = set()
    vs = libgen.VARS[:4]
    kinds = draw(st.sampled_from([
        ['power', 'power', 'year', 'year', 'other'],
        ['power', 'power', 'year', 'year', 'other'], ['power'], ['year']]))
    for _ in range(draw(st.integers(1, 8 if len(kinds) > 1 else 12))):
        kind = draw(st.sampled_from(kinds))
        name = draw(st.sampled_from(bases)) + draw(suffix(kind))
        p = parse(name)
        if name in out or name in vs or p in seen:
            continue
        seen.add(p)
        node = draw(gen.expr(gen.vleaves(vs), depth=draw(st.integers(0, 2)),
                             bare_cmp=False))
        if not ref.variables(node):
            out[name] = {'num': draw(st.one_of(gen.dec_val2,
                                               st.integers(0, 9)))}
        else:
            out[name] = {'e': node}
    return bases, out


@st.composite
def request(draw, bases, ents):
    k = draw(st.integers(0, 9))
    if k == 0:
        return draw(st.sampled_from(list(ents)))
    base = draw(st.sampled_from(bases if k < 9 else BASES))
    kind = draw(st.sampled_from(['power', 'power', 'year', 'year', 'other']))
    if k <= 6 and kind != 'other':
        # close to stored entries, on either side or far outside
        vals = [parse(n)[2] for n in ents if parse(n)
                and parse(n)[0] == kind and parse(n)[1] == base]
        if vals:
            v = draw(st.sampled_from(vals)) + draw(st.sampled_from(
                [-3, -2, -1, 1, 2, 3, 7, -9, 30]))
            if len(vals) > 1 and draw(st.booleans()):
                v = (vals[0] + vals[1]) // 2
            v = max(v, 0)
            return base + ('_{}MW'.format(v) if kind == 'power'
                           else '_{}'.format(v))
    return base + draw(suffix(kind))


@st.composite
def case_lookup(draw):
    bases, ents = draw(entries())
    if not ents:
        ents = {'p_3MW': {'e': ['v', 'depth']}}
    reqs = [draw(request(bases, ents)) for _ in range(4)]
    # a sibling group with the same bases must never be used
    other = {n + '': {'num': 12345.5 + i} for i, n in enumerate(
        draw(st.lists(st.builds(lambda b, s: b + s, st.sampled_from(bases),
                                suffix('power')), max_size=3,
                      unique=True)))}
    return {'entries': ents, 'requests': reqs, 'other': other,
            'flags': [draw(st.booleans()) for _ in FLAGS],
            'as_entry': [draw(st.booleans()) for _ in FLAGS],
            'omit': draw(st.booleans()),
            'against': [draw(st.booleans()) for _ in FLAGS],
            'route': draw(st.sampled_from(
                ['group', 'nested', 'yaml', 'dir', 'deepdir', 'sum',
                 'dirsum', 'config', 'config-alias', 'config-math', 'key',
                 'same', 'samefile'])),
            'values': draw(gen.values(libgen.VARS[:4], arrays=False))}


def options(name, ents, flags):
    """Acceptable formula trees for a request; None: KeyError."""
    f = dict(zip(FLAGS, flags))
    if name in ents:
        return 'exact', [lib.node_of(ents[name])]
    p = parse(name)
    if p is None:
        return 'error', None
    kind, base, v = p
    cand = []
    for n, e in ents.items():
        q = parse(n)
        if q and q[0] == kind and q[1] == base:
            cand.append((abs(q[2] - v), q[2], lib.node_of(e)))
    cand.sort(key=lambda c: c[0])
    interp = f['interp_extrap_' + kind]
    near = f['use_nearest_' + kind]
    if not cand or not (interp or near):
        return ('wrong flag' if cand else 'error'), None
    if interp and len(cand) > 1:
        pairs = [(cand[0], cand[1])]
        if len(cand) > 2 and cand[1][0] == cand[2][0]:
            pairs.append((cand[0], cand[2]))
        return 'line', [line(a, b, v) for a, b in pairs]
    out = [c[2] for c in cand if c[0] == cand[0][0]]
    return ('nearest' if len(cand) > 1 else 'single'), out


def line(a, b, v):
    """Straight line through (a[1], a[2]) and (b[1], b[2]) at v."""
    w = ['b', '/', ['n', repr(float(v - a[1]))] if v >= a[1] else
         ['u', ['n', repr(float(a[1] - v))], 0],
         ['n', repr(float(b[1] - a[1]))] if b[1] >= a[1] else
         ['u', ['n', repr(float(a[1] - b[1]))], 0], 0]
    return ['b', '+', ['b', '*', ['b', '-', b[2], a[2], 0], w, 0], a[2], 0]


def compare(what, got_fun, opts, vals, want_vars=None):
    """At least one option must match; raises the last difference."""
    last = None
    for node in opts:
        try:
            return got_fun(node)
        except Violation as e:
            last = e
    raise last


def pred_lookup(case, ctx):
    ents, other = case['entries'], case['other']
    flags = dict(zip(FLAGS, case['flags']))
    if case['omit']:
        # flags are off unless they are given
        flags = {f: v for f, v in flags.items() if v}
    route = case['route']
    vals = case['values']
    d = scratch_dir()
    data, odata = lib.plain(ents), lib.plain(other)
    prefix = ''
    cfg_route = route.startswith('config')
    if route == 'group':
        obj = EquationGroup(data, **flags)
    elif route == 'nested':
        obj = EquationGroup({'o': odata, 's': {'t': data, 'o': odata}},
                            **flags)
        prefix = 's::t::'
    elif route == 'same':
        # a part of the path above is named like the request
        obj = EquationGroup(dict({n: data for n in case['requests']},
                                 o=odata), **flags)
    elif route == 'samefile':
        for n in case['requests']:
            os.makedirs(os.path.join(d, n), exist_ok=True)
            lib.dump({n: data}, os.path.join(d, n, n + '.yaml'))
        obj = EquationDirectory(d, **flags)
    elif route in ('yaml', 'key'):
        fp = os.path.join(d, 'g.yaml')
        lib.dump(data, fp)
        obj = EquationGroup(fp, **flags)
    elif route == 'sum':
        obj = EquationGroup({'zz': '1'}, **flags) + {'sub': data, 'o': odata}
        prefix = 'sub::'
    elif route == 'dirsum':
        for n in ('l1', 'l2'):
            os.makedirs(os.path.join(d, n, n + 'sub'))
            lib.dump(odata or {'zz': 1}, os.path.join(d, n, n + '.json'))
        lib.dump(data, os.path.join(d, 'l2', 'l2sub', 'g.json'))
        obj = EquationDirectory(os.path.join(d, 'l1'), **flags) \
            + os.path.join(d, 'l2')
        prefix = 'l2sub::g::'
    else:
        os.makedirs(os.path.join(d, 'lib', 'deep', '2015'))
        lib.dump(odata or {'zz': 1}, os.path.join(d, 'lib', 'o.yaml'))
        if route == 'dir':
            lib.dump(data, os.path.join(d, 'lib', 'g.yaml'))
            prefix = 'g::'
        else:
            lib.dump({'s': data, 'o': odata},
                     os.path.join(d, 'lib', 'deep', '2015', 'g.json'))
            prefix = 'deep::2015::g::s::'
        if not cfg_route:
            obj = EquationDirectory(os.path.join(d, 'lib'), **flags)

    for req in case['requests']:
        kind, opts = options(req, ents, case['flags'])
        if route == 'same':
            prefix = req + '::'
        elif route == 'samefile':
            prefix = (req + '::') * 3
        key = prefix + req
        what = '{} {!r} with {}'.format(route, key, [
            f for f in FLAGS if flags.get(f)])
        if cfg_route:
            check_config(what, route, prefix, req, case, opts, d, ctx)
        elif opts is None:
            must_raise(what, KeyError, lambda: obj[key])
            if prefix:
                inner = must('part', lambda: obj[prefix[:-2]])
                must_raise(what + ' (from the part)', KeyError,
                           lambda: inner[req])
            tok = object()
            expect(must('get', obj.get, key, tok) is tok, '{}: get', what)
        else:
            if route == 'key':
                text = '2 * {} - {} ^ 1'.format(key, key)
                eqn = must(what, lambda: obj[text])
                opts = [['b', '-', ['b', '*', ['n', '2'], o, 0], o, 0]
                        for o in opts]
            else:
                eqn = must(what, lambda: obj[key])
            compare(what, lambda node: lib.check_eqn(what, eqn, node, vals),
                    opts, vals)
            if prefix:
                # the part on its own follows the same flags
                inner = must('part', lambda: obj[prefix[:-2]])
                eqn = must(what + ' (from the part)', lambda: inner[req])
                compare(what, lambda node: lib.check_eqn(
                    what + ' (from the part)', eqn, node, vals), opts, vals)
        ctx.label(kind)
        ctx.nontriv(kind in ('line', 'nearest', 'single', 'wrong flag'))
    if not cfg_route:
        for n, e in ents.items():
            lib.check_eqn('stored ' + n, must(n, lambda: obj[prefix + n]),
                          lib.node_of(e), vals)


def check_config(what, route, prefix, req, case, opts, d, ctx):
    flags = dict(zip(FLAGS, case['flags']))
    omit = case['omit']
    as_entry = dict(zip(FLAGS, case['as_entry']))
    cfg = {'equation_directory': os.path.join(d, 'lib')}
    for f in FLAGS:
        if as_entry[f]:
            cfg[f] = flags[f]
    args = {f: v for f, v in flags.items() if not as_entry[f]
            and (v or not omit)}
    # what the config says about a flag is used, also against an argument
    for f, a in zip(FLAGS, case['against']):
        if as_entry[f] and a:
            args[f] = not flags[f]
    tail = None
    if route == 'config-alias':
        grp, _, rest = prefix[:-2].rpartition('::')
        cfg['grp'] = grp
        cfg['out'] = 'grp::' + rest + '::' + req
    elif route == 'config-math':
        cfg['out'] = '3 * {}{} - 2'.format(prefix, req)
        tail = True
    else:
        cfg['out'] = prefix + req
    vals = case['values']
    inputs = dict(vals)

    def run():
        c = NrwalConfig(cfg, **args)
        return c.evaluate(inputs)['out'], c

    if opts is None:
        ok, out = attempt(run)
        expect(not ok, '{}: gave {!r}', what, out)
        expect(isinstance(out, (KeyError, RuntimeError)), '{}: raised {!r}',
               what, out)
        return
    # a constant entry is a global variable of the config
    def one(node):
        if tail:
            node = ['b', '-', ['b', '*', ['n', '3'], node, 0], ['n', '2'], 0]
        _, exp = ref.reference(node, vals, ref.U64)
        if not ref.variables(node):
            c = must(what, NrwalConfig, cfg, **args)
            expect('out' in c.global_variables, '{}: not a constant', what)
            got = c.global_variables['out']
        else:
            ok, got = attempt(run)
            if not ok:
                if ref.any_undef(exp):
                    return 0
                raise Violation('{}: raised {!r}'.format(what, got))
            got, c = got
            want = sorted(ref.variables(node))
            expect(list(c.required_inputs) == want,
                   '{}: required {} instead of {}', what, c.required_inputs,
                   want)
        return ref.check_value(what, got, False, exp, ref.U64)
    compare(what, one, opts, vals)


@st.composite
def case_sorted(draw):
    bases, ents = draw(entries())
    return {'entries': ents or {'p_3MW': {'num': 1}},
            'requests': [draw(request(bases, ents or {'p_3MW': 0}))
                         for _ in range(3)],
            'values': draw(gen.values(libgen.VARS[:4], arrays=False))}


def pred_sorted(case, ctx):
    """The candidates are listed by distance, each with its own value."""
    ents = case['entries']
    g = must('group', EquationGroup, lib.plain(ents))
    for req in case['requests']:
        p = parse(req)
        for kind, fun in (('power', g.find_nearest_power_eqns),
                          ('year', g.find_nearest_year_eqns)):
            eqns, vals = must('{} {}'.format(kind, req), fun, req)
            want = {}
            if p and p[0] == kind:
                for n, e in ents.items():
                    q = parse(n)
                    if q and q[:2] == p[:2]:
                        want[q[2]] = lib.node_of(e)
            got = [float(v) for v in vals]
            expect(sorted(got) == sorted(float(v) for v in want),
                   '{} candidates of {} are {} instead of {}', kind, req, got,
                   sorted(want))
            expect(len(eqns) == len(got), 'lengths differ')
            for a, b in zip(got, got[1:]):
                expect(abs(a - p[2]) <= abs(b - p[2]),
                       '{} candidates of {} not by distance: {}', kind, req,
                       got)
            for e, v in zip(eqns, got):
                lib.check_eqn('{} {}: {}'.format(kind, req, v), e,
                              want[int(v)], case['values'])
            ctx.nontriv(len(want) > 1)
            is_kind = g.is_power_eqn if kind == 'power' else g.is_year_eqn
            expect(bool(is_kind(req)) == bool(p and p[0] == kind),
                   'is_{}_eqn({!r}) is {}', kind, req, is_kind(req))


# ----------------------------------------------------------------------
@st.composite
def case_vars(draw):
    """Numbers of variables files are looked up like equations."""
    bases, ents = draw(entries())
    ents = {n: {'num': draw(gen.signed)} for n in ents}
    ents = ents or {'p_3MW': {'num': 0}, 'p_5MW': {'num': 2}}
    return {'entries': ents, 'requests': [draw(request(bases, ents))
                                          for _ in range(3)],
            'flags': [draw(st.booleans()) for _ in FLAGS],
            'sub': draw(st.booleans()), 'math': draw(st.integers(0, 2)),
            'ext': draw(st.sampled_from(libgen.EXTS))}


def pred_vars(case, ctx):
    ents = case['entries']
    d = os.path.join(scratch_dir(), 'lib')
    sub = os.path.join(d, 's', 't') if case['sub'] else d
    os.makedirs(sub)
    lib.dump({'e': 'x'}, os.path.join(d, 'eqns.yaml'))
    lib.dump(lib.plain(ents), os.path.join(sub, 'variables.' + case['ext']))
    flags = dict(zip(FLAGS, case['flags']))
    obj = must('directory', EquationDirectory, d, **flags)
    pre = ('s::t::' if case['sub'] else '') + 'variables::'
    for req in case['requests']:
        kind, opts = options(req, ents, case['flags'])
        key = pre + req
        what = '{!r} of variables {} with {}'.format(
            key, lib.plain(ents), [f for f in FLAGS if flags[f]])
        if opts is None:
            must_raise(what, KeyError, lambda: obj[key])
            continue
        vals = [ref.evaluate(o, {}) for o in opts]
        got = must(what, lambda: obj[key])
        if hasattr(got, 'evaluate'):
            got = must(what, got.evaluate)
        near(what, got, vals)
        got = must(what, lambda: obj['eqns::e * ' + key].evaluate(x=2.0))
        near('2 * ' + what, got, vals, 2)
        c = must(what, NrwalConfig, dict(
            flags, equation_directory=d, o='x * ' + key))
        got = must(what, c.evaluate, {'x': 2.0})['o']
        near('2 * ' + what + ' (config)', got, vals, 2)
        ctx.label(kind)
        ctx.nontriv(kind in ('line', 'nearest', 'single'))


def near(what, got, want, times=1):
    expect(any(abs(float(got) - times * w.v) <= 4 * times * w.e
               + 1e-12 * w.m for w in want), '{} is {} instead of {} * {}',
           what, got, times, want)


# ----------------------------------------------------------------------
@st.composite
def case_levels(draw):
    kind = draw(st.sampled_from(['power', 'year']))
    v = draw(st.integers(2, 15)) if kind == 'power' else draw(
        st.integers(1990, 2040))
    suf = '_{}MW' if kind == 'power' else '_{}'
    return {'have': ['q' + suf.format(v), 'q' + suf.format(v + draw(
        st.integers(1, 4)))], 'ask': 'q' + suf.format(v + draw(
            st.sampled_from([-1, 5, 9]))), 'level': draw(st.sampled_from(
                ['group', 'inner', 'file', 'dir'])),
        'leaf': draw(st.sampled_from(['a', 'q' + suf.format(v)])),
        'how': draw(st.integers(0, 3)), 'x': draw(st.integers(1, 9)),
        'config': draw(st.booleans())}


def pred_levels(case, ctx):
    """Only the equation at the end of a path is looked up by nearness."""
    flags = [{'interp_extrap_power': True, 'interp_extrap_year': True},
             {'use_nearest_power': True, 'use_nearest_year': True},
             dict.fromkeys(FLAGS, True), {'interp_extrap_power': True,
                                          'use_nearest_year': True}][
        case['how']]
    d = os.path.join(scratch_dir(), 'lib')
    os.makedirs(d)
    level = case['level']
    grp = {n: {case['leaf']: '{} * x'.format(i + 2)}
           for i, n in enumerate(case['have'])}
    pre = ''
    if level in ('group', 'inner'):
        if level == 'inner':
            grp, pre = {'s': grp, 'z': '1'}, 's::'
        lib.dump(grp, os.path.join(d, 'g.yaml'))
        pre = 'g::' + pre
    else:
        for n, g in grp.items():
            if level == 'dir':
                os.makedirs(os.path.join(d, n))
                lib.dump(g, os.path.join(d, n, 'f.yaml'))
            else:
                lib.dump(g, os.path.join(d, n + '.yaml'))
    tail = ('f::' if level == 'dir' else '') + case['leaf']
    x = float(case['x'])
    obj = must('directory', EquationDirectory, d, **flags)
    for i, n in enumerate(case['have']):
        k = pre + n + '::' + tail
        got = must(k, lambda: obj[k].evaluate(x=x))
        expect(float(got) == (i + 2) * x, '{} is {}', k, got)
    bad = pre + case['ask'] + '::' + tail
    what = '{!r} where {} are stored'.format(bad, case['have'])
    must_raise(what, KeyError, lambda: obj[bad])
    must_raise(what, KeyError, lambda: obj[bad + ' * 2'])
    if level in ('group', 'inner'):
        g = must('group', EquationGroup, os.path.join(d, 'g.yaml'), **flags)
        must_raise(what + ' (group)', KeyError, lambda: g[bad[3:]])
        # nor is a whole group looked up by nearness
        ok, out = attempt(lambda: obj[pre + case['ask']])
        expect(not ok, '{!r} gave {!r} although only {} are stored',
               pre + case['ask'], out, case['have'])
    if case['config']:
        data = dict(flags, equation_directory=d, o=bad)
        ok, out = attempt(lambda: NrwalConfig(data).evaluate({'x': x}))
        expect(not ok, '{} gave {!r} in a config', what, out)
    ctx.label(level)
    ctx.nontriv()


SUBS = [
    Sub('lookup', case_lookup(), pred_lookup, 1500, 25000),
    Sub('candidates', case_sorted(), pred_sorted, 500, 8000),
    Sub('variables', case_vars(), pred_vars, 200, 3000, shards=2),
    Sub('levels', case_levels(), pred_levels, 150, 2000, shards=1),
]
