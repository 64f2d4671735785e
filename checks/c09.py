"""C09: default variables are scoped to their directory and overridable."""
import copy
import os

import numpy as np

from harness import cfg, gen, lib, libgen, ref
from harness.core import (Sub, st, attempt, expect, must, must_raise,
                          scratch_dir, Violation)
from NRWAL import EquationGroup, EquationDirectory, NrwalConfig

RULE = ('A case is a generated directory tree with variables files on several '
        'levels plus a history of default updates, evaluations with partial '
        'inputs, or configs with constants; non-trivial: some equation gets a '
        'default that differs from one given to the same name elsewhere, or '
        'an update reaches some but not all equations.')
ASSUMPTIONS = ['where a directory is updated without force, the values of its '
               'own and all lower variables files stay']


def scope(tree, prefix=(), eff=None, out=None):
    """path -> defaults of every equation after loading."""
    out = {} if out is None else out
    eff = dict(eff or {})
    for v in tree.values():
        if 'vars' in v:
            eff.update(v['vars'])
    for k, v in tree.items():
        if 'file' in v:
            for p, _ in lib.leaves(v['file'], prefix + (k,)):
                out[p] = dict(eff)
        elif 'dir' in v:
            scope(v['dir'], prefix + (k,), eff, out)
    return out


def object_scope(tree, prefix=(), eff=None, out=None):
    """path -> defaults of every group and directory after loading."""
    out = {} if out is None else out
    eff = dict(eff or {})
    for v in tree.values():
        if 'vars' in v:
            eff.update(v['vars'])
    out[prefix] = eff
    for k, v in tree.items():
        if 'file' in v:
            out[prefix + (k,)] = eff
            for p, _ in lib.group_objects(v['file'], prefix + (k,)):
                out[p] = eff
        elif 'dir' in v and lib.visible(v['dir']):
            object_scope(v['dir'], prefix + (k,), eff, out)
    return out


def check_defaults(what, eqn, node, dflt, vals, ctx, skip=0):
    """Defaults, their use, their being overridden for one call only."""
    names = sorted(ref.variables(node))
    have = must(what, lambda: dict(eqn.default_variables))
    for k in names:
        expect((k in have) == (k in dflt), '{}: {} {} a default', what, k,
               'has' if k in have else 'has not')
        if k in have:
            expect(float(have[k]) == float(dflt[k]),
                   '{}: default of {} is {!r} instead of {!r}', what, k,
                   have[k], dflt[k])
    need = {k: vals[k] for k in names if k not in dflt}
    n = lib.check_eqn(what + ' with defaults', eqn, node, need, dflt=dflt)
    # without one of the needed inputs there is no value
    for k in list(need)[:1]:
        less = {x: v for x, v in need.items() if x != k}
        must_raise('{} without {}'.format(what, k), RuntimeError,
                   eqn.evaluate, **less)
    # every value can be given at the call, for that call only
    n += lib.check_eqn(what + ' overridden', eqn, node, vals, dflt=dflt)
    part = {k: v for i, (k, v) in enumerate(sorted(vals.items()))
            if k in need or (i + skip) % 2}
    n += lib.check_eqn(what + ' partly overridden', eqn, node, part,
                       dflt=dflt)
    n += lib.check_eqn(what + ' with defaults again', eqn, node, need,
                       dflt=dflt)
    return n


def check_sum(what, obj, nodes, state, at, vals):
    """Arithmetic in a retrieval key has the defaults of its parts."""
    keys = sorted(nodes)
    p, q = keys[at % len(keys)], keys[(at * 7 + 1) % len(keys)]
    a, b = ref.variables(nodes[p]), ref.variables(nodes[q])
    none = object()
    if any(state[p].get(v, none) != state[q].get(v, none) for v in a & b):
        return 0        # one name with two defaults
    op = '+*-'[at % 3]
    dflt = {v: x for v, x in state[p].items() if v in a}
    dflt.update({v: x for v, x in state[q].items() if v in b})
    key = '{} {} {}'.format('::'.join(p), op, '::'.join(q))
    eqn = must('{}: {}'.format(what, key), lambda: obj[key])
    return lib.check_eqn('{}: {}'.format(what, key), eqn,
                         ['b', op, nodes[p], nodes[q], 0],
                         {v: vals[v] for v in a | b if v not in dflt},
                         dflt=dflt)


# ----------------------------------------------------------------------
@st.composite
def case_scope(draw):
    tree = draw(libgen.directory(variables=libgen.VARS[:5], levels=2,
                                 with_vars=True, dirs=(0, 2), nested=1))
    tree = draw(libgen.deep(tree, libgen.VARS[:5]))
    return {'tree': tree, 'skip': draw(st.integers(0, 1)),
            'values': draw(gen.values(libgen.VARS[:5], arrays=False))}


def pred_scope(case, ctx):
    tree = case['tree']
    d = os.path.join(scratch_dir(), 'lib')
    lib.write(tree, d)
    obj = must('directory', EquationDirectory, d)
    want = scope(tree)
    nodes = {p: lib.node_of(e) for p, e in lib.dir_leaves(tree)}
    n = 0
    for p, node in nodes.items():
        key = '::'.join(p)
        n += check_defaults(key, must(key, lambda: obj[key]), node, want[p],
                            case['values'], ctx, case['skip'])

    for p, eff in object_scope(tree).items():
        o = must('object', lambda: obj['::'.join(p)]) if p else obj
        have = must('defaults', lambda: dict(o.default_variables))
        expect(have == eff, '{}: defaults {} instead of {}',
               '::'.join(p) or 'directory', have, eff)

    # a sub-directory loaded on its own only knows the files inside it
    for k, v in tree.items():
        if 'dir' in v and lib.visible(v['dir']):
            sub = must('sub-directory', EquationDirectory, os.path.join(d, k))
            sw = scope(v['dir'])
            for p, e in lib.dir_leaves(v['dir']):
                key = '::'.join(p)
                check_defaults('{} alone: {}'.format(k, key), sub[key],
                               lib.node_of(e), sw[p], case['values'], ctx,
                               case['skip'])
    vals = {}
    for p, node in nodes.items():
        for x in ref.variables(node):
            if x in want[p]:
                vals.setdefault(x, set()).add(want[p][x])
    ctx.nontriv(n > 0 and any(len(v) > 1 for v in vals.values()))
    ctx.label('distinct defaults' if any(len(v) > 1 for v in vals.values())
              else 'uniform defaults')


# ----------------------------------------------------------------------
@st.composite
def case_history(draw):
    vs = libgen.VARS[:4]
    tree = draw(libgen.directory(variables=vs, levels=2, with_vars=True,
                                 dirs=(0, 2), nested=1, hi=2))
    tree = draw(libgen.deep(tree, vs))
    ops = []
    for i in range(draw(st.integers(1, 6) if draw(st.integers(0, 9))
                        else st.integers(7, 20))):
        ups = draw(st.lists(st.sampled_from(vs), min_size=1, max_size=3,
                            unique=True))
        ops.append({'at': draw(st.integers(0, 20)),
                    'set': {k: 100.0 * (i + 1) + j / 4.0
                            for j, k in enumerate(ups)},
                    'force': draw(st.integers(0, 3)),
                    'none': draw(st.integers(0, 9)) == 0})
    return {'tree': tree, 'ops': ops,
            'values': draw(gen.values(vs, arrays=False))}


def targets(tree):
    """All things defaults can be set on: (path, kind, model)."""
    out = [((), 'dir', tree)]

    def grp(g, p):
        out.append((p, 'group', g))
        for k, v in g.items():
            if 'g' in v:
                grp(v['g'], p + (k,))
            else:
                out.append((p + (k,), 'eqn', v))

    def go(t, p):
        for k, v in t.items():
            if 'dir' in v and lib.visible(v['dir']):
                out.append((p + (k,), 'dir', v['dir']))
                go(v['dir'], p + (k,))
            elif 'file' in v:
                grp(v['file'], p + (k,))
    go(tree, ())
    return out


def apply(path, kind, model, upd, force, state):
    if kind == 'eqn':
        state[path].update(upd)
    elif kind == 'group':
        for p, _ in lib.leaves(model, path):
            state[p].update(upd)
    else:
        eff = dict(upd)
        if not force:
            for v in model.values():
                if 'vars' in v:
                    eff.update(v['vars'])
        for k, v in model.items():
            if 'file' in v:
                apply(path + (k,), 'group', v['file'], eff, force, state)
            elif 'dir' in v:
                apply(path + (k,), 'dir', v['dir'], eff, force, state)


def pred_history(case, ctx):
    tree = case['tree']
    d = os.path.join(scratch_dir(), 'lib')
    lib.write(tree, d)
    obj = must('directory', EquationDirectory, d)
    twin = must('directory', EquationDirectory, d)
    fresh = scope(tree)
    state = copy.deepcopy(fresh)
    nodes = {p: lib.node_of(e) for p, e in lib.dir_leaves(tree)}
    tg = targets(tree)
    n = 0
    partial = False
    for op in case['ops']:
        path, kind, model = tg[op['at'] % len(tg)]
        o = obj['::'.join(path)] if path else obj
        upd = dict(op['set'])
        force = op['force'] == 0 and kind == 'dir'
        before = copy.deepcopy(state)
        what = 'after {} on {} {}'.format(upd, kind, '::'.join(path))
        if op['none'] and kind != 'dir':
            must(what, o.set_default_variables, None)
        elif kind == 'dir':
            must(what, o.set_default_variables, upd, force_update=force)
            apply(path, kind, model, upd, force, state)
        else:
            must(what, o.set_default_variables, upd)
            apply(path, kind, model, upd, force, state)
        expect(upd == op['set'], 'the given dictionary changed')
        upd.clear()
        upd['depth'] = -9.0        # and is not kept
        changed = [p for p in nodes if before[p] != state[p]]
        partial = partial or 0 < len(changed) < len(nodes)
        ctx.label('set on ' + kind + (' forced' if force else ''))
        for p, node in nodes.items():
            key = '::'.join(p)
            n += check_defaults('{}: {}'.format(what, key), obj[key], node,
                                state[p], case['values'], ctx)
        if nodes:
            n += check_sum(what, obj, nodes, state, case['ops'][0]['at'],
                           case['values'])
    for p, node in nodes.items():
        check_defaults('other object', twin['::'.join(p)], node, fresh[p],
                       case['values'], ctx)
    ctx.nontriv(n > 0 and partial)


# ----------------------------------------------------------------------
@st.composite
def case_config(draw):
    vs = libgen.VARS[:5]
    tree = draw(libgen.directory(variables=vs, levels=1, with_vars=True,
                                 dirs=(0, 2), nested=1, hi=3))
    consts = {k: draw(gen.signed) for k in vs if draw(st.integers(0, 2))
              == 0}
    return {'tree': tree, 'consts': consts,
            'late': draw(st.booleans()), 'alias': draw(st.booleans()),
            'supply': [draw(st.booleans()) for _ in vs],
            'text': draw(st.booleans()),
            'values': draw(gen.values(vs, arrays=False))}


def pred_config(case, ctx):
    tree, consts = case['tree'], case['consts']
    vs = libgen.VARS[:5]
    d = os.path.join(scratch_dir(), 'lib')
    lib.write(tree, d)
    base = scope(tree)
    nodes = {p: lib.node_of(e) for p, e in lib.dir_leaves(tree)}
    # outputs are not inputs of each other: entry names are not variables
    cmap = {k: (repr(v) if case['text'] else v) for k, v in consts.items()}
    ent = {}
    where = {}
    for i, p in enumerate(list(nodes)):
        if not ref.variables(nodes[p]) and ref.any_undef(
                ref.reference(nodes[p], {}, ref.U64)[1]):
            continue        # no value: would be refused as a constant
        top = 'top_' + p[0]
        if case['alias'] and len(p) > 2 and not p[0].isdigit():
            # a directory or a group with groups
            ent.setdefault(top, p[0])
        if case['alias'] and case['late'] and top in ent:
            ent['out_{}'.format(i)] = top + '::' + '::'.join(p[1:])
        elif case['alias'] and len(p) > 1:
            g = '::'.join(p[:-1])
            ent.setdefault('grp_' + g.replace('::', '_X_'), g)
            ent['out_{}'.format(i)] = 'grp_' + g.replace('::', '_X_') \
                + '::' + p[-1]
        else:
            ent['out_{}'.format(i)] = '::'.join(p)
        where['out_{}'.format(i)] = p
    used_nodes = {p: nodes[p] for p in where.values()}
    for with_consts in (True, False):
        cfg = {'equation_directory': d}
        eff_c = consts if with_consts else {}
        if with_consts and not case['late']:
            cfg.update(cmap)
        cfg.update(ent)
        if with_consts and case['late']:
            cfg.update(cmap)
        c = must('config', NrwalConfig, cfg)
        need = set()
        for p, node in used_nodes.items():
            need |= {v for v in ref.variables(node)
                     if v not in base[p] and v not in eff_c}
        expect(list(c.required_inputs) == sorted(need),
               'required inputs {} instead of {} with constants {}',
               list(c.required_inputs), sorted(need), eff_c)
        # the equations and groups the config shows have the constants too
        for name, p in where.items():
            full = dict(base[p])
            full.update(eff_c)
            check_defaults('config entry {} with constants {}'.format(
                name, eff_c), c[name], nodes[p], full, case['values'], ctx)
            if 'grp_' + '_X_'.join(p[:-1]) in ent:
                g = 'grp_' + '_X_'.join(p[:-1])
                check_defaults('{} in config entry {} with constants {}'
                               .format(p[-1], g, eff_c), c[g][p[-1]],
                               nodes[p], full, case['values'], ctx)
            if 'top_' + p[0] in ent:
                g = 'top_' + p[0]
                key = '::'.join(p[1:])
                check_defaults('{} in config entry {} with constants {}'
                               .format(key, g, eff_c), c[g][key],
                               nodes[p], full, case['values'], ctx)
        inp = {k: case['values'][k] for k, s in zip(vs, case['supply'])
               if s or k in need}
        for rnd in range(2):
            given = inp if rnd == 0 else {k: case['values'][k] for k in need}
            if rnd:
                c.inputs = None
            ok, out = attempt(c.evaluate, given)
            exps = {}
            for name, p in where.items():
                full = dict(base[p])
                full.update(eff_c)
                full.update(given)
                _, exps[name] = ref.reference(nodes[p], {
                    k: full[k] for k in ref.variables(nodes[p])}, ref.U64)
            if not ok:
                if not any(ref.any_undef(e) for e in exps.values()):
                    raise Violation('evaluate({}) with constants {} raised '
                                    '{!r}'.format(given, eff_c, out))
                continue
            for name, p in where.items():
                if not ref.variables(nodes[p]):
                    continue
                expect(name in out, 'no output {}', name)
                k = ref.check_value(
                    '{} = {} with {} and constants {}'.format(
                        name, ref.render(nodes[p]), given, eff_c),
                    out[name], False, exps[name], ref.U64)
                used = [v for v in ref.variables(nodes[p]) if v in eff_c
                        and v in base[p]]
                ctx.nontriv(k and used)
                if k and used:
                    ctx.label('constant overrides default')
                if k and any(v in given for v in used):
                    ctx.label('input overrides constant')
    # the library itself is as it was
    obj = EquationDirectory(d)
    for p, node in nodes.items():
        check_defaults('library', obj['::'.join(p)], node, base[p],
                       case['values'], ctx)


@st.composite
def case_group(draw):
    vs = libgen.VARS[:4]
    g = draw(libgen.group(vs, lo=2, hi=4, nested=2))
    return {'group': g, 'at': draw(st.integers(0, 9)),
            'ops': [{'at': draw(st.integers(0, 9)), 'set': {
                draw(st.sampled_from(vs)): draw(gen.signed)}}
                for _ in range(3)],
            'values': draw(gen.values(vs, arrays=False))}


def pred_group(case, ctx):
    """The same for a group made from a dictionary (no files)."""
    g = case['group']
    obj = must('group', EquationGroup, lib.plain(g))
    tg = [((), 'group', g)] + [(p, 'group', None)
                               for p, _ in lib.group_objects(g)]
    tg += [(p, 'eqn', None) for p, _ in lib.leaves(g)]
    nodes = {p: lib.node_of(e) for p, e in lib.leaves(g)}
    state = {p: {} for p in nodes}
    n = 0
    for op in case['ops']:
        path = tg[op['at'] % len(tg)][0]
        o = obj['::'.join(path)] if path else obj
        must('set', o.set_default_variables, dict(op['set']))
        hit = 0
        for p in nodes:
            if p[:len(path)] == path:
                state[p].update(op['set'])
                hit += 1
        for p, node in nodes.items():
            n += check_defaults('after {} on {}: {}'.format(
                op['set'], path, p), obj['::'.join(p)], node, state[p],
                case['values'], ctx)
        n += check_sum('after {} on {}'.format(op['set'], path), obj, nodes,
                       state, case['ops'][0]['at'], case['values'])
        ctx.nontriv(n and 0 < hit < len(nodes))


# ----------------------------------------------------------------------
@st.composite
def case_lookups(draw):
    vs = libgen.VARS[:3]
    return {'low': draw(gen.expr(gen.vleaves(vs), depth=1, cmps=False)),
            'high': draw(gen.expr(gen.vleaves(vs), depth=1, cmps=False)),
            'interp': draw(st.booleans()), 'year': draw(st.booleans()),
            'dir': draw(st.booleans()), 'at': draw(st.integers(1, 7)),
            'ops': [[draw(st.sampled_from(['all', 'all', 'all', 'file', 'low',
                                           'high'])),
                     {k: draw(gen.signed) for k in draw(st.lists(
                         st.sampled_from(vs), min_size=1, max_size=2,
                         unique=True))}]
                    for _ in range(draw(st.integers(1, 4)))],
            'values': draw(gen.values(vs, arrays=False))}


def pred_lookups(case, ctx):
    """Equations looked up by power or year have the current defaults."""
    fmt = 'c_{}' if case['year'] else 'c_{}MW'
    base = 2010 if case['year'] else 2
    lo, hi, req = [fmt.format(base + x) for x in (0, 8, case['at'])]
    data = {lo: ref.render(case['low']), hi: ref.render(case['high'])}
    kind = 'year' if case['year'] else 'power'
    flags = {('interp_extrap_' if case['interp'] else 'use_nearest_')
             + kind: True}
    if case['dir']:
        d = os.path.join(scratch_dir(), 'lib')
        os.makedirs(os.path.join(d, 's'))
        lib.dump(data, os.path.join(d, 's', 'g.yaml'))
        obj = must('directory', EquationDirectory, d, **flags)
        pre = 's::g::'
    else:
        obj = must('group', EquationGroup, data, **flags)
        pre = ''
    state = {lo: {}, hi: {}}
    nodes = {lo: case['low'], hi: case['high']}
    n = 0
    for who, upd in [[None, {}]] + case['ops']:
        what = 'after {} on {}'.format(upd, who)
        if who is not None:
            o = obj
            if who == 'file' and case['dir']:
                o = obj['s::g']
            elif who in ('low', 'high'):
                o = obj[pre + (lo if who == 'low' else hi)]
            must(what, o.set_default_variables, dict(upd))
            for k in state:
                if who in ('all', 'file') or k == (lo if who == 'low'
                                                   else hi):
                    state[k].update(upd)
        if case['interp']:
            a, b = ref.variables(nodes[lo]), ref.variables(nodes[hi])
            none = object()
            if any(state[lo].get(v, none) != state[hi].get(v, none)
                   for v in a & b):
                continue
            w = case['at'] / 8.0
            node = ['b', '+', ['b', '*', nodes[lo], ['n', repr(1.0 - w)], 0],
                    ['b', '*', nodes[hi], ['n', repr(w)], 0], 0]
            dflt = {v: x for v, x in state[lo].items() if v in a}
            dflt.update({v: x for v, x in state[hi].items() if v in b})
        else:
            if case['at'] == 4:
                return
            k = lo if case['at'] < 4 else hi
            node, dflt = nodes[k], state[k]
        eqn = must('{}: {}'.format(what, req), lambda: obj[pre + req])
        full = dict(case['values'], **dflt)
        names = sorted(ref.variables(node))
        for v in names:
            # (the other part may have one for a name it does not read)
            expect(v not in dflt or v in eqn.default_variables,
                   '{}: {} of {}: defaults are {}', what, v, req,
                   eqn.default_variables)
        try:
            parts = [ref.evaluate(nodes[k], {v: ref.literal(full[v]) for v in
                                             ref.variables(nodes[k])})
                     for k in (lo, hi)]
            want = ref.evaluate(node, {v: ref.literal(full[v])
                                       for v in names})
        except ref.Undef:
            continue
        ok, got = attempt(eqn.evaluate, **{v: full[v] for v in names
                                           if v not in dflt})
        if not ok:
            raise Violation('{}: {} raised {!r}'.format(what, req, got))
        # the code computes low + (high - low) * w
        size = sum(abs(x.v) + x.e for x in parts) if case['interp'] else 0.0
        tol = want.e + 1e-9 * (size + abs(want.v))
        if not np.isfinite(want.v) or not np.isfinite(tol):
            continue
        expect(abs(float(got) - want.v) <= tol, '{}: {} = {!r} instead of '
               '{!r}', what, req, got, want.v)
        n += 1
    ctx.label('interpolated' if case['interp'] else 'nearest')
    ctx.nontriv(n > 1 and any(state.values()))


# ----------------------------------------------------------------------
@st.composite
def case_override(draw):
    lv = gen.vleaves(['fcr', 'a'])
    if draw(st.booleans()):
        lv = lv + [draw(cfg.np_call(lv, 1))]
    node = draw(gen.expr(lv, depth=draw(st.integers(0, 2)), funcs=False,
                         cmps=False))
    return {'node': node, 'lib': draw(gen.expr(gen.vleaves(['fcr', 'dd']),
                                               depth=2, cmps=False)),
            'file': draw(st.booleans()),
            'values': {k: draw(gen.signed)
                       for k in ('const', 'fcr', 'a', 'dd', 'dflt')}}


def inline(node, num):
    """The tree with fcr as number wherever it is not in a numpy call."""
    t = node[0]
    if t == 'v':
        return num if node[1] == 'fcr' else node
    if t in ('p', 'u'):
        return [t, inline(node[1], num)] + node[2:]
    if t in ('b', 'c'):
        return [t, node[1], inline(node[2], num),
                inline(node[3], num)] + node[4:]
    return node


def value_of(node, vals):
    try:
        x = ref.evaluate(node, {k: ref.literal(v) for k, v in vals.items()})
        return ref.boolean(x)
    except ref.Undef as e:
        return e


def pred_override(case, ctx):
    vals = case['values']
    node, lnode = case['node'], case['lib']
    given = {k: vals[k] for k in ('fcr', 'a', 'dd')}
    const = dict(given, fcr=vals['const'])
    flat = inline(node, ['n', repr(vals['const'])])
    exp = [value_of(n, e) for n in (node, lnode) for e in (given, const)]
    exp.append(value_of(flat, given))
    if any(isinstance(x, ref.Undef) for x in exp) or not ref.variables(node):
        return
    s = scratch_dir()
    lib.write({'eqs': {'file': {'e1': {'e': lnode}}, 'ext': 'yaml'},
               'variables': {'vars': {'fcr': vals['dflt'], 'dd': 3.0},
                             'ext': 'yaml'}}, os.path.join(s, 'lib'))
    data = {'equation_directory': os.path.join(s, 'lib'),
            'fcr': vals['const'], 'o': ref.render(node), 'l': 'eqs::e1',
            'twice': 'eqs::e1 * 2'}
    src = data
    if case['file']:
        src = os.path.join(s, 'c.yaml')
        lib.dump(data, src)
    c = must('config {}'.format(data), NrwalConfig, src)

    def get(name, inputs):
        out = must('evaluate {} with {}'.format(data, inputs), c.evaluate,
                   dict(inputs))
        return out[name] if name in out else c.global_variables[name]

    base = {k: vals[k] for k in ('a', 'dd')}
    ref.check_value('o of {} with {}'.format(data, base), get('o', base),
                    False, exp[1:2], ref.U64)
    # a constant overrides the default of the library
    ref.check_value('l of {} with {}'.format(data, base), get('l', base),
                    False, exp[3:4], ref.U64)
    # an input overrides the constant
    ref.check_value('l of {} with {}'.format(data, given), get('l', given),
                    False, exp[2:3], ref.U64)
    two = ref.Num(2 * exp[2].v, 2 * exp[2].e) if ref.variables(lnode) \
        else exp[2]
    if ref.variables(lnode):
        ref.check_value('twice of {} with {}'.format(data, given),
                        get('twice', given), False, [two], ref.U64)
    got = get('o', given)
    what = 'o of {} with {}'.format(data, given)
    ok, err = attempt(ref.check_value, what, got, False, exp[:1], ref.U64)
    if not ok:
        if not attempt(ref.check_value, what, got, False, exp[4:],
                       ref.U64)[0]:
            raise err
        ctx.known_finding('C09-inlined-constant')
        ctx.label('constant inlined (known finding)')
    ctx.nontriv('fcr' in ref.variables(node) | ref.variables(lnode)
                and vals['fcr'] != vals['const'])


SUBS = [
    Sub('scope', case_scope(), pred_scope, 400, 8000),
    Sub('history', case_history(), pred_history, 400, 8000),
    Sub('config', case_config(), pred_config, 500, 8000),
    Sub('group', case_group(), pred_group, 300, 5000),
    Sub('lookups', case_lookups(), pred_lookups, 300, 5000),
    Sub('override', case_override(), pred_override, 300, 5000),
]
