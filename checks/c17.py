"""C17: every shipped library equation computes its published formula."""
import numpy as np

from harness import interp
from harness.core import Sub, st, attempt, expect, must, Violation
from NRWAL import EquationDirectory, EquationGroup, NrwalConfig

RULE = ('A case evaluates every equation of the packaged library at one '
        'generated point (value class per variable, scalars or arrays, '
        'defaults used or overridden) and compares with the frozen formulas; '
        'non-trivial: at least 900 equations with a defined value were '
        'compared.')
ASSUMPTIONS = ['the published formulas are the library files of the pinned '
               'commit, kept in /verif/frozen']

LIB = interp.Library()
EQS = LIB.equations()
READS = [sorted(interp.reads(g, k)) for _, g, k in EQS]
DFLT = [LIB.default_of(LIB.file_dir(p)) for p, _, _ in EQS]
RANGES = [(0.2, 2), (1, 60), (0.01, 1.0), (20, 3000), (1, 15), (-3, 40),
          (1e3, 1e6), (1e-4, 1e-1)]
SPECIAL = [0.0, 1.0, 0.5, 100.0, 1e-3]


def draw_value(seed, name, mode, n):
    r = np.random.RandomState([seed % (2 ** 32), sum(
        (i + 1) * ord(c) for i, c in enumerate(name))])
    lo, hi = RANGES[r.randint(len(RANGES))] if mode['mixed'] \
        else RANGES[mode['range']]
    if n is None:
        if mode['special'] and r.randint(6) == 0:
            return SPECIAL[r.randint(len(SPECIAL))]
        return float(np.round(r.uniform(lo, hi), 4))
    x = np.round(r.uniform(lo, hi, n), 4)
    if mode['special'] and r.randint(6) == 0:
        x[r.randint(n)] = SPECIAL[r.randint(len(SPECIAL))]
    return x


case_library = st.fixed_dictionaries({
    'seed': st.integers(0, 10 ** 6),
    'mode': st.fixed_dictionaries({
        'mixed': st.booleans(), 'range': st.integers(0, len(RANGES) - 1),
        'special': st.booleans()}),
    'n': st.sampled_from([None, None, 1, 2, 4]),
    'scalar_some': st.booleans(),
    'override': st.sampled_from(['none', 'some', 'all']),
    'route': st.sampled_from(['package', 'package', 'sub', 'file'])})


def close(a, b, rtol=1e-6):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=0,
                                              equal_nan=True)


def defined(x):
    x = np.asarray(x)
    return x.dtype.kind in 'fib' and bool(np.all(np.isfinite(x)))


def pred_library(case, ctx):
    root = NrwalConfig.DEFAULT_DIR
    objs = {}

    def get(path):
        text = '::'.join(path)
        if case['route'] == 'package':
            if () not in objs:
                objs[()] = EquationDirectory(root)
            return objs[()][text]
        if case['route'] == 'sub':
            if path[0] not in objs:
                objs[path[0]] = EquationDirectory(root + '/' + path[0])
            return objs[path[0]]['::'.join(path[1:])]
        fp = path[:2]
        if fp not in objs:
            objs[fp] = EquationGroup('{}/{}.yaml'.format(root, '/'.join(fp)))
        return objs[fp]['::'.join(path[2:])]

    done = 0
    for (path, group, name), names, dflt in zip(EQS, READS, DFLT):
        what = '::'.join(path)
        if case['route'] == 'file':
            dflt = {}
        e = must('{} of the library'.format(what), get, path)
        got = must(what + ' variables', lambda: list(e.variables))
        expect(got == names, '{}: variables {} instead of {}', what, got,
               names)
        kw = {}
        full = {}
        for v in names:
            n = case['n']
            if n is not None and case['scalar_some'] and sum(
                    map(ord, v)) % 3 == 0:
                n = None
            x = draw_value(case['seed'], v, case['mode'], n)
            if v in dflt and (case['override'] == 'none' or case[
                    'override'] == 'some' and sum(map(ord, v)) % 2):
                full[v] = float(dflt[v])
            else:
                kw[v] = full[v] = x
        exp_ok, exp = attempt(interp.value, group, name, full.__getitem__)
        if exp_ok and not defined(exp):
            exp_ok = False
        args = {k: np.array(v) if isinstance(v, np.ndarray) else v
                for k, v in kw.items()}
        ok, got = attempt(e.evaluate, **args)
        if not exp_ok:
            continue
        if not ok:
            raise Violation('{} with {} raised {!r}'.format(what, kw, got))
        expect(close(got, exp), '{} with {} (defaults {}): {} instead of {}',
               what, kw, {k: v for k, v in full.items() if k not in kw}, got,
               exp)
        done += 1
        if names and case['n'] is None and done % 40 == 0:
            # every published input is needed
            v = sorted(set(kw) - set(dflt))[:1]
            if v:
                ok, got = attempt(e.evaluate, **{k: x for k, x in kw.items()
                                                 if k != v[0]})
                expect(not ok, '{} without {} gave {}', what, v, got)
    for pre, vs in LIB.defaults.items():
        if case['route'] == 'package':
            for k, v in vs.items():
                p = '::'.join(pre + ('variables', k))
                got = must(p, lambda: objs[()][p])
                expect(float(got) == float(v), '{} is {} instead of {}', p,
                       got, v)
    ctx.labels['equations compared'] += done
    ctx.label(case['route'])
    ctx.nontriv(done >= 900)


ALWAYS = [
    {'seed': 11, 'mode': {'mixed': True, 'range': 0, 'special': False},
     'n': None, 'scalar_some': False, 'override': 'none',
     'route': 'package'},
    {'seed': 12, 'mode': {'mixed': False, 'range': 0, 'special': False},
     'n': 3, 'scalar_some': True, 'override': 'some', 'route': 'package'},
    {'seed': 13, 'mode': {'mixed': False, 'range': 1, 'special': False},
     'n': None, 'scalar_some': False, 'override': 'all', 'route': 'sub'},
    {'seed': 14, 'mode': {'mixed': True, 'range': 0, 'special': False},
     'n': 2, 'scalar_some': False, 'override': 'none', 'route': 'file'}]


def always(seed):
    return [dict(c, seed=c['seed'] + 100 * seed) for c in ALWAYS]


SUBS = [Sub('library', case_library, pred_library, 160, 2400, cpu_s=60,
            shards=8, always=always)]
