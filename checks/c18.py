"""C18: every shipped default config reproduces its cost model."""
import os

import numpy as np
import pandas as pd

from harness import interp
from harness.core import Sub, st, attempt, expect, must, Violation
from checks.c17 import close, defined, draw_value
from NRWAL import NrwalConfig

RULE = ('A case builds one packaged config and evaluates it at a generated '
        'point (scalars, site arrays, data frames, or time-by-site profiles; '
        'library defaults used or overridden); every output is compared with '
        'a step-by-step evaluation of the frozen config over the frozen '
        'library; non-trivial: at least 10 outputs that depend on inputs '
        'were compared.')
ASSUMPTIONS = ['the cost model is the config and library files of the pinned '
               'commit, kept in /verif/frozen',
               'inputs do not override constants of the config (see C09)']
MEM_GB = 4

FILES = interp.config_files()
_REF = {}


def reference(i):
    if i not in _REF:
        _REF[i] = interp.Config(os.path.join(interp.CONFIGS, FILES[i]))
    return _REF[i]


FORMS = ['scalar', 'array', 'frame', 'mixed', 'profile']
case_config = st.fixed_dictionaries({
    'config': st.integers(0, len(FILES) - 1),
    'seed': st.integers(0, 10 ** 6),
    'points': st.lists(st.fixed_dictionaries({
        'mode': st.fixed_dictionaries({
            'mixed': st.booleans(), 'range': st.integers(0, 4),
            'special': st.booleans()}),
        'form': st.sampled_from(FORMS), 'n': st.integers(1, 4),
        'override': st.sampled_from([0, 0, 1, 2])}),
        min_size=1, max_size=3)})


def make_inputs(case, j, pt, r):
    names = r.required()
    inputs = {}
    for v in names:
        n = pt['n']
        if pt['form'] == 'scalar' or pt['form'] == 'mixed' and sum(
                map(ord, v)) % 2:
            n = None
        if pt['form'] == 'profile' and 'profile' not in v:
            n = None
        x = draw_value(case['seed'] + j, v, pt['mode'], n)
        if pt['form'] == 'profile' and 'profile' in v:
            # hours by sites
            x = np.stack([np.atleast_1d(x) * f for f in (0.1, 0.7, 0.4)])
        inputs[v] = x
    if pt['form'] == 'profile' and not any('profile' in v for v in names):
        return None
    dflt = r.defaults()
    over = sorted(dflt)
    over = [v for k, v in enumerate(over)
            if pt['override'] and (k + j) % pt['override'] == 0]
    for v in over:
        inputs[v] = round(float(dflt[v]) * 1.37, 6) + 0.25
    return inputs


def as32(inputs):
    """What a config makes of its inputs: one-dimensional arrays are
    float32."""
    return {k: v.astype(np.float32) if isinstance(v, np.ndarray)
            and v.ndim == 1 else v for k, v in inputs.items()}


def as64(inputs):
    return {k: v.astype(float) if isinstance(v, np.ndarray) else v
            for k, v in as32(inputs).items()}


def finer(inputs):
    return {k: np.asarray(v, dtype=np.longdouble)[()]
            for k, v in dict(inputs).items()}


def stable(a, b):
    return not isinstance(b, Exception) and defined(b) and np.shape(
        a) == np.shape(b) and np.allclose(np.asarray(b, float), np.asarray(
            a, float), rtol=1e-8, atol=0) and not (
                np.ndim(a) == 0 and a == 0 and b != 0)


def pred_config(case, ctx):
    i = case['config']
    r = reference(i)
    f = FILES[i]
    pkg = os.path.dirname(os.path.dirname(NrwalConfig.DEFAULT_DIR))
    fp = os.path.join(os.path.dirname(NrwalConfig.DEFAULT_DIR),
                      'default_configs', f)
    if not os.path.exists(fp):
        fp = os.path.join(pkg, 'default_configs', f)
    c = must('default config {}'.format(f), NrwalConfig, fp)
    for k in r.entries:
        expect(k in c.keys(), '{}: entry {} is missing', f, k)
    got = list(c.required_inputs)
    expect(got == r.required(), '{}: required inputs {} instead of {}', f,
           got, r.required())
    const = [k for k in r.entries if r.constant(k)]
    total = 0
    for j, pt in enumerate(case['points']):
        inputs = make_inputs(case, j, pt, r)
        if inputs is None:
            continue
        with np.errstate(all='ignore'):
            exp = r.values(as64(inputs))
            exp32 = r.values(as32(inputs))
        arg = {k: np.array(v) if isinstance(v, np.ndarray) else v
               for k, v in inputs.items()}
        if pt['form'] == 'frame':
            arg = {k: v if isinstance(v, np.ndarray) else np.full(
                pt['n'], v) for k, v in arg.items()}
            with np.errstate(all='ignore'):
                exp = r.values(as64(arg))
                exp32 = r.values(as32(arg))
            arg = pd.DataFrame(arg)
        # outputs that hang on rounding errors differ in higher precision
        moved = exp
        if not any(np.ndim(v) for v in dict(arg).values()):
            with np.errstate(all='ignore'):
                moved = r.values(finer(inputs))
        c.inputs = None
        ok, out = attempt(c.evaluate, arg)
        undef = [k for k in r.entries if isinstance(exp[k], Exception)]
        if not ok:
            if undef:
                continue
            raise Violation('{} with {} raised {!r}'.format(f, inputs, out))
        arrays = any(isinstance(v, np.ndarray) for v in as32(inputs).values()
                     ) or pt['form'] == 'frame'
        rtol = 2e-3 if arrays else 1e-6
        glob = dict(c.global_variables)
        n = 0
        for k in r.entries:
            have = out[k] if k in out else glob.get(k)
            expect(have is not None, '{}: no output {}', f, k)
            e = exp[k]
            if isinstance(e, Exception) or not defined(e) or not defined(
                    exp32[k]):
                continue
            if arrays and not np.allclose(np.asarray(exp32[k], float), e,
                                          rtol=2e-4, atol=0):
                ctx.label('ill-conditioned in single precision')
                continue
            if not arrays and not stable(e, moved[k]):
                ctx.label('ill-conditioned')
                continue
            expect(close(np.asarray(have, float), np.asarray(e, float),
                         rtol), '{}: {} is {} instead of {} with {}', f, k,
                   have, e, inputs)
            n += k not in const
        total += n
        ctx.labels['outputs compared'] += n
        if not arrays:
            identities(f, dict(glob, **out), inputs)
        ctx.label(pt['form'])
    ctx.label(os.path.dirname(f))
    ctx.nontriv(total >= 10)


# accounting identities between the outputs of one evaluation
IDENTITIES = {
    'osw_2015': [
        ('capex', '(bos + soft + turbine) * capex_multi'),
        ('opex', 'operations + maintenance'),
        ('ncf', 'adjusted_gcf * (1 - total_losses)')],
    'osw_2019': [
        ('_capex', '(bos + soft + turbine) * capex_multi')],
    'osw': [
        ('lcoe', '(capex * fixed_charge_rate + opex) / (ncf * '
                 'turbine_capacity * num_turbines * 8760)'),
        ('electrical', 'array + export + grid'),
        ('install', 'turbine_install + sub_install + pslt'),
        ('subcomponents', 'support + install + electrical')],
    'marine_energy': [
        ('capex', 'device_costs + bos_costs + electrical_costs + '
                  'other_infrastructure'),
        ('total_installed_cost', 'capex * (1 + cost_scalars)'),
        ('lcoe', '(capital_cost * fixed_charge_rate + fixed_operating_cost) '
                 '/ annual_energy')],
    'hydrogen': [
        ('h2_lcoh_component', '(capex_h2 * fcr + opex_h2) / '
                              'hydrogen_annual_kg')]}


def identities(f, out, inputs):
    for fam, rules in IDENTITIES.items():
        if not f.startswith(fam):
            continue
        for k, text in rules:
            env = dict(inputs, **out)
            if k not in out or not interp.names_in(text) <= set(env):
                continue
            ok, want = attempt(eval, text, {}, env)
            if ok and defined(want) and defined(out[k]):
                big = max([abs(float(env[v])) for v in interp.names_in(text)
                           if np.ndim(env[v]) == 0] + [0])
                expect(close(out[k], want, 1e-6) or np.allclose(
                    out[k], want, rtol=1e-6, atol=1e-13 * big),
                       '{}: {} is {} but {} is {}', f, k, out[k], text, want)


def always(seed):
    out = []
    for i, f in enumerate(FILES):
        pts = [{'mode': {'mixed': True, 'range': 0, 'special': False},
                'form': 'scalar', 'n': 2, 'override': i % 3},
               {'mode': {'mixed': False, 'range': 1, 'special': False},
                'form': ['array', 'frame', 'mixed'][(i + seed) % 3], 'n': 3,
                'override': (i + 1) % 3}]
        if f.startswith('hydrogen'):
            pts.append({'mode': {'mixed': False, 'range': 1,
                                 'special': False},
                        'form': 'profile', 'n': 2, 'override': 0})
        out.append({'config': i, 'seed': 1000 * seed + i, 'points': pts})
    # the slow ones spread over the shards
    return sorted(out, key=lambda c: c['config'] * 7 % 52)


SUBS = [Sub('configs', case_config, pred_config, 32, 1600, cpu_s=150,
            shards=8, always=always)]
