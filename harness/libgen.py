"""Strategies for equation libraries (models of harness/lib.py)."""
from harness import gen, ref
from harness.core import st

# variables of generated library equations; never used as entry names
VARS = ['depth', 'dist', 'v1', 'e2', 'n_turb', 'x1e5', 'rate', 'cap_mw', 'd']
EQ_NAMES = ['a', 'b', 'ab', 'a1', 'a_b', 'capex', 'cap', 'array', 'arr',
            'export', 'depth_m', 'dep', 'e5', 'e', 'm2', 'turbine', 'x2',
            'lease', 'opex', 'cost_e', 'pslt', 'pslt_3MW', 'q_2020', 'A',
            'install', 'install_mult', 'np_like', 'C1', 'z9', 'cost-like_',
            'item', 'value', '_cap', 'Capex', 'workspace_1', 'workspace_2',
            'workspace_3']
EQ_NAMES = [n for n in EQ_NAMES if gen.ok_name(n)]
FILE_NAMES = ['eqns', 'array', 'export', 'f1', 'f10', 'monopile', 'a', 'lib',
              'Lib', 'grid_x', 'v', 'e3', 'semi', 'spar', '_f', 'v1.2',
              'semi.v2', '_']
DIR_NAMES = ['osw', 'osw2', '2015', '2019', 'sub', 'deep', 'a', 'a1', 'top',
             'marine_energy', 'v2', 'lbw', '_old', 'r1.0', 'Osw']
EXTS = ['yaml', 'yml', 'json']


# other names of files and directories
WORDS = ['old', 'bak', 'tmp', 'test', 'copy', 'draft', 'config', 'default',
         'data', 'README', 'v1', 'yaml', 'json', 'variables', 'eqn', 'x',
         'Library', 'index', 'init', 'cache', 'build', 'git', 'swp', '2030',
         '\u03b7']


def _ok_stem(s):
    return (not s.startswith(('.', '__')) and s != 'variables'
            and not s.endswith(('.', '.yaml', '.yml', '.json')))


stem = st.one_of(
    st.sampled_from(['2020', '7', '1.5', '1e5', '0', 'variables_2',
                     'variables.old', 'my_variables', 'Variables']),
    st.builds(lambda a, b, c: a + b + c, st.sampled_from(WORDS),
              st.sampled_from(['.', '_', '']), st.sampled_from(WORDS)),
    st.from_regex(r'\A[A-Za-z0-9_.]{1,9}\Z')).filter(_ok_stem)


def stems(pool, odd):
    pool = st.sampled_from(pool)
    return st.one_of(pool, stem) if odd else pool


@st.composite
def group(draw, variables=None, lo=1, hi=4, depth=1, nested=1, names=None,
          const=True):
    """A group without references between entries."""
    variables = variables or VARS
    nms = draw(st.lists(st.sampled_from(names or EQ_NAMES), min_size=lo,
                        max_size=hi, unique=True))
    out = {}
    for n in nms:
        k = draw(st.integers(0, 7))
        if k == 0 and const:
            out[n] = {'num': draw(gen.file_num)}
        elif k <= 2 and nested > 0:
            out[n] = {'g': draw(group(variables, 1, 3, depth, nested - 1,
                                      names, const))}
        else:
            node = draw(gen.expr(gen.vleaves(variables),
                                 depth=draw(st.integers(0, depth)),
                                 bare_cmp=False))
            if not const and not ref.variables(node):
                node = ['b', '*', node, ['v', variables[0]], 0]
            out[n] = {'e': node}
    return out


@st.composite
def directory(draw, variables=None, levels=2, files=(1, 2), dirs=(0, 2),
              depth=1, nested=1, with_vars=False, junk=False, empty=False,
              names=None, hi=3, const=True, odd=False):
    variables = variables or VARS
    out = {}
    nf = draw(st.integers(*files))
    for n in draw(st.lists(stems(FILE_NAMES, odd), min_size=nf,
                           max_size=nf, unique=True)):
        out[n] = {'file': draw(group(variables, 1, hi, depth, nested, names,
                                     const)),
                  'ext': draw(st.sampled_from(EXTS))}
    if with_vars and draw(st.booleans()):
        vs = draw(st.lists(st.sampled_from(variables), min_size=1, max_size=4,
                           unique=True))
        out['variables'] = {'vars': {v: draw(gen.signed) for v in vs},
            'ext': draw(st.sampled_from(EXTS))}
    if levels > 0:
        nd = draw(st.integers(*dirs))
        for n in draw(st.lists(stems(DIR_NAMES, odd), min_size=nd,
                               max_size=nd, unique=True)):
            if n in out:
                continue
            out[n] = {'dir': draw(directory(
                variables, levels - 1, (0 if empty else 1, files[1]), dirs,
                depth, nested, with_vars, junk, empty, names, hi, const, odd))}
    return out


@st.composite
def deep(draw, tree, variables=None, with_vars=True, chance=6):
    """The tree, sometimes below several further directories."""
    if draw(st.integers(0, chance)):
        return tree
    variables = variables or VARS
    for _ in range(draw(st.integers(1, 4))):
        out = {draw(st.sampled_from(DIR_NAMES)): {'dir': tree}}
        if with_vars and draw(st.integers(0, 3)):
            out['variables'] = {
                'vars': {v: draw(gen.signed) for v in draw(st.lists(
                    st.sampled_from(variables), min_size=1, max_size=3,
                    unique=True))}, 'ext': draw(st.sampled_from(EXTS))}
        if draw(st.booleans()):
            n = draw(st.sampled_from(FILE_NAMES))
            if n not in out:
                out[n] = {'file': draw(group(variables, 1, 2, 1, 1)),
                          'ext': draw(st.sampled_from(EXTS))}
        tree = out
    return tree
