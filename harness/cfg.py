"""Model of NRWAL configs: generation, reference values, real object.

A case has 'tree' (library model of harness/lib.py), 'entries' (list of
[name, spec] in dependency order) and 'order' (the order they are written).
Specs: {'const': number or text}, {'expr': tree}, {'alias': library path of a
group or directory}.  In expressions ['v', name] is an input or another entry,
['r', path] a library equation, possibly through an alias entry.
"""
import os

from harness import gen, lib, libgen, ref
from harness.core import st

SHARED = ['depth', 'dist', 'rate', 'cap_mw']
PRIVATE = {(): 'r0', ('sub',): 'pv_a', ('top2',): 'pv_b'}
TAKEN = set(libgen.FILE_NAMES) | set(libgen.DIR_NAMES) | set(SHARED) \
    | set(PRIVATE.values()) | {'eqns', 'sub', 'top2', 'array', 'variables'}
POOL = [n for n in gen.NAMES if n not in TAKEN]


@st.composite
def library(draw):
    tree = {'eqns': {'file': {}, 'ext': draw(st.sampled_from(libgen.EXTS))}}
    tree['eqns']['file'] = draw(lib_group(SHARED + ['r0'], 1))
    for d in ('sub', 'top2'):
        if d == 'sub' or draw(st.booleans()):
            tree[d] = {'dir': {'array': {
                'file': draw(lib_group(SHARED[:2] + [PRIVATE[(d,)]] * 2, 1)),
                'ext': draw(st.sampled_from(libgen.EXTS))}}}
    # defaults: a private name is read in one directory only; when another
    # directory defines it, too, the own one does
    vs = {(): {}}
    for d in ('sub', 'top2'):
        if d in tree:
            vs[(d,)] = {}
    if draw(st.booleans()):
        vs[()][draw(st.sampled_from(SHARED))] = draw(gen.signed)
    for p in list(vs):
        if draw(st.booleans()):
            for q in vs:
                if q == p or draw(st.integers(0, 2)) == 0:
                    vs[q][PRIVATE[p]] = draw(gen.signed)
    for p, v in vs.items():
        if v:
            t = tree if not p else tree[p[0]]['dir']
            t['variables'] = {'vars': v, 'ext': draw(st.sampled_from(
                libgen.EXTS))}
    return tree


@st.composite
def lib_group(draw, variables, nested):
    g = draw(libgen.group(variables, lo=1, hi=3, depth=2, nested=nested))

    def fix(g):
        for k, v in g.items():
            if 'g' in v:
                fix(v['g'])
            elif 'e' in v and not ref.variables(v['e']):
                g[k] = {'num': 2.5}
    fix(g)
    return g


def lib_eqs(tree):
    """path text -> (node, is in directory)."""
    out = {'::'.join(p): lib.node_of(e) for p, e in lib.dir_leaves(tree)}
    # values of the variables files
    for pre, t in [('', tree)] + [(k + '::', v['dir'])
                                  for k, v in tree.items() if 'dir' in v]:
        for k, x in t.get('variables', {}).get('vars', {}).items():
            out[pre + 'variables::' + k] = ['n', repr(x)]
    return out


def lib_defaults(tree):
    """name -> default of the names library equations read."""
    out = {}
    for p, name in PRIVATE.items():
        t = tree
        if p:
            if p[0] not in tree:
                continue
            t = tree[p[0]]['dir']
        for src in (t, tree):
            v = src.get('variables', {}).get('vars', {})
            if name in v:
                out[name] = v[name]
                break
    for k, v in tree.get('variables', {}).get('vars', {}).items():
        if k in SHARED:
            out[k] = v
    return out


def lib_objects(tree):
    out = ['::'.join(p) for p, _ in lib.objects(tree)]
    for pre, t in [('', tree)] + [(k + '::', v['dir'])
                                  for k, v in tree.items() if 'dir' in v]:
        if 'variables' in t:
            out.append(pre + 'variables')
    return out


@st.composite
def np_call(draw, leaves, depth=1):
    k = draw(st.integers(0, 3))
    args = [draw(gen.expr(leaves, depth=depth, bare_cmp=False))
            for _ in range(3)]
    if k == 0:
        return ['f', draw(st.sampled_from(gen.FUN1)), args[:1], 0]
    if k <= 2:
        return ['f', draw(st.sampled_from(gen.FUN2)), args[:2],
                draw(st.integers(0, 1))]
    return ['f', 'np.where', [['c', draw(st.sampled_from(gen.CMP)), args[2],
                               draw(gen.expr(leaves, depth=0))], args[0],
                              args[1]], draw(st.integers(0, 5))]


number_entry = st.one_of(
    st.integers(-5, 20), gen.dec_val2,
    st.sampled_from(['3', '2.5', '1e2', '-4', '1.5e-2', '-0.25', '0', '7.0']),
    gen.dec_val2.map(lambda x: -x))


@st.composite
def config(draw, hi=7, arrays=True, funcs=True, library_refs=True, lo=2,
           depth=3):
    tree = draw(library())
    dflt = lib_defaults(tree)
    eqs = lib_eqs(tree)
    names = draw(st.lists(st.sampled_from(POOL), min_size=lo + 3,
                          max_size=hi + 4, unique=True))
    n_in = draw(st.integers(1, 3))
    inputs = names[:n_in] + [s for s in SHARED if s not in dflt]
    ents = names[n_in:][:hi]
    # some entries give values to names that library equations read
    over = [n for n in SHARED + sorted(PRIVATE.values())]
    for n in draw(st.lists(st.sampled_from(over), max_size=2, unique=True)):
        ents.insert(draw(st.integers(0, len(ents))), n)
        inputs = [x for x in inputs if x != n]
    entry_set = set(ents)
    out = []
    earlier = []
    aliases = {}
    for i, name in enumerate(ents):
        late = set(ents[i:])
        refs = [p for p, node in eqs.items()
                if not ref.variables(node) & late] if library_refs else []
        for a, target in aliases.items():
            refs += [a + p[len(target):] for p in list(refs)
                     if p.startswith(target + '::')]
        k = draw(st.integers(0, 11))
        vl = gen.vleaves(inputs[:3] + inputs[3:][:1] + earlier[-4:])
        special = name in over
        if k <= 1:
            out.append([name, {'const': draw(number_entry)}])
        elif k == 2 and library_refs and not special:
            target = draw(st.sampled_from(lib_objects(tree)))
            # also through another alias
            text = target
            for a, t in aliases.items():
                if target.startswith(t + '::') and draw(st.booleans()):
                    text = a + target[len(t):]
                elif target == t and draw(st.booleans()):
                    text = a
            out.append([name, {'alias': text}])
            aliases[name] = target
            continue
        elif k == 3 and earlier:
            out.append([name, {'expr': ['v', draw(st.sampled_from(
                earlier))]}])
        elif k == 4 and refs:
            out.append([name, {'expr': ['r', draw(st.sampled_from(refs))]}])
        elif k == 5 and funcs and vl:
            out.append([name, {'expr': draw(np_call(vl, 2))}])
        else:
            lv = list(vl)
            rl = [['r', p] for p in refs]
            if rl:
                lv += draw(st.lists(st.sampled_from(rl), min_size=1,
                                    max_size=3))
            if funcs and draw(st.booleans()):
                one = draw(np_call(vl, 1))
                lv.append(one)
                if draw(st.integers(0, 2)) == 0:
                    lv.append(draw(np_call([one] + vl, 0)))
            node = draw(gen.expr(lv, depth=draw(st.integers(1, depth)),
                                 funcs=False, cmps=False))
            out.append([name, {'expr': node}])
        earlier.append(name)
    order = list(draw(st.permutations(list(range(len(out))))))
    allnames = sorted(set(inputs) | set(SHARED) | set(PRIVATE.values()))
    vals = draw(gen.values([n for n in allnames if n not in entry_set],
                           arrays=arrays))
    return {'tree': tree, 'entries': out, 'order': order, 'values': vals,
            'give': draw(st.lists(st.sampled_from(sorted(dflt) or ['r0']),
                                  max_size=2, unique=True))}


class Model:
    """Reference semantics of a generated config."""

    def __init__(self, case, drop=()):
        self.tree = case['tree']
        self.eqs = lib_eqs(self.tree)
        self.dflt = lib_defaults(self.tree)
        self.spec = {n: s for n, s in case['entries'] if n not in drop}
        self.alias = {}
        for n, s in case['entries']:
            if 'alias' in s and n in self.spec:
                self.alias[n] = self.full(s['alias'])
        self.names = [n for n, s in case['entries'] if n in self.spec]
        self.order = [case['entries'][i][0] for i in case['order']
                      if case['entries'][i][0] in self.spec]
        self.entries = set(self.spec)
        self._vars = {}

    def full(self, text):
        """Library path of a reference, without aliases."""
        first, _, rest = text.partition('::')
        while first in self.alias:
            text = self.alias[first] + ('::' + rest if rest else '')
            first, _, rest = text.partition('::')
            if first not in self.alias:
                break
        return text

    def is_eqn(self, name):
        return 'alias' not in self.spec[name]

    def node(self, name):
        s = self.spec[name]
        if 'const' in s:
            return ['n', str(s['const'])] if not str(s['const']).startswith(
                '-') else ['u', ['n', str(s['const'])[1:]], 0]
        return s['expr']

    def number(self, name):
        return 'const' in self.spec[name]

    # ------------------------------------------------------------------
    def reads(self, name):
        """Names one entry reads directly (inputs, entries, lib variables)."""
        return self._reads(self.node(name))

    def _reads(self, node):
        out = set(ref.variables(node))
        for r in ref.refs(node):
            out |= ref.variables(self.eqs[self.full(r)])
        return out

    def refs_alias(self, name):
        return {r.partition('::')[0] for r in ref.refs(self.node(name))}

    def deps(self, name):
        out = set()
        todo = [name]
        while todo:
            for x in self.reads(todo.pop()):
                if x in self.entries and x not in out:
                    out.add(x)
                    todo.append(x)
        return out

    def flat(self, name, inline_calls=False):
        """Variables left after arithmetic references are inserted."""
        key = (name, inline_calls)
        if key not in self._vars:
            self._vars[key] = self._flat(self.node(name), inline_calls)
        return self._vars[key]

    def _flat(self, node, inline_calls, top=True):
        t = node[0]
        if t == 'v':
            if node[1] in self.entries and (top or inline_calls):
                return self.flat(node[1], inline_calls)
            return {node[1]}
        if t == 'r':
            return set(ref.variables(self.eqs[self.full(node[1])]))
        if t == 'n':
            return set()
        if t in ('p', 'u'):
            return self._flat(node[1], inline_calls, top)
        if t in ('b', 'c'):
            return (self._flat(node[2], inline_calls, top)
                    | self._flat(node[3], inline_calls, top))
        out = set()
        for x in node[2]:
            out |= self._flat(x, inline_calls, False)
        return out

    def constants(self):
        """Entries that depend on nothing else."""
        return [n for n in self.names if self.is_eqn(n) and not self.flat(n)]

    def maybe_constants(self):
        return [n for n in self.names if self.is_eqn(n)
                and not self.flat(n, True)]

    def equations(self):
        const = set(self.maybe_constants())
        return [n for n in self.names if self.is_eqn(n) and n not in const]

    def required(self):
        out = set()
        for n in self.names:
            if self.is_eqn(n):
                out |= {v for v in self.reads(n) if v not in self.entries
                        and v not in self.dflt}
        return sorted(out)

    def used_defaults(self):
        out = set()
        for n in self.names:
            if self.is_eqn(n):
                out |= {v for v in self.reads(n) if v not in self.entries
                        and v in self.dflt}
        return out

    # ------------------------------------------------------------------
    def values(self, inputs, u):
        """name -> (is_array, [Num or Undef]) for every equation entry."""
        lens = {len(v) for v in inputs.values() if isinstance(v, list)}
        m = max(lens) if lens else 1
        out = {}
        arr = {}
        for n in self.names:
            if not self.is_eqn(n):
                continue
            node = self.node(n)
            rd = self.reads(n)
            arr[n] = any(arr[x] if x in self.entries else
                         isinstance(inputs.get(x), list) for x in rd)
            col = []
            for i in range(m):
                env = {}
                for x in rd:
                    if x in self.entries:
                        env[x] = out[x][1][i]
                    else:
                        v = inputs.get(x, self.dflt.get(x))
                        v = v[i] if isinstance(v, list) else v
                        env[x] = ref.literal(v, u)
                try:
                    for r in ref.refs(node):
                        try:
                            env[r] = ref.evaluate(self.eqs[self.full(r)], env,
                                                  u)
                            env[r] = ref.boolean(env[r])
                        except ref.Undef as e:
                            env[r] = e
                    x = ref.evaluate(node, env, u)
                    col.append(ref.boolean(x))
                except ref.Undef as e:
                    col.append(e)
            out[n] = (arr[n], col)
        return {n: (a, c if a else c[:1]) for n, (a, c) in out.items()}

    def plain(self, directory, order=None):
        cfg = {'equation_directory': directory} if directory else {}
        for n in (order or self.order):
            s = self.spec[n]
            if 'const' in s:
                cfg[n] = s['const']
            elif 'alias' in s:
                cfg[n] = s['alias']
            else:
                cfg[n] = ref.render(s['expr'])
        return cfg


def pruned(case, inputs, u):
    """Model without entries whose value is not determined (and users)."""
    m = Model(case)
    vals = m.values(inputs, u)
    bad = {n for n, (a, c) in vals.items() if ref.any_undef(c)}
    if bad:
        for n in m.names:
            if m.is_eqn(n) and m.deps(n) & bad:
                bad.add(n)
        # a bare name of a dropped entry must not become an input
        m = Model(case, bad)
        vals = m.values(inputs, u)
    return m, vals


def given_inputs(case):
    """Inputs to supply: everything without default, some defaults."""
    dflt = lib_defaults(case['tree'])
    return {k: v for k, v in case['values'].items()
            if k not in dflt or k in case['give']}


def unit(inputs):
    return ref.U32 if any(isinstance(v, list) for v in inputs.values()) \
        else ref.U64


def real_inputs(inputs, np):
    return {k: (np.array(v, dtype=float) if isinstance(v, list) else v)
            for k, v in inputs.items()}


def write_library(case, scratch):
    d = os.path.join(scratch, 'lib')
    lib.write(case['tree'], d)
    return d
