"""Reference interpreter for the packaged library and configs.

Works on the frozen copy of the YAML files, with python's own parser for the
formulas and its own resolution of names, paths, defaults, power/year lookups
and pointers.  Shares no code with NRWAL.
"""
import ast
import os
import re

import numpy as np
import yaml

from harness.core import VERIF

FROZEN = os.path.join(VERIF, 'frozen')
LIBRARY = os.path.join(FROZEN, 'analysis_library')
CONFIGS = os.path.join(FROZEN, 'default_configs')
FUNCS = {'np': np}
PATH = re.compile(r'[A-Za-z_]\w*(?:::\w+)+')
POWER = re.compile(r'^(.*)_(\d+)MW$', re.I)
YEAR = re.compile(r'^(.*)_(\d{4})$')


def load(fp):
    with open(fp) as f:
        return yaml.safe_load(f)


class Library:
    def __init__(self, root=LIBRARY):
        self.files = {}
        self.defaults = {}
        for base, dirs, files in os.walk(root):
            dirs.sort()
            rel = os.path.relpath(base, root)
            pre = () if rel == '.' else tuple(rel.split(os.sep))
            for fn in sorted(files):
                if fn == 'variables.yaml':
                    self.defaults[pre] = load(os.path.join(base, fn))
                elif fn.endswith('.yaml'):
                    self.files[pre + (fn[:-5],)] = load(os.path.join(base,
                                                                     fn))
        self.flags = {}

    def default_of(self, pre):
        out = {}
        for i in range(len(pre) + 1):
            out.update(self.defaults.get(pre[:i], {}))
        return out

    def equations(self):
        """All (path tuple, group, name) of the library."""
        out = []

        def walk(pre, group):
            for k, v in group.items():
                if isinstance(v, dict):
                    walk(pre + (str(k),), v)
                else:
                    out.append((pre + (str(k),), group, str(k)))
        for p, g in self.files.items():
            walk(p, g)
        return out

    def group_at(self, path):
        """Group (dict) at a path tuple, or None."""
        for n in range(len(path), 0, -1):
            if path[:n] in self.files:
                g = self.files[path[:n]]
                for part in path[n:]:
                    g = g.get(part)
                    if not isinstance(g, dict):
                        return None
                return g
        return None

    def file_dir(self, path):
        for n in range(len(path), 0, -1):
            if path[:n] in self.files:
                return path[:n - 1]
        return path[:-1]

    def find(self, path):
        """[(weight, group, name)] whose weighted sum is the equation."""
        if path[-2:-1] == ('variables',) and path[:-2] in self.defaults:
            g = self.defaults[path[:-2]]
        else:
            g = self.group_at(path[:-1])
        if g is None:
            raise KeyError('::'.join(path))
        name = path[-1]
        if name in g:
            return [(1.0, g, name)]
        for pat, interp, near in ((POWER, 'interp_extrap_power',
                                   'use_nearest_power'),
                                  (YEAR, 'interp_extrap_year',
                                   'use_nearest_year')):
            hit = pat.match(name)
            if not hit or not (self.flags.get(interp)
                               or self.flags.get(near)):
                continue
            x = float(hit.group(2))
            have = sorted((abs(float(h.group(2)) - x), float(h.group(2)), k)
                          for k in g for h in [pat.match(k)]
                          if h and h.group(1) == hit.group(1)
                          and not isinstance(g[k], dict))
            if not have:
                continue
            if self.flags.get(interp) and len(have) > 1:
                (_, x1, k1), (_, x2, k2) = have[:2]
                w = (x - x1) / (x2 - x1)
                return [(1 - w, g, k1), (w, g, k2)]
            return [(1.0, g, have[0][2])]
        raise KeyError('::'.join(path))


def names_in(text):
    """Names a formula reads."""
    out = set()
    for node in ast.walk(ast.parse(text.strip(), mode='eval')):
        if isinstance(node, ast.Name) and node.id not in FUNCS:
            out.add(node.id)
    return out


def formula_text(v):
    return ' '.join(str(v).split())


def siblings(group):
    return {str(k) for k, v in group.items() if not isinstance(v, dict)}


def reads(group, name):
    """External names of a library equation."""
    out = set()
    todo = [name]
    seen = set()
    sib = siblings(group)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for v in names_in(formula_text(group[n])):
            if v in sib:
                todo.append(v)
            else:
                out.add(v)
    return out


class Lazy(dict):
    def __init__(self, fun):
        super().__init__()
        self.fun = fun

    def __missing__(self, key):
        return self.fun(key)


def run(text, lookup):
    # python's scalars give complex numbers and errors where numpy gives nan:
    # callers treat both as undefined
    return eval(compile(text, '<formula>', 'eval'),
                {'np': np, '__builtins__': {}}, Lazy(lookup))


def value(group, name, lookup):
    """Value of a library equation; lookup gives external names."""
    memo = {}
    sib = siblings(group)

    def at(n):
        if n in sib:
            if n not in memo:
                memo[n] = run(formula_text(group[n]), at)
            return memo[n]
        return lookup(n)
    return at(name)


FLAGS = ('interp_extrap_power', 'use_nearest_power', 'interp_extrap_year',
         'use_nearest_year')


class Config:
    """Reference for one packaged config."""

    def __init__(self, fp):
        self.lib = Library()
        data = self.read(fp)
        for f in FLAGS:
            if f in data:
                self.lib.flags[f] = bool(data.pop(f))
        data.pop('equation_directory', None)
        self.text = {k: formula_text(v) for k, v in data.items()}
        self.alias = {}
        for k, t in self.text.items():
            if PATH.fullmatch(t) and self.is_group(tuple(t.split('::'))):
                self.alias[k] = tuple(t.split('::'))
        self.entries = [k for k in self.text if k not in self.alias]
        self._code = {}
        self._reads = {}

    def read(self, fp):
        data = load(fp)
        for k, v in data.items():
            if isinstance(v, str) and '.yaml::' in v:
                f, _, key = v.partition('::')
                data[k] = self.read(os.path.join(os.path.dirname(fp),
                                                 f))[key]
        return data

    def is_group(self, path):
        return self.lib.group_at(path) is not None

    def parse(self, name):
        """Python text of an entry and the library parts it uses."""
        if name not in self._code:
            refs = {}

            def sub(hit):
                parts = tuple(hit.group(0).split('::'))
                if parts[0] in self.alias:
                    parts = self.alias[parts[0]] + parts[1:]
                key = '_ref{}'.format(len(refs))
                d = self.lib.default_of(self.lib.file_dir(parts))
                refs[key] = (self.lib.find(parts), d)
                return key
            text = PATH.sub(sub, self.text[name]).replace('^', '**')
            self._code[name] = (text, refs)
        return self._code[name]

    def direct(self, name):
        """(names read, library defaults of those names) of one entry."""
        text, refs = self.parse(name)
        out = {n: None for n in names_in(text) if n not in refs}
        for parts, d in refs.values():
            for _, g, k in parts:
                for n in reads(g, k):
                    out.setdefault(n, None)
                    if n in d:
                        out[n] = d[n]
        return out

    def constant(self, name, seen=()):
        if name in seen:
            return False
        return all(n in self.entries and self.constant(n, seen + (name,))
                   for n in self.direct(name))

    def required(self):
        out = set()
        for k in self.entries:
            out |= {n for n, d in self.direct(k).items()
                    if n not in self.entries and d is None}
        return sorted(out)

    def defaults(self):
        out = {}
        for k in self.entries:
            out.update({n: d for n, d in self.direct(k).items()
                        if n not in self.entries and d is not None})
        return out

    def values(self, inputs):
        memo = {}

        def entry(name):
            if name in memo:
                if isinstance(memo[name], Exception):
                    raise memo[name]
                return memo[name]
            text, refs = self.parse(name)

            def look(n):
                if n in refs:
                    parts, d = refs[n]

                    def ext(v):
                        if v in self.text and v not in self.alias:
                            return entry(v)
                        if v in inputs:
                            return inputs[v]
                        return d[v]
                    tot = None
                    for w, g, k in parts:
                        x = value(g, k, ext)
                        x = x if len(parts) == 1 else w * x
                        tot = x if tot is None else tot + x
                    return tot
                if n in self.entries:
                    return entry(n)
                return inputs[n]
            try:
                memo[name] = run(text, look)
            except (ZeroDivisionError, OverflowError) as e:
                memo[name] = e
                raise
            return memo[name]
        out = {}
        for k in self.entries:
            try:
                out[k] = entry(k)
            except (ZeroDivisionError, OverflowError) as e:
                out[k] = e
        return out


def config_files():
    out = []
    for base, dirs, files in sorted(os.walk(CONFIGS)):
        dirs.sort()
        for fn in sorted(files):
            out.append(os.path.relpath(os.path.join(base, fn), CONFIGS))
    return out
