"""Model of equation libraries: generation, writing to disk, lookup.

A group is a dict name -> entry; an entry is {'e': formula tree},
{'num': x} (a bare number) or {'g': group}.  A directory is a dict
name -> {'file': group, 'ext': 'yaml'} | {'vars': {...}, 'ext': ..}
| {'dir': directory} | {'junk': text}.
"""
import json
import os

import yaml

from harness import ref


def plain(group, caret=False):
    """The dictionary a user would write for a group."""
    out = {}
    for k, v in group.items():
        if 'g' in v:
            out[k] = plain(v['g'])
        elif 'num' in v:
            out[k] = v['num']
        else:
            out[k] = ref.render(v['e'])
    return out


def dump(obj, fp):
    with open(fp, 'w') as f:
        if fp.endswith('.json'):
            json.dump(obj, f, indent=2)
        else:
            yaml.safe_dump(obj, f, sort_keys=False, default_flow_style=False)


def write(tree, path):
    os.makedirs(path, exist_ok=True)
    for name, v in tree.items():
        if 'dir' in v:
            write(v['dir'], os.path.join(path, name))
        elif 'file' in v:
            dump(plain(v['file']), os.path.join(path, name + '.' + v['ext']))
        elif 'vars' in v:
            dump(v['vars'], os.path.join(path, 'variables.' + v['ext']))
        else:
            with open(os.path.join(path, name), 'w') as f:
                f.write(v['junk'])


def node_of(entry):
    return ['n', repr(entry['num'])] if 'num' in entry else entry['e']


def leaves(group, prefix=()):
    """All (path, entry) of equations in a group."""
    out = []
    for k, v in group.items():
        if 'g' in v:
            out += leaves(v['g'], prefix + (k,))
        else:
            out.append((prefix + (k,), v))
    return out


def dir_leaves(tree, prefix=()):
    out = []
    for k, v in tree.items():
        if 'dir' in v:
            out += dir_leaves(v['dir'], prefix + (k,))
        elif 'file' in v:
            out += leaves(v['file'], prefix + (k,))
    return out


def objects(tree, prefix=()):
    """All (path, keys of the object there) of groups and directories that
    are part of the loaded directory."""
    out = []
    for k, v in tree.items():
        if 'dir' in v:
            if visible(v['dir']):
                out.append((prefix + (k,), visible(v['dir'])))
                out += objects(v['dir'], prefix + (k,))
        elif 'file' in v:
            out.append((prefix + (k,), list(v['file'])))
            out += group_objects(v['file'], prefix + (k,))
    return out


def group_objects(group, prefix=()):
    out = []
    for k, v in group.items():
        if 'g' in v:
            out.append((prefix + (k,), list(v['g'])))
            out += group_objects(v['g'], prefix + (k,))
    return out


def hidden(name):
    return name.startswith(('.', '__'))


def visible(tree):
    """Keys a loaded directory must have."""
    out = []
    for k, v in tree.items():
        if hidden(k):
            continue
        if 'dir' in v:
            if visible(v['dir']):
                out.append(k)
        elif 'file' in v or 'vars' in v:
            out.append(k)
    return out


def check_eqn(what, eqn, node, vals, env=None, dflt=(), u=None):
    """Variables, missing names and value of a real equation against a tree.

    vals: name -> scalar for every variable; env: reference text -> node.
    dflt: name -> default value (then vals are not passed for these names
    unless vals has them).  Returns 1 when the value was compared."""
    from harness.core import attempt, expect, must, Violation
    u = u or ref.U64
    dflt = dict(dflt)
    env = env or {}
    want = set(ref.variables(node))
    for r in ref.refs(node):
        want |= ref.variables(env[r])
    got = must(what + ' variables', lambda: list(eqn.variables))
    expect(got == sorted(want), '{}: variables {!r} instead of {!r}', what,
           got, sorted(want))
    kw = {k: vals[k] for k in want if k in vals}
    full = dict(dflt, **kw)
    nums = {}
    try:
        for k in want:
            nums[k] = ref.literal(full[k], u)
        for r in ref.refs(node):
            try:
                nums[r] = ref.evaluate(env[r], nums, u)
            except ref.Undef as e:
                nums[r] = e
        x = ref.evaluate(node, nums, u)
        exp = ref.boolean(x)
    except ref.Undef as e:
        exp = e
    ok, got = attempt(eqn.evaluate, **kw)
    if not ok:
        if isinstance(exp, ref.Undef):
            return 0
        raise Violation('{}: evaluation of {!r} with {} raised {!r}'.format(
            what, ref.render(node), kw, got))
    return ref.check_value('{}: {} with {}'.format(what, ref.render(node),
                                                   full), got, False, [exp],
                           u)
