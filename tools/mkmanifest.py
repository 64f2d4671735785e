"""Writes /verif/MANIFEST.json."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('generated formulas against a reference evaluator with error bounds',
         'formulas up to depth 6 over the documented operators and common numpy functions; trusts the reference arithmetic'),
 'C02': ('generated spellings and formulas against the names the generator put in',
         'identifiers, numbers and calls in generated contexts'),
 'C03': ('metamorphic: array evaluation against per-site scalar evaluation',
         'one-dimensional arrays, lists, tuples and data frames up to 4 sites, permutations and mixtures'),
 'C04': ('stateful generated operation sequences against a value model',
         'chains of up to several operations with later default updates'),
 'C05': ('generated formulas with forbidden fragments over all entry routes, with canary files',
         'fragments at generated positions; effects observed in a scratch directory only'),
 'C06': ('generated reference graphs against a reference evaluator',
         'groups of up to 8 entries, overlapping names, cycles of up to 6'),
 'C07': ('generated trees, present/absent paths and arithmetic keys against a model',
         'two levels of directories, nested groups, keys up to depth 4'),
 'C08': ('generated power/year tables and requests against a reference interpolator',
         'all flag combinations, exact/between/outside requests, single candidates, config routes'),
 'C09': ('stateful generated default updates and directory trees against a scope model',
         'three levels of variables files, histories of updates and evaluations; one known finding'),
 'C10': ('differential over generated files: dictionary, YAML, JSON, directory',
         'generated trees with hidden, empty and foreign files'),
 'C11': ('stateful generated merges against a dictionary-union model',
         'pairs of groups and directories, later updates of each participant'),
 'C12': ('generated configs in several entry orders against a reference evaluator',
         'up to 9 entries over a generated library, expressions up to depth 6; one known finding'),
 'C13': ('stateful generated input steps against a model of required inputs',
         'all routes of supplying inputs, each required input left out in turn'),
 'C14': ('stateful generated histories against a fresh config',
         'interleavings over several configs that share dictionaries and arrays'),
 'C15': ('generated reference graphs, rings and acyclic, with look-alike names',
         'rings of 1-6 among up to 8 entries; acyclic chains up to 9 entries'),
 'C16': ('differential over generated files and pointer chains with decoy files',
         'chains through up to 4 files in several directories, every malformed kind'),
 'C17': ('whole library at generated points against an independent interpreter of frozen files',
         'all 1147 equations in every case; trusts the frozen copy of the pinned data'),
 'C18': ('every packaged config at generated points against an independent interpreter of frozen files',
         'all 52 configs in every run, scalar, array, frame and profile inputs; trusts the frozen copy'),
 'C19': ('generated definitions and inputs with one malformed part, by every route',
         'about 70 kinds of malformed formula, key, value, file and input in generated contexts'),
 'C20': ('stateful generated default updates and libraries; printed text parsed and compared with a model',
         'three levels of directories, nested groups, configs of up to 5 entries'),
 'C21': ('generated objects copied, pickled and sent to another process, then changed; both against a reference',
         'deepcopy and pickle of equations, groups, directories and configs in several states'),
}
checks = []
for k, (tech, note) in sorted(T.items()):
    checks.append({
        'property': k, 'quick_cmd': './check.sh ' + k,
        'thorough_cmd': './check.sh {} --tier thorough'.format(k),
        'evidence_file': 'evidence/{}.json'.format(k),
        'technique': 'property-based testing: ' + tech,
        'level': 'exploration',
        'level_note': 'Searched, not proved: ' + note + '.'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': [],
     'notes': 'Pure Python: checks import NRWAL from /repo at run time, '
              'nothing is built. No hooks in /repo.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
