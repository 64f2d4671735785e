"""Write known_findings.jsonl (run by hand; never at check time)."""
import json, os, subprocess
known = [
 ('C09', 'C09-inlined-constant',
  "config {'const': c, 'o': 'const * x', 'twice': ...} evaluated with an input named like the constant: "
  "entries whose expression is written with the constant in plain arithmetic keep the value of the file, because the "
  "constant is inserted into the formula text when the config is built; entries that read it through a library "
  "equation or a numpy call take the input. Call site NrwalConfig._parse_expression/_parse_eqn "
  "(handlers/config.py)."),
 ('C12', 'C12-conflicting-defaults',
  "config entry 'dirA::f + dirB::f' where both library equations read the same variable v and different variables "
  "files give v different defaults: the combined equation can hold one default per name, so both operands are "
  "evaluated with the default of the right one although each alone uses its own. Call site "
  "Equation._merge_vars (handlers/equations.py)."),
]
fixed = [
 ('8cc3ab6', ['C02'], "Equation.variables lost or mangled names such as co2e, arguments without spaces, names next to comparisons, and literals like .5e3"),
 ('38235b2', ['C04', 'C12'], "Equation(-2) ** 2 evaluated to -4"),
 ('cba1da7', ['C04', 'C09'], "setting defaults on the result of replace_equation() changed the original equation and the caller's dictionary"),
 ('cd6165e', ['C03'], "list inputs were repeated or joined instead of used elementwise"),
 ('ba4e042', ['C12'], "numpy call after other parentheses took the wrong closing parenthesis"),
 ('0f3821b', ['C07', 'C12'], "'a - b - c' and 'a / b / c' in configs and keys were evaluated from right to left"),
 ('7266c1a', ['C12', 'C07'], "nested parentheses gave an Equation object or KeyError, and 'np.exp(a + b)' recursed forever"),
 ('36b1f7c', ['C06'], "group equations were inserted into parts of longer variable names"),
 ('03e03f1', ['C08'], "any missing key raised ValueError with interp_extrap_power; '_MW' keys could not be parsed"),
 ('7fe7fec', ['C14'], "NrwalConfig removed entries from the dictionary it was given"),
 ('de9eea1', ['C14'], "evaluate() returned the outputs of earlier inputs"),
 ('e7d9851', ['C12'], "outputs depended on the order of the entries when an entry was read in a numpy call or library equation"),
 ('84a293c', ['C03', 'C14'], "data frames with text columns and empty arrays were refused"),
 ('7f00178', ['C09'], "variables of one sub-directory leaked into the next ones; force_update did not reach sub-directories"),
 ('f40dd7f', ['C11'], "a sum of groups or directories shared equation objects with its operands"),
 ('d777d5d', ['C04', 'C18'], "defaults of the right operand replaced those of a name only the left operand reads (osw_2019 capex)"),
 ('29d7e9f', ['C07'], "a path continuing below an equation did not raise KeyError"),
 ('6354a6d', ['C07'], "a path ending in an unknown number returned that number"),
 ('64c9b58', ['C12'], "an entry naming a library directory could not be referenced before it was used"),
 ('587a3bd', ['C12', 'C07'], "references written only in parentheses were not resolved"),
 ('17e55bb', ['C12', 'C15'], "parenthetical statements became default variables of the config equations"),
 ('4535cce', ['C19'], "inputs refused with an exception stayed in the config"),
 ('0141ae4', ['C19'], "config expressions with missing operands evaluated to a number"),
 ('fa52425', ['C12', 'C13'], "values and groups of variables files could not be used in config expressions"),
 ('9a4ebe3', ['C07'], "values of variables files failed as left operands in retrieval keys"),
 ('e57d1b2', ['C02'], "Equation('re').evaluate() without inputs returned a module instead of RuntimeError"),
 ('5043f5b', ['C20'], "an equation printed before its default variables were set kept its old text"),
 ('0043707', ['C02'], "names such as values, items or copy were not reported as variables"),
 ('7dcaf40', ['C12', 'C13', 'C16'], "an entry naming a variables group was not usable when referenced first"),
 ('f02ab26', ['C08'], 'values of variables files could not be interpolated or looked up by the nearest power or year'),
 ('e6241d2', ['C08'], 'with the nearest or interpolation flags a sub-group was used for the power or year of another name'),
 ('e25e910', ['C01'], 'numpy integer scalars were not converted to floats as python integers are'),
 ('ebf0e19', ['C20'], 'two config entries that name the same library equation were one object, printed with the last name'),
 ('c1f2a58', ['C08'], 'the last part of a path was not looked up by power or year when the same name stands earlier in the path'),
 ('df1716e', ['C08'], 'e_0MW was neither found nor used for interpolation'),
 ('1c33fff', ['C21'], 'copy.deepcopy(NrwalConfig) raised KeyError and unpickling one recursed forever'),
 ('5c03436', ['C06'], 'a group with an equation that reads a variable named like a sub-group raised AttributeError'),
 ('ee7e794', ['C01', 'C03', 'C09'], 'integer and list default variables were not converted like the same inputs'),
]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
full = dict((h[:7], h) for h in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%H'], text=True).split())
with open(os.path.join(here, 'known_findings.jsonl'), 'w') as f:
    for p, i, w in known:
        f.write(json.dumps({'property': p, 'kind': 'known', 'id': i, 'what': w}) + '\n')
    for c, ps, w in fixed:
        assert c in full, c
        for p in ps:
            f.write(json.dumps({'property': p, 'kind': 'fixed', 'commit': c, 'what': 'fixed: property=%s %s %s' % (p, c, w)}) + '\n')
