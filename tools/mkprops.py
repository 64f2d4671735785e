"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
EQ='NRWAL/handlers/equations.py'; GR='NRWAL/handlers/groups.py'
DI='NRWAL/handlers/directories.py'; CF='NRWAL/handlers/config.py'
UT='NRWAL/utilities/utilities.py'
P=[]
def add(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                     observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

add('C01','An equation evaluates to the value its formula denotes',
 'For every formula made of numbers (decimal or scientific notation), variables, + - * / **, unary minus and plus, comparisons, parentheses and numpy functions, evaluating the equation with a value for every variable returns the value standard arithmetic (usual precedence and associativity) gives, up to floating-point rounding. Integer inputs (or defaults) give the same result as the same values passed as floats. The short and long names of the evaluation call, and keyword inputs in any order, give the same result.',
 ['inputs','programs'],'all formulas of the grammar and all numeric values of their variables',
 'The tests evaluate a few dozen hand-written strings at one or two points each; the claim is over all formulas and values.',
 [EQ],[('Equation.evaluate',EQ),('Equation._check_input_args',EQ)],['return value of Equation.evaluate / eval'])
add('C02','An equation reports exactly the variables it needs',
 'The variables an equation reports are exactly the names its formula reads: sorted, without duplicates, and without numbers in any notation, function names or keyword-argument names. Evaluation succeeds when every reported variable has a value, from the call or from a default, and extra unused inputs change nothing. If any reported variable has no value, evaluation raises RuntimeError and returns nothing.',
 ['inputs','programs'],'all formulas, all variable spellings (digits, underscores, names that contain other names) and all subsets of supplied values',
 'Tests check the variable list of a few equations whose names do not overlap; a tokenising mistake only shows for particular spellings and neighbouring characters.',
 [EQ],[('Equation.parse_variables / variables',EQ),('missing-input check in Equation.evaluate',EQ)],['Equation.variables','Equation.evaluate'])
add('C03','Array evaluation is elementwise scalar evaluation',
 'Evaluating an equation or a config with arrays, lists, tuples or data-frame columns gives, at each index, the value obtained by evaluating it with the scalars at that index; scalar inputs and default values broadcast over the arrays. The result has the broadcast length of the inputs. Evaluation never modifies the caller\'s arrays, lists, dictionaries or data frames.',
 ['inputs','programs'],'all formulas without reductions over an axis, all mixes of scalar/array/list/tuple inputs, all lengths and permutations of the sites',
 'Tests use constant arrays (np.ones) at fixed lengths, where a mixed-up index or a reduction cannot be seen.',
 [EQ,CF],[('Equation._check_input_args',EQ),('NrwalConfig.inputs setter',CF)],['Equation.evaluate','NrwalConfig.evaluate'])
add('C04','Equation arithmetic composes values and leaves operands unchanged',
 'Combining equations with + - * / ** (the right operand may also be a number or a formula string) gives a new equation whose value, for all inputs, is that operation applied to the two operand values, to any depth of nesting. Its variables are the union of those of the operands and each operand contributes its defaults; where both operands read a name with different defaults the right one wins, and a default of one operand never replaces the default of a name only the other operand reads. The operands keep their own formula, variables and defaults, also when the result is modified later.',
 ['inputs','programs','histories'],'all trees of equation arithmetic over arbitrary operand formulas, and later updates of any participant',
 'Tests combine a handful of fixed equations; missing parentheses around an operand or shared default dictionaries depend on operand shape and on what happens afterwards.',
 [EQ],[('Equation.__eqn_math and the operator methods',EQ),('Equation.set_default_variables',EQ),('Equation.replace_equation',EQ)],['Equation operators','Equation.evaluate','Equation.variables','Equation.default_variables'])
add('C05','Formulas cannot import or execute arbitrary code',
 'A formula that contains an import statement, an access to os or sys, a dunder attribute access, or eval or exec is refused with an error on every route by which a formula enters (equation, replaced or combined equation, group dictionary, equation file, directory, config entry, retrieval key), before any of it runs. A formula that calls a python builtin that was not supplied as an input (such as open or __import__) is refused at evaluation and has no effect. Harmless formulas, including names such as cost, pos, system or osw, are accepted.',
 ['inputs','programs'],'all formulas with a forbidden fragment at any position, and all entry routes',
 'Two tests try single strings on one route; the claim is that no route or position bypasses the filter.',
 [EQ,GR,CF],[('Equation.ILLEGAL and Equation._preflight',EQ),('EquationGroup._parse_group',GR),('NrwalConfig._parse_expression',CF)],['exceptions of constructors and evaluate','absence of file system effects'])
add('C06','Equations of one group may refer to each other by name',
 'In a group, every variable that is the name of another equation of the same group stands for that equation: evaluating any entry gives the value obtained by first evaluating the entries it refers to, whatever the order of the entries and the depth of the references, and its reported variables are the remaining external ones. Only whole names are replaced, and equations of other groups or nested groups are not captured. References that form a cycle, and equations that use their own name, are refused with ValueError.',
 ['programs','configurations'],'all groups (reference graphs, names that contain each other, entry orders)',
 'Tests have two small reference chains with non-overlapping names in one order.',
 [GR,EQ],[('inlining loop of EquationGroup._parse_group',GR),('Equation.verify_no_self_reference',EQ)],['EquationGroup[key].evaluate','EquationGroup[key].variables','constructor exceptions'])
add('C07','Retrieval keys resolve exactly, and math in keys follows precedence',
 'Indexing a group or directory with a path (parts joined by "::", file names with or without extension) returns the object stored at exactly that path; a path that does not exist raises KeyError, and get returns the given default instead. A key with arithmetic over paths (also of values in variables files) and numbers (+ - * / ** or ^, parentheses) gives an equation whose value for all inputs is that arithmetic applied to the values of the parts with usual precedence and left-to-right evaluation. Retrieval does not change the stored equations.',
 ['inputs','programs','histories'],'all trees of groups and directories, all paths (present and absent) and all arithmetic keys',
 'Tests use about ten fixed keys; chains such as a - b - c, nested parentheses and absent paths at each level are not covered.',
 [GR,DI,UT],[('AbstractGroup._getitem and _getitem_math',GR),('EquationDirectory._getitem',DI),('find_parens / find_operator',UT)],['group[key] and directory[key] values and exceptions'])
add('C08','Power and year lookups are exact, interpolated or nearest as requested',
 'Requesting an equation name ending in _<n>MW or _<year> returns the stored equation when it exists; otherwise, with the interpolation flag, the value for all inputs is the straight line through the two stored entries of the same base name nearest to the request (evaluated at the requested power or year), and with only the nearest flag it is the nearest stored entry of that base name. Interpolation has priority over nearest, power flags do not affect year names or vice versa, and entries of other base names are never used. With no flag, or no candidate, or a name without such a suffix, KeyError is raised. Only the last part of a path is looked up this way, never the group, file or directory above it; values of variables files are looked up like equations. Groups, nested groups, directories and configs agree (flags are off unless given, as arguments or as config entries, which go first).',
 ['inputs','configurations'],'all sets of stored powers/years, requests inside, between and outside them, all four flags and all access routes',
 'Tests cover a few requests for two library files with one flag each; flag combinations, mixed power/year groups and single candidates are not covered.',
 [GR,DI,CF],[('AbstractGroup._get_nn_eqns_values',GR),('find_nearest_power_eqns / find_nearest_year_eqns',GR),('_parse_power / _parse_year',GR),('NrwalConfig.__init__ flag handling',CF)],['values of retrieved equations','find_nearest_* results'])
add('C09','Default variables are scoped to their directory and always overridable',
 'The values of a variables file are defaults for every equation in its directory and below, the file nearest to the equation winning per name, and never affect equations in sibling or parent directories. A value passed at evaluation overrides any default, for that call only, a config constant overrides library defaults for that config (in its outputs and in the equations and groups it shows), and an input overrides a config constant. Setting defaults on an equation, group or directory affects exactly the equations inside it; a directory keeps values of lower variables files unless forced to update. Groups and directories report the defaults that apply in them.',
 ['configurations','histories'],'all directory trees with variables files at any subset of levels, and all sequences of default updates and evaluations',
 'Tests have two fixed directory trees; leakage depends on sibling order and on which levels define which names.',
 [DI,GR,EQ,CF],[('EquationDirectory.set_default_variables',DI),('AbstractGroup.set_default_variables',GR),('Equation.set_default_variables / _merge_vars',EQ)],['Equation.evaluate','default_variables'])
add('C10','Loading files is faithful and independent of the file format',
 'A group loaded from YAML, from JSON, or from the equivalent dictionary is the same: same names in the same nesting and the same value for every equation and inputs. A directory contains exactly the non-hidden .yaml, .yml and .json files (keyed without extension) and the non-empty non-hidden sub-directories, recursively, and lists every equation once. Other files and names starting with "." or "__" are ignored. Each load shows the files as they are at that moment, whatever was loaded before; loading changes nothing on disk.',
 ['configurations'],'all directory trees and file contents (nested groups, numeric and text formulas, mixed formats, ignorable files)',
 'Tests load two fixed trees and compare counts of a few entries.',
 [GR,DI],[('AbstractGroup._parse_group',GR),('EquationDirectory._parse_eqn_dir',DI),('all_equations',GR)],['keys, values and all_equations of groups and directories'])
add('C11','Merging groups or directories is a right-biased union',
 'Adding two groups, or two directories (the right one may be given as object, path or dictionary), gives an object with the entries of both, the right operand\'s entry winning for a duplicate key, every equation keeping its value. Defaults of the right operand apply to the merged object. Neither operand changes, at the time or when the merged object is modified later.',
 ['configurations','histories'],'all pairs of groups/directories with overlapping and disjoint keys, and later updates of any participant',
 'Tests add two fixed groups and check that keys are present; aliasing shows only after later updates.',
 [GR,DI],[('AbstractGroup.__add__',GR),('EquationDirectory.__add__',DI)],['keys and evaluated values of operands and sum'])
add('C12','A config entry evaluates to what its expression says',
 'For every config whose entries are expressions over numbers, inputs, other entries, library equations and values of variables files ("a::b"), + - * / **, unary minus and plus, scientific notation, parentheses and numpy functions, the output of each entry is the value of that expression by usual arithmetic with references replaced by the values of what they refer to. The outputs do not depend on the order in which the entries are written. References through entries that name a library group or directory ("entry::name") resolve to the equation in that group.',
 ['inputs','programs','configurations'],'all acyclic configs over any equation library, all entry orders and all inputs',
 'Tests check about fifteen fixed expressions; wrong splitting of an expression gives a plausible number and only for particular operator sequences.',
 [CF,UT],[('NrwalConfig._parse_expression / _parse_equation',CF),('NrwalConfig.evaluate',CF),('find_np_pd_methods / find_parens / find_operator',UT)],['NrwalConfig.evaluate / outputs / [key]'])
add('C13','A config knows exactly which inputs it still needs',
 'The required inputs of a config are exactly the names its equations read that are neither defined by the config nor given a default by the library; the missing inputs are the required ones not yet supplied, and the config is solvable exactly when none is missing. Evaluating an unsolvable config raises RuntimeError; evaluating a solvable one yields every equation entry. The constants of the config (numbers and entries that depend on nothing else) are reported with their values.',
 ['inputs','configurations','histories'],'all configs and all subsets of supplied inputs, in any number of steps',
 'Tests compare the lists for three fixed configs.',
 [CF],[('required_inputs / missing_inputs / solvable / global_variables / all_variables',CF)],['those properties and the outcome of evaluate'])
add('C14','Evaluation depends only on the config and its current inputs',
 'After any history of setting, updating and clearing inputs, evaluating (with or without new inputs), and resetting outputs, an evaluation returns the same outputs as a freshly built config given the merged current inputs; outputs and indexing show the latest evaluation, and new inputs update rather than replace earlier ones unless cleared. Inputs given at construction, assigned, or passed to evaluate are equivalent. Configs do not influence each other (a config built after a library file was edited reads the new content), and neither building nor evaluating a config modifies the dictionary, data frame or arrays it was given.',
 ['histories','inputs'],'all interleavings of the operations on one or several configs, also built from one shared dictionary',
 'Tests run each config through one evaluation; stale outputs and shared state need at least two steps.',
 [CF,EQ],[('NrwalConfig.inputs setter',CF),('NrwalConfig.evaluate / reset_output',CF),('NrwalConfig._load_config',CF)],['outputs, [key], inputs, solved after each step'],
 [('inputs','values supplied so far',CF),('outputs','results of the latest evaluation',CF)])
add('C15','Circular configs are refused and acyclic ones never are',
 'A config in which an entry refers to itself, directly or through other entries in arithmetic, is refused with RuntimeError when it is built, for cycles of any length and wherever the entries stand. A config without cycles always builds, including when entries share references, when names contain each other, or when a name also occurs as part of a number or of a library path.',
 ['programs','configurations'],'all reference graphs between config entries',
 'Tests have one two-entry and one three-entry cycle.',
 [CF],[('NrwalConfig._check_circ_ref',CF)],['exception or success of the constructor'])
add('C16','Config files, dictionaries and pointers to other configs are equivalent',
 'A config read from YAML or JSON, or given as a dictionary, has the same entries, required inputs and outputs. An entry "other_file::key" means exactly the entry of that key in the other config file, relative to the file that contains it, also through several files; the equation directory is the one the main config names (a relative path starts where the program runs), or the packaged library. Each config shows the files as they are when it is built. Missing pointer files, malformed pointers, pointers combined with arithmetic, and pointers in a dictionary config are refused.',
 ['configurations','inputs'],'all configs, file formats, file layouts and pointer chains',
 'Tests use one pair of pointer files in one directory.',
 [CF],[('NrwalConfig._load_config',CF)],['keys, required inputs, outputs, exceptions'])
add('C17','Every shipped library equation computes its published formula',
 'For each equation of the packaged library (all technologies and years) and for all inputs, retrieving it by its path and evaluating it gives the value of its published formula, with references to equations of the same file expanded and with the published default values; it needs exactly the published inputs. All published equations are present.',
 ['inputs','configurations'],'all equations of the library and all input values, scalar and array',
 'Tests evaluate a few library equations with all inputs equal to one.',
 ['NRWAL/analysis_library',DI,GR,EQ],[('EquationDirectory on the packaged library',DI),('the YAML data','NRWAL/analysis_library')],['values, variables and defaults of library equations'])
add('C18','Every shipped default config reproduces its cost model',
 'For each packaged default config and all inputs, every output equals the value obtained by evaluating the config\'s expressions over the published library (with its interpolation and nearest settings) step by step, and its required inputs are the documented ones. In particular totals are the sums or products of their parts and levelized costs follow from the capital cost, fixed charge rate, operating cost and energy of the same evaluation.',
 ['inputs','configurations'],'all default configs and all input values, scalar and array, and overrides of library defaults',
 'Tests check that configs parse and compare a few outputs at one point.',
 ['NRWAL/default_configs','NRWAL/analysis_library',CF,GR],[('NrwalConfig on the packaged configs',CF),('the YAML data','NRWAL/default_configs')],['NrwalConfig.outputs'])
add('C19','Malformed definitions and inputs are rejected, never evaluated',
 'Numeric names, values that are not numbers, text or dictionaries, unknown file types, missing files, files that are not mappings, non-numeric values in variables files, missing operands, square or curly brackets in arithmetic, unbalanced parentheses and unresolvable references are refused with an exception at construction, retrieval or evaluation, and never produce a number. Inputs that are not numbers, arrays, lists or tuples, input containers other than dictionaries and data frames, and formulas that python cannot evaluate are refused with an exception. A refused operation leaves the object usable and unchanged.',
 ['inputs','configurations'],'all malformed values in any position of otherwise valid definitions',
 'Tests try one example of some kinds.',
 [EQ,GR,DI,CF],[('type checks of the parsers and of Equation._check_input_args',GR),('NrwalConfig._parse_config / inputs setter',CF)],['exceptions'])
add('C20','Printed forms and listings show exactly what is stored',
 'Printing an equation shows its name and its variables, with the current value of those that have a default (an arithmetic combination shows the printed forms of its two parts as they were combined), and its full text is a formula with the same variables and value; printing a group, directory or config shows its name and every entry once, in its place in the hierarchy, and head and tail give the first and last lines of that text. Keys, items, values, membership tests, get and attribute access agree with indexing, and listing all equations gives every stored equation exactly once. The variables listed for a config are sorted, without duplicates, and include its required inputs and constants; none of this changes what is stored.',
 ['inputs','histories'],'all equations, libraries and configs, before and after default values are set and equations are evaluated or combined',
 'Tests print nothing and list fixed libraries only.',
 [EQ,GR,DI,CF],[('Equation.__str__',EQ),('EquationGroup.__str__ / keys / items / values / all_equations',GR),('EquationDirectory.__str__',DI),('NrwalConfig.__str__ / all_variables / get',CF)],['printed text','returned objects'])
add('C21','Copied and pickled objects behave like the original and are independent of it',
 'Deep-copying an equation, group, directory or config, or pickling and unpickling it (also in another process), gives an object of the same type that prints the same and has the same entries, formulas, variables, defaults, lookup flags, inputs and outputs, and the same value for all inputs. Later changes to the original or to the copy (defaults, inputs, evaluations, resets) never affect the other one.',
 ['inputs','histories'],'all objects in all states (fresh, with defaults or inputs set, evaluated, reset) and all later changes of either one',
 'No test copies or pickles an object; shared state only shows when one of the two is changed afterwards.',
 [EQ,GR,DI,CF],[('the state of Equation, EquationGroup, EquationDirectory and NrwalConfig objects',EQ),('NrwalConfig.__getattr__',CF)],['copy.deepcopy, pickle.loads(pickle.dumps()) and the behaviour of both objects'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
