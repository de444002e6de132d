# S: synthesis ---------------------------------------------------------

P('S01', 'Synthesized controllers satisfy their GR(1) specification',
  'Every controller returned for a GR(1) specification, run against every '
  'environment that satisfies the assumption, starts as the chosen initial '
  'quantification demands, reacts with exactly one transition to every input '
  'the assumption admits, never violates the safety guarantee, and satisfies '
  'every recurrence goal whenever all recurrence assumptions are satisfied. '
  'Output and input values stay in their declared domains.',
  ['inputs', 'configurations', 'schedules'],
  'All GR(1) specifications over Boolean, integer and string variables, all '
  'options (Moore/Mealy, strict/plain implication, four initial '
  'quantifications, both available solvers, with and without dead-end '
  'removal), and all environment behaviors.',
  'Tests run a handful of fixed specifications, and mostly assert that '
  'a controller exists; no test plays the controller against all '
  'environments or checks its infinite behavior.',
  ['tulip/synth.py', 'tulip/interfaces/omega.py',
   'tulip/interfaces/gr1py.py', 'tulip/spec/form.py',
   'tulip/spec/transformation.py', 'tulip/transys/machines.py'],
  [('conversion of the specification to the solver', 'tulip/interfaces/omega.py'),
   ('enumeration of the strategy as a Mealy machine', 'tulip/synth.py strategy2mealy')],
  ['tulip.synth.synthesize: returned machine, all its reachable transitions'],
  'Each returned machine is explored exhaustively in product with the '
  'explicit game of its specification; specifications are sampled (small '
  'state spaces). Trusts the explicit game in rt/game.py.',
  'online monitor of the closed loop (exhaustive product walk + fairness SCC oracle)')

P('S02', 'Realizability verdicts are right, and agree with synthesis',
  'A GR(1) specification is reported realizable exactly when the system has '
  'a winning strategy in the game that the specification and its options '
  'describe, and a controller is returned exactly in that case.',
  ['inputs', 'configurations'],
  'All GR(1) specifications with finite domains, all options for Moore '
  'strategies, strict implication and initial quantification.',
  'The verdict depends on a nested fixpoint over the whole game; tests know '
  'the answer for a few hand-made specifications only.',
  ['tulip/synth.py', 'tulip/interfaces/omega.py',
   'tulip/interfaces/gr1py.py', 'tulip/spec/form.py'],
  [('translation to a symbolic automaton', 'tulip/interfaces/omega.py'),
   ('verdict', 'tulip/synth.py is_realizable')],
  ['tulip.synth.is_realizable and synthesize: verdict'],
  'Differential monitoring against an explicit-state GR(1) solver written '
  'for this purpose; sampled specifications of at most a few dozen states.',
  'differential oracle: independent explicit-state GR(1) game solver')

P('S03', 'Controllers for transition systems follow those systems',
  'When synthesis is given a transition system for the system or the '
  'environment, the verdict and the controller are those of the game in which '
  'that player can only take transitions of that system, with the actions on '
  'the transition and the labels of the states visited, from an initial state '
  'unless initial states are ignored.',
  ['inputs', 'configurations'],
  'All finite transition systems (string or integer states, labels, system '
  'and environment actions under each exclusivity option), combined with all '
  'GR(1) formulas and options.',
  'Tests use a few fixed transition systems and look at the verdict only.',
  ['tulip/synth.py', 'tulip/transys/transys.py'],
  [('encoding of states, transitions, actions and labels as formulas',
    'tulip/synth.py sys_to_spec, env_to_spec')],
  ['tulip.synth.synthesize, is_realizable: verdict and machine'],
  'The transition system is encoded independently, and the verdict and the '
  'closed loop judged as for S01, S02; sampled systems of up to 4 states.',
  'closed-loop monitor + differential game oracle over generated systems')

P('S04', 'Synthesis composes several transition systems synchronously',
  'For any collection of named transition systems owned by either player, '
  'the verdict and the controller are those of the game where all of them '
  'move at each step, with one state variable per name, and with the initial '
  'states of exactly the systems listed to be ignored left free.',
  ['inputs', 'configurations'],
  'All collections of transition systems, owners, ignored sets, formulas.',
  'One test with fixed systems exists, and no test judges the controller.',
  ['tulip/synth.py', 'tulip/spec/form.py'],
  [('conjunction of the encodings', 'tulip/synth.py synthesize_many'),
   ('union of specifications', 'tulip/spec/form.py GRSpec.__or__')],
  ['tulip.synth.synthesize_many: returned machine'],
  'As S03, for two or three systems; sampled.',
  'closed-loop monitor + differential game oracle over generated compositions')

P('S05', 'Moore controllers do not depend on the next input',
  'In a controller synthesized for a Moore specification, the outputs that '
  'follow a reachable state are the same for all next inputs, so they can be '
  'committed before the input is known, and doing so never violates safety.',
  ['inputs', 'schedules'],
  'All Moore specifications and all choices of the next input.',
  'No test examines more than one input at a state of a Moore controller.',
  ['tulip/interfaces/omega.py', 'tulip/synth.py'],
  [('selection of outputs in the enumerated strategy',
    'tulip/interfaces/omega.py')],
  ['tulip.synth.synthesize: transitions that leave each state'],
  'Exhaustive over the reachable states of each machine; sampled '
  'specifications.',
  'closed-loop monitor that commits outputs before drawing inputs')

P('S06', 'Post-processing of controllers only removes what it should',
  'Fixing initial outputs leaves exactly one initial reaction, with those '
  'outputs, for each initial input that had one, leaves all else unchanged, '
  'and the result still satisfies the specification. Masking erases exactly '
  'the outputs that are zero, and removing dead ends keeps exactly the '
  'states that have an infinite run.',
  ['inputs'],
  'All synthesized controllers, all choices of given initial outputs, all '
  'transition graphs.',
  'Post-processing has at most one example in the tests.',
  ['tulip/synth.py', 'tulip/transys/labeled_graphs.py'],
  [('initial reactions', 'tulip/synth.py determinize_machine_init'),
   ('masking', 'tulip/synth.py mask_outputs'),
   ('dead ends', 'tulip/transys/labeled_graphs.py remove_deadends')],
  ['machines before and after each operation'],
  'Compares edges before and after; sampled machines and graphs.',
  'before/after monitor with independent fixpoint oracle')

P('S07', 'Formulas made from transition systems allow exactly their steps',
  'The GR(1) formulas of a transition system declare its state, propositions '
  'and actions as variables of the right player, admit initially exactly the '
  'initial states (all states if told to ignore them) with their labels, and '
  'allow a step exactly if the transition system has a transition with these '
  'actions to that state, with any encoding of states and actions (integers, '
  'strings, Booleans; exclusive or not; previous or next). The other player '
  'is constrained only as needed to offer an action that some transition '
  'has. What cannot be encoded (names shared by states, propositions, actions '
  'and variables, systems of the wrong owner or kind) is refused with an '
  'error.',
  ['inputs', 'histories'],
  'All transition systems, labels, partial labels, action types, encodings, '
  'and steps.',
  'Tests compare a few formulas with strings, or run one synthesis.',
  ['tulip/synth.py'],
  [('sys_to_spec, env_to_spec, iter2var', 'tulip/synth.py'),
   ('_sys_trans_from_ts, _env_trans_from_sys_ts, _env_trans_from_env_ts, '
    '_ap_trans_from_ts', 'tulip/synth.py')],
  ['init and safety parts of the returned specification, evaluated on steps'],
  'Up to four states, two system and two environment action types; 700 steps '
  'sampled per case.',
  'steps judged against the transitions by an independent parser and '
  'evaluator')


# P: specifications ----------------------------------------------------

P('P01', 'Formulas are read with the documented grammar and precedence',
  'Every text in the documented formula syntax, with any choice among the '
  'alternative spellings of operators, white space and comments, is read as '
  'the tree that the documented precedence and associativity give, and text '
  'outside the grammar is refused. Reading does not depend on what was read, '
  'or refused, earlier.',
  ['inputs', 'histories'],
  'All formulas, spellings, and sequences of accepted and refused texts.',
  'Tests parse about two dozen fixed strings.',
  ['tulip/spec/lexyacc.py', 'tulip/spec/parser.py', 'tulip/spec/ast.py',
   'doc/specifications.rst'],
  [('token rules and precedence table', 'tulip/spec/lexyacc.py'),
   ('operators as words', 'tulip/spec/parser.py')],
  ['tulip.spec.parser.parse: tree or exception'],
  'Differential against an independent precedence-climbing parser, on '
  'generated trees and mutated token sequences; sampled.',
  'differential oracle: independent parser and printer')

P('P02', 'Writing a formula back preserves its structure',
  'A formula that is read, written back as text, and read again has the same '
  'structure, also through the graph form of its tree. Substituting '
  'definitions for Boolean variables, and quoting string constants, changes '
  'nothing but what it names, and keeps the meaning of each clause.',
  ['inputs'], 'All formulas, all sets of definitions.',
  'Tests compare a few strings.',
  ['tulip/spec/ast.py', 'tulip/spec/transformation.py',
   'tulip/spec/form.py'],
  [('flattening', 'tulip/spec/ast.py'),
   ('graph form and substitution', 'tulip/spec/transformation.py')],
  ['text and trees returned'],
  'Trees compared structurally, and clauses evaluated on random lasso words.',
  'round-trip monitor with independent parser and lasso evaluator')

P('P03', 'Translations for other tools preserve meaning',
  'The text produced for gr1c, slugs, JTLV, Wring, Promela, SMV and Python '
  'declares the same variables with the same owners and domains, and is '
  'satisfied by exactly the behaviors that satisfy the given specification '
  'or formula, with string values numbered in the order of their domain. '
  'Specifications with undeclared or wrongly primed variables are refused.',
  ['inputs'], 'All specifications and formulas in the fragment of each tool.',
  'Tests compare a few outputs as strings.',
  ['tulip/spec/translation.py', 'tulip/spec/form.py',
   'tulip/spec/transformation.py'],
  [('syntax tree nodes and sections for each language',
    'tulip/spec/translation.py')],
  ['tulip.spec.translation.translate, translate_ast: text'],
  'Output is read by an independent reader and evaluated on random lasso '
  'words against the source; the target tools are not installed.',
  'translation monitor: independent readers + lasso-word evaluator')

P('P04', 'A specification means what its clauses say, after any edits',
  'After any sequence of adding, replacing, moving and removing clauses, '
  'declaring variables, changing string domains, copying and uniting '
  'specifications, and querying them in between, each query (canonical '
  'formula, translation, compiled initial condition, realizability) answers '
  'for the clauses present. Copies and operands of a union stay unaffected '
  'by later edits.',
  ['histories'], 'All histories of edits and queries.',
  'Trees are cached inside the specification; tests query fresh objects.',
  ['tulip/spec/form.py'],
  [('caches of trees and of integer forms', 'tulip/spec/form.py GRSpec')],
  ['to_canon, translate, compile_init, is_realizable after each edit'],
  'Model-based histories of up to about ten steps; sampled.',
  'model-based history monitor (mirror specification + lasso evaluator)',
  state=[('cached trees', 'parsed clauses, by text', 'tulip/spec/form.py')])

P('P05', 'Substitution of values and integers preserves truth',
  'Substituting values for the variables of a formula or of all clauses of a '
  'specification yields formulas without variables that have the value of the '
  'original there, and does not change the specification. Replacing string '
  'constants by their positions in the domains keeps the meaning under the '
  'same numbering.',
  ['inputs'], 'All formulas, assignments, and orders of string domains.',
  'Tests substitute in one or two formulas.',
  ['tulip/spec/transformation.py', 'tulip/spec/form.py'],
  [('relabeling of tree nodes', 'tulip/spec/transformation.py')],
  ['trees after substitution'],
  'Evaluated against an independent evaluator; sampled.',
  'evaluation monitor over generated formulas and assignments')

P('P06', 'Temporal patterns converted to GR(1) accept the same behaviors',
  'The GR(1) form of stability, response, eventually and until, with the '
  'auxiliary variable hidden, is satisfied by exactly the behaviors that '
  'satisfy the pattern, for arbitrary state formulas. It declares exactly the '
  'variables involved, and a name that occurs in the formulas is refused as '
  'auxiliary.',
  ['inputs'], 'All state formulas and all infinite behaviors.',
  'Tests compare against fixed strings for single variables.',
  ['tulip/spec/gr1_fragment.py'],
  [('pattern templates', 'tulip/spec/gr1_fragment.py')],
  ['the returned specification'],
  'Hidden variable decided exactly on each lasso word by search in the '
  'product; words and formulas sampled.',
  'lasso-word monitor with exact projection of the auxiliary variable')

P('P07', 'GR(1)-shaped formulas are split without loss',
  'Splitting a conjunction of state formulas, safety and recurrence formulas, '
  'or an implication of such, returns parts that together mean the same as '
  'the formula. A formula with any conjunct of another shape is refused.',
  ['inputs'], 'All formulas, all associations of the conjunction.',
  'Tests split four fixed formulas.',
  ['tulip/spec/gr1_fragment.py'],
  [('collection of conjuncts', 'tulip/spec/gr1_fragment.py split_gr1')],
  ['split_gr1, str_to_grspec: parts or exception'],
  'Parts evaluated on random lasso words; sampled.',
  'lasso-word monitor over generated formulas')

P('P08', 'Specification files are read as written',
  'A specification written to the documented file format and read back has '
  'the same variables, domains, owners and formula. Every layout that the '
  'format admits (order of sections, white space, comments) is read as '
  'declared, and malformed files are refused.',
  ['inputs'], 'All declarations, formulas and layouts.',
  'One test compares two dumps of one specification.',
  ['tulip/spec/form.py', 'doc/specifications.rst'],
  [('dumps, loads, load', 'tulip/spec/form.py LTL')],
  ['LTL.dumps, loads, load'],
  'Sampled declarations and layouts.',
  'round-trip and layout monitor')


P('P09', 'Specifications that are not well formed are refused',
  'Parsing a GR(1) specification raises ValueError exactly if a formula '
  'mentions a variable that is not declared, and synthesis from it raises '
  'too; primed variables are '
  'refused in initial conditions and recurrence goals, and primed system '
  'variables in assumptions; specifications are joined only if domains and '
  'options agree, and the result has the clauses of both; a variable name '
  'that a formula uses is reported as a conflict.',
  ['inputs'], 'All specifications, names, and placements of primes.',
  'Tests try one undeclared variable and one conflict.',
  ['tulip/spec/form.py', 'tulip/spec/transformation.py'],
  [('GRSpec.parse, check_syntax, __or__', 'tulip/spec/form.py'),
   ('check_for_undefined_identifiers, check_var_name_conflict',
    'tulip/spec/transformation.py')],
  ['exceptions, and the joined specification'],
  'Sampled specifications of up to 4 variables.',
  'accept/refuse monitor over valid and damaged specifications')

P('P10', 'Formulas for mutual exclusion and for dependent variables are exact',
  'mutex gives a formula that holds exactly if at most one of the given '
  'formulas holds, exactly_one exactly if one holds, for formulas of any '
  'precedence; build_dependent_var_table maps each atomic proposition of a '
  'transition system to a formula over the state variable that holds exactly '
  'at the states labeled with the proposition, so replacing it preserves '
  'the value of every formula.',
  ['inputs'], 'All lists of formulas, and labeled transition systems.',
  'No test evaluates these formulas.',
  ['tulip/synth.py'],
  [('mutex, exactly_one', 'tulip/synth.py'),
   ('build_dependent_var_table, map_ap_to_states, iter2var',
    'tulip/synth.py')],
  ['the formulas that are returned, evaluated'],
  'Up to five formulas and four states; all assignments of each case.',
  'all assignments evaluated by an independent parser and evaluator')

P('P11', 'Prioritized specifications list their rules in order of priority',
  'After any sequence of additions, iterating a prioritized safety '
  'specification yields the rules by level, and within a level in order of '
  'addition, with their priorities and automata; indexing, levels, and the '
  'products of states, initial and accepting states agree with that order; '
  'rules with wrong automata, priorities, levels or propositions are refused '
  'and change nothing.',
  ['inputs', 'histories'], 'All sequences of additions.',
  'Tests build one specification of a few rules.',
  ['tulip/spec/prioritized_safety.py'],
  [('PrioritizedSpecification, FAWithPriority',
    'tulip/spec/prioritized_safety.py')],
  ['iteration, indexing, and product accessors after each addition'],
  'Histories of up to 7 additions.',
  'model-based monitor of histories')


# M: machines ----------------------------------------------------------

P('M01', 'Simulating a machine takes exactly its transitions',
  'For every state and inputs of a transducer, a reaction returns the next '
  'state and outputs of the one transition that the inputs enable, and is '
  'refused when none or several are enabled. Runs that are guided, random or '
  'interactive are paths of transitions from the requested or initial state, '
  'of the requested length, with the outputs of those transitions. Removing '
  'ports changes only those ports.',
  ['inputs', 'histories'],
  'All finite transducers, states, and input words; user choices of '
  'interactive runs.',
  'Tests run two fixed machines, and never the refusals.',
  ['tulip/transys/machines.py'],
  [('reaction, reactionpart', 'tulip/transys/machines.py MealyMachine'),
   ('guided_run, random_run, interactive_run, strip_ports',
    'tulip/transys/machines.py')],
  ['results of reactions and runs'],
  'Each reaction is compared to a table of transitions held by the check; '
  'small machines, sampled.',
  'online trace monitor against an independent transition table')

P('M02', 'Moore and Mealy machines are converted without changing behavior',
  'Converting a Moore to a Mealy machine yields the same states, whose '
  'reactions emit what the source state emits. Converting a Mealy to a Moore '
  'machine yields one whose state after each reaction emits what that '
  'reaction emitted, for all input words, and keeps determinism. Ports and '
  'domains are kept.',
  ['inputs', 'histories'],
  'All finite Moore and Mealy machines, deterministic or not, and all words.',
  'Tests convert one machine in each direction.',
  ['tulip/transys/machines.py'],
  [('moore2mealy, mealy2moore', 'tulip/transys/machines.py')],
  ['transitions and state labels of the converted machine'],
  'Lockstep product of both machines is explored exhaustively; machines '
  'sampled.',
  'lockstep (bisimulation) monitor over generated machines')

P('M03', 'Generated Python code behaves as the machine',
  'The class that is generated for a deterministic Mealy machine can be '
  'executed, starts in the requested state, and after each sequence of inputs '
  'returns the outputs of the machine. Inputs without a transition are '
  'refused and keep the state, and a dead end is reported.',
  ['inputs', 'histories'],
  'All deterministic Mealy machines, also without inputs, and all words.',
  'One test compares a fixed machine for a few steps.',
  ['tulip/dumpsmach.py'],
  [('python_case, write_python_case', 'tulip/dumpsmach.py')],
  ['move of the generated class'],
  'The product of class instances and table is explored exhaustively; '
  'machines sampled.',
  'lockstep monitor of generated code against the transition table')

P('M04', 'Strategies of external solvers become machines faithfully',
  'A strategy printed by an external solver (JSON or XML of gr1c, JSON of '
  'slugs) becomes a machine with one state per node, the same transitions, '
  'values as declared (also for string and multi-bit variables), and an '
  'initial transition per initial valuation. Solvers are called with the '
  'initial option of the specification, and a verdict is theirs.',
  ['inputs', 'configurations'],
  'All strategies and specifications the formats can express.',
  'The solvers are not installed, so those tests are skipped; the rest load '
  'one file of each format.',
  ['tulip/interfaces/gr1c.py', 'tulip/interfaces/slugs.py',
   'tulip/synth.py'],
  [('parsing', 'tulip/interfaces/gr1c.py load_aut_json, load_aut_xml'),
   ('bit fields', 'tulip/interfaces/slugs.py'),
   ('strategy2mealy', 'tulip/synth.py')],
  ['machine; arguments and input of the solver process'],
  'Solvers are replaced by programs that print prepared answers; sampled.',
  'process-level monitor with recording stand-ins for the solvers')

P('G01', 'Labeled graphs stay consistent under any history of changes',
  'After any history of adding, relabeling and removing states and '
  'transitions, a labeled graph (including transition systems, Kripke '
  'structures, and automata) has exactly the states, transitions and labels '
  'that were added and not removed. A change that is refused (unknown state, '
  'undeclared label or value, duplicate of an existing transition) raises '
  'and leaves the graph as it was. Initial and accepting states are states '
  'of the graph. `find`, `post`, `pre`, reachability, dead ends, and copies '
  'answer for the current graph, and a deep copy is independent.',
  ['histories', 'inputs'],
  'All histories of operations on `states` and `transitions` of all classes '
  'of labeled graphs, also with states whose names are prefixes of others.',
  'Tests apply a few operations to small fixed graphs.',
  ['tulip/transys/labeled_graphs.py', 'tulip/transys/mathset.py',
   'tulip/transys/transys.py', 'tulip/transys/automata.py'],
  [('States, Transitions, LabeledDiGraph',
    'tulip/transys/labeled_graphs.py'),
   ('SubSet, TypedDict', 'tulip/transys/mathset.py')],
  ['states, transitions, labels, initial states, and results of queries '
   'after each operation'],
  'Histories sampled; each step compared with a model of the graph.',
  'model-based monitor of histories of graph operations',
  [('graph', 'nodes, labeled edges, initial and accepting states',
    'tulip/transys/labeled_graphs.py')])

P('G02', 'Constructors build exactly the structure that they are given',
  'Transition systems from tuples (tuple2fts), labels along lines and cycles '
  '(line_labeled_with, cycle_labeled_with), initial states by label '
  '(add_initial_states), Buchi automata (tuple2ba), Rabin automata with '
  'acceptance pairs, and two-player and parity games have exactly the '
  'states, labels, alphabet, transitions, initial and accepting states, '
  'players and colors of the definition; each kind of automaton, of '
  'Kripke structure, of Markov model, and FTS refuses letters, costs, '
  'probabilities, actions and owners outside of what it was constructed '
  'with, and accepts all others.',
  ['inputs'],
  'All definitions, also with prefixes, actions, singletons, and empty '
  'sets.',
  'Tests build one or two examples with each constructor.',
  ['tulip/transys/transys.py', 'tulip/transys/automata.py'],
  [('tuple2fts, line_labeled_with, add_initial_states',
    'tulip/transys/transys.py'),
   ('tuple2ba, Rabin automata, ParityGame, LabeledGameGraph',
    'tulip/transys/automata.py')],
  ['attributes of the structure'],
  'Definitions sampled; results compared item by item.',
  'comparison of constructed structures with their definition')

P('G03', 'Mathematical sets, subsets, power sets, and products are exact',
  'MathSet holds hashable and unhashable elements once each, with exact '
  'membership, equality, union, difference and size after any history; '
  'SubSet never contains an element that is not in its superset, and a '
  'refused change leaves it as it was; PowerSet and CartesianProduct contain '
  'exactly the subsets and tuples of the underlying sets; TypedDict refuses '
  'values outside the declared type of a key through every way of '
  'assigning.',
  ['histories', 'inputs'],
  'All histories of operations, with elements of all kinds.',
  'Tests cover a few operations on a few elements.',
  ['tulip/transys/mathset.py'],
  [('MathSet, SubSet, PowerSet, CartesianProduct, TypedDict',
    'tulip/transys/mathset.py')],
  ['elements, membership, size after each operation'],
  'Histories sampled; compared with lists of elements.',
  'model-based monitor of histories of set operations')

P('G05', 'Functions on labeled states return what was defined last',
  'A function on labeled states returns for each input the outputs that were '
  'defined last for exactly that input, refuses inputs and definitions with '
  'other names, and writes files with all entries.',
  ['histories', 'inputs'],
  'All histories of definitions and lookups with any names of inputs and '
  'outputs.',
  'Tests define and look up a few entries.',
  ['tulip/transys/mathfunc.py'],
  [('FunctionOnLabeledState', 'tulip/transys/mathfunc.py')],
  ['results of lookups; files'],
  'Histories sampled.',
  'model-based monitor of histories of definitions and lookups')

P('G06', 'Bisimulation and dual simulation abstractions are sound and exact',
  'simu_abstract returns cells that cover the states, each with the '
  'propositions of its states, and each abstract transition can be followed '
  'by every state of its source cell. For bisimulation the cells are exactly '
  'the classes of bisimilar states (coarsest partition), and the transitions '
  'exactly those of the quotient. For dual simulation cells may overlap, and '
  'each transition of a state has a counterpart from the smallest cell that '
  'contains the state. Maps between states and cells agree in both '
  'directions, initial cells contain initial states, and the argument does '
  'not change.',
  ['inputs'],
  'All finite labeled transition systems.',
  'Tests abstract two small examples.',
  ['tulip/transys/transys.py', 'tulip/transys/labeled_graphs.py'],
  [('simu_abstract', 'tulip/transys/transys.py'),
   ('add_adj', 'tulip/transys/labeled_graphs.py')],
  ['the abstract transition system and the partition'],
  'Systems sampled; compared with partition refinement of the check.',
  'comparison with an independent partition refinement')

P('G07', 'Products of transition systems and automata follow the definition',
  'ts_ba_sync_prod and ba_ts_sync_prod have exactly the states that are '
  'reachable from the initial ones, where the automaton reads the labels of '
  'the states of the transition system, with exactly the transitions, '
  'actions, labels, letters, initial, accepting and persistent states of the '
  'synchronous product. The on-the-fly product contains after each extension '
  'exactly the states and transitions extended so far, and after adding all '
  'states it is the product. Operands do not change.',
  ['inputs', 'histories'],
  'All finite transition systems and Buchi automata over the same '
  'propositions, and all orders of extension.',
  'Tests build a few products, and compare few transitions.',
  ['tulip/transys/products.py'],
  [('ts_ba_sync_prod, ba_ts_sync_prod, OnTheFlyProductAutomaton',
    'tulip/transys/products.py')],
  ['states, transitions, and labels of the product'],
  'Operands sampled; products compared completely.',
  'comparison with the product by definition; history monitor of the lazy '
  'product')

P('G08', 'Composition and policies preserve behavior and probability',
  'The synchronous composition of Kripke structures, weighted structures, '
  'Markov chains and decision processes has exactly the tuples of states, '
  'the unions of labels, the joint transitions with the sum (or given '
  'operation) of costs, the product of probabilities, and the joint actions; '
  'probabilities of each action add up to 1. Applying a policy keeps exactly '
  'the transitions of the chosen actions with their probabilities. Operands '
  'do not change, and share nothing with the result.',
  ['inputs'],
  'All lists of models with the same or different propositions.',
  'Tests compose one pair of each kind.',
  ['tulip/transys/compositions.py'],
  [('synchronous_parallel, apply_policy', 'tulip/transys/compositions.py')],
  ['states, transitions, and labels of the composition'],
  'Models sampled; compositions compared completely.',
  'comparison with the composition by definition')

P('G09', 'Minimum-violation plans and shortest paths are optimal',
  'The plan that `mvp.solve` returns is a path of the Kripke structure from '
  'an initial state to a state with the goal label, together with states of '
  'the automata of the rules, and its cost is the least, where violations '
  'are summed by priority for each level, levels are compared in order, and '
  'then the cost of transitions; infinite cost and an empty plan are '
  'returned exactly when no goal can be reached. Shortest paths between sets '
  'of states are paths with the least sum of costs, also with zero costs, '
  'ties, parallel transitions, and vectors; vector costs are ordered and '
  'added like tuples.',
  ['inputs'],
  'All Kripke structures, prioritized rules, and weighted graphs.',
  'Tests solve one example, and two shortest paths.',
  ['tulip/mvp.py', 'tulip/transys/graph_algorithms.py',
   'tulip/transys/cost.py'],
  [('solve', 'tulip/mvp.py'),
   ('dijkstra_*', 'tulip/transys/graph_algorithms.py'),
   ('VectorCost', 'tulip/transys/cost.py')],
  ['cost, path, run, and product automaton'],
  'Problems sampled; optima computed by relaxation to a fixpoint.',
  'comparison with optimal costs by fixpoint iteration, and path monitor')

P('G10', 'Model checking with Storm gives the states their own results',
  'A Markov chain or decision process written as Prism file and read back '
  'has the same initial state, labels, and distributions. Probabilities that '
  'model_checking returns for each state are those of the formula from that '
  'state, and an extracted policy chooses for each state an action of that '
  'state, such that the formula holds with the returned probability. Models '
  'that cannot be written or told apart are refused. The state and action '
  'that correspond to those of Storm have the same labels and '
  'probabilities.',
  ['inputs'],
  'All Markov chains and decision processes with finitely many states and '
  'distinct labels, and reachability, until, invariance and bounded '
  'formulas.',
  'Tests check three models with fixed formulas.',
  ['tulip/interfaces/stormpy.py'],
  [('to_prism_file, to_tulip_transys, model_checking',
    'tulip/interfaces/stormpy.py')],
  ['probabilities and policy; models read from files'],
  'Models sampled; probabilities from value iteration of the check.',
  'comparison with value iteration; monitor of the chain that a policy '
  'induces')

P('G11', 'Exported graphs are the same graphs',
  'A labeled graph saved as DOT or image is in the given file, and has '
  'exactly the nodes, transitions, visible labels, initial and accepting '
  'states of the graph. The Promela process of a closed transition system '
  'has exactly its runs, with the actions and with the propositions of each '
  'state, the initial one included. SCXML of Mealy machines and HTML pages '
  'contain the same states and transitions, and HTML pages show their '
  'labels. Colors, the direction, and styles for TikZ are as requested.',
  ['inputs', 'formats'],
  'All labeled graphs with names that the formats can express.',
  'Tests write files, and do not read them.',
  ['tulip/transys/export/graph2dot.py',
   'tulip/transys/export/graph2promela.py',
   'tulip/transys/export/machine2scxml.py',
   'tulip/transys/export/save_d3.py', 'tulip/transys/labeled_graphs.py',
   'tulip/graphics.py'],
  [('graph2dot_str, save_dot', 'tulip/transys/export/graph2dot.py'),
   ('fts2promela', 'tulip/transys/export/graph2promela.py'),
   ('mealy2scxml', 'tulip/transys/export/machine2scxml.py'),
   ('labeled_digraph2d3', 'tulip/transys/export/save_d3.py')],
  ['the files, read by GraphViz, Spin, and XML and JSON parsers'],
  'Graphs sampled; runs of Promela simulated with Spin.',
  'monitor of runs in Spin against the transition system; files read back')

P('W01', 'Gridworld descriptions, copies, names and parts say the same world',
  'A gridworld read from a description has exactly the described size, '
  'walls, initial cells and goals, with comments ignored, missing rows '
  'empty, and unknown symbols refused; dumping and loading gives an equal '
  'world. Worlds are equal exactly if cells, initial cells and goals are. '
  'Copies are equal and independent. Names of cells, states, and coordinates '
  'extracted from names agree, also for negative indices and offsets; cells '
  'outside are refused. Subworlds and scaled worlds have the cells at the '
  'corresponding positions, with walls outside of the world. Pictures show '
  'each cell, and the directions of a path.',
  ['inputs'],
  'All gridworlds, descriptions, and parts of worlds.',
  'Tests use two worlds.',
  ['tulip/gridworld.py'],
  [('GridWorld', 'tulip/gridworld.py'),
   ('extract_coord', 'tulip/gridworld.py')],
  ['worlds, text, names'],
  'Worlds up to 6 by 6 sampled.',
  'comparison with an independent model of the world')

P('W02', 'Reachability in gridworlds, and worlds generated as requested',
  'A cell is reported reachable exactly if a path of free 4-neighbors leads '
  'there. Random worlds have the requested size, number of walls, and '
  'distinct free initial cells, goals and trolls; with ensure_feasible all '
  'of these cells reach each other, else no world is returned. '
  'Narrow-passage worlds are two zones connected by a straight passage of '
  'the requested place, width and length, with initial cells in the left '
  'and goals in the right zone.',
  ['inputs', 'histories'],
  'All worlds, and all random choices of the generators.',
  'Tests check some pairs of cells, and three random worlds.',
  ['tulip/gridworld.py'],
  [('GridWorld.is_reachable', 'tulip/gridworld.py'),
   ('random_world, narrow_passage, unoccupied', 'tulip/gridworld.py')],
  ['reachability, and content of generated worlds'],
  'Worlds up to 9 by 12 sampled.',
  'comparison with graph search; monitor of generated worlds')

P('W03', 'Gridworld specifications allow exactly the legal moves',
  'The specification of a gridworld, with integer or Boolean variables, '
  'controlled or not, and with any offset, allows initially exactly the '
  'initial cells; from a free cell exactly the moves to itself and to free '
  '4-neighbors; its recurrent goals are exactly the goal cells. With trolls, '
  'each troll moves in the same way within the cells at its radius, starts '
  'at its center or anywhere as requested, and returns to its center; the '
  'controlled player is forbidden exactly to step on a troll; the states '
  'listed for each troll are valuations of its variables.',
  ['inputs', 'states'],
  'All worlds, trolls, and pairs of states.',
  'Tests check that two specifications are realizable.',
  ['tulip/gridworld.py', 'tulip/spec/form.py'],
  [('GridWorld.spec', 'tulip/gridworld.py'),
   ('add_trolls', 'tulip/gridworld.py')],
  ['formulas of the specification, evaluated at all pairs of states'],
  'Worlds up to 4 by 4; all pairs of cells, sampled joint states.',
  'monitor of steps: formulas evaluated on traces of legal and illegal moves')

P('W04', 'The partition of a gridworld has one region at each cell',
  'dump_ppartition gives a partition whose regions are exactly the '
  'rectangles of the cells with given side lengths and corner, each labeled '
  'with the formula or variable of its cell only; every point of the domain '
  'is in the region of its cell; neighbors are adjacent, cells that do not '
  'touch are not.',
  ['inputs'],
  'All worlds, side lengths, and corners.',
  'No test calls dump_ppartition.',
  ['tulip/gridworld.py', 'tulip/abstract/prop2partition.py'],
  [('GridWorld.dump_ppartition', 'tulip/gridworld.py'),
   ('prop2part', 'tulip/abstract/prop2partition.py')],
  ['regions, labels, adjacency, and membership of points'],
  'Worlds up to 4 by 4 sampled.',
  'comparison of regions with the geometry of cells')

P('H01', 'Partitions cover the domain, do not overlap, and preserve propositions',
  'Partitions computed from propositions (and refined to convex cells, to '
  'the domains of a piecewise affine system, or to a grid) cover the domain, '
  'have cells with disjoint interiors inside the domain, and label each cell '
  'with exactly the propositions whose sets contain it; cells that share a '
  'facet are adjacent, cells that are apart are not; the transition system of '
  'a partition has exactly the edges between adjacent cells; partitions that '
  'are described wrongly are refused.',
  ['inputs'],
  'All polytopic domains, propositions (overlapping, equal, nonconvex, partly '
  'outside the domain), and domains of subsystems.',
  'Tests partition three fixed domains.',
  ['tulip/abstract/prop2partition.py'],
  [('prop2part, part2convex, pwa_partition, add_grid',
    'tulip/abstract/prop2partition.py'),
   ('PropPreservingPartition', 'tulip/abstract/prop2partition.py')],
  ['regions, propositions, and adjacency of the partition'],
  'One- and two-dimensional domains sampled.',
  'membership of sampled points and vertices, decided by linear programming')

P('H02', 'Transitions of abstractions can be executed by the dynamics',
  'For each transition of the abstraction of (piecewise) affine dynamics, '
  'each point of the start cell can be driven to the end cell in the horizon '
  'by admissible inputs, whatever the disturbance (reacting to it if closed '
  'loop), without leaving before the last step the cell where this is '
  'required (original cell, or the cell itself if conservative). If all '
  'points of a cell can reach a neighbor, then the transition is present; a '
  'cell that is neither nearly all able nor nearly all unable, relative to '
  'the minimal volume, is split. The cells preserve the propositions, and the '
  'maps between states, cells, subsystems and original cells are correct.',
  ['inputs', 'histories', 'schedules'],
  'All domains, dynamics, disturbances, initial points, and parameters of '
  'the discretization.',
  'Tests compare a few abstractions to stored matrices or sizes.',
  ['tulip/abstract/discretization.py', 'tulip/abstract/feasible.py'],
  [('discretize, _discretize_bi, _discretize_dual',
    'tulip/abstract/discretization.py'),
   ('AbstractPwa', 'tulip/abstract/discretization.py'),
   ('is_feasible, solve_feasible', 'tulip/abstract/feasible.py')],
  ['transitions, cells and maps of the abstraction'],
  'One- and two-dimensional dynamics, horizons up to 3, sampled points; '
  'margin 1e-4.',
  'monitor of edges: sampled executions decided by mixed-integer programs')

P('H03', 'Control inputs realize transitions of abstractions at least cost',
  'For each state in the start cell of a transition, get_input returns '
  'admissible inputs that drive the plant to the end cell in the horizon, '
  'whatever the disturbance (recomputing at each step if closed loop), '
  'staying in the required cell before; among these the inputs have the least '
  'cost for norms 1, 2 and infinity (without weight for the center). It '
  'refuses pairs of cells without a transition, and does not change its '
  'arguments. find_discrete_state returns the cell that contains a state, '
  'and is_seq_inside decides whether a sequence stays and arrives.',
  ['inputs', 'histories', 'schedules'],
  'All abstractions, transitions, states, disturbances, and cost matrices.',
  'Tests call get_input for one system with default costs.',
  ['tulip/abstract/find_controller.py'],
  [('get_input, get_input_helper, is_seq_inside, find_discrete_state',
    'tulip/abstract/find_controller.py'),
   ('createLM', 'tulip/abstract/feasible.py')],
  ['executions of the plant with the returned inputs, and their cost'],
  'Fixed horizons up to 3, one- and two-dimensional dynamics sampled.',
  'closed-loop executions with extreme disturbances, judged online; cost '
  'compared with an independent optimization')

P('H04', 'Abstractions of switched systems merge the modes correctly',
  'The merged abstraction of switched dynamics (sequential or parallel) has '
  'a partition that preserves the propositions, each cell inside the recorded '
  'cell of each mode; transitions are labeled with the actions of their mode, '
  'each can be executed by the dynamics of that mode from all points of the '
  'start cell, and transitions that all points can execute are present.',
  ['inputs', 'histories', 'schedules'],
  'All domains, modes, labels of modes, dynamics, disturbances, parameters, '
  'and orders of completion of parallel workers.',
  'Tests abstract one switched system and count its transitions.',
  ['tulip/abstract/discretization.py', 'tulip/hybrid.py'],
  [('discretize_switched, multiproc_discretize_switched, merge_partitions, '
    'get_transitions, merge_abstractions',
    'tulip/abstract/discretization.py'),
   ('AbstractSwitched', 'tulip/abstract/discretization.py')],
  ['transitions, cells, and maps of the merged abstraction'],
  'Up to four modes, horizons up to 2, sampled points; margin 1e-4.',
  'monitor of edges: sampled executions decided by mixed-integer programs')

P('H05', 'Descriptions of hybrid systems are validated and stored faithfully',
  'Affine, piecewise affine and switched systems are accepted exactly if '
  'dimensions agree, subsystems cover the domain and do not overlap, and '
  'modes are declared; they store the given matrices with documented '
  'defaults; time data is validated, and pushed to subsystems or checked for '
  'consistency as requested.',
  ['inputs'],
  'All systems, dimensions, domains, labels, and time data.',
  'Tests check time semantics of a few systems.',
  ['tulip/hybrid.py'],
  [('LtiSysDyn, PwaSysDyn, SwitchedSysDyn', 'tulip/hybrid.py')],
  ['attributes of the systems, exceptions, and warnings'],
  'Dimensions up to 3 sampled.',
  'monitor of constructors over valid and mutated descriptions')

P('H06', 'Sets computed for reachability are exactly the states that can reach',
  'solve_feasible returns, for convex sets, exactly the states of the start '
  'set from which admissible inputs lead to the target in the horizon, '
  'whatever the disturbance, staying in the given set, in closed or open '
  'loop; for nonconvex sets or any-step horizons it contains only such '
  'states, and those that reach in one step. is_feasible accepts exactly the '
  'sets all of whose states can reach.',
  ['inputs', 'histories', 'schedules'],
  'All polytopes, dynamics, inputs sets (that may depend on the state), '
  'disturbances, and horizons.',
  'Tests compare a few projections to stored sets.',
  ['tulip/abstract/feasible.py'],
  [('solve_feasible, solve_closed_loop, solve_open_loop, createLM, '
    'is_feasible', 'tulip/abstract/feasible.py')],
  ['the sets that are returned'],
  'One- and two-dimensional dynamics, horizons up to 3; margin 1e-4.',
  'sampled states judged by an independent mixed-integer program over the '
  'tree of extreme disturbances')

# E: from dynamics to trajectories --------------------------------------

P('H07', 'Parallel abstraction ends, whatever its workers do',
  'multiproc_discretize_switched returns the same abstraction as '
  'discretize_switched, or raises: when any of its workers raises, or is '
  'killed before it delivers, at whichever stage, it raises promptly and '
  'leaves no worker running; when workers are suspended and resumed, the '
  'result is the same.',
  ['crash points', 'schedules', 'inputs'],
  'All switched dynamics, sets of failing modes, and moments at which '
  'workers are killed or suspended (not while they write a result).',
  'No test kills or fails a worker; a parent that waits forever appears only '
  'with such faults.',
  ['tulip/abstract/discretization.py'],
  [('multiproc_discretize_switched, multiproc_discretize, '
    'multiproc_get_transitions', 'tulip/abstract/discretization.py')],
  ['return or exception within a time limit, children that remain, the '
   'abstraction'],
  'Faults are injected: invalid parameters of modes, SIGKILL, SIGTERM, '
  'SIGSTOP/SIGCONT of the n-th worker; an alarm detects hangs.',
  'fault injection with a watchdog, differential comparison to the sequential '
  'result')

P('E01', 'Controllers synthesized for an abstraction work on the dynamics',
  'A controller synthesized for the abstraction of a continuous system and '
  'a specification, together with the inputs computed for each of its '
  'transitions, drives the continuous state so that it is in the cell that '
  'the controller announces, exactly the announced propositions hold there, '
  'inputs are admissible, and the specification is satisfied; simulate2d '
  'produces such trajectories of the dynamics for each quantification of '
  'initial conditions.',
  ['inputs', 'schedules', 'configurations'],
  'All scenes, dynamics, specifications, and sequences of environment '
  'inputs and disturbances.',
  'Tests abstract and synthesize separately for single systems, and no test '
  'computes inputs, or simulates.',
  ['tulip/abstract/plot.py', 'tulip/abstract/find_controller.py',
   'tulip/abstract/discretization.py', 'tulip/synth.py',
   'tulip/transys/machines.py'],
  [('simulate2d', 'tulip/abstract/plot.py'),
   ('get_input', 'tulip/abstract/find_controller.py'),
   ('_synthesize with a system', 'tulip/synth.py')],
  ['controller, its reactions, inputs, plotted trajectories'],
  'Random planar scenes and dynamics; each discrete run of the controller is '
  'followed until it repeats; cells, labels, and dynamics are evaluated by '
  'linear programming on the arrays of the scene.',
  'online monitor of closed-loop trajectories, lasso oracle of the run')

P('E02', 'Plots show the partition, transitions, and trajectories as they are',
  'project_strategy_on_partition returns exactly the pairs of cells that '
  'consecutive transitions of the controller visit; plot_strategy and '
  'plot_ts_on_partition draw an arrow for exactly these pairs, or for the '
  'transitions with the given label (between neighbors, if so asked); '
  'plot_trajectory draws the trajectory of the dynamics; '
  'plot_abstraction_scc gives equal colors exactly to cells that can reach '
  'each other; plots of a switched abstraction draw the transitions of each '
  'mode, whatever the type of its labels; plotting while discretizing, or '
  'saving its frames, does not change the abstraction.',
  ['inputs', 'configurations'],
  'All planar partitions, controllers, labeled graphs, and trajectories.',
  'No test calls these functions.',
  ['tulip/abstract/plot.py'],
  [('project_strategy_on_partition, plot_ts_on_partition, plot_trajectory, '
    'plot_abstraction_scc', 'tulip/abstract/plot.py')],
  ['the returned matrix, and the artists of the returned axes'],
  'Random scenes; artists of matplotlib are read from the axes.',
  'offline comparison of drawn artists to an independent computation')

P('C01', 'Functions keep their arguments, and answer the same when asked again',
  'Synthesis, checks of realizability, conversions of systems, '
  'specifications, and machines, products, shortest paths, exports, queries '
  'of graphs and gridworlds, abstraction, computation of inputs, and plots '
  'do not change the specifications, transition systems, machines, worlds, '
  'dynamics, partitions, and options that a caller gives to them: not when '
  'they return, and not when they raise. Asking again with the same '
  'arguments gives an equal answer, and a change of labels of a returned '
  'graph, or of sections of a returned specification, or an element appended '
  'to a returned collection, does not show in the arguments.',
  ['inputs', 'histories'],
  'All arguments, and all sequences of calls.',
  'Tests look at what a function returns, and rarely use an argument again.',
  ['tulip/synth.py', 'tulip/transys/machines.py',
   'tulip/transys/products.py', 'tulip/transys/compositions.py',
   'tulip/transys/labeled_graphs.py', 'tulip/transys/transys.py',
   'tulip/gridworld.py', 'tulip/mvp.py', 'tulip/dumpsmach.py',
   'tulip/interfaces/omega.py', 'tulip/interfaces/stormpy.py',
   'tulip/abstract/discretization.py', 'tulip/abstract/feasible.py',
   'tulip/abstract/find_controller.py', 'tulip/abstract/plot.py',
   'tulip/abstract/prop2partition.py'],
  [('synthesize, is_realizable, sys_to_spec, env_to_spec, synthesize_many',
    'tulip/synth.py'),
   ('moore2mealy, mealy2moore, strip_ports', 'tulip/transys/machines.py'),
   ('GridWorld.spec, scale, is_reachable, copy', 'tulip/gridworld.py'),
   ('discretize, discretize_switched',
    'tulip/abstract/discretization.py')],
  ['outermost calls of about 110 public functions and methods, their '
   'arguments before and after, results, and results of repeated calls'],
  'The workloads of the other checks run with wrapped functions; arguments '
  'are recorded as immutable values of what their public interface shows.',
  'call monitor that compares snapshots of arguments and repeated answers')
