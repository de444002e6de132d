"""Monitor of calls: arguments are left as they were.

Functions of `tulip` are replaced with wrappers. At each outermost call,
what a caller can see of the arguments is recorded before the call,
and compared after it. Caches and other private data are not looked at.
"""
import collections
import functools
import importlib
import inspect

import numpy as np

FUNCTIONS = {
    'tulip.synth': [
        'mutex', 'exactly_one', 'sys_to_spec', 'env_to_spec',
        'build_dependent_var_table', 'synthesize_many', 'synthesize',
        'is_realizable', 'strategy2mealy',
        'determinize_machine_init'],
    'tulip.mvp': ['solve'],
    'tulip.dumpsmach': ['write_python_case', 'python_case'],
    'tulip.gridworld': [
        'random_world', 'narrow_passage', 'unoccupied', 'add_trolls',
        'extract_coord'],
    'tulip.interfaces.omega': [
        'is_realizable', 'synthesize_enumerated_streett', 'is_circular'],
    'tulip.interfaces.gr1c': [
        'load_aut_xml', 'load_aut_json', 'check_realizable',
        'synthesize', 'check_syntax'],
    'tulip.interfaces.gr1py': ['check_realizable', 'synthesize'],
    'tulip.interfaces.slugs': ['check_realizable', 'synthesize'],
    'tulip.interfaces.stormpy': [
        'to_prism_file', 'model_checking', 'to_tulip_transys'],
    'tulip.transys.machines': [
        'guided_run', 'random_run', 'moore2mealy', 'mealy2moore',
        'project_dict', 'trim_dict', 'strip_ports'],
    'tulip.transys.products': ['ts_ba_sync_prod', 'ba_ts_sync_prod'],
    'tulip.transys.compositions': [
        'synchronous_parallel', 'apply_policy'],
    'tulip.transys.graph_algorithms': [
        'dijkstra_single_source_multiple_targets',
        'dijkstra_multiple_sources_multiple_targets'],
    'tulip.transys.transys': [
        'tuple2fts', 'line_labeled_with', 'cycle_labeled_with',
        'simu_abstract'],
    'tulip.transys.automata': ['tuple2ba'],
    'tulip.transys.export.graph2dot': ['graph2dot_str', 'save_dot'],
    'tulip.transys.export.graph2promela': ['fts2promela'],
    'tulip.transys.export.machine2scxml': ['mealy2scxml'],
    'tulip.transys.export.save_d3': ['labeled_digraph2d3'],
    'tulip.spec.translation': ['translate', 'translate_ast'],
    'tulip.spec.gr1_fragment': [
        'str_to_grspec', 'split_gr1', 'stability_to_gr1',
        'response_to_gr1', 'eventually_to_gr1', 'until_to_gr1'],
    'tulip.abstract.discretization': [
        'discretize', 'discretize_switched',
        'multiproc_discretize_switched'],
    'tulip.abstract.feasible': ['is_feasible', 'solve_feasible'],
    'tulip.abstract.find_controller': [
        'get_input', 'find_discrete_state'],
    'tulip.abstract.plot': [
        'plot_abstraction_scc', 'plot_ts_on_partition',
        'project_strategy_on_partition', 'plot_strategy',
        'plot_trajectory', 'simulate2d'],
    'tulip.abstract.prop2partition': [
        'prop2part', 'part2convex', 'pwa_partition', 'add_grid',
        'ppp2ts'],
    'tulip.gridworld:GridWorld': [
        'copy', 'dumps', 'spec', 'scale', 'dump_subworld', 'pretty',
        'is_reachable', 'is_empty', 'state', 'size', '__eq__'],
    'tulip.spec.form:GRSpec': [
        '__or__', 'pretty', 'dumps', 'to_canon', 'copy'],
    'tulip.spec.form:LTL': ['dumps', 'check_vars', 'check_form'],
    'tulip.transys.machines:MealyMachine': ['reaction', 'reactionpart'],
    'tulip.transys.machines:MooreMachine': ['reaction', 'reactionpart'],
    'tulip.transys.labeled_graphs:LabeledDiGraph': [
        'save', 'reachable', 'dot_str', 'is_consistent', 'has_deadends'],
    'tulip.transys.labeled_graphs:Transitions': ['find'],
    'tulip.transys.labeled_graphs:States': [
        'find', 'post', 'pre', 'forward_reachable',
        'backward_reachable', 'paths'],
    'tulip.abstract.discretization:AbstractPwa': [
        'plot', 'ppp2pwa', 'ppp2sys', 'ts2ppp', 'ppp2trans'],
    'tulip.abstract.discretization:AbstractSwitched': [
        'plot', 'ppp2pwa', 'ppp2sys'],
    'tulip.abstract.prop2partition:PropPreservingPartition': [
        'preserves_predicates', 'reg2props'],
}

# asked again, these give the same answer
AGAIN = {
    'mutex', 'exactly_one', 'sys_to_spec', 'env_to_spec',
    'is_realizable', 'synthesize', 'determinize_machine_init', 'solve',
    'python_case', 'add_trolls', 'extract_coord', 'moore2mealy',
    'mealy2moore', 'project_dict', 'trim_dict', 'strip_ports',
    'ts_ba_sync_prod', 'ba_ts_sync_prod', 'synchronous_parallel',
    'apply_policy', 'dijkstra_single_source_multiple_targets',
    'dijkstra_multiple_sources_multiple_targets', 'tuple2fts',
    'line_labeled_with', 'cycle_labeled_with', 'simu_abstract',
    'tuple2ba', 'translate', 'split_gr1', 'is_feasible',
    'find_discrete_state', 'project_strategy_on_partition',
    'prop2part', 'part2convex', 'ppp2ts', 'model_checking',
    'GridWorld.copy', 'GridWorld.dumps', 'GridWorld.spec',
    'GridWorld.scale', 'GridWorld.dump_subworld', 'GridWorld.pretty',
    'GridWorld.is_reachable', 'GridWorld.is_empty', 'GridWorld.state',
    'GridWorld.size', 'GridWorld.__eq__', 'GRSpec.__or__',
    'GRSpec.pretty', 'GRSpec.dumps', 'GRSpec.copy',
    'LabeledDiGraph.reachable', 'LabeledDiGraph.is_consistent',
    'Transitions.find', 'States.find', 'States.post', 'States.pre',
    'PropPreservingPartition.preserves_predicates',
    'PropPreservingPartition.reg2props'}


def _once(xs):
    """Whether something could be iterated over only once."""
    return any(isinstance(x, collections.abc.Iterator) for x in xs)


def _nums(a):
    if hasattr(a, 'toarray'):
        a = a.toarray()
    a = np.asarray(a)
    if a.dtype == object:
        return ('array', a.shape, repr(a.tolist()))
    return ('array', a.shape, a.astype(float).tobytes())


GRSPEC = [
    'env_vars', 'sys_vars', 'env_init', 'sys_init', 'env_safety',
    'sys_safety', 'env_prog', 'sys_prog', 'moore', 'plus_one', 'qinit']
ATTRS = {
    'Polytope': ['A', 'b'],
    'Region': ['list_poly', 'props'],
    'LtiSysDyn': ['A', 'B', 'E', 'K', 'Uset', 'Wset', 'domain',
                  'timestep', 'time_semantics'],
    'PwaSysDyn': ['list_subsys', 'domain', 'timestep', 'time_semantics'],
    'SwitchedSysDyn': [
        'disc_domain_size', 'dynamics', 'cts_ss', 'env_labels',
        'disc_sys_labels', 'timestep', 'time_semantics'],
    'PropPreservingPartition': [
        'regions', 'adj', 'domain', 'prop_regions'],
    'MetricPartition': ['regions', 'adj', 'domain'],
    'AbstractPwa': [
        'ppp', 'ts', 'ppp2ts', 'pwa', 'pwa_ppp', 'ppp2pwa', 'ppp2sys',
        'orig', 'ppp2orig', 'disc_params'],
    'AbstractSwitched': [
        'ppp', 'ts', 'ppp2ts', 'modes', 'ppp2modes', 'disc_params'],
    'GRSpec': GRSPEC,
    'LTL': ['formula', 'input_variables', 'output_variables'],
    'VectorCost': [],
}


def _get(x, name):
    try:
        v = getattr(x, name)
    except Exception:
        return None
    return None if inspect.ismethod(v) else v


def _sorted(xs):
    return sorted(xs, key=repr)


def see(x, depth=0):
    """What a caller can see of `x`, as immutable values."""
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return (type(x).__name__, x)
    if depth > 12:
        return '...'
    go = functools.partial(see, depth=depth + 1)
    names = [c.__name__ for c in type(x).__mro__]
    if 'VectorCost' in names:
        return ('cost', tuple(map(go, x)))
    if 'GridWorld' in names:
        rows, cols = x.size()
        return (
            'world', rows, cols, x.prefix, x.offset,
            tuple(x.is_empty((i, j)) for i in range(rows)
                  for j in range(cols)),
            go(x.init_list), go(x.goal_list))
    for n in names:
        if n in ATTRS:
            return (n, tuple((a, go(_get(x, a))) for a in ATTRS[n]))
    if isinstance(x, np.ndarray) or hasattr(x, 'toarray'):
        return _nums(x)
    if isinstance(x, np.generic):
        return go(x.item())
    if 'LabeledDiGraph' in names or 'DiGraph' in names or 'Graph' in names:
        nodes = _sorted((go(u), go(dict(d))) for u, d in x.nodes(data=True))
        edges = _sorted((go(u), go(v), go(dict(d)))
                        for u, v, d in x.edges(data=True))
        more = list()
        states = getattr(x, 'states', None)
        if states is not None:
            for a in ('initial', 'accepting'):
                v = _get(states, a)
                if v is None:
                    v = _get(x, a)
                try:
                    more.append((a, tuple(_sorted(map(go, v)))))
                except TypeError:
                    pass
        for a in ('inputs', 'outputs', 'atomic_propositions', 'actions',
                  'env_actions', 'sys_actions', 'name', 'owner'):
            v = _get(x, a)
            if v is not None:
                more.append((a, go(v)))
        return ('graph', tuple(nodes), tuple(edges), tuple(more))
    if isinstance(x, collections.abc.Mapping):
        return ('map', type(x).__name__, tuple(_sorted(
            (go(k), go(v)) for k, v in x.items())))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(_sorted(map(go, x))))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(map(go, x)))
    if isinstance(x, collections.abc.Set):
        try:
            return ('set', type(x).__name__, tuple(_sorted(map(go, x))))
        except Exception:
            return type(x).__name__
    return type(x).__name__


# results are parts of arguments
SELF = set()


def spoil(x):
    """Change the result (not the values of its labels)."""
    names = [c.__name__ for c in type(x).__mro__]
    if 'DiGraph' in names or 'Graph' in names:
        for _, d in x.nodes(data=True):
            d['spoiled'] = 1
        for _, _, d in x.edges(data=True):
            d['spoiled'] = 1
    elif 'GRSpec' in names:
        for n in GRSPEC:
            spoil(getattr(x, n))
    elif isinstance(x, dict):
        x['spoiled'] = 1
    elif type(x) is set:
        x.add('spoiled')
    elif type(x) is list:
        x.append('spoiled')
    elif type(x) is tuple:
        for y in x:
            spoil(y)


class Watch:
    """Wrap the functions while the context is entered."""

    def __init__(self, often=3):
        self.often = often
        self.again = 0
        self.spoiled = 0
        self.depth = 0
        self.calls = collections.Counter()
        self.sizes = list()
        self.bad = list()
        self.undo = list()

    def wrap(self, name, f):
        @functools.wraps(f)
        def call(*a, **kw):
            if self.depth:
                return f(*a, **kw)
            self.depth += 1
            try:
                before = see((a, kw))
                failed = False
                try:
                    r = f(*a, **kw)
                    self.repeat(name, f, a, kw, r)
                    return r
                except Exception:
                    failed = True
                    raise
                finally:
                    after = see((a, kw))
                    self.calls[name] += 1
                    if len(self.sizes) < 40:
                        self.sizes.append((name, before))
                    if after != before:
                        self.bad.append(dict(
                            function=name, failed=failed,
                            difference=differ(before, after)))
            finally:
                self.depth -= 1
        return call

    def repeat(self, name, f, a, kw, r):
        """Ask again, and compare."""
        self.calls[name + '.'] += 1
        if (name not in AGAIN or self.calls[name + '.'] % self.often != 1
                or _once(a) or _once(kw.values())
                or isinstance(r, collections.abc.Iterator)):
            return
        first = see(r)
        other = None
        try:
            other = f(*a, **kw)
            second = see(other)
        except Exception as e:
            second = ('raised', type(e).__name__, str(e))
        self.again += 1
        if other is not None and name not in SELF:
            # what happens to a result does not matter to the arguments
            before = see((a, kw))
            spoil(other)
            after = see((a, kw))
            self.spoiled += 1
            if before != after:
                self.bad.append(dict(
                    function=name, spoiled=True,
                    difference=differ(before, after)))
        if first != second:
            self.bad.append(dict(
                function=name, again=True,
                difference=differ(first, second)))

    def __enter__(self):
        for where, names in FUNCTIONS.items():
            where, _, cls = where.partition(':')
            try:
                owner = importlib.import_module(where)
                if cls:
                    owner = getattr(owner, cls)
            except (ImportError, AttributeError):
                continue
            for n in names:
                f = vars(owner).get(n)
                if not inspect.isfunction(f):
                    continue
                w = self.wrap(f'{cls}.{n}' if cls else n, f)
                places = [owner]
                if not cls:
                    # the name can have been imported elsewhere
                    for p in ('tulip.abstract', 'tulip.transys'):
                        mod = importlib.import_module(p)
                        if vars(mod).get(n) is f:
                            places.append(mod)
                for p in places:
                    setattr(p, n, w)
                    self.undo.append((p, n, f))
        return self

    def __exit__(self, *_):
        for owner, n, f in self.undo:
            setattr(owner, n, f)


def differ(a, b, path=''):
    """Where two snapshots differ first."""
    if (isinstance(a, tuple) and isinstance(b, tuple)
            and len(a) == len(b)):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return differ(x, y, f'{path}/{i}')
    return dict(path=path, before=repr(a)[:600], after=repr(b)[:600])
