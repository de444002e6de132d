"""G09: minimum-violation planning, shortest paths, vector costs."""
import functools
import itertools

from rt.core import Check, Violation

check = Check(
    'G09',
    rule='a distinct case is a planning problem or weighted graph, by '
    'content',
    require=['solve.plans', 'solve.violated', 'solve.unreachable',
             'solve.refused', 'paths.plans', 'paths.unreachable',
             'costs.compared'],
    assumptions=[
        'costs are not negative',
        'a step that the automaton of a rule does not allow costs the '
        'priority of the rule, and leads to any state of the automaton '
        '(as the documentation of the product in `tulip.mvp` says)'])
NAMES = ['c1', 'c10', 'c', 0, 1, (0, 1), 'null', 'null0',
         '', ()]
INF = float('inf')


def lex(a, b):
    return (a > b) - (a < b)


def shortest(nodes, edges, sources, targets, zero, add):
    """Least cost by relaxation until nothing changes."""
    best = {s: zero for s in sources}
    while True:
        changed = False
        for u, v, c in edges:
            if u in best:
                new = add(best[u], c)
                if v not in best or new < best[v]:
                    best[v] = new
                    changed = True
        if not changed:
            break
    found = [best[t] for t in targets if t in best]
    return min(found) if found else None


def rand_rule(rng, AP):
    """Finite automaton, with its definition."""
    from tulip.transys.automata import WeightedFiniteStateAutomaton as WFA
    n = rng.choice([1, 1, 2, 3])
    Q = rng.sample(['q0', 'q1', 'q', 0, 1], n)
    letters = [frozenset(x) for k in range(len(AP) + 1)
               for x in itertools.combinations(AP, k)]
    init = {q for q in Q if rng.random() < 0.4} or {Q[0]}
    acc = {q for q in Q if rng.random() < 0.7} or {Q[-1]}
    delta = {(q, x, r) for q in Q for x in letters for r in Q
             if rng.random() < (0.6 if n == 1 else 0.35)}
    fa = WFA()
    fa.atomic_propositions.add_from(AP)
    fa.states.add_from(Q)
    fa.states.initial.add_from(init)
    fa.accepting.add_from(acc)
    order = sorted(delta, key=repr)
    rng.shuffle(order)
    for q, x, r in order:
        fa.transitions.add(q, r, letter=set(x))
    return fa, dict(Q=Q, init=init, acc=acc, delta=delta)


def bad_problems(rng, ks, spec, AP):
    from tulip import transys as trs
    from tulip.spec.prioritized_safety import PrioritizedSpecification
    other = PrioritizedSpecification()
    more = list(AP) + ['more']
    fa, _ = rand_rule(rng, rng.choice([more, AP[1:]]))
    other.add_rule(fa, priority=1, level=0)
    fts = trs.FTS()
    fts.states.add('s')
    fts.atomic_propositions.add_from(AP)
    return [(ks, other), (ks, fa), (fts, spec), (ks, [fa]), (spec, ks)]


@check.case(quick=250, thorough=2500, cpu=60)
def solve(rng, m):
    """The plan violates the least, level by level."""
    from tulip import transys as trs
    from tulip import mvp
    from tulip.spec.prioritized_safety import PrioritizedSpecification
    AP = rng.sample(['p', 'q', 'goal', 'g'], rng.randint(1, 3))
    weighted = rng.random() < 0.8
    ks = trs.WeightedKripkeStructure() if weighted else \
        trs.KripkeStructure()
    S = rng.sample(NAMES, rng.randint(1, 4))
    ks.states.add_from(S)
    ks.atomic_propositions.add_from(AP)
    label = {s: {x for x in AP if rng.random() < 0.4} for s in S}
    for s in S:
        ks.states[s]['ap'] = set(label[s])
    init = {s for s in S if rng.random() < 0.4} or {S[0]}
    ks.states.initial.add_from(init)
    edges = list()
    for u in S:
        for v in S:
            if rng.random() < 0.4:
                cs = {rng.choice([0, 0, 1, 2, 0.5]) if weighted else 0
                      for _ in range(rng.choice([1, 1, 2]))}
                for c in cs:
                    edges.append((u, v, c))
                    if weighted:
                        ks.transitions.add(u, v, cost=c)
                    else:
                        ks.transitions.add(u, v)
    spec = PrioritizedSpecification()
    rules = list()
    for _ in range(rng.randint(1, 2)):
        fa, d = rand_rule(rng, AP)
        d['priority'] = rng.randint(1, 3)
        d['level'] = rng.choice([0, 0, 1, 2])
        spec.add_rule(fa, priority=d['priority'], level=d['level'])
        rules.append(d)
    goal = rng.choice(AP)
    case = dict(S=S, init=init, label=label, edges=edges, rules=rules,
                goal=goal)
    for bad in bad_problems(rng, ks, spec, AP):
        try:
            mvp.solve(bad[0], goal, bad[1])
        except (TypeError, ValueError):
            m.ev('refused')
            continue
        raise Violation('problem of other propositions or types',
                        case=case, which=bad)
    cost, path, run, wpa = mvp.solve(ks, goal, spec)
    m.check(set(ks.states) == set(S) and
            set(ks.states.initial) == init and
            {s: set(ks.states[s]['ap']) for s in S} == label and
            len(ks.transitions) == len(edges) and
            set(ks.atomic_propositions) == set(AP) and
            [set(r.automaton().states) for r in spec] ==
            [set(d['Q']) for d in sorted(
                rules, key=lambda d: d['level'])],
            'the problem changed', case=case)
    # order of the rules: by level, then as given
    rules = sorted(rules, key=lambda d: d['level'])
    levels = max(d['level'] for d in rules) + 1
    Qs = list(itertools.product(*[d['Q'] for d in rules]))
    start = object()

    def step(q, t, r, c):
        """Cost of a step to state `t`."""
        x = [0] * levels
        for d, a, b in zip(rules, q, r):
            if (a, frozenset(label[t]), b) not in d['delta']:
                x[d['level']] += d['priority']
        return tuple(x) + (c,)

    q0 = list(itertools.product(*[d['init'] for d in rules]))
    prod = list()
    for u, v, c in edges:
        for q in Qs:
            for r in Qs:
                prod.append(((u, q), (v, r), step(q, v, r, c)))
    for s in init:
        for q in q0:
            for r in Qs:
                prod.append(((start, q), (s, r), step(q, s, r, 0)))
    acc = list(itertools.product(*[d['acc'] for d in rules]))
    targets = [(s, q) for s in S if goal in label[s] for q in acc]

    def add(a, b):
        return tuple(x + y for x, y in zip(a, b))

    best = shortest(None, prod, [(start, q) for q in q0], targets,
                    (0,) * (levels + 1), add)
    m.sig(case)
    # the product
    null = {x[0] for x in wpa.states} - set(S)
    m.check(len(null) == 1, 'the state before the first', case=case,
            got=null)
    null, = null
    m.check(set(wpa.states) == set(
        itertools.product(S + [null], Qs)) and
        set(wpa.states.initial) == {(null, q) for q in q0},
        'states of the product', case=case)

    def name(x):
        return (null, x[1]) if x[0] is start else x

    want = {(name(u), name(v), tuple(c)) for u, v, c in prod}
    got = {(u, v, tuple(d['cost'])) for u, v, d in wpa.edges(data=True)}
    m.check(got == want, 'transitions of the product', case=case,
            extra=list(got - want)[:3], missing=list(want - got)[:3])
    if best is None:
        m.check(cost == INF and list(path) == [] and list(run) == [],
                'a plan to goals that cannot be reached', case=case,
                got=(cost, path))
        m.ev('unreachable')
        return
    m.check(tuple(cost) == best, 'cost is not the least', case=case,
            got=list(cost), want=best)
    m.check(run[0][0] == null and run[0][1] in q0 and
            run[-1] in targets, 'ends of the run', case=case, got=run)
    total = (0,) * (levels + 1)
    for u, v in zip(run, run[1:]):
        cs = [c for a, b, c in want if a == u and b == v]
        m.check(cs, 'a step that is not a transition', case=case,
                got=run)
        total = add(total, min(cs))
    m.check(total == best, 'the run has another cost', case=case,
            got=total, want=best, run=run)
    m.check(list(path) == [x[0] for x in run[1:]],
            'path of the structure', case=case, got=path, run=run)
    m.ev('plans')
    if any(best[:levels]):
        m.ev('violated')
    m.sample(dict(states=len(S), rules=len(rules), cost=best))


@check.case(quick=900, thorough=9000, cpu=30)
def paths(rng, m):
    """Shortest paths in weighted graphs."""
    from tulip import transys as trs
    from tulip.transys import graph_algorithms as ga
    from tulip.transys.cost import ValidTransitionCost, VectorCost
    from tulip.transys.labeled_graphs import LabeledDiGraph
    kind = rng.choice(['number', 'number', 'vector'])
    if kind == 'vector' or rng.random() < 0.5:
        key = rng.choice(['cost', 'weight'])
        g = LabeledDiGraph(edge_label_types=[dict(
            name=key, values=ValidTransitionCost(), setter=True)])
    else:
        g = trs.WeightedKripkeStructure()
        key = 'cost'
    S = rng.sample(['a', 'b', 'ab', 0, 1, (0, 1), 's', 2.5],
                   rng.randint(1, 7))
    g.states.add_from(S)
    n = rng.randint(1, 3)
    edges = list()
    density = rng.choice([0.15, 0.3, 0.5])
    for u in S:
        for v in S:
            if rng.random() > density:
                continue
            if kind == 'vector':
                c = tuple(rng.choice([0, 0, 1, 2, 5]) for _ in range(n))
                g.transitions.add(u, v, {key: VectorCost(c)})
                edges.append((u, v, c))
                continue
            for c in {rng.choice([0, 0, 1, 1, 2, 0.5, 7])
                      for _ in range(rng.choice([1, 1, 2]))}:
                g.transitions.add(u, v, {key: c})
                edges.append((u, v, c))
    some = rng.sample(S, rng.randint(1, len(S)))
    targets = rng.sample(S, rng.randint(0, min(3, len(S))))
    multiple = rng.random() < 0.5
    if not multiple:
        some = some[:1]
    if kind == 'vector':
        zero = (0,) * n
        add = lambda a, b: tuple(x + y for x, y in zip(a, b))
    else:
        zero = 0
        add = lambda a, b: a + b
    best = shortest(S, edges, some, targets, zero, add)
    case = (kind, edges, some, targets)
    args = dict() if key == 'cost' and rng.random() < 0.5 else dict(
        cost_key=key)
    box = rng.choice([list, set, tuple])(targets)
    if multiple:
        cost, path = ga.dijkstra_multiple_sources_multiple_targets(
            g, some, box, **args)
    else:
        cost, path = ga.dijkstra_single_source_multiple_targets(
            g, some[0], box, **args)
    m.sig(case)
    if best is None:
        m.check(cost == INF and list(path) == [], 'no path', case=case,
                got=(cost, path))
        m.ev('unreachable')
        return
    value = tuple(cost) if isinstance(cost, VectorCost) else cost
    if kind == 'vector' and value == 0:
        value = zero
    m.check(value == best, 'cost', case=case, got=value, want=best)
    m.check(path and path[0] in some and path[-1] in targets,
            'ends', case=case, got=path)
    total = zero
    for u, v in zip(path, path[1:]):
        cs = [c for a, b, c in edges if a == u and b == v]
        m.check(cs, 'not a path', case=case, got=path)
        total = add(total, min(cs))
    m.check(total == best, 'cost of the path', case=case, got=path,
            want=best)
    m.ev('plans')
    m.sample(dict(kind=kind, edges=len(edges), cost=best))


@check.case(quick=900, thorough=9000, cpu=30)
def costs(rng, m):
    """Vector costs are ordered and added as tuples."""
    from tulip.transys.cost import ValidTransitionCost, VectorCost
    n = rng.randint(1, 4)
    num = [0, 0, 1, 1, 2, 0.5, -1, 10]
    a = tuple(rng.choice(num) for _ in range(n))
    b = list(a)
    for i in range(n):
        if rng.random() < 0.5:
            b[i] = rng.choice(num)
    b = tuple(b)
    c = rng.choice(num)
    A, B = VectorCost(a), VectorCost(rng.choice([list, iter, tuple])(b))
    m.sig((a, b, c))
    m.check(tuple(A) == a and len(A) == n and
            [A[i] for i in range(n)] == list(a), 'items', a=a)
    got = [A < B, A <= B, A > B, A >= B, A == B, A != B]
    want = [a < b, a <= b, a > b, a >= b, a == b, a != b]
    m.check(got == want, 'order', a=a, b=b, got=got, want=want)
    cc = (c,) * n
    got = [A < c, A <= c, A > c, A >= c, A == c, A != c,
           c < A, c <= A, c > A, c >= A, c == A]
    want = [a < cc, a <= cc, a > cc, a >= cc, a == cc, a != cc,
            cc < a, cc <= a, cc > a, cc >= a, cc == a]
    m.check(got == want, 'order with numbers', a=a, c=c, got=got,
            want=want)
    m.ev('compared', 2)
    m.check(tuple(A + B) == tuple(x + y for x, y in zip(a, b)) and
            tuple(A + c) == tuple(x + c for x in a) and
            tuple(c + A) == tuple(x + c for x in a) and
            tuple(sum([A, B, A])) == tuple(
                x + y + x for x, y in zip(a, b)), 'sums', a=a, b=b)
    m.check(tuple(A) == a and tuple(B) == b, 'an operand changed')
    m.check(tuple(VectorCost(c)) == (c,), 'number', c=c)
    mine = list(a)
    E = VectorCost(mine)
    mine[0] += 1
    mine.append(3)
    m.check(tuple(E) == a, 'the cost changed with the list', a=a)
    m.check(A < INF and not A > INF, 'infinity', a=a)
    v = ValidTransitionCost()
    m.check((A in v) == (a >= (0,) * n) and (c in v) == (c >= 0) and
            'a' not in v and [1] not in v and None not in v,
            'valid costs', a=a, c=c)
    D = VectorCost(a + (0,))
    for f in [lambda: A + D, lambda: A < D, lambda: A == D]:
        try:
            f()
        except ValueError:
            continue
        raise Violation('vectors of different lengths', a=a)
    for x in [None, object()]:
        try:
            VectorCost(x)
        except TypeError:
            continue
        raise Violation('not a vector', x=x)
