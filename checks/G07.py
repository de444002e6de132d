"""G07: products of transition systems and Buchi automata."""
import warnings

from rt.core import Check

check = Check(
    'G07',
    rule='a distinct case is a pair of transition system and automaton, '
    'by content, whose product has transitions',
    require=['product.states', 'product.transitions', 'product.accepting',
             'lazy.steps', 'lazy.new'],
    assumptions=['the transition system and the automaton have the same '
                 'atomic propositions; letters are sets of them'])


def rand(rng):
    from tulip.transys import automata
    from tulip.transys import transys as trs
    AP = rng.sample(['p', 'q', 'r'], rng.randint(1, 2))
    wild = rng.random() < 0.2
    letters = [frozenset(), frozenset(AP[:1]), frozenset(AP[-1:]),
               frozenset(AP)]
    pool = rng.choice([
        [0, 1, 2, 3, 10], ['s1', 's10', 's', 's11', '1'],
        [(0, 0), (0, 1), 0, 's', (1,)], ['', (), 0, 's', frozenset()]])
    S = rng.sample(pool, rng.randint(1, 5))
    Q = rng.sample(['q0', 'q', 'q01', 0, 1, 'acc', '', ()], rng.randint(1, 4))
    ts = trs.FTS()
    acts = rng.random() < 0.6
    if rng.random() < 0.2:
        ts = trs.FTS(
            [dict(name='env_move', values={'u', 'd'}, setter=True)],
            [dict(name='sys_move', values={'l', 'r'}, setter=True)])
        types = {'env_move': ['u', 'd'], 'sys_move': ['l', 'r']}
    else:
        types = {'sys_actions': rng.choice([['a', 'b'], [0, 1], ['', 'b']]),
                 'env_actions': ['e', 'f']}
        for k, v in types.items():
            ts.actions[k].update(v)
    ts.atomic_propositions.add_from(AP)
    label = {s: rng.choice(letters) for s in S}
    for s in S:
        ts.states.add(s, ap=set(label[s]))
    s0 = [s for s in S if rng.random() < 0.5] or S[:1]
    ts.states.initial.add_from(s0)
    edges = list()
    for u in S:
        for v in S:
            if rng.random() < 0.45:
                continue
            if not acts or rng.random() < 0.3:
                edges.append((u, v, dict()))
                continue
            seen = list()
            for _ in range(rng.randint(1, 2)):
                d = {k: rng.choice(x) for k, x in types.items()
                     if rng.random() < 0.7}
                if d and d not in seen:
                    seen.append(d)
                    edges.append((u, v, d))
    for u, v, d in edges:
        ts.transitions.add(u, v, **d)
    ba = automata.BuchiAutomaton(atomic_proposition_based=True)
    ba.atomic_propositions.add_from(AP)
    if wild:
        ba.atomic_propositions.add(True)
    ba.states.add_from(Q)
    q0 = [q for q in Q if rng.random() < 0.5] or Q[:1]
    ba.states.initial.add_from(q0)
    acc = [q for q in Q if rng.random() < 0.4]
    ba.accepting.add_from(acc)
    delta = list()
    for u in Q:
        for v in Q:
            for x in set(letters):
                if rng.random() < 0.35:
                    delta.append((u, x, v))
            if wild and rng.random() < 0.2:
                delta.append((u, frozenset([True]), v))
    rng.shuffle(delta)
    for u, x, v in delta:
        ba.transitions.add(u, v, letter=set(x))
    case = (S, s0, sorted(map(repr, label.items())), edges, Q, q0, acc,
            sorted(map(repr, delta)))
    return ts, ba, label, s0, edges, q0, set(acc), delta, case


def oracle(label, s0, edges, q0, delta):
    def step(q, s):
        return {v for u, x, v in delta if u == q and
                (x == label[s] or x == {True})}
    init = {(s, r) for s in s0 for q in q0 for r in step(q, s)}
    seen, todo, trans = set(init), list(init), list()
    while todo:
        s, q = todo.pop()
        for u, v, d in edges:
            if u != s:
                continue
            for r in step(q, v):
                trans.append(((s, q), (v, r), d))
                if (v, r) not in seen:
                    seen.add((v, r))
                    todo.append((v, r))
    return init, seen, trans


def edge_facts(es):
    return sorted({repr((u, v, sorted(
        (k, sorted(map(repr, x)) if isinstance(x, (set, frozenset))
         else x) for k, x in d.items()))) for u, v, d in es})


@check.case(quick=700, thorough=8000, cpu=30)
def product(rng, m):
    """Both explicit products, against their definition."""
    from tulip.transys import products
    ts, ba, label, s0, edges, q0, acc, delta, case = rand(rng)
    init, seen, trans = oracle(label, s0, edges, q0, delta)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p, persistent = products.ts_ba_sync_prod(ts, ba)
        b = products.ba_ts_sync_prod(ba, ts)
    m.check(set(p.states) == seen, 'states', case=case,
            got=set(p.states), want=seen)
    m.check(set(p.states.initial) == init, 'initial states', case=case,
            got=set(p.states.initial), want=init)
    m.check(set(persistent) == {x for x in seen if x[1] in acc},
            'persistent states', case=case, got=persistent)
    m.check(all(set(p.nodes[x]['ap']) == {x[1]} for x in seen),
            'labels of the product', case=case)
    m.check(edge_facts(p.edges(data=True)) == edge_facts(trans),
            'transitions', case=case, got=edge_facts(p.edges(data=True)),
            want=edge_facts(trans))
    m.check(all(set(p.actions[k]) == set(v)
                for k, v in ts.actions.items()), 'actions', case=case,
            got=p.actions)
    m.check(set(b.states) == seen and set(b.states.initial) == init and
            set(b.accepting) == {x for x in seen if x[1] in acc},
            'states of the automaton', case=case)
    want = [(u, v, dict(letter=label[v[0]])) for u, v, _ in trans]
    m.check(edge_facts(b.edges(data=True)) == edge_facts(want),
            'transitions of the automaton', case=case,
            got=edge_facts(b.edges(data=True)), want=edge_facts(want))
    m.check({s: set(d['ap']) for s, d in ts.nodes(data=True)} ==
            {s: set(x) for s, x in label.items()} and
            len(ts.edges) == len(edges) and
            len(ba.edges) == len({repr(x) for x in delta}),
            'an operand changed', case=case)
    m.ev('states', len(seen))
    m.ev('transitions', len(trans))
    m.ev('accepting', sum(x[1] in acc for x in seen))
    if trans:
        m.sig(case)
        m.sample(case)


@check.case(quick=500, thorough=6000, cpu=30)
def lazy(rng, m):
    """The product that extends itself, in any order."""
    from tulip.transys import products
    ts, ba, label, s0, edges, q0, acc, delta, case = rand(rng)
    init, seen, trans = oracle(label, s0, edges, q0, delta)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p = products.OnTheFlyProductAutomaton(ba, ts)
    m.check(set(p.states) == init and set(p.states.initial) == init and
            not p.edges, 'initial states', case=case)
    succ = dict()
    for u, v, _ in trans:
        succ.setdefault(u, set()).add(v)
    known, expanded = set(init), set()
    todo = list(init)
    for _ in range(rng.choice([0, 2, 100])):
        if not todo:
            break
        x = todo.pop(rng.randrange(len(todo)))
        new = p.add_successors(*x)
        want = succ.get(x, set()) - known
        m.check(set(new) == want, 'new successors', case=case, of=x,
                got=new, want=want)
        m.ev('steps')
        m.ev('new', len(want))
        known |= want
        expanded.add(x)
        todo.extend(want)
        m.check(set(p.states) == known, 'states', case=case)
        m.check(set(p.edges()) == {
            (u, v) for u in expanded for v in succ.get(u, ())},
            'transitions', case=case)
    m.check(set(p.accepting) == {x for x in known if x[1] in acc},
            'accepting states', case=case, got=set(p.accepting))
    p.add_all_states()
    m.check(set(p.states) == seen and
            set(p.accepting) == {x for x in seen if x[1] in acc},
            'all states', case=case)
    want = [(u, v, dict(letter=label[v[0]])) for u, v, _ in trans]
    m.check(edge_facts(p.edges(data=True)) == edge_facts(want),
            'all transitions', case=case)
    if trans:
        m.sig(case)
