"""G06: bisimulation and dual-simulation abstractions."""
from rt.core import Check

check = Check(
    'G06',
    rule='a distinct case is a transition system that was abstracted, '
    'by content, where the abstraction has several cells',
    require=['bisim.pairs', 'bisim.splits', 'dual.pairs'],
    assumptions=['states are labeled with sets of propositions'])


def rand(rng):
    from tulip.transys import transys as trs
    n = rng.randint(1, 9)
    S = rng.sample(range(40), n)
    if rng.random() < 0.5:
        S = [f's{i}' for i in S]
    elif rng.random() < 0.3:
        S[:3] = rng.sample(['', (), 'a', ('b', 0), frozenset()], 5)[:n][:3]
    AP = rng.sample(['p', 'q', 'r', 'long name', 'home', 'lot'],
                    rng.randint(0, 3))
    some = [frozenset(x for x in AP if rng.random() < 0.5)
            for _ in range(rng.randint(1, 3))]
    label = {s: rng.choice(some) for s in S}
    density = rng.choice([0.1, 0.2, 0.35])
    edges = {(u, v) for u in S for v in S if rng.random() < density}
    init = {s for s in S if rng.random() < 0.3}
    ts = trs.FTS()
    ts.atomic_propositions.add_from(AP)
    ts.sys_actions.add_from(['go'])
    for s in S:
        # sets with the same elements, in different orders
        order = sorted(label[s])
        rng.shuffle(order)
        x = set()
        if rng.random() < 0.5:
            extra = [f'x{i}' for i in range(8)]
            x.update(extra)
            x.update(order)
            x.difference_update(extra)
        x.update(order)
        ts.states.add(s, ap=x)
    ts.states.initial.add_from(init)
    for u, v in edges:
        if rng.random() < 0.3:
            ts.transitions.add(u, v, sys_actions='go')
        else:
            ts.transitions.add(u, v)
    return ts, S, label, edges, init, sorted(AP)


def coarsest(S, label, edges):
    """Partition into classes of bisimilar states."""
    cls = {s: label[s] for s in S}
    while True:
        new = {s: (cls[s], frozenset(
            cls[v] for u, v in edges if u == s)) for s in S}
        ids = dict()
        new = {s: ids.setdefault(x, len(ids)) for s, x in new.items()}
        if len(ids) == len(set(cls.values())):
            return new
        cls = new


def common(m, ts, part, abst, S, label, edges, init, AP, case):
    cells = part['simu2ts']
    m.check(set(cells) == set(abst.nodes), 'cells are the states',
            case=case, got=part)
    m.check(all(cells.values()), 'empty cell', case=case)
    m.check(set().union(*map(set, cells.values())) == set(S),
            'cells cover the states', case=case, got=cells)
    for s in S:
        m.check(set(part['ts2simu'][s]) ==
                {i for i, c in cells.items() if s in c},
                'maps in the two directions', case=case, got=part)
    for i, c in cells.items():
        for s in c:
            m.check(set(abst.nodes[i]['ap']) == label[s],
                    'label of the cell', case=case, cell=c)
    m.check(set(abst.states.initial) ==
            {i for i, c in cells.items() if set(c) & init},
            'initial cells', case=case, got=abst.states.initial)
    m.check(set(abst.atomic_propositions) == set(AP), 'propositions',
            case=case)
    # the abstraction promises only what each member can do
    for i, j in abst.edges():
        for s in cells[i]:
            m.check(any(u == s and v in cells[j] for u, v in edges),
                    'a member of the cell cannot follow', case=case,
                    cells=(cells[i], cells[j]), state=s)
            m.ev('pairs')
    m.check({s: set(d['ap']) for s, d in ts.nodes(data=True)} ==
            {s: set(label[s]) for s in S} and
            set(ts.edges()) == edges, 'the system changed', case=case)


@check.case(quick=700, thorough=7000, cpu=30)
def bisim(rng, m):
    """The coarsest partition into bisimilar states."""
    from tulip.transys import transys as trs
    ts, S, label, edges, init, AP = rand(rng)
    case = (S, sorted(((s, sorted(x)) for s, x in label.items()), key=repr),
            sorted(edges, key=repr), sorted(init, key=repr))
    abst, part = trs.simu_abstract(ts, 'bi')
    common(m, ts, part, abst, S, label, edges, init, AP, case)
    cells = part['simu2ts']
    m.check(sum(map(len, cells.values())) == len(S), 'cells overlap',
            case=case, got=cells)
    want = dict()
    for s, i in coarsest(S, label, edges).items():
        want.setdefault(i, set()).add(s)
    m.check({frozenset(c) for c in cells.values()} ==
            {frozenset(c) for c in want.values()},
            'coarsest partition', case=case, got=cells, want=want)
    where = {s: i for i, c in cells.items() for s in c}
    m.check(set(abst.edges()) ==
            {(where[u], where[v]) for u, v in edges}, 'transitions',
            case=case, got=list(abst.edges()), cells=cells)
    if len(cells) > len(set(label.values())):
        m.ev('splits')
    if len(cells) > 1 and len(cells) < len(S):
        m.sig(case)
        m.sample(case)


@check.case(quick=500, thorough=5000, cpu=30)
def dual(rng, m):
    """Cells may overlap, and the simulation goes both ways."""
    from tulip.transys import transys as trs
    ts, S, label, edges, init, AP = rand(rng)
    case = (S, sorted(((s, sorted(x)) for s, x in label.items()), key=repr),
            sorted(edges, key=repr), sorted(init, key=repr))
    abst, part = trs.simu_abstract(ts, 'dual')
    common(m, ts, part, abst, S, label, edges, init, AP, case)
    cells = part['simu2ts']
    m.check(len({frozenset(c) for c in cells.values()}) == len(cells),
            'equal cells', case=case, got=cells)
    # each state is simulated by a smallest cell that contains it
    for s in S:
        best = min((len(cells[i]), i) for i in part['ts2simu'][s])[1]
        nxt = set().union(*[cells[j] for _, j in abst.edges(best)])
        for u, v in edges:
            if u == s:
                m.check(v in nxt, 'a transition has no counterpart',
                        case=case, edge=(u, v), cell=cells[best],
                        cells=cells)
                m.ev('pairs')
    if len(cells) > 1:
        m.sig(case)
        m.sample(case)
