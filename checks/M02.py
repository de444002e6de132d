"""M02: conversions between Moore and Mealy machines."""
import itertools

from rt import mach
from rt.core import Check, Skip

check = Check(
    'M02',
    rule='a distinct case is a machine that was converted and compared '
    'on all of its transitions (pairs of states reached in lockstep), '
    'by content',
    require=['moore2mealy.pairs', 'mealy2moore.pairs',
             'round_trip.words'],
    assumptions=['explicit (not symbolic) guards'])


def edges_of(g):
    """Transitions, read with `networkx`."""
    out = dict()
    for u, v, d in g.edges(data=True):
        out.setdefault(u, list()).append((v, dict(d)))
    return out


def split(t, d):
    return ({k: d[k] for k in t.inputs},
            {k: d.get(k) for k in t.outputs})


def ports_same(m, t, g):
    m.check({k: set(v) for k, v in g.inputs.items()} ==
            {k: set(v) for k, v in t.inputs.items()} and
            {k: set(v) for k, v in g.outputs.items()} ==
            {k: set(v) for k, v in t.outputs.items()},
            'ports', table=t.describe(), got=(g.inputs, g.outputs))


@check.case(quick=900, thorough=12000, cpu=30)
def moore2mealy(rng, m):
    """Same states; a reaction emits what its source state emits."""
    from tulip.transys import machines
    t = mach.rand_table(rng, moore=True,
                        deterministic=rng.random() < 0.6)
    if not t.inputs and len({(u, v) for u, v, *_ in t.edges}) < len(
            t.edges):
        raise Skip()
    t.init = rng.sample(t.states, rng.randint(1, len(t.states)))
    g = t.moore(rng)
    h = machines.moore2mealy(g)
    ports_same(m, t, h)
    m.check(set(h.nodes) == set(t.states) and
            set(h.states.initial) == set(t.init), 'states',
            table=t.describe())
    want = sorted(repr((u, v, sorted({**x, **t.out[u]}.items())))
                  for u, v, x, _ in t.edges)
    got = sorted(repr((u, v, sorted(d.items())))
                 for u, v, d in h.edges(data=True))
    m.check(got == want, 'transitions', table=t.describe(), got=got)
    m.check(len(g.edges) == len(t.edges) and all(
        dict(g.nodes[s]) == t.out[s] for s in t.states),
        'the Moore machine changed')
    m.ev('pairs', len(want))
    if t.edges:
        m.sig(t.describe())
        m.sample(t.describe())


@check.case(quick=900, thorough=12000, cpu=30)
def mealy2moore(rng, m):
    """In lockstep, a state emits what the reaction into it emitted."""
    from tulip.transys import machines
    t = mach.rand_table(rng, deterministic=rng.random() < 0.6)
    g = t.mealy(rng)
    h = machines.mealy2moore(g)
    ports_same(m, t, h)
    m.check(len(h.states.initial) == 1, 'initial states')
    q0, = h.states.initial
    m.check(all(h.nodes[q0].get(k) in v for k, v in t.outputs.items()),
            'initial output outside of the domain',
            got=dict(h.nodes[q0]))
    theirs = edges_of(h)
    mine = dict()
    for u, v, x, y in t.edges:
        mine.setdefault(u, list()).append((v, x, y))
    # Moore states stand for Mealy states: find the (unique,
    # as far as observable) correspondence by determinized lockstep
    start = (frozenset([t.init[0]]), frozenset([q0]))
    todo, seen = [start], {start}
    while todo:
        A, B = todo.pop()
        m.ev('pairs')
        if len(seen) > 3000:
            break
        nxt_a, nxt_b = dict(), dict()
        for u in A:
            for v, x, y in mine.get(u, ()):
                key = repr((sorted(x.items()), sorted(y.items())))
                nxt_a.setdefault(key, set()).add(v)
        for q in B:
            for r, d in theirs.get(q, ()):
                y = {k: h.nodes[r].get(k) for k in t.outputs}
                m.check(set(d) == set(t.inputs),
                        'label of a Moore transition', got=d)
                key = repr((sorted(d.items()), sorted(y.items())))
                nxt_b.setdefault(key, set()).add(r)
        m.check(set(nxt_a) == set(nxt_b), 'reactions differ',
                table=t.describe(), states=(A, B),
                got=sorted(nxt_b), want=sorted(nxt_a))
        for key, a in nxt_a.items():
            p = (frozenset(a), frozenset(nxt_b[key]))
            if p not in seen:
                seen.add(p)
                todo.append(p)
    # determinism is kept
    if all(len(t.step(u, x)) <= 1
           for u in t.states for x in mach.all_vals(t.inputs)):
        for q, es in theirs.items():
            labels = [repr(sorted(d.items())) for _, d in es]
            m.check(len(set(labels)) == len(labels),
                    'determinism lost', table=t.describe())
    # no state that is not reachable
    reach, todo = {q0}, [q0]
    while todo:
        for r, _ in theirs.get(todo.pop(), ()):
            if r not in reach:
                reach.add(r)
                todo.append(r)
    m.check(reach == set(h.nodes), 'unreachable states were created')
    m.check(len(g.edges) == len(t.edges), 'the Mealy machine changed')
    if t.edges:
        m.sig(t.describe())
        m.sample(t.describe())


@check.case(quick=300, thorough=4000, cpu=30)
def round_trip(rng, m):
    """Mealy to Moore and back: the outputs, one reaction later."""
    from tulip.transys import machines
    t = mach.rand_table(rng, density=0.95)
    if not t.inputs:
        raise Skip()
    a = t.mealy(rng)
    b = machines.moore2mealy(machines.mealy2moore(a))
    for _ in range(5):
        word = [mach.rand_val(rng, t.inputs)
                for _ in range(rng.randint(1, 7))]
        u, = a.states.initial
        v, = b.states.initial
        last = None
        for x in word:
            try:
                u, y = a.reaction(u, dict(x))
            except ValueError:
                try:
                    b.reaction(v, dict(x))
                except ValueError:
                    break
                m.check(False, 'reaction only after conversion',
                        table=t.describe(), word=word)
            v, z = b.reaction(v, dict(x))
            if last is not None:
                m.check(z == last, 'output after the round trip',
                        table=t.describe(), word=word, got=z,
                        want=last)
            last = y
        m.ev('words')
    m.sig(t.describe())
