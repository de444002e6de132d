"""G08: synchronous composition, and policies."""
import itertools

from rt.core import Check, Violation

check = Check(
    'G08',
    rule='a distinct case is a list of models that were composed, by '
    'content',
    require=['compose.transitions', 'compose.probabilities',
             'compose.refused',
             'policy.transitions'],
    assumptions=['weighted structures are not mixed with Markov chains'])
NAMES = [0, 1, 's1', 's10', (0, 1), 'a', '', ()]


def rand_model(rng, kind, AP):
    from tulip import transys as trs
    cls = dict(KS=trs.KripkeStructure, WKS=trs.WeightedKripkeStructure,
               MC=trs.MarkovChain, MDP=trs.MarkovDecisionProcess)[kind]
    g = cls()
    S = rng.sample(NAMES, rng.randint(1, 3))
    own = [x for x in AP if rng.random() < 0.7]
    g.atomic_propositions.add_from(own)
    label = {s: {x for x in own if rng.random() < 0.5} for s in S}
    for s in S:
        g.states.add(s, ap=set(label[s]))
    init = [s for s in S if rng.random() < 0.5] or S[:1]
    g.states.initial.add_from(init)
    edges = list()
    actions = list()
    if kind in ('KS', 'WKS'):
        for u in S:
            for v in S:
                if rng.random() < 0.4:
                    continue
                if kind == 'KS' or rng.random() < 0.3:
                    edges.append((u, v, dict()))
                else:
                    for c in rng.sample([0, 1, 2, 0.5],
                                        rng.randint(1, 2)):
                        edges.append((u, v, dict(cost=c)))
    else:
        if kind == 'MDP':
            actions = rng.sample(['go', 'stop', 0, 'turn'],
                                 rng.randint(1, 3))
            g.actions.add_from(actions)
        for u in S:
            for a in (actions or [None]):
                if kind == 'MDP' and rng.random() < 0.3:
                    continue
                targets = rng.sample(S, rng.randint(1, len(S)))
                w = [rng.randint(1, 4) for _ in targets]
                for v, x in zip(targets, w):
                    d = dict(probability=x / sum(w))
                    if kind == 'MDP':
                        d['action'] = a
                    edges.append((u, v, d))
    for u, v, d in edges:
        if rng.random() < 0.5:
            g.transitions.add(u, v, dict(d))
        else:
            g.transitions.add(u, v, **d)
    return g, dict(kind=kind, S=S, label=label, init=init, edges=edges,
                   actions=actions, own=own)


def facts(es):
    return sorted({repr((u, v, sorted(
        (k, round(float(x), 9) if k != 'action' else x)
        for k, x in d.items()))) for u, v, d in es})


@check.case(quick=700, thorough=7000, cpu=30)
def compose(rng, m):
    """Composition, against its definition."""
    from tulip import transys as trs
    from tulip.transys import compositions
    AP = ['p', 'q', 'r']
    family = rng.choice([['KS', 'WKS'], ['MC', 'KS'], ['MDP', 'MC', 'KS']])
    pairs = [rand_model(rng, rng.choice(family), AP)
             for _ in range(rng.randint(1, 3))]
    models = [g for g, _ in pairs]
    ds = [d for _, d in pairs]
    ops = dict()
    use = rng.random()
    if use < 0.3:
        ops = {'cost': lambda *x: max(y for y in x if y is not None)}
    before = dict(ops)
    if rng.random() < 0.1:
        other = rng.choice([
            trs.FTS, trs.LabeledDiGraph, trs.MealyMachine,
            trs.BuchiAutomaton, dict])()
        mixed = models + [other]
        rng.shuffle(mixed)
        try:
            compositions.synchronous_parallel(mixed)
        except TypeError:
            m.ev('refused')
        else:
            raise Violation('models of other types are composed',
                            other=type(other))
    if use < 0.5:
        h = compositions.synchronous_parallel(models, ops)
        m.check(ops == before, 'the argument changed', got=ops)
    else:
        ops = dict()
        h = compositions.synchronous_parallel(models)
    case = ds, sorted(ops)
    kinds = [d['kind'] for d in ds]
    want = ('MDP' if 'MDP' in kinds else 'MC' if 'MC' in kinds
            else 'WKS' if 'WKS' in kinds else 'KS')
    cls = dict(KS=trs.KripkeStructure, WKS=trs.WeightedKripkeStructure,
               MC=trs.MarkovChain, MDP=trs.MarkovDecisionProcess)[want]
    m.check(type(h) is cls, 'type of the composition', case=case,
            got=type(h))
    S = list(itertools.product(*[d['S'] for d in ds]))
    m.check(set(h.states) == set(S), 'states', case=case)
    m.check(set(h.states.initial) ==
            set(itertools.product(*[d['init'] for d in ds])),
            'initial states', case=case, got=set(h.states.initial))
    m.check(set(h.atomic_propositions) ==
            set().union(*[d['own'] for d in ds]), 'propositions',
            case=case)
    for s in S:
        lab = set().union(*[d['label'][x] for d, x in zip(ds, s)])
        m.check(set(h.nodes[s]['ap']) == lab, 'label', case=case,
                state=s, got=h.nodes[s]['ap'], want=lab)
    edges = list()
    for es in itertools.product(*[d['edges'] for d in ds]):
        u = tuple(e[0] for e in es)
        v = tuple(e[1] for e in es)
        attr = dict()
        costs = [e[2].get('cost') for e in es]
        if any(c is not None for c in costs):
            attr['cost'] = (ops['cost'](*costs) if ops else
                            sum(c for c in costs if c is not None))
        probs = [e[2]['probability'] for e in es
                 if 'probability' in e[2]]
        if probs:
            x = 1
            for y in probs:
                x *= y
            attr['probability'] = x
        acts = [e[2]['action'] for e in es if 'action' in e[2]]
        if acts:
            attr['action'] = acts[0] if len(acts) == 1 else tuple(acts)
        edges.append((u, v, attr))
    got = facts(h.edges(data=True))
    m.check(got == facts(edges), 'transitions', case=case, got=got,
            want=facts(edges))
    m.ev('transitions', len(edges))
    if want == 'MDP':
        lists = [d['actions'] for d in ds if d['kind'] == 'MDP']
        acts = set(lists[0]) if len(lists) == 1 else set(
            itertools.product(*lists))
        m.check(set(h.actions) == acts, 'actions', case=case,
                got=set(h.actions))
    if want in ('MC', 'MDP') and 'KS' not in kinds:
        # conservation of probability
        total = dict()
        for u, v, d in h.edges(data=True):
            k = u, d.get('action')
            total[k] = total.get(k, 0) + d['probability']
        for k, x in total.items():
            m.check(abs(x - 1) < 1e-6, 'total probability', case=case,
                    at=k, got=x)
            m.ev('probabilities')
    # independent objects
    s = rng.choice(S)
    h.nodes[s]['ap'].clear()
    for g, d in pairs:
        m.check({x: set(y['ap']) for x, y in g.nodes(data=True)} ==
                d['label'] and len(g.edges) == len(d['edges']) and
                set(g.states.initial) == set(d['init']),
                'a component changed', case=case)
    m.sig(case)
    m.sample(case)


@check.case(quick=500, thorough=5000, cpu=30)
def policy(rng, m):
    """A policy keeps exactly the transitions of its actions."""
    from tulip import transys as trs
    from tulip.transys import compositions
    from tulip.transys.mathfunc import FunctionOnLabeledState
    g, d = rand_model(rng, 'MDP', ['p', 'q'])
    choice = {s: rng.choice(d['actions']) for s in d['S']}
    pol = choice
    if rng.random() < 0.3:
        pol = FunctionOnLabeledState('state', 'action')
        for s, a in choice.items():
            pol.add(s, a)
    h = compositions.apply_policy(g, pol)
    case = d, choice
    m.check(type(h) is trs.MarkovChain, 'type', case=case)
    m.check(set(h.states) == set(d['S']) and
            set(h.states.initial) == set(d['init']) and
            set(h.atomic_propositions) == set(d['own']) and
            {x: set(y['ap']) for x, y in h.nodes(data=True)} ==
            d['label'], 'states', case=case)
    want = [(u, v, dict(probability=x['probability']))
            for u, v, x in d['edges'] if x['action'] == choice[u]]
    m.check(facts(h.edges(data=True)) == facts(want) and
            len(h.edges) == len(want), 'transitions', case=case,
            got=facts(h.edges(data=True)), want=facts(want))
    m.check(facts(g.edges(data=True)) == facts(d['edges']),
            'the model changed', case=case)
    m.ev('transitions', len(want))
    m.sig(case)
    for s in d['S']:
        h.nodes[s]['ap'].clear()
    m.check({x: set(y['ap']) for x, y in g.nodes(data=True)} ==
            d['label'], 'labels are shared', case=case)
    other = rng.choice([trs.MarkovChain, trs.KripkeStructure])()
    try:
        compositions.apply_policy(other, choice)
    except TypeError:
        return
    raise Violation('policy of a model without actions')
