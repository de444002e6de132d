"""G02: constructors of transition systems, automata, and games."""
from rt.core import Check, Violation

check = Check(
    'G02',
    rule='a distinct case is the definition that was given to a '
    'constructor, by content',
    require=['fts.transitions', 'lines.states', 'ba.transitions',
             'initial.marked', 'rabin.pairs', 'games.states',
             'kinds.letters', 'kinds.weights', 'kinds.actions'])
NAMES = [0, 1, 2, 10, 's1', 's10', 's', ('a', 1), 'ab', '', (),
         frozenset({1})]


def aps_of(rng):
    return rng.sample(['p', 'q', 'home', 'pq'], rng.randint(1, 3))


def subset(rng, xs):
    return {x for x in xs if rng.random() < 0.5}


def wrap(rng, xs):
    """Different iterables with the same items."""
    xs = list(xs)
    return rng.choice([list, tuple, lambda x: list(x)])(xs)


def facts(g):
    return sorted(repr((u, v, sorted(
        (k, sorted(map(repr, x)) if isinstance(x, (set, frozenset))
         else x) for k, x in d.items())))
        for u, v, d in g.edges(data=True))


@check.case(quick=800, thorough=8000, cpu=20)
def fts(rng, m):
    """`tuple2fts` builds what the tuple says."""
    from tulip.transys import transys as trs
    S = rng.sample(NAMES, rng.randint(1, 6))
    prefix = rng.choice([None, None, 's', 'loc_'])
    name = (lambda s: s) if prefix is None else (
        lambda s: f'{prefix}{s}')
    if len({name(s) for s in S}) < len(S):
        return
    AP = aps_of(rng)
    S0 = [s for s in S if rng.random() < 0.4]
    label = {s: subset(rng, AP) for s in S}
    how = rng.randrange(3)
    if how == 0:
        L = [(s, set(label[s])) for s in S]
        rng.shuffle(L)
    elif how == 1:
        L = [set(label[s]) for s in S]
    else:
        L = None
        label = {s: set() for s in S}
    pairs = sorted({(rng.randrange(len(S)), rng.randrange(len(S)))
                    for _ in range(rng.randint(0, 8))})
    act = rng.sample(['go', 'stop', 'g'], rng.randint(1, 3))
    if rng.random() < 0.5:
        Act = None
        trans = [(S[i], S[j]) for i, j in pairs]
        want = sorted(repr((name(u), name(v), [])) for u, v in trans)
    else:
        Act = act
        trans = sorted({(i, j, rng.choice(act)) for i, j in pairs
                        for _ in range(rng.randint(1, 2))})
        trans = [(S[i], S[j], a) for i, j, a in trans]
        want = sorted(repr((name(u), name(v), [('sys_actions', a)]))
                      for u, v, a in trans)
    ts = trs.tuple2fts(
        wrap(rng, S), wrap(rng, S0), wrap(rng, AP), L, Act, trans,
        name='some', prepend_str=prefix)
    case = (S, S0, AP, L, Act, trans, prefix)
    m.check({s: set(d['ap']) for s, d in ts.nodes(data=True)} ==
            {name(s): label[s] for s in S}, 'labeled states', case=case,
            got=dict(ts.nodes(data=True)))
    m.check(set(ts.states.initial) == {name(s) for s in S0},
            'initial states', case=case, got=ts.states.initial)
    m.check(set(ts.atomic_propositions) == set(AP), 'propositions',
            case=case)
    m.check(facts(ts) == want, 'transitions', case=case, got=facts(ts),
            want=want)
    m.check(set(ts.sys_actions) == set(Act or ()) and
            not set(ts.env_actions), 'actions', case=case)
    m.check(ts.name == 'some', 'name')
    m.check(ts.is_consistent(), 'consistent', case=case)
    m.ev('transitions', len(trans))
    m.sig(case)
    m.sample(case)


@check.case(quick=500, thorough=4000, cpu=20)
def lines(rng, m):
    """Lines and cycles."""
    from tulip.transys import transys as trs
    AP = aps_of(rng)
    n = rng.randint(1, 7)
    L, want = list(), list()
    for _ in range(n):
        x = subset(rng, AP)
        kind = rng.randrange(3)
        if kind == 0 and len(x) == 1:
            L.append(next(iter(x)))
        elif kind == 1 and not x:
            L.append(None)
        else:
            L.append(set(x))
        want.append(x)
    cycle = rng.random() < 0.5
    start = 0 if cycle else rng.choice([0, 0, 3])
    if cycle:
        ts = trs.cycle_labeled_with(L)
    elif start:
        ts = trs.line_labeled_with(L, start)
    else:
        ts = trs.line_labeled_with(L)
    names = [f's{i}' for i in range(start, start + n)]
    m.check({s: set(d['ap']) for s, d in ts.nodes(data=True)} ==
            dict(zip(names, want)), 'labels', L=L,
            got=dict(ts.nodes(data=True)))
    edges = set(zip(names, names[1:]))
    if cycle:
        edges.add((names[-1], names[0]))
    m.check(sorted(ts.edges()) == sorted(edges), 'transitions', L=L,
            got=list(ts.edges()))
    m.check(not set(ts.states.initial), 'initial states')
    m.ev('states', n)
    m.sig((L, cycle, start))
    # add initial states by label
    marks = [set(subset(rng, AP)) for _ in range(rng.randint(1, 3))]
    trs.add_initial_states(ts, marks)
    m.check(set(ts.states.initial) == {
        s for s, x in zip(names, want) if x in marks},
        'initial states by label', L=L, marks=marks,
        got=ts.states.initial)


@check.case(quick=400, thorough=4000, cpu=20)
def initial(rng, m):
    """Marking by label adds to the initial states."""
    from tulip.transys import transys as trs
    AP = aps_of(rng)
    ts = trs.FTS()
    ts.atomic_propositions.add_from(AP)
    S = rng.sample(NAMES, rng.randint(1, 7))
    label = {s: subset(rng, AP) for s in S}
    for s in S:
        ts.states.add(s, ap=set(label[s]))
    before = {s for s in S if rng.random() < 0.2}
    ts.states.initial.add_from(before)
    marks = [subset(rng, AP) for _ in range(rng.randint(0, 3))]
    trs.add_initial_states(ts, marks)
    want = before | {s for s in S if label[s] in marks}
    m.check(set(ts.states.initial) == want, 'initial states',
            label=label, marks=marks, before=before,
            got=ts.states.initial)
    m.ev('marked', len(want))
    m.sig((sorted(label.items(), key=repr), marks))


@check.case(quick=600, thorough=6000, cpu=20)
def ba(rng, m):
    """`tuple2ba` builds what the tuple says."""
    from tulip.transys import automata
    based = rng.random() < 0.6
    S = rng.sample(NAMES, rng.randint(1, 6))
    prefix = rng.choice([None, None, 'q'])
    name = (lambda s: s) if prefix is None else (
        lambda s: f'{prefix}{s}')
    if len({name(s) for s in S}) < len(S):
        return
    S0 = [s for s in S if rng.random() < 0.4]
    Sa = [s for s in S if rng.random() < 0.4]
    sigma = set(aps_of(rng))
    trans = list()
    seen = set()
    for _ in range(rng.randint(0, 8)):
        u, v = rng.choice(S), rng.choice(S)
        if based:
            x = subset(rng, sorted(sigma))
            if not x and rng.random() < 0.5:
                x = None
        else:
            x = rng.choice(sorted(sigma))
        key = repr((u, v, sorted(x or ()) if based else x))
        if key not in seen:
            seen.add(key)
            trans.append((u, v, x))
    a = automata.tuple2ba(
        S, S0, Sa, sigma, trans, name='aut', prepend_str=prefix,
        atomic_proposition_based=based)
    case = (S, S0, Sa, sorted(sigma), trans, prefix, based)
    m.check(set(a.states) == {name(s) for s in S} and
            set(a.states.initial) == {name(s) for s in S0} and
            set(a.accepting) == {name(s) for s in Sa}, 'states',
            case=case)
    if based:
        m.check(set(a.atomic_propositions) == sigma, 'propositions',
                case=case)
        want = sorted(repr((name(u), name(v), [
            ('letter', sorted(map(repr, x or ())))]))
            for u, v, x in trans)
    else:
        m.check(set(a.alphabet) == sigma, 'alphabet', case=case)
        want = sorted(repr((name(u), name(v), [('letter', x)]))
                      for u, v, x in trans)
    m.check(facts(a) == want, 'transitions', case=case, got=facts(a),
            want=want)
    # a letter that is not in the alphabet
    s = name(S[0])
    try:
        a.transitions.add(s, s, letter={'other'} if based else 'other')
    except ValueError:
        pass
    else:
        raise Violation('letter outside of the alphabet')
    m.ev('transitions', len(trans))
    m.sig(case)
    m.sample(case)


@check.case(quick=500, thorough=5000, cpu=20)
def rabin(rng, m):
    """Acceptance pairs under histories of changes."""
    from tulip.transys import automata
    cls = rng.choice([automata.RabinAutomaton, automata.DRA])
    a = cls()
    S = rng.sample(NAMES, rng.randint(2, 6))
    a.states.add_from(S)
    model = list()
    log = list()
    for _ in range(rng.randint(2, 12)):
        op = rng.choice(['add', 'add', 'grow', 'remove', 'bad', 'state'])
        good = {s for s in S if rng.random() < 0.4}
        bad = {s for s in S if rng.random() < 0.4}
        if op == 'add':
            a.accepting.add(good, bad)
            model.append((good, bad))
        elif op == 'grow' and model:
            i = rng.randrange(len(model))
            a.accepting.add_states(i, good, bad)
            model[i] = (model[i][0] | good, model[i][1] | bad)
        elif op == 'remove' and model:
            i = rng.randrange(len(model))
            x = model[i]
            a.accepting.remove(*x)
            model.remove(x)
        elif op == 'bad':
            try:
                a.accepting.add(['nowhere'], bad)
            except ValueError:
                pass
            else:
                raise Violation('pair with a state that is unknown')
        elif op == 'state' and len(S) > 1:
            s = S.pop()
            a.states.remove(s)
            m.check(s not in a.states and len(a.states) == len(S),
                    'the state remains', history=log)
            model = [(g - {s}, b - {s}) for g, b in model]
        log.append((op, good, bad))
        got = [(set(g), set(b)) for g, b in a.accepting]
        m.check(got == model and
                [(set(g), set(b)) for g, b in a.accepting()] == model,
                'pairs', history=log, got=got, want=model)
        a.accepting().clear()
        m.check(len(a.accepting()) == len(model),
                'pairs after the returned list changed', history=log)
        for i, (g, b) in enumerate(model):
            m.check(set(a.accepting.good(i)) == g and
                    set(a.accepting.bad(i)) == b and
                    set(a.accepting[i][0]) == g, 'good, bad',
                    history=log)
        m.ev('pairs', len(model))
    m.check(a.accepting.has_superset(a.states), 'superset')
    m.sig(log)


@check.case(quick=400, thorough=4000, cpu=20)
def games(rng, m):
    """Owners of states, and colors."""
    from tulip.transys import automata
    from tulip.transys import transys as trs
    c = rng.randint(1, 5)
    kind = rng.choice(['parity', 'game', 'labeled'])
    if kind == 'parity':
        g = automata.ParityGame(c=c)
        m.check(g.max_color == -1, 'color without nodes')
    elif kind == 'game':
        g = trs.GameGraph(list(), list())
    else:
        g = trs.LabeledGameGraph()
        g.atomic_propositions.add_from(['p', 'q'])
    S = rng.sample(NAMES, rng.randint(1, 7))
    who, col = dict(), dict()
    for s in S:
        d = dict()
        if rng.random() < 0.7:
            d['player'] = rng.randrange(2)
        if kind == 'parity' and rng.random() < 0.8:
            d['color'] = rng.randrange(c)
        if kind == 'labeled':
            d['ap'] = subset(rng, ['p', 'q'])
        g.states.add(s, **d)
        who[s] = d.get('player', 0)
        col[s] = d.get('color', 0)
        if kind == 'labeled':
            m.check(set(g.nodes[s]['ap']) == d['ap'], 'label')
    for n in (0, 1):
        m.check(set(g.player_states(n)) ==
                {s for s in S if who[s] == n}, 'states of the player',
                who=who, n=n)
    for _ in range(5):
        e = rng.choice(S), rng.choice(S)
        if not g.has_edge(*e):
            g.transitions.add(*e)
        m.check(g.edge_controlled_by(e) == who[e[0]],
                'player of an edge', edge=e, who=who)
    bad = [dict(player=2), dict(player='a')]
    if kind == 'parity':
        bad += [dict(color=c), dict(color=-1)]
        m.check(g.max_color == max(col.values()), 'largest color',
                color=col, got=g.max_color)
    for d in bad:
        try:
            g.states.add('new', **d)
        except ValueError:
            m.check('new' not in g, 'state added all the same')
            continue
        raise Violation('label outside of the domain', label=d)
    m.ev('states', len(S))
    m.sig((kind, sorted(who.items(), key=repr), sorted(
        col.items(), key=repr)))


def refused(f):
    """Whether `f` is refused, without a change that is kept."""
    try:
        f()
    except (ValueError, TypeError):
        return True
    return False


@check.case(quick=500, thorough=5000, cpu=20)
def kinds(rng, m):
    """What each kind of automaton and of structure accepts as labels."""
    from tulip.transys import automata
    from tulip.transys import transys as trs
    kind = rng.choice(['fa', 'wfa', 'word', 'ba', 'rabin', 'dra',
                       'wks', 'mc', 'mdp', 'fts'])
    S = rng.sample(NAMES, rng.randint(1, 5))
    u, v = rng.choice(S), rng.choice(S)
    if kind in ('fa', 'wfa', 'word', 'ba', 'rabin', 'dra'):
        cls = dict(
            fa=automata.FiniteStateAutomaton,
            wfa=automata.WeightedFiniteStateAutomaton,
            word=automata.FiniteWordAutomaton, ba=automata.BuchiAutomaton,
            rabin=automata.RabinAutomaton, dra=automata.DRA)[kind]
        d = dict()
        based = kind != 'rabin'
        symbolic = False
        if rng.random() < 0.7:
            based = rng.random() < 0.5
            d['atomic_proposition_based'] = based
        if kind in ('fa', 'wfa', 'ba') and rng.random() < 0.3:
            symbolic = True
            d['symbolic'] = True
        a = cls(**d)
        case = (kind, d, S)
        a.states.add_from(S)
        sigma = aps_of(rng)
        other = rng.choice(['else', 'x'])
        if symbolic:
            good = ['p & q', 'x', {'p'}, 5]
            bad = list()
        elif based:
            a.atomic_propositions |= sigma
            good = [set(), set(sigma)]
            if len(sigma) > 1:
                good.append({sigma[0]})
            bad = [{other}, {sigma[0], other}]
        else:
            a.alphabet.update(sigma)
            good = sigma
            bad = [other, '']
        weight = dict()
        if kind == 'wfa':
            weight = dict(cost=rng.choice([0, 1, 2.5, 10]))
        letters = [x for x in good if rng.random() < 0.8]
        want = list()
        for x in letters:
            a.transitions.add(u, v, letter=x, **weight)
            want.append(dict(letter=x, **weight))
            m.ev('letters')
        for x in bad:
            m.check(refused(lambda: a.transitions.add(
                u, v, letter=x, **weight)),
                'letter outside of the alphabet', case=case, letter=x)
        if kind == 'wfa':
            for x in (-1, -0.5):
                m.check(refused(lambda: a.transitions.add(
                    u, v, letter=good[0], cost=x)), 'negative cost',
                    case=case)
            m.ev('weights')
        got = [dict(x) for _, _, x in a.edges(data=True)]
        m.check(len(got) == len(want) and all(x in got for x in want),
                'transitions', case=case, got=got, want=want)
        if kind not in ('rabin', 'dra'):
            m.check(refused(lambda: a.accepting.add('nowhere')),
                    'accepting state that is unknown', case=case)
            a.accepting.add(u)
            m.check(set(a.accepting) == {u}, 'accepting states',
                    case=case)
            if u != v:
                a.accepting.add(v)
                a.states.remove(u)
                m.check(set(a.accepting) == {v}, 'accepting states',
                        case=case)
        m.sig(repr((case, letters)))
        return
    if kind == 'fts':
        g = trs.FTS()
        g.states.add_from(S)
        m.check(g.owner == 'sys' and g.env_actions_must == 'xor' and
                g.sys_actions_must == 'xor', 'defaults')
        for _ in range(3):
            x = rng.choice(['env', 'sys'])
            g.owner = x
            m.check(g.owner == x, 'owner', got=g.owner)
            m.check(refused(lambda: setattr(
                g, 'owner', rng.choice(['both', None, '', 'Env']))),
                'owner that does not exist')
            m.check(g.owner == x, 'owner', got=g.owner)
        env = rng.sample(['e0', 'e1', 'e'], rng.randint(1, 3))
        sys = rng.sample(['a', 'b', 'ab'], rng.randint(1, 3))
        g.env_actions.add_from(env)
        g.sys_actions |= sys
        m.check({k: set(x) for k, x in g.actions.items()} ==
                dict(env_actions=set(env), sys_actions=set(sys)),
                'actions', got=g.actions)
        for x in sys:
            m.check(refused(lambda: g.transitions.add(
                u, v, env_actions=x)), 'action of the system as action '
                'of the environment')
        for x in env:
            m.check(refused(lambda: g.transitions.add(
                u, v, sys_actions=x)), 'action of the environment as '
                'action of the system')
        for e in env:
            for s in sys:
                g.transitions.add(u, v, env_actions=e, sys_actions=s)
                m.ev('actions')
        m.check(g.number_of_edges() == len(env) * len(sys),
                'number of transitions')
        m.check(refused(lambda: trs.FTS(sys_actions=[dict(
            name='actions', values=set(sys), setter=True)])),
            'reserved name of actions')
        # own kinds of actions
        ks = rng.sample(['move', 'arm', 'door'], rng.randint(1, 3))
        h = trs.FTS(
            env_actions=[dict(name='env_' + k, values={k, 'no'},
                              setter=True) for k in ks],
            sys_actions=[dict(name='sys_' + k, values={k, 'yes'},
                              setter=True) for k in ks])
        m.check({k: set(x) for k, x in h.actions.items()} == dict(
            [('env_' + k, {k, 'no'}) for k in ks] +
            [('sys_' + k, {k, 'yes'}) for k in ks]), 'actions',
            got=h.actions)
        h.states.add_from(S)
        h.transitions.add(u, v, {
            **{'env_' + k: 'no' for k in ks},
            **{'sys_' + k: k for k in ks}})
        m.check(refused(lambda: h.transitions.add(
            u, v, {'env_' + k: 'yes' for k in ks})), 'unknown action')
        m.sig(repr((sorted(env), sorted(sys), ks)))
        return
    g = dict(wks=trs.WeightedKripkeStructure, mc=trs.MarkovChain,
             mdp=trs.MarkovDecisionProcess)[kind]()
    g.atomic_propositions |= ['p', 'q']
    for s in S:
        g.states.add(s, ap=set(subset(rng, ['p', 'q'])))
    m.check(refused(lambda: g.states.add('new', ap={'r'})),
            'unknown proposition')
    key = 'cost' if kind == 'wks' else 'probability'
    d = dict()
    if kind == 'mdp':
        acts = rng.sample(['a', 'b', 'ab'], rng.randint(1, 3))
        g.actions.add_from(acts)
        d['action'] = rng.choice(acts)
        m.check(refused(lambda: g.transitions.add(
            u, v, probability=0.5, action='other')), 'unknown action')
    bad = [-1, -0.001]
    if kind != 'wks':
        bad += [1.001, 2, 'half']
    for x in bad:
        m.check(refused(lambda: g.transitions.add(
            u, v, {key: x, **d})), 'weight outside of its domain',
            kind=kind, weight=x)
        m.ev('weights')
    good = rng.sample([0, 1, 0.5, 0.25, 1.0], 1)
    if kind == 'wks':
        good += [7]
    for x in good:
        g.transitions.add(u, v, {key: x, **d})
    m.check(sorted(repr(sorted(x.items())) for _, _, x in
                   g.edges(data=True)) ==
            sorted(repr(sorted({key: x, **d}.items())) for x in good),
            'transitions', got=list(g.edges(data=True)))
    m.sig(repr((kind, S, good, u, v)))
