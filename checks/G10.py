"""G10: Prism files, model checking, and policies with `stormpy`."""
import os

from rt.core import Check, Violation

check = Check(
    'G10',
    rule='a distinct case is a model and formula, by content',
    require=['checking.states', 'checking.policies', 'files.transitions',
             'reading.transitions', 'refused.calls', 'actions.matched',
             'actions.same_order'],
    assumptions=[
        'variables have at least two values (Storm misreads others)',
        'each state has transitions, and probabilities that add up to 1',
        'model checking needs states with different labels, as documented',
        'in models that are checked, probabilities of transitions are '
        'above 0.05, so that the iterations of Storm converge',
        'numeric results of Storm are compared up to 1e-4, and transition '
        'probabilities up to 1e-11'])
NAMES = [0, 1, '1', 's1', 's10', (0, 1), 'a', 'b c', ('s1', 'a'), '',
         ()]


def distribution(rng, S, rare=True):
    """Probabilities of some of the states."""
    n = rng.randint(1, min(3, len(S)))
    to = rng.sample(S, n)
    w = [rng.choice([1, 1, 2, 3, 6]) for _ in to]
    if rng.random() < 0.1 and n > 1 and rare:
        w[0] = rng.choice([50, 299])
    p = [x / sum(w) for x in w]
    if n == 1 and rng.random() < 0.5:
        p = [1]
    return dict(zip(to, p))


def rand_model(rng, unique=True, rare=True):
    from tulip import transys as trs
    mdp = rng.random() < 0.7
    g = (trs.MarkovDecisionProcess if mdp else trs.MarkovChain)()
    n = rng.randint(2, 6)
    S = rng.sample(NAMES, n)
    AP = ['p', 'q', 'r', 'h10']
    g.atomic_propositions.add_from(AP)
    if unique:
        bits = rng.sample(range(16), n)
        if rng.random() < 0.3:
            bits = rng.sample([b for b in range(16) if b & 7 == b], n)
    else:
        bits = [rng.randrange(2) for _ in S]
    label = {s: {a for i, a in enumerate(AP) if b >> i & 1}
             for s, b in zip(S, bits)}
    for s in S:
        g.states.add(s, ap=set(label[s]))
    init = rng.choice(S)
    g.states.initial.add(init)
    acts = rng.sample(['x', 'y', 'z', 0, 1, ('x', 'y')], rng.randint(1, 4))
    if mdp:
        g.actions.add_from(acts)
    trans = dict()
    for s in S:
        some = rng.sample(acts, rng.randint(1, len(acts))) if mdp else [None]
        trans[s] = {a: distribution(rng, S, rare) for a in some}
    if rng.random() < 0.4 and mdp and not rare:
        # actions that differ little
        for s in S:
            a = rng.choice(list(trans[s]))
            b = rng.choice(acts)
            d = dict(trans[s][a])
            if len(d) < 2 or a == b:
                continue
            t, u = rng.sample(list(d), 2)
            x = rng.choice([0.02, 0.05])
            if d[t] > 0.1:
                d[t] -= x
                d[u] += x
                trans[s][b] = d
    items = [(s, t, a, p) for s, x in trans.items()
             for a, d in x.items() for t, p in d.items()]
    rng.shuffle(items)
    for s, t, a, p in items:
        if mdp:
            g.transitions.add(s, t, action=a, probability=p)
        else:
            g.transitions.add(s, t, probability=p)
    return g, mdp, S, AP, label, init, trans


def until(S, trans, stay, goal, best, steps):
    """Probability of `stay U<=steps goal`."""
    v = {s: 1. if s in goal else 0. for s in S}
    for _ in range(steps):
        new = dict()
        for s in S:
            if s in goal:
                new[s] = 1.
            elif s not in stay:
                new[s] = 0.
            else:
                new[s] = best(
                    sum(p * v[t] for t, p in d.items())
                    for d in trans[s].values())
        if max(abs(new[s] - v[s]) for s in S) < 1e-12:
            return new
        v = new
    return v


def rand_expr(rng, AP):
    """Text and predicate."""
    k = rng.random()
    a, b = rng.choice(AP), rng.choice(AP)
    if k < 0.5:
        return f'"{a}"', lambda x: a in x
    if k < 0.65:
        return f'!"{a}"', lambda x: a not in x
    if k < 0.8:
        return f'("{a}" & "{b}")', lambda x: a in x and b in x
    return f'("{a}" | !"{b}")', lambda x: a in x or b not in x


def reach(trans, init):
    seen, todo = {init}, [init]
    while todo:
        for d in trans[todo.pop()].values():
            for t, p in d.items():
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
    return seen


@check.case(quick=220, thorough=2500, cpu=60)
def checking(rng, m):
    """Probabilities, and the policies that attain them."""
    from tulip.interfaces import stormpy as st
    from tulip.transys import compositions
    g, mdp, S, AP, label, init, trans = rand_model(rng, rare=False)
    ta, fa = rand_expr(rng, AP)
    tb, fb = rand_expr(rng, AP)
    A = {s for s in S if fa(label[s])}
    B = {s for s in S if fb(label[s])}
    which = rng.choice(['max', 'min']) if mdp else ''
    best = dict(max=max, min=min).get(which, max)
    worst = dict(max=min, min=max).get(which, max)
    op = rng.choice(['F', 'U', 'U', 'G', 'F<='])
    if op == 'F':
        text = f'F {tb}'
        want = until(S, trans, set(S), B, best, 20000)
    elif op == 'U':
        text = f'{ta} U {tb}'
        want = until(S, trans, A, B, best, 20000)
    elif op == 'G':
        text = f'G {tb}'
        x = until(S, trans, set(S), set(S) - B, worst, 20000)
        want = {s: 1 - x[s] for s in S}
    else:
        k = rng.randint(0, 5)
        text = f'F<={k} {tb}'
        want = until(S, trans, set(S), B, best, k)
    formula = f'P{which}=? [ {text} ]'
    case = (trans, label, init, formula)
    path = os.path.join(os.getcwd(), 'model.nm')
    policy = None
    if mdp and op != 'F<=' and rng.random() < 0.8:
        prob, policy = st.model_checking(g, formula, path, True)
    else:
        prob = st.model_checking(g, formula, path)
    os.remove(path)
    R = reach(trans, init)
    for s in R:
        m.check(abs(prob[s] - want[s]) < 1e-4, 'probability', case=case,
                state=s, got=prob[s], want=want[s])
        m.ev('states')
    m.sig(case)
    m.sample(dict(formula=formula, states=len(S), initial=want[init]))
    if policy is None:
        return
    induced = dict()
    for s in R:
        a = policy[s]
        m.check(a in trans[s], 'action that is not available', case=case,
                state=s, got=a)
        induced[s] = {a: trans[s][a]}
    if op == 'G':
        x = until(R, induced, R, R - B, max, 20000)
        got = {s: 1 - x[s] for s in R}
    else:
        got = until(R, induced, A if op == 'U' else R, B & R, max, 20000)
    for s in R:
        m.check(abs(got[s] - want[s]) < 1e-4,
                'the policy does not attain the probability', case=case,
                state=s, got=got[s], want=want[s], policy={
                    x: policy[x] for x in R})
    m.ev('policies')
    if R == set(S) and len(R) < 5:
        mc = compositions.apply_policy(g, policy)
        again = st.model_checking(mc, f'P=? [ {text} ]', path)
        os.remove(path)
        m.check(abs(again[init] - want[init]) < 1e-4,
                'probability of the chain of the policy', case=case,
                got=again[init], want=want[init])


def shape(trans, name):
    """Distributions at each state, without names of actions."""
    return {name[s]: sorted(
        sorted((name[t], round(p, 12)) for t, p in d.items())
        for d in x.values()) for s, x in trans.items()}


def model_of(h):
    """Transitions of a Markov decision process or chain."""
    trans = {s: dict() for s in h.states}
    for u, v, d in h.transitions(data=True):
        to = trans[u].setdefault(d.get('action'), dict())
        to[v] = to.get(v, 0) + d['probability']
    return trans


@check.case(quick=250, thorough=2500, cpu=60)
def files(rng, m):
    """A model that is written to a file and read is the same."""
    from tulip.interfaces import stormpy as st
    g, mdp, S, AP, label, init, trans = rand_model(rng)
    case = (trans, label, init)
    path = os.path.join(os.getcwd(), 'model.nm')
    st.to_prism_file(g, path)
    h = st.to_tulip_transys(path)
    os.remove(path)
    R = reach(trans, init)
    name = {s: ' '.join(sorted(label[s])) for s in S}
    got_name = {s: ' '.join(sorted(h.states[s]['ap'])) for s in h.states}
    m.check(type(h) is type(g), 'type', case=case, got=type(h))
    m.check(sorted(got_name.values()) == sorted(name[s] for s in R),
            'states', case=case, got=got_name)
    m.check([got_name[s] for s in h.states.initial] == [name[init]],
            'initial state', case=case, got=h.states.initial)
    got = shape(model_of(h), got_name)
    want = shape({s: trans[s] for s in R}, name)
    m.check(close(got, want), 'transitions', case=case, got=got,
            want=want)
    if mdp:
        m.check({d['action'] for _, _, d in h.transitions(data=True)} <=
                set(h.actions), 'actions', case=case)
    m.check(model_of(g) == ({s: x for s, x in trans.items()}) and
            {s: set(d['ap']) for s, d in g.nodes(data=True)} == label,
            'the model changed', case=case)
    m.ev('transitions', len(h.edges))
    m.sig(case)


def close(a, b):
    if a.keys() != b.keys():
        return False
    for k in a:
        if len(a[k]) != len(b[k]):
            return False
        for x, y in zip(a[k], b[k]):
            if [t for t, _ in x] != [t for t, _ in y]:
                return False
            if any(abs(p - q) > 1e-11 for (_, p), (_, q) in zip(x, y)):
                return False
    return True


@check.case(quick=200, thorough=2000, cpu=60)
def reading(rng, m):
    """Prism programs with two variables become the same model."""
    from tulip.interfaces import stormpy as st
    mdp = rng.random() < 0.6
    nx, ny = rng.randint(2, 3), rng.randint(2, 3)
    S = [(x, y) for x in range(nx) for y in range(ny)]
    init = rng.choice(S)
    lines = ['mdp' if mdp else 'dtmc', 'module m',
             f'x : [0..{nx - 1}] init {init[0]};',
             f'y : [0..{ny - 1}] init {init[1]};']
    trans = dict()
    for s in S:
        trans[s] = dict()
        for k in range(rng.randint(1, 3) if mdp else 1):
            d = distribution(rng, S)
            trans[s][k] = d
            act = rng.choice(['', '', 'go', 'stop']) if mdp else ''
            rhs = ' + '.join(
                f"{p!r} : (x'={t[0]}) & (y'={t[1]})" for t, p in d.items())
            lines.append(f'[{act}] x={s[0]} & y={s[1]} -> {rhs};')
    lines.append('endmodule')
    label = {s: set() for s in S}
    for s in S:
        lines.append(f'label "at{s[0]}{s[1]}" = x={s[0]} & y={s[1]};')
        label[s].add(f'at{s[0]}{s[1]}')
    lines.append('label "left" = x=0;')
    for s in S:
        if s[0] == 0:
            label[s].add('left')
    text = '\n'.join(lines) + '\n'
    with open('in.nm', 'w') as f:
        f.write(text)
    h = st.to_tulip_transys(os.path.join(os.getcwd(), 'in.nm'))
    os.remove('in.nm')
    R = reach(trans, init)
    name = {s: ' '.join(sorted(label[s])) for s in S}
    got_name = {s: ' '.join(sorted(h.states[s]['ap'])) for s in h.states}
    m.check(sorted(got_name.values()) == sorted(name[s] for s in R),
            'states and labels', program=text, got=got_name)
    m.check([got_name[s] for s in h.states.initial] == [name[init]],
            'initial state', program=text)
    m.check('init' not in h.atomic_propositions and
            'deadlock' not in h.atomic_propositions,
            'labels of Storm', program=text)
    got = shape(model_of(h), got_name)
    want = shape({s: trans[s] for s in R}, name)
    m.check(close(got, want), 'transitions', program=text, got=got,
            want=want)
    m.ev('transitions', len(h.edges))
    m.sig(text)


@check.case(quick=40, thorough=300, cpu=60)
def refused(rng, m):
    """What cannot be handled raises."""
    from tulip import transys as trs
    from tulip.interfaces import stormpy as st
    g, mdp, S, AP, label, init, trans = rand_model(rng, unique=False)
    path = os.path.join(os.getcwd(), 'model.nm')
    R = reach(trans, init)
    dup = len({frozenset(label[s]) for s in S}) < len(S) and any(
        label[s] == label[t] for s in R for t in S if s != t)
    try:
        st.model_checking(g, 'Pmax=? [ F "p" ]' if mdp else
                          'P=? [ F "p" ]', path)
    except ValueError:
        m.check(dup, 'refused', labels=label, reach=R)
        m.ev('calls')
    else:
        m.check(not dup, 'states with the same labels are mixed',
                labels=label, reach=R)
    m.sig((label, trans, init))
    for h, want in [(trs.KripkeStructure(), TypeError),
                    (trs.MarkovChain(), ValueError)]:
        try:
            st.to_prism_file(h, path)
        except want:
            m.ev('calls')
        else:
            raise Violation('a model that cannot be written')
    if len(S) > 1:
        g.states.initial.add(next(s for s in S if s != init))
        try:
            st.to_prism_file(g, path)
        except ValueError:
            m.ev('calls')
        else:
            raise Violation('several initial states')
    with open('c.nm', 'w') as f:
        f.write('ctmc\nmodule m\nx : [0..1] init 0;\n'
                f"<> x=0 -> {rng.choice([2.5, 0.5])} : (x'=1);\n"
                "<> x=1 -> 1 : (x'=0);\n"
                'endmodule\n')
    try:
        st.to_tulip_transys(os.path.join(os.getcwd(), 'c.nm'))
    except ValueError:
        m.ev('calls')
    else:
        raise Violation('a continuous-time chain is read')


@check.case(quick=150, thorough=1500, cpu=60)
def actions(rng, m):
    """States and actions of Storm that correspond to those of TuLiP."""
    from tulip import transys as trs
    from tulip.interfaces import stormpy as st
    g = trs.MarkovDecisionProcess()
    n = rng.randint(2, 5)
    S = rng.sample(NAMES, n)
    AP = ['p', 'q', 'r']
    g.atomic_propositions.add_from(AP)
    bits = rng.sample(range(8), n)
    label = {s: {a for i, a in enumerate(AP) if b >> i & 1}
             for s, b in zip(S, bits)}
    for s in S:
        g.states.add(s, ap=set(label[s]))
    init = rng.choice(S)
    g.states.initial.add(init)
    acts = rng.sample(['x', 'y', 'z', 0, 1, ('x', 'y')], rng.randint(1, 4))
    g.actions.add_from(acts)
    same = rng.random() < 0.6
    order = list(acts)
    rng.shuffle(order)
    trans = dict()
    for s in S:
        some = order if same else rng.sample(
            acts, rng.randint(1, len(acts)))
        trans[s] = dict()
        for a in some:
            d = trans[s][a] = distribution(rng, S)
            if same and rng.random() < 0.7:
                d = trans[s][a] = {rng.choice(S): 1}
            for t, p in d.items():
                g.transitions.add(s, t, action=a, probability=p)
    case = (trans, label, init, same)
    path = os.path.join(os.getcwd(), 'model.nm')
    st.to_prism_file(g, path)
    model = st.build_stormpy_model(path)
    os.remove(path)
    R = reach(trans, init)
    # actions of states of Storm are numbered
    first = {tuple(dict.fromkeys(
        d['action'] for _, _, d in g.transitions.find([s])))
        for s in R}
    same = len(first) == 1
    known = list()
    for x in model.states:
        s = st.to_tulip_state(x, g)
        known.append(s)
        m.check(set(st.to_tulip_labels(x, g)) == label[s], 'labels',
                case=case, state=s)
    m.check(sorted(map(repr, known)) == sorted(map(repr, R)),
            'states that can be reached', case=case, got=known)
    amap = st.get_action_map(model, g) if rng.random() < 0.7 else None
    for x, s in zip(model.states, known):
        for a in x.actions:
            want = dict()
            for t in a.transitions:
                want[known[t.column]] = t.value()
            try:
                b = st.to_tulip_action(a, model, g, amap) \
                    if amap is not None else st.to_tulip_action(a, model, g)
            except ValueError:
                m.check(not same, 'no action though one corresponds',
                        case=case, state=s)
                continue
            d = trans[s].get(b)
            m.check(d is not None and d.keys() == want.keys() and all(
                abs(d[t] - want[t]) < 1e-5 for t in d),
                'action with other probabilities', case=case, state=s,
                got=b, want=want)
            m.ev('matched')
            if same:
                m.ev('same_order')
    m.sig(case)
