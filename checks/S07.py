"""S07: formulas of transition systems allow exactly their steps."""
import warnings

from rt import expr as X
from rt import fts, ltl
from rt.core import Check, Skip

PAIRS = 700

check = Check(
    'S07',
    rule='a distinct case is a transition system and options, with '
    'steps that its formulas were asked about, by content',
    require=['system.allowed', 'system.refused', 'system.env_allowed',
             'system.env_refused', 'system.init_allowed',
             'system.init_refused', 'environment.allowed',
             'environment.refused', 'environment.init_allowed',
             'environment.init_refused', 'system.bool_states',
             'system.bool_actions', 'system.previous', 'system.deadend',
             'environment.bool_states', 'environment.free',
             'environment.no_action', 'system.env_previous', 'environment.bool_actions',
             'system.must_None', 'system.must_mutex',
             'refused.clash', 'refused.kind', 'refused.accepted'],
    assumptions=[
        'steps from assignments that represent a state and actions',
        'actions of the environment are read at the next time',
        'when the system takes no action at all, the environment '
        'may do anything where all its transitions need one '
        '(as documented in the code)'])


class Coder:
    """What assignments mean, for a transition system and options."""

    def __init__(self, ts, bool_states, bool_actions):
        self.ts = ts
        self.bool_states = bool_states
        self.bool_actions = bool_actions

    def must(self, k):
        return self.ts.must.get(self.ts.who(k), 'xor')

    def booleans(self, k):
        return self.bool_actions or self.must(k) is None

    def declarations(self):
        """Return variables of each player, as the docs describe."""
        ts = self.ts
        mine = dict()
        if self.bool_states:
            mine.update({s: 'boolean' for s in ts.states})
        else:
            mine[ts.name] = ts.state_dom()
        mine.update({p: 'boolean' for p in ts.aps})
        side = dict(sys=dict(), env=dict())
        side[ts.owner].update(mine)
        for k, vals in ts.codomain.items():
            if self.booleans(k):
                side[ts.who(k)].update({v: 'boolean' for v in vals})
            else:
                side[ts.who(k)].update(ts.action_var(k))
        return side

    def state(self, a):
        """Return the state, or `None`."""
        if self.bool_states:
            on = [s for s in self.ts.states if a[s]]
            return on[0] if len(on) == 1 else None
        v = a[self.ts.name]
        return v if v in self.ts.states else None

    def taken(self, k, a):
        """Return set of actions of type `k`, `None` if unclear."""
        vals = self.ts.codomain[k]
        if self.booleans(k):
            return {v for v in vals if a[v]}
        v = a[k]
        if v in vals:
            return {v}
        extra = (max(vals) + 1) if isinstance(v, int) else k + 'none'
        if self.must(k) == 'mutex' and v != extra:
            return None
        return set()

    def legal(self, k, acts):
        must = self.must(k)
        if must == 'xor':
            return len(acts) == 1
        if must == 'mutex':
            return len(acts) <= 1
        return True

    def labels(self, a):
        return frozenset(p for p in self.ts.aps if a[p])


def parts(spec, m):
    out = dict()
    for k in ('env_init', 'sys_init', 'env_safety', 'sys_safety'):
        out[k] = [ltl.parse(f) for f in getattr(spec, k)]
    for k in ('env_prog', 'sys_prog'):
        m.check(list(getattr(spec, k)) in ([], ['True'], ['TRUE']),
                'a transition system demands progress',
                got=list(getattr(spec, k)))
    return out


def declared(spec):
    def plain(d):
        return {k: ('boolean' if v == 'boolean' else
                    tuple(v) if isinstance(v, tuple) else sorted(v))
                for k, v in d.items()}
    return dict(sys=plain(spec.sys_vars), env=plain(spec.env_vars))


def has_next(t):
    return t[0] == 'X' or any(
        has_next(x) for x in t[1:] if isinstance(x, tuple))


def judge(ts, c, spec, ignore, rng, m, what):
    want = c.declarations()
    want = {s: {k: ('boolean' if v == 'boolean' else
                    tuple(v) if isinstance(v, tuple) else sorted(v))
                for k, v in d.items()} for s, d in want.items()}
    got = declared(spec)
    m.check(got == want, 'variables declared', got=got, want=want, **what)
    f = parts(spec, m)
    vrs = {**want['sys'], **want['env']}
    alls = list(X.assignments(vrs))
    if len(alls) > 3000:
        raise Skip()
    mine, other = ts.owner, ('env' if ts.owner == 'sys' else 'sys')

    def clear(a):
        return all(c.taken(k, a) is not None for k in ts.codomain)

    def acts_ok(a, who):
        return all(c.legal(k, c.taken(k, a)) for k in ts.codomain
                   if ts.who(k) == who)

    def whole(a):
        s = c.state(a)
        return s is not None and c.labels(a) == ts.label[s]
    # initial conditions
    pool = alls if len(alls) <= 500 else rng.sample(alls, 500)
    for a in pool:
        if not clear(a):
            continue
        w = ltl.Lasso([a], [a])
        init = whole(a) and acts_ok(a, mine) and (
            ignore or c.state(a) in ts.init)
        got = all(ltl.holds(t, w) for t in f[mine + '_init'])
        m.check(got == init, f'{mine}_init says {got}, '
                f'the transition system says {init}', at=a, **what)
        m.ev('init_allowed' if init else 'init_refused')
        init = acts_ok(a, other)
        got = all(ltl.holds(t, w) for t in f[other + '_init'])
        m.check(got == init, f'{other}_init says {got}, '
                f'the transition system says {init}', at=a, **what)
    # steps
    now = [a for a in alls if clear(a) and whole(a) and
           acts_ok(a, mine) and acts_ok(a, other)]
    good = [a for a in alls if clear(a) and whole(a)]
    bad = [a for a in alls if clear(a)]
    if not now or not good:
        raise Skip()
    for _ in range(PAIRS):
        a = rng.choice(now)
        b = rng.choice(good if rng.random() < .7 else bad)
        w = ltl.Lasso([a], [b])
        # invariants hold at the next time too
        v = ltl.Lasso([b], [b])
        got = {p: all(ltl.holds(t, w) and (has_next(t) or
                                           ltl.holds(t, v))
                      for t in f[p + '_safety'])
               for p in ('sys', 'env')}
        s = c.state(a)
        out = [e for e in ts.edges if e[0] == s]

        def matches(d, only=None):
            for k, v in d.items():
                if only and ts.who(k) != only:
                    continue
                here = k in ts.previous or (
                    ts.owner == 'env' and ts.who(k) == 'sys')
                if v not in c.taken(k, a if here else b):
                    return False
            return True
        step = whole(b) and any(
            t == c.state(b) and matches(d) for _, t, d in out) \
            and acts_ok(b, mine)
        if ts.owner == 'env':
            free = any(
                not any(ts.who(k) == 'sys' for k in d)
                for _, t, d in out)
            if free:
                m.ev('free')
            if out and not free and any(
                    not c.taken(k, a) for k in ts.codomain
                    if ts.who(k) == 'sys'):
                m.ev('no_action')
                step = whole(b) and acts_ok(b, mine)
        if not out:
            m.ev('deadend')
        m.check(got[mine] == step, f'{mine}_safety says {got[mine]}, '
                f'the transition system says {step}',
                now=a, then=b, **what)
        m.ev('allowed' if step else 'refused')
        ok = acts_ok(b, other)
        if ts.owner == 'sys':
            free = any(all(ts.who(k) != 'env' for k in d)
                       for _, _, d in out)
            if out and not free:
                ok = ok and any(
                    matches(d, only='env') for _, _, d in out)
        if any(ts.who(k) != 'sys' for k in ts.previous):
            m.ev('env_previous')
            continue
        m.check(got[other] == ok, f'{other}_safety says {got[other]}, '
                f'the transition system says {ok}',
                now=a, then=b, **what)
        if ts.owner == 'sys' and any(
                ts.who(k) == 'env' for k in ts.codomain):
            m.ev('env_allowed' if ok else 'env_refused')
    m.sig(what)
    m.sample(what)


def drive(rng, m, owner):
    from tulip import synth
    bool_states = rng.random() < .25
    bool_actions = rng.random() < .25
    ts = fts.rand_ts(
        rng, owner, max_n=4, ints=False if bool_states else None)
    if owner == 'env' and rng.random() < .5:
        # not every action of the system is accepted
        ts.edges = [e for e in ts.edges if rng.random() < .8]
        if 'sys' in ts.must:
            ts.must['sys'] = rng.choice(['xor', 'mutex', None])
    for k, vals in ts.codomain.items():
        if all(isinstance(v, int) for v in vals) and (
                bool_actions or ts.must.get(ts.who(k)) is None):
            raise Skip()
    if owner == 'sys' and 'env_actions' in ts.codomain and \
            rng.random() < .2:
        ts.previous.add('env_actions')
    c = Coder(ts, bool_states, bool_actions)
    what = dict(ts=ts.describe(), bool_states=bool_states,
                bool_actions=bool_actions)
    ignore = rng.random() < .25
    what['ignore'] = ignore
    if bool_states:
        m.ev('bool_states')
    if bool_actions and ts.codomain:
        m.ev('bool_actions')
    if ts.previous:
        m.ev('previous')
    for k in ts.codomain:
        m.ev(f'must_{c.must(k)}')
    g = ts.build(rng)
    f = synth.sys_to_spec if owner == 'sys' else synth.env_to_spec
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        spec = f(g, ignore, ts.name, bool_states=bool_states,
                 bool_actions=bool_actions)
    judge(ts, c, spec, ignore, rng, m, what)


@check.case(quick=400, thorough=6000, cpu=120)
def system(rng, m):
    drive(rng, m, 'sys')


@check.case(quick=300, thorough=5000, cpu=120)
def environment(rng, m):
    drive(rng, m, 'env')


@check.case(quick=150, thorough=1500, cpu=60)
def refused(rng, m):
    """Names that would mean two things, and other objects, are refused."""
    from tulip import synth, transys
    owner = rng.choice(['sys', 'env'])
    convert = dict(sys=synth.sys_to_spec, env=synth.env_to_spec)[owner]
    flaw = rng.choice([
        None, None, 'value is prop', 'value is state', 'type is state',
        'type is prop', 'prop is state', 'mixed states', 'owner', 'kind',
        'Boolean numbers', 'mixed values'])
    names = rng.sample(['home', 'lot', 'park', 'hall', 'yard'], 4)
    states, props = names[:2], names[2:]
    # (players with actions of both kinds)
    kind = rng.choice(['sys', 'env'])
    typ = rng.choice([f'{kind}_move', f'{kind}_actions'])
    vals = ['go', 'stop']
    kw = dict()
    if flaw == 'value is prop':
        vals[rng.randrange(2)] = rng.choice(props)
    elif flaw == 'value is state':
        vals[rng.randrange(2)] = rng.choice(states)
    elif flaw == 'type is state':
        states[rng.randrange(2)] = typ
    elif flaw == 'type is prop':
        props[rng.randrange(2)] = typ
    elif flaw == 'prop is state':
        props[rng.randrange(2)] = rng.choice(states)
    elif flaw == 'mixed states':
        states[rng.randrange(2)] = 3
    elif flaw == 'mixed values':
        vals[rng.randrange(2)] = 3
    elif flaw == 'Boolean numbers':
        states = [0, 1]
        kw['bool_states'] = True
    if flaw == 'kind':
        obj = rng.choice([
            transys.MealyMachine(), transys.LabeledDiGraph(),
            transys.automata.BuchiAutomaton(), None, dict()])
    else:
        a = [dict(name=typ, values=set(vals), setter=True)]
        b = [dict(name=dict(sys='env', env='sys')[kind] + '_other',
                  values={'in', 'out'}, setter=True)]
        obj = transys.FTS(*((b, a) if kind == 'sys' else (a, b)))
        obj.owner = owner
        obj.atomic_propositions.add_from(props)
        for s in states:
            obj.states.add(s, ap={p for p in props if rng.random() < .5})
        obj.states.initial.add(states[0])
        for s in states:
            obj.transitions.add(s, rng.choice(states), **{typ: rng.choice(
                vals)})
        if flaw == 'owner':
            obj.owner = dict(sys='env', env='sys')[owner]
    what = dict(owner=owner, flaw=flaw, states=states, props=props,
                type=typ, values=vals)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            spec = convert(obj, False, 'loc', **kw)
    except Exception as e:
        m.check(flaw is not None, 'well-formed transition system refused',
                error=repr(e), **what)
        m.ev('kind' if flaw in ('kind', 'owner') else 'clash')
    else:
        m.check(flaw is None, 'malformed transition system accepted', **what)
        m.ev('accepted')
    m.sig(what)
