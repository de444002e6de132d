"""Random transition systems, and their own encoding as games."""
from rt import expr as X
from rt import game as G


class TS:
    """Explicit transition system (independent of `tulip`)."""

    def __init__(self, owner, name):
        self.owner = owner
        self.name = name            # state variable
        self.states = list()
        self.init = list()
        self.aps = list()
        self.label = dict()         # state -> frozenset of APs
        self.codomain = dict()      # action type -> list
        self.must = dict()          # 'sys' / 'env' -> constraint
        self.edges = list()         # (s, t, {action type: value})
        self.previous = set()       # action types that edges read now

    def describe(self):
        return dict(
            owner=self.owner, states=self.states, init=self.init,
            label={s: sorted(x) for s, x in self.label.items()},
            previous=sorted(self.previous),
            codomain=self.codomain, must=self.must, edges=self.edges)

    def build(self, rng=None):
        from tulip import transys
        types = [dict(name=k, values=transys.mathset.MathSet(),
                      setter=True)
                 for k in self.codomain]
        if types:
            env = [t for t in types if 'env' in t['name']]
            sys = [t for t in types if 'sys' in t['name']]
            fts = transys.FTS(env, sys)
            for t in types:
                fts.actions[t['name']].add_from(
                    self.codomain[t['name']])
        else:
            fts = transys.FTS()
        fts.owner = self.owner
        fts.atomic_propositions.add_from(self.aps)
        for s in self.states:
            fts.states.add(s, ap=set(self.label[s]))
        fts.states.initial.add_from(self.init)
        edges = list(self.edges)
        if rng is not None:
            rng.shuffle(edges)
        for s, t, d in edges:
            if self.previous:
                fts.transitions.add(
                    s, t, attr_dict=None, check=False,
                    previous=set(self.previous), **d)
            else:
                fts.transitions.add(s, t, **d)
        fts.sys_actions_must = self.must.get('sys', 'xor')
        fts.env_actions_must = self.must.get('env', 'xor')
        if self.name not in ('loc', 'eloc'):
            fts.state_varname = self.name
        return fts

    def who(self, action_type):
        return 'sys' if 'sys' in action_type else 'env'

    def action_var(self, k):
        """Return declarations of variables for action type `k`."""
        must = self.must.get(self.who(k), 'xor')
        vals = self.codomain[k]
        if must is None:
            return {v: 'boolean' for v in vals}
        if all(isinstance(v, int) for v in vals):
            hi = max(vals) + (0 if must == 'xor' else 1)
            return {k: (min(vals), hi)}
        if must == 'xor':
            return {k: list(vals)}
        return {k: list(vals) + [k + 'none']}

    def action_is(self, k, v, primed):
        if self.must.get(self.who(k), 'xor') is None:
            return ('var', v, primed)
        return ('cmp', '=', k, primed, v)

    def state_is(self, s, primed=False):
        return ('cmp', '=', self.name, primed, s)

    def state_dom(self):
        if all(isinstance(s, int) for s in self.states):
            return (min(self.states), max(self.states))
        return list(self.states)

    def ap_expr(self, s, primed):
        return conj([
            ('var', p, primed) if p in self.label[s]
            else ('not', ('var', p, primed)) for p in self.aps])

    def add_to(self, sp, ignore_init=False):
        """Conjoin to the `game.Spec` `sp`."""
        mine = sp.sys if self.owner == 'sys' else sp.env
        mine[self.name] = self.state_dom()
        mine.update({p: 'boolean' for p in self.aps})
        for k in self.codomain:
            if self.codomain[k]:
                d = sp.sys if self.who(k) == 'sys' else sp.env
                d.update(self.action_var(k))
        # the value of the variable is a state
        init = [disj([self.state_is(s) for s in self.states])]
        if not ignore_init:
            init.append(disj([self.state_is(s) for s in self.init]))
        for s in self.states:
            init.append(
                ('imp', self.state_is(s), self.ap_expr(s, False)))
        if self.owner == 'sys' and sp.qinit != r'\A \A':
            sp.sys_init.extend(init)
        else:
            sp.env_init.extend(init)
        step = [disj([self.state_is(s) for s in self.states])]
        env = list()
        for k, vals in self.codomain.items():
            if self.must.get(self.who(k), 'xor') != 'xor':
                continue
            # the value of the variable is an action
            here, there = (disj([self.action_is(k, v, x) for v in vals])
                           for x in (False, True))
            if self.who(k) == 'env':
                sp.env_init.append(here)
                sp.env_safety.append(there)
                continue
            if sp.qinit == r'\A \A':
                sp.env_init.append(here)
            else:
                sp.sys_init.append(here)
            sp.sys_safety.append(there)
        for s in self.states:
            out = [e for e in self.edges if e[0] == s]
            alts = list()
            envs = set()
            for _, t, d in out:
                c = [self.state_is(t, True)]
                for k, v in d.items():
                    # the system's action is current when
                    # the environment owns the state
                    primed = not (
                        self.owner == 'env' and self.who(k) == 'sys')
                    primed = primed and k not in self.previous
                    c.append(self.action_is(k, v, primed))
                alts.append(conj(c))
                ea = tuple(sorted(
                    (k, v) for k, v in d.items()
                    if self.who(k) == 'env'))
                if ea:
                    envs.add(ea)
            if self.owner == 'env' and out and all(
                    any(self.who(k) == 'sys' for k in d)
                    for _, _, d in out):
                # the system takes no action: anything may happen
                for k, vals in self.codomain.items():
                    if self.who(k) == 'sys':
                        alts.append(conj([
                            ('not', self.action_is(k, v, False))
                            for v in vals]))
            step.append(('imp', self.state_is(s), disj(alts)))
            free = any(all(self.who(k) != 'env' for k in d)
                       for _, _, d in out)
            if self.owner == 'sys' and envs and not free:
                env.append(('imp', self.state_is(s), disj([
                    conj([self.action_is(k, v, True) for k, v in ea])
                    for ea in sorted(envs)])))
            step.append(
                ('imp', self.state_is(s, True), self.ap_expr(s, True)))
        if self.owner == 'sys':
            sp.sys_safety.extend(step)
            sp.env_safety.extend(env)
        else:
            sp.env_safety.extend(step)


def conj(es):
    out = ('true',)
    for e in es:
        out = e if out == ('true',) else ('and', out, e)
    return out


def disj(es):
    out = ('false',)
    for e in es:
        out = e if out == ('false',) else ('or', out, e)
    return out


def rand_ts(rng, owner, prefix='', max_n=4, actions=True, ap_names=None,
            deadends=True, ints=None, musts=('xor', 'xor', 'mutex', None)):
    name = 'loc' if owner == 'sys' else 'eloc'
    if prefix:
        name = prefix
    elif rng.random() < 0.3:
        name = 'place' if owner == 'sys' else 'eplace'
    ts = TS(owner, name)
    n = rng.randint(2, max_n)
    if ints is None:
        ints = rng.random() < 0.3
    if ints:
        pool = list(range(n)) if rng.random() < 0.7 else \
            rng.sample(range(n + 2), n)
        ts.states = sorted(pool)
    else:
        ts.states = [f'{name[0]}{i}' for i in range(n)]
    ts.init = rng.sample(ts.states, rng.choice([1, 1, 2]))
    if ap_names is None:
        base = 'a' if owner == 'sys' else 'b'
        ap_names = [f'{base}{i}' for i in range(rng.choice([0, 1, 1, 2]))]
    ts.aps = list(ap_names)
    for s in ts.states:
        ts.label[s] = frozenset(
            p for p in ts.aps if rng.random() < 0.5)
    sysact = actions and rng.random() < 0.5
    envact = actions and rng.random() < 0.4
    if sysact:
        ts.codomain['sys_actions'] = [
            f'{prefix}go', f'{prefix}halt'][:rng.choice([2, 2, 1])]
        ts.must['sys'] = rng.choice(musts)
        if owner == 'sys' and rng.random() < 0.25:
            ts.codomain['sys_alarm'] = [f'{prefix}ring', f'{prefix}still']
        if owner == 'sys' and rng.random() < 0.25:
            ts.previous.add('sys_actions')
    if envact:
        ts.codomain['env_actions'] = [f'{prefix}wind', f'{prefix}calm']
        ts.must['env'] = rng.choice(musts)
        if rng.random() < 0.15:
            ts.codomain['env_light'] = [f'{prefix}day', f'{prefix}night']
    for k, vals in ts.codomain.items():
        if ts.must.get(ts.who(k)) in ('xor', 'mutex') and \
                rng.random() < .3:
            ts.codomain[k] = rng.sample(range(10, 14), len(vals))
    partial = rng.random() < .3
    edges = set()
    for s in ts.states:
        k = rng.choice([1, 2, 2, 3])
        if deadends and rng.random() < 0.08:
            k = 0
        for _ in range(k):
            t = rng.choice(ts.states)
            d = {a: rng.choice(vals) for a, vals in ts.codomain.items()
                 if not partial or rng.random() < .7}
            edges.add((s, t, tuple(sorted(d.items()))))
    if owner == 'env' and sysact:
        # receptive to every action of the system
        # (where no transition is free, to no action too)
        for s in ts.states:
            for v in ts.codomain['sys_actions']:
                if not any(e[0] == s and dict(e[2]).get(
                        'sys_actions', v) == v for e in edges):
                    d = {a: rng.choice(vals)
                         for a, vals in ts.codomain.items()}
                    d['sys_actions'] = v
                    edges.add((s, rng.choice(ts.states),
                               tuple(sorted(d.items()))))
    # an edge without label excludes others between the same states
    bare = {(s, t) for s, t, d in edges if not d}
    ts.edges = [
        (s, t, dict(d)) for s, t, d in sorted(edges, key=repr)
        if not d or (s, t) not in bare]
    return ts


def n_states(sp):
    n = 1
    for d in [*sp.env.values(), *sp.sys.values()]:
        n *= len(X.domain_values(d))
    return n


def new_spec(moore, plus_one, qinit):
    return G.Spec(dict(), dict(), moore, plus_one, qinit)
