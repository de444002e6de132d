"""Generators of GR(1) specifications, and closed-loop monitors."""
from rt import expr as X
from rt import game as G
from rt.core import Skip, Violation

QINITS = [r'\A \A', r'\A \E', r'\E \A', r'\E \E']
PARTS = ('env_init', 'sys_init', 'env_safety', 'sys_safety',
         'env_prog', 'sys_prog')
WORDS = ['idle', 'go', 'stop', 'left', 'hot', 'red']
# (names that begin with each other, or with an underscore)
NAMES = ['x', 'x1', 'y', 'a', 'ab', 'b', 'req', 'grant', '_c', '_ok',
         'loc', 'door', 'Light', 'goal', 'mode2', 'z']


def rand_domain(rng, kinds):
    k = rng.choice(kinds)
    if k == 'bool':
        return 'boolean'
    if k == 'int':
        lo = rng.choice([0, 0, 0, 0, 1, -1, -2])
        return (lo, lo + rng.choice([1, 2, 2, 3]))
    n = rng.choice([2, 3, 3])
    return rng.sample(WORDS, n)


def rand_vars(rng, kinds, max_states=24):
    """Return `(env, sys)` with a bounded number of states."""
    while True:
        ne = rng.choice([1, 1, 1, 2, 2, 0])
        ns = rng.choice([1, 1, 2, 2])
        names = [f'x{i}' for i in range(ne)] + [
            f'y{i}' for i in range(ns)]
        if rng.random() < .35:
            names = rng.sample(NAMES, ne + ns)
        env = {k: rand_domain(rng, kinds) for k in names[:ne]}
        sys = {k: rand_domain(rng, kinds) for k in names[ne:]}
        n = 1
        for d in [*env.values(), *sys.values()]:
            n *= len(X.domain_values(d))
        if n <= max_states:
            return env, sys


def satisfiable(es, vrs):
    return any(X.conj_ev(es, d, d) for d in X.assignments(vrs))


def rand_spec(rng, kinds=('bool', 'int', 'str'), moore=None,
              plus_one=None, qinit=None, max_states=24, wild=False,
              style=None):
    """Random specification.

    Unless `wild`, the initial assumption of the forms that
    quantify the players separately mentions only environment
    variables, as the enumeration of initial states requires.
    """
    env, sys = rand_vars(rng, kinds, max_states)
    if moore is None:
        moore = rng.random() < 0.5
    if plus_one is None:
        plus_one = rng.random() < 0.6
    if qinit is None:
        qinit = rng.choice(QINITS)
    sp = G.Spec(env, sys, moore, plus_one, qinit)
    allv = {**env, **sys}

    def some(n, vrs, primed=(), depth=2):
        if not vrs:
            return []
        return [X.rand_expr(rng, vrs, rng.randint(0, depth), primed)
                for _ in range(n)]
    for _ in range(20):
        if qinit == r'\A \A':
            sp.env_init = some(rng.choice([0, 1, 1, 2]), allv)
            sp.sys_init = []
        elif qinit == r'\E \E':
            sp.env_init = []
            sp.sys_init = some(rng.choice([0, 1, 2]), allv)
        else:
            # initial assumption: about env variables
            pool = allv if wild and rng.random() < 0.4 else env
            sp.env_init = some(rng.choice([0, 1, 1]), pool)
            sp.sys_init = some(
                rng.choice([0, 1, 1]),
                sys if rng.random() < 0.6 else allv)
        if satisfiable(sp.env_init, allv) and \
                satisfiable(sp.sys_init, allv):
            break
    else:
        sp.env_init = sp.sys_init = []
    if style is None:
        style = rng.choice(['plain', 'structured'])
    if style == 'structured':
        _structured(rng, sp)
        return sp
    primed_e = tuple(env)
    sp.env_safety = some(rng.choice([0, 0, 1, 1, 2]), allv, primed_e)
    primed = tuple(allv)
    sp.sys_safety = some(rng.choice([0, 1, 1, 2]), allv, primed)
    sp.env_prog = some(rng.choice([0, 0, 1, 1, 2, 3]), allv)
    sp.sys_prog = some(rng.choice([0, 1, 1, 2, 2, 3]), allv)
    return sp


def _lit(rng, vrs, primed=False):
    a = X.rand_atom(rng, vrs, tuple(vrs) if primed else ())
    while primed and X.size(a) and not X.is_primed(a):
        a = X.rand_atom(rng, vrs, tuple(vrs))
    return ('not', a) if rng.random() < 0.3 else a


def _structured(rng, sp):
    """Guarded commands and fairness over literals.

    These are realizable more often, by larger strategies.
    """
    env, sys = sp.env, sp.sys
    allv = {**env, **sys}

    def guarded(post_vars):
        pre = _lit(rng, allv)
        if rng.random() < 0.5:
            pre = ('and', pre, _lit(rng, allv))
        post = _lit(rng, post_vars, True)
        if rng.random() < 0.4:
            post = ('or', post, _lit(rng, post_vars, True))
        return ('imp', pre, post)
    sp.env_safety = [guarded(env) for _ in range(
        rng.choice([0, 1, 1, 2]))] if env else []
    sp.sys_safety = [
        guarded(sys if rng.random() < 0.8 else allv)
        for _ in range(rng.choice([1, 1, 2, 3]))]
    sp.env_prog = [_lit(rng, env if rng.random() < .8 else allv)
                   for _ in range(rng.choice([0, 1, 1, 2, 3]))
                   ] if env else []
    sp.sys_prog = [_lit(rng, sys if rng.random() < .8 else allv)
                   for _ in range(rng.choice([1, 2, 2, 3]))]


def to_text(sp, rng=None, plain=False, prime=None):
    st = X.Style(rng, plain=plain, prime=prime)
    out = dict()
    for k in PARTS:
        out[k] = [X.pr(e, st) for e in getattr(sp, k)]
    return out


def to_grspec(sp, rng=None, plain=False, prime=None):
    from tulip import spec
    t = to_text(sp, rng, plain, prime)
    g = spec.GRSpec(
        env_vars=dict(sp.env), sys_vars=dict(sp.sys), **t)
    g.moore = sp.moore
    g.plus_one = sp.plus_one
    g.qinit = sp.qinit
    return g


def describe(sp):
    return dict(
        env=sp.env, sys=sp.sys, moore=sp.moore,
        plus_one=sp.plus_one, qinit=sp.qinit, **to_text(sp, plain=True))


def feasible_action(sp, game):
    """Is there some transition that meets the guarantee?"""
    return any(game.sys_ok[s] for s in game.states)


def restrict_gr1py(sp):
    """Rewrite `sp` into the input language of `gr1py`.

    Comparisons with `=` to constants only, natural numbers,
    and a single progress goal.
    """
    def f(e):
        if e[0] == 'cmp':
            if e[1] == '=':
                return e
            dom = {**sp.env, **sp.sys}[e[2]]
            out = ('false',)
            for v in X.domain_values(dom):
                if X.CMP[e[1]](v, e[4]):
                    a = ('cmp', '=', e[2], e[3], v)
                    out = a if out == ('false',) else ('or', out, a)
            return out
        if e[0] == 'cmpv':
            return ('true',)
        return tuple(f(a) if isinstance(a, tuple) else a for a in e)
    for k in PARTS:
        setattr(sp, k, [f(e) for e in getattr(sp, k)])
    if len(sp.sys_prog) != 1:
        sp.sys_prog = sp.sys_prog[:1] or [('true',)]
    return all(
        not isinstance(d, tuple) or d[0] >= 0
        for d in {**sp.env, **sp.sys}.values())


def nonblocking(game):
    """Can the environment always move, whatever the state?"""
    return all(game.env_ok[s] for s in game.states)


class Closed:
    """A synthesized machine in the loop with every environment."""

    def __init__(self, mach, sp, game):
        self.mach = mach
        self.sp = sp
        self.game = game
        self.edges = dict()     # state -> [(target, label dict)]
        names = set(sp.env) | set(sp.sys)
        doms = {**sp.env, **sp.sys}
        for u in mach.nodes:
            self.edges[u] = list()
        for u, v, d in mach.edges(data=True):
            if set(d) < names or not names <= set(d):
                raise Violation(
                    'transition label lacks ports', label=d, u=u, v=v)
            lab = dict()
            for k in names:
                dom = doms[k]
                val = d[k]
                if dom == 'boolean':
                    ok = val in (0, 1, True, False)
                    val = bool(val)
                elif isinstance(dom, tuple):
                    ok = (isinstance(val, int)
                          and dom[0] <= val <= dom[1])
                else:
                    ok = val in dom
                if not ok:
                    raise Violation(
                        f'port {k} has value outside its domain',
                        value=val, domain=dom, u=u, v=v)
                lab[k] = val
            self.edges[u].append((v, lab))

    def split(self, lab):
        return (X.key(lab, sorted(self.sp.env)),
                X.key(lab, sorted(self.sp.sys)))

    def initial(self):
        """Judge the initial reactions; return the usable ones."""
        g, sp = self.game, self.sp
        init = list(self.mach.states.initial)
        if init != ['Sinit']:
            raise Violation('initial state', init=init)
        es = self.edges['Sinit']
        got = dict()
        for v, lab in es:
            k = self.split(lab)
            got.setdefault(k, []).append(v)
        for k, vs in got.items():
            if len(vs) > 1:
                raise Violation(
                    'several initial transitions with same valuation',
                    valuation=k, targets=vs)

        def key(s):
            return self.split(g.val[s])
        bykey = {key(s): s for s in g.states}
        einit = {key(s) for s in g.einit}
        sinit = {key(s) for s in g.sinit}
        for k in got:
            if k not in sinit:
                raise Violation(
                    'initial reaction violates initial guarantee',
                    valuation=k)
        q = sp.qinit
        if q == r'\A \A':
            if set(got) != einit:
                raise Violation(
                    'initial reactions differ from the '
                    'initial states allowed',
                    missing=sorted(einit - set(got)),
                    extra=sorted(set(got) - einit))
        elif q == r'\A \E':
            need = {x for x, _ in einit}
            have = {x for x, _ in got}
            if need - have:
                raise Violation(
                    'no reaction to an initial input',
                    inputs=sorted(need - have))
        elif q == r'\E \A':
            ys = {y for _, y in got}
            if len(ys) != 1:
                raise Violation(
                    'initial output depends on the initial input',
                    outputs=sorted(ys))
            y0 = next(iter(ys))
            need = {x for x, y in einit if y == y0}
            have = {x for x, _ in got}
            if need - have:
                raise Violation(
                    'no reaction to an initial input',
                    inputs=sorted(need - have))
        elif q == r'\E \E':
            if not got:
                raise Violation('no initial reaction')
        out = list()
        for k, (v,) in got.items():
            s = bykey[k]
            if s in g.einit:
                out.append((s, v))
        return out

    def reach(self, m, start, receptive=True, moore=False):
        """Product of the game with the machine, judged on the way."""
        g, sp = self.game, self.sp
        index = {self.split(g.val[s]): s for s in g.states}
        xs = [X.key(x, sorted(sp.env)) for x in g.xs]
        seen = set(start)
        todo = list(start)
        succ = dict()
        while todo:
            s, u = todo.pop()
            by = dict()
            for v, lab in self.edges[u]:
                x, y = self.split(lab)
                by.setdefault(x, []).append((v, y))
            ys = set()
            out = list()
            for i in g.env_ok[s]:
                got = by.get(xs[i], [])
                if not got:
                    if receptive:
                        raise Violation(
                            'no reaction to an input that '
                            'the assumption allows',
                            state=g.val[s], input=xs[i], node=u)
                    continue
                if len(got) > 1:
                    raise Violation(
                        'nondeterministic reaction',
                        state=g.val[s], input=xs[i], node=u,
                        reactions=got)
                (v, y), = got
                t = index[xs[i], y]
                m.ev('steps')
                if t not in g.sys_ok[s]:
                    raise Violation(
                        'step violates the safety guarantee',
                        state=g.val[s], next=g.val[t], node=u)
                ys.add(y)
                out.append((t, v))
            m.ev('states')
            if len(out) > 1:
                m.ev('branching_states')
            if moore and len(ys) > 1:
                raise Violation(
                    'output depends on next input (Moore)',
                    state=g.val[s], outputs=sorted(ys), node=u)
            succ[s, u] = out
            for z in out:
                if z not in seen:
                    seen.add(z)
                    todo.append(z)
        return seen, succ

    def liveness(self, seen, succ):
        g, sp = self.game, self.sp
        assume = [
            (lambda e: (lambda n: X.ev(e, g.val[n[0]], None)))(e)
            for e in sp.env_prog]
        for e in sp.sys_prog:
            c = G.unfair_cycle(
                seen, lambda n: succ[n], assume,
                lambda n: X.ev(e, g.val[n[0]], None))
            if c is not None:
                raise Violation(
                    'the controller can loop without its goal',
                    goal=X.pr(e, X.Style(plain=True)),
                    cycle=[(g.val[s], u) for s, u in c][:6])

    def judge(self, m, receptive=True, moore=False, live=True):
        start = self.initial()
        seen, succ = self.reach(m, start, receptive, moore)
        if live:
            self.liveness(seen, succ)
            m.ev('liveness_goals', len(self.sp.sys_prog))
        if not receptive:
            for z in seen:
                if not succ[z]:
                    m.ev('blocked')
        return seen
