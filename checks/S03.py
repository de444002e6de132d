"""S03: controllers for transition systems follow them."""
from rt import fts, gr1, game
from rt.core import Check, Skip

check = Check(
    'S03',
    rule='a distinct case is a combination of transition systems and '
    'formulas whose controller was judged, by content',
    require=['system.steps', 'environment.steps', 'both.steps',
             'system.unrealizable', 'ignore_init.steps'],
    assumptions=[
        'environments that can always move'])


def drive(rng, m, owners, ignore=(), max_states=128):
    from tulip import synth
    qinit = rng.choice(gr1.QINITS)
    if 'env' in owners and qinit == r'\E \E':
        qinit = r'\A \E'
    if owners == ['env'] and rng.random() < .3:
        qinit = r'\A \A'
    sp = fts.new_spec(
        rng.random() < 0.5, rng.random() < 0.6, qinit)
    if len(owners) == 1 or rng.random() < 0.3:
        if rng.random() < 0.5:
            sp.env['x'] = 'boolean'
        if 'sys' not in owners or rng.random() < 0.4:
            sp.sys['y'] = rng.choice(['boolean', (0, 1)])
    tss = dict()
    for o in owners:
        tss[o] = fts.rand_ts(
            rng, o, max_n=3 if len(owners) > 1 else 4,
            deadends=(o == 'sys'))
    if len(owners) == 2:
        # action types are shared names: keep them on one side
        for k in list(tss['env'].codomain):
            if k in tss['sys'].codomain:
                drop(tss['env'], k)
    user = fts.new_spec(sp.moore, sp.plus_one, sp.qinit)
    user.env.update(sp.env)
    user.sys.update(sp.sys)
    full = fts.new_spec(sp.moore, sp.plus_one, sp.qinit)
    full.env.update(sp.env)
    full.sys.update(sp.sys)
    for ts in tss.values():
        ts.add_to(full, ignore_init=ts.owner in ignore)
    if fts.n_states(full) > max_states:
        raise Skip()
    if sp.qinit == r'\E \E' and full.env_init:
        raise Skip()  # `omega` requires no initial assumption
    vrs = {**full.env, **full.sys}

    def lit(pool, primed=False):
        return gr1._lit(rng, pool, primed)
    user.sys_prog = [lit(vrs) for _ in range(rng.choice([0, 1, 2]))]
    if full.env:
        user.env_prog = [
            lit(full.env) for _ in range(rng.choice([0, 0, 1]))]
    if full.sys and rng.random() < 0.5:
        user.sys_safety = [('imp', lit(vrs), lit(full.sys, True))]
    for k in gr1.PARTS:
        getattr(full, k).extend(getattr(user, k))
    g = game.Game(full)
    if not g.einit or not gr1.feasible_action(full, g) \
            or not gr1.nonblocking(g):
        raise Skip()
    want = g.realizable()
    what = dict(
        spec=gr1.describe(user),
        ts={o: t.describe() for o, t in tss.items()}, ignore=ignore)
    kw = dict()
    for o, t in tss.items():
        kw[o] = t.build(rng)
    for o in ignore:
        kw[f'ignore_{o}_init'] = True
    # formulas about transition systems mention undeclared variables
    s = gr1.to_grspec(user, rng)
    got = synth.is_realizable(s, **kw)
    m.check(bool(got) == want, f'verdict {got}, game says {want}', **what)
    s = gr1.to_grspec(user, rng)
    mach = synth.synthesize(s, rm_deadends=False, **kw)
    m.check((mach is not None) == want, 'synthesize disagrees', **what)
    if mach is None:
        m.ev('unrealizable')
        return
    c = gr1.Closed(mach, full, g)
    c.judge(m, moore=full.moore)
    m.sig(what)
    m.sample(what)


def drop(ts, k):
    del ts.codomain[k]
    edges = list()
    for s, t, d in ts.edges:
        d = {a: v for a, v in d.items() if a != k}
        if (s, t, d) not in edges:
            edges.append((s, t, d))
    # an edge without label excludes others between the same states
    bare = {(s, t) for s, t, d in edges if not d}
    ts.edges = [
        (s, t, d) for s, t, d in edges if not d or (s, t) not in bare]


@check.case(quick=350, thorough=5000, cpu=120)
def system(rng, m):
    drive(rng, m, ['sys'])


@check.case(quick=250, thorough=4000, cpu=120)
def environment(rng, m):
    drive(rng, m, ['env'])


@check.case(quick=250, thorough=4000, cpu=120)
def both(rng, m):
    drive(rng, m, ['sys', 'env'], ignore=rng.choice([
        (), (), ('sys',), ('env',), ('sys', 'env')]))


@check.case(quick=120, thorough=2000, cpu=120)
def ignore_init(rng, m):
    owner = rng.choice(['sys', 'sys', 'env'])
    drive(rng, m, [owner], ignore=rng.choice(
        [(owner,), ('sys', 'env')]))
