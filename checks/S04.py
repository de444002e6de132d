"""S04: synthesis for several transition systems that move together."""
from rt import fts, gr1, game
from rt.core import Check, Skip

check = Check(
    'S04',
    rule='a distinct case is a set of transition systems and formulas '
    'whose controller was judged, by content',
    require=['many.steps', 'many.unrealizable', 'many.two_owners'],
    assumptions=[
        'at most one of the transition systems has actions '
        '(action types are names shared by all)',
        'initial outputs chosen by the system when it owns a '
        'transition system, or actions (the solver asserts so)'])


@check.case(quick=500, thorough=8000, cpu=120)
def many(rng, m):
    from tulip import synth
    qinit = rng.choice([r'\A \E', r'\A \E', r'\A \A', r'\E \A'])
    sp = fts.new_spec(
        rng.random() < 0.5, rng.random() < 0.6, qinit)
    owners = rng.choice([
        ['sys', 'sys'], ['sys', 'env'], ['sys', 'env'],
        ['env', 'env'], ['sys', 'sys', 'env']])
    if 'sys' in owners and qinit == r'\A \A':
        # needs the system's initial condition to be empty
        sp.qinit = r'\A \E'
    names = ['door', 'car', 'lift']
    if 'sys' not in owners or rng.random() < 0.3:
        sp.sys['y'] = 'boolean'
    if rng.random() < 0.3:
        sp.env['x'] = 'boolean'
    acts = rng.choice([0, 1, 2, None])
    tss = dict()
    ignore = set()
    for i, (name, o) in enumerate(zip(names, owners)):
        t = fts.rand_ts(
            rng, o, prefix=name, max_n=3, actions=(i == acts),
            ap_names=[f'{name}_p'] if rng.random() < 0.4 else [],
            deadends=(o == 'sys'))
        tss[name] = t
        if rng.random() < 0.2:
            ignore.add(name)
    if sp.qinit == r'\A \A' and any(
            t.who(k) == 'sys' for t in tss.values() for k in t.codomain):
        sp.qinit = r'\A \E'
    user = fts.new_spec(sp.moore, sp.plus_one, sp.qinit)
    full = fts.new_spec(sp.moore, sp.plus_one, sp.qinit)
    for a in (user, full):
        a.env.update(sp.env)
        a.sys.update(sp.sys)
    for name, t in tss.items():
        t.add_to(full, ignore_init=name in ignore)
    if fts.n_states(full) > 160:
        raise Skip()
    vrs = {**full.env, **full.sys}

    def lit(pool, primed=False):
        return gr1._lit(rng, pool, primed)
    user.sys_prog = [lit(vrs) for _ in range(rng.choice([0, 1, 2]))]
    if full.env:
        user.env_prog = [
            lit(full.env) for _ in range(rng.choice([0, 0, 1]))]
    if rng.random() < 0.6:
        # couple the systems
        user.sys_safety = [('imp', lit(vrs), lit(full.sys, True))]
    for k in gr1.PARTS:
        getattr(full, k).extend(getattr(user, k))
    g = game.Game(full)
    if not g.einit or not gr1.feasible_action(full, g) \
            or not gr1.nonblocking(g):
        raise Skip()
    want = g.realizable()
    what = dict(
        spec=gr1.describe(user), ignore=sorted(ignore),
        ts={o: t.describe() for o, t in tss.items()})
    s = gr1.to_grspec(user, rng)
    items = list(tss.items())
    rng.shuffle(items)
    ts = {k: t.build(rng) for k, t in items}
    if ignore or rng.random() < 0.5:
        args = dict(ignore_init=set(ignore))
    else:
        args = dict()
    try:
        mach = synth.synthesize_many(s, ts, **args)
    except AssertionError as e:
        if want and 'removed all' in str(e):
            # documented: all runs end, nothing is left
            m.ev('all_deadends')
            raise Skip()
        raise
    m.check((mach is not None) == want,
            f'realizable: {mach is not None}, game says {want}', **what)
    if mach is None:
        m.ev('unrealizable')
        return
    c = gr1.Closed(mach, full, g)
    c.judge(m, receptive=False, moore=full.moore)
    if len(set(owners)) > 1:
        m.ev('two_owners')
    m.sig(what)
    m.sample(what)
