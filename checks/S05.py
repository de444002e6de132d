"""S05: Moore controllers do not look ahead."""
from rt import gr1, game
from rt.core import Check, Skip

check = Check(
    'S05',
    rule='a distinct case is a Moore specification with a controller that '
    'has a state with several next inputs, by content',
    require=['moore.branching_states', 'two_phase.steps'],
    assumptions=['only omega synthesizes Moore strategies offline'])


@check.case(quick=1200, thorough=20000, cpu=60)
def moore(rng, m):
    """Outputs are the same for all next inputs."""
    from tulip import synth
    sp = gr1.rand_spec(rng, ['bool', 'int', 'str'], moore=True)
    g = game.Game(sp)
    if not gr1.feasible_action(sp, g) or not gr1.nonblocking(g):
        raise Skip()
    mach = synth.synthesize(gr1.to_grspec(sp, rng), rm_deadends=False)
    if mach is None:
        raise Skip()
    before = m.events['moore.branching_states']
    gr1.Closed(mach, sp, g).judge(m, moore=True, live=False)
    if m.events['moore.branching_states'] > before:
        m.sig(gr1.describe(sp))
        m.sample(gr1.describe(sp))


@check.case(quick=300, thorough=4000, cpu=60)
def two_phase(rng, m):
    """Commit to outputs first, then draw the input."""
    from tulip import synth
    from rt import expr as X
    sp = gr1.rand_spec(rng, ['bool', 'int', 'str'], moore=True,
                       qinit=rng.choice([r'\A \A', r'\A \E', r'\E \A']))
    g = game.Game(sp)
    if not gr1.feasible_action(sp, g) or not gr1.nonblocking(g):
        raise Skip()
    mach = synth.synthesize(gr1.to_grspec(sp, rng), rm_deadends=False)
    if mach is None:
        raise Skip()
    c = gr1.Closed(mach, sp, g)
    start = c.initial()
    if not start:
        raise Skip()
    index = {c.split(g.val[s]): s for s in g.states}
    s, u = rng.choice(sorted(start, key=repr))
    # the outputs a Moore implementation would emit
    for _ in range(40):
        promise = {y for _, lab in c.edges[u]
                   for x, y in [c.split(lab)]
                   if any(X.key(g.xs[i], sorted(sp.env)) == x
                          for i in g.env_ok[s])}
        m.check(len(promise) == 1, 'no unique output to commit to',
                state=g.val[s], outputs=promise)
        i = rng.choice(sorted(g.env_ok[s]))
        x = X.key(g.xs[i], sorted(sp.env))
        y = next(iter(promise))
        t = index[x, y]
        m.check(t in g.sys_ok[s], 'committed output violates safety',
                state=g.val[s], next=g.val[t])
        nxt = [v for v, lab in c.edges[u] if c.split(lab) == (x, y)]
        m.check(len(nxt) == 1, 'successors', nxt=nxt)
        m.ev('steps')
        s, u = t, nxt[0]
    m.sig(gr1.describe(sp))
