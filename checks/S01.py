"""S01: synthesized controllers satisfy their specification."""
from rt import gr1, game
from rt.core import Check, Skip

check = Check(
    'S01',
    rule='a distinct case is a specification that yields a controller '
    'whose closed loop has a step, by content of the specification',
    require=['omega_bool.steps', 'omega_mixed.steps', 'gr1py.steps',
             'trimmed.steps', 'omega_mixed.branching_states',
             'omega_mixed.liveness_goals'],
    assumptions=[
        'the solvers gr1c and slugs are not installed, so only '
        'omega and gr1py are driven',
        'environments that can always move (the enumerator of omega '
        'asserts so), initial assumptions over environment variables '
        'when players are quantified separately'])


def drive(rng, m, kinds, solver='omega', rm_deadends=False, **kw):
    from tulip import synth
    sp = gr1.rand_spec(rng, kinds, **kw)
    if solver == 'gr1py':
        if not gr1.restrict_gr1py(sp):
            raise Skip()
    g = game.Game(sp)
    if not gr1.feasible_action(sp, g) or not gr1.nonblocking(g):
        raise Skip()
    s = gr1.to_grspec(sp, rng)
    mach = synth.synthesize(s, rm_deadends=rm_deadends, solver=solver)
    if mach is None:
        m.ev('unrealizable')
        return
    m.ev('machines')
    seen = gr1.Closed(mach, sp, g).judge(m, receptive=not rm_deadends)
    if len(seen) > 0:
        m.sig(gr1.describe(sp))
        m.sample(gr1.describe(sp))
    return sp, g, mach


@check.case(quick=700, thorough=12000, cpu=60)
def omega_bool(rng, m):
    drive(rng, m, ['bool'])


@check.case(quick=900, thorough=16000, cpu=60)
def omega_mixed(rng, m):
    drive(rng, m, ['bool', 'int', 'str'])


@check.case(quick=40, thorough=600, cpu=120)
def omega_large(rng, m):
    drive(rng, m, ['bool', 'int', 'str'], max_states=72)


@check.case(quick=300, thorough=4000, cpu=60)
def gr1py(rng, m):
    drive(rng, m, ['bool', 'int', 'str'], solver='gr1py',
          moore=False, plus_one=False, qinit=r'\A \E', max_states=16,
          style='plain')


@check.case(quick=300, thorough=5000, cpu=60)
def trimmed(rng, m):
    r = drive(rng, m, ['bool', 'int', 'str'], rm_deadends=True)
    if r is None:
        return
    _, _, mach = r
    for u in mach.nodes:
        m.check(len(list(mach.successors(u))) > 0,
                'dead end left in machine', node=u)
