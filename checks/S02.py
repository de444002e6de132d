"""S02: realizability verdicts."""
from rt import gr1, game
from rt.core import Check, Skip

check = Check(
    'S02',
    rule='a distinct case is a specification whose verdict was compared '
    'with that of the explicit game, by content',
    require=['omega_bool.realizable', 'omega_bool.unrealizable',
             'omega_mixed.realizable', 'omega_mixed.unrealizable',
             'gr1py.realizable', 'gr1py.unrealizable'],
    assumptions=[
        'oracle: explicit-state fixpoint of the game as defined in the '
        'documentation of GRSpec (moore, plus_one, qinit)'])


def drive(rng, m, kinds, solvers, synth_too=True, **kw):
    from tulip import synth
    sp = gr1.rand_spec(rng, kinds, **kw)
    if 'gr1py' in solvers and not gr1.restrict_gr1py(sp):
        raise Skip()
    g = game.Game(sp)
    if not gr1.feasible_action(sp, g):
        raise Skip()
    nb = gr1.nonblocking(g)
    if 'gr1py' in solvers and not nb:
        raise Skip()
    want = g.realizable()
    for solver in solvers:
        got = synth.is_realizable(gr1.to_grspec(sp, rng), solver=solver)
        m.check(bool(got) == want,
                f'verdict of {solver} is {got}, but the game is '
                f'{"won" if want else "lost"} by the system',
                spec=gr1.describe(sp))
        if nb and synth_too:
            mach = synth.synthesize(
                gr1.to_grspec(sp, rng), solver=solver)
            m.check((mach is not None) == want,
                    'synthesize disagrees with the game',
                    spec=gr1.describe(sp))
    m.ev('realizable' if want else 'unrealizable')
    m.sig(gr1.describe(sp))
    m.sample(gr1.describe(sp))


@check.case(quick=700, thorough=12000, cpu=60)
def omega_bool(rng, m):
    drive(rng, m, ['bool'], ['omega'], wild=True,
          synth_too=False)


@check.case(quick=800, thorough=14000, cpu=60)
def omega_mixed(rng, m):
    drive(rng, m, ['bool', 'int', 'str'], ['omega'])


@check.case(quick=30, thorough=500, cpu=120)
def omega_large(rng, m):
    drive(rng, m, ['bool', 'int', 'str'], ['omega'], max_states=72)


@check.case(quick=250, thorough=4000, cpu=60)
def gr1py(rng, m):
    drive(rng, m, ['bool', 'int', 'str'], ['gr1py', 'omega'],
          moore=False, plus_one=False, qinit=r'\A \E', max_states=16,
          style='plain')
