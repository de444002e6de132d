"""E01: from continuous dynamics to closed-loop trajectories."""
import contextlib
import io

import numpy as np

from rt import poly
from rt.core import Check, Skip
from rt.flow import Flow

check = Check(
    'E01',
    rule='a distinct case is a scene, dynamics, specification, and run',
    require=['steps.moved', 'steps.labels', 'steps.disturbed',
             'steps.synthesized', 'simulate.moved', 'simulate.labels',
             'simulate.silent', 'simulate.forall', 'simulate.exists'],
    assumptions=[
        'states closer than 1e-4 to the boundary of a cell end a run',
        'simulate2d: affine dynamics, without disturbance'])
TOL = 1e-5


def figures():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    return plt


@check.case(quick=40, thorough=1500, cpu=240)
def steps(rng, m):
    """Inputs computed at each discrete step drive the dynamics."""
    from tulip.abstract import find_controller
    disturbed = rng.random() < .35
    f = Flow(rng, m, disturbed=disturbed,
             closed_loop=rng.random() < .6, horizon=2)
    c = f.case
    word = f.word(rng)
    outs, inputs, back = f.discrete(word, f.first(rng))
    f.judge(outs, inputs, back)
    x = f.point(rng, f.index(outs[0]))
    f.inside(x, outs[0], 'start', 0)
    dyn, N = c.dyns[0], c.params['N']
    moved = 0
    closed = c.params['closed_loop']
    for k, out in enumerate(outs[1:13], 1):
        start, end = f.index(outs[k - 1]), f.index(out)
        if (poly.depth(c.cells[start], x) < 1e-4 or
                len(c.cells[start]) > 1 or len(c.cells[end]) > 1 or
                len(c.ground(start)) > 1):
            break
        try:
            u = find_controller.get_input(
                x0=np.array(x), ssys=c.system, abstraction=f.ab,
                start=start, end=end, ord=rng.choice([1, 2]),
                mid_weight=rng.choice([1, 5]))
        except Exception as e:
            r = poly.reach(dyn, x, N, c.cells[end], c.ground(start),
                           closed, -1e-4)
            # with disturbances, and feedback at each step,
            # no single sequence of inputs need exist
            m.check(r is not True or (disturbed and N > 1),
                    'no input for transition of controller',
                    error=repr(e), **f.info(k=k, x=list(map(float, x))))
            break
        if closed and N > 1 and disturbed:
            # the inputs are for the first step only: see H03
            break
        for i in range(N):
            m.check(dyn.input_slack(x, u[i]) > -TOL,
                    'input is not admissible',
                    **f.info(k=k, u=np.array(u).tolist()))
            x = dyn.step(x, np.array(u[i]).flatten(),
                         rng.choice(dyn.drifts()))
        f.inside(x, out, 'step', k)
        moved += start != end
    if moved:
        m.ev('moved')
    if moved and disturbed:
        m.ev('disturbed')
    m.sig([c.scene.content(), outs[:12]])


@check.case(quick=70, thorough=1500, cpu=240)
def simulate(rng, m):
    """Trajectories of `simulate2d`."""
    from tulip.abstract import plot
    plt = figures()
    f = Flow(rng, m, qinit=rng.choice(
        [r'\E \A', r'\A \E', r'\A \A', r'\E \E']), horizon=2,
        least=(.12, .25), strength=(.4, .9), moving=.95)
    c, ab, ctrl = f.case, f.ab, f.ctrl
    dyn, N = c.dyns[0], c.params['N']
    T = rng.choice([2, 3, 3, 4] if N > 1 else [1, 2, 3, 6])
    first = f.first(rng)
    word = f.word(rng)
    outs, inputs, _ = f.discrete(word, first, least=T + 1)
    env = [dict(park=p) for p in inputs[:T + 1]]
    args = dict(qinit=f.qinit)
    x0 = None
    if f.qinit == r'\A \A':
        _, data = first
        x0 = f.point(rng, f.index(data))
        args.update(d_init=data, x_init=x0)
        m.ev('forall')
    else:
        m.ev('exists')
    show = rng.random() < .8
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            plot.simulate2d(env, c.system, ctrl, ab, T,
                            show_traj=show, **args)
    except Exception as e:
        reason = blame(f, e, outs, x0, T)
        if reason:
            m.ev('reason ' + reason)
            raise Skip(reason)
        m.check(False, 'simulation failed', error=repr(e),
                **f.info(outs=outs[:T + 1], T=T))
    if not show:
        m.ev('silent')
        m.check(not plt.get_fignums(), 'trajectory is shown')
        return
    lines = {ln.get_label(): ln.get_ydata()
             for ln in plt.gca().get_lines()}
    m.check({'x', 'y'} <= set(lines), 'trajectory is not shown')
    xs = np.array([lines['x'], lines['y']], dtype=float).T
    info = f.info(T=T, xs=xs.tolist(), outs=outs[:T + 1])
    m.check(len(xs) == T * N + 1, 'length of trajectory', **info)
    if x0 is not None:
        m.check(np.allclose(xs[0], x0), 'initial state', **info)
    for k in range(T + 1):
        f.inside(xs[k * N], outs[k], 'simulation', k)
    for k in range(T * N):
        rest = xs[k + 1] - dyn.A @ xs[k] - dyn.K
        u, *_ = np.linalg.lstsq(dyn.B, rest, rcond=None)
        m.check(np.allclose(dyn.B @ u, rest, atol=1e-6) and
                dyn.input_slack(xs[k], u) > -TOL,
                'trajectory is not of the dynamics', k=k, **info)
        i = f.index(outs[k // N])
        # within the convex hull, for cells that are not convex
        m.check(len(c.ground(i)) > 1 or
                poly.depth(c.ground(i), xs[k]) > -TOL,
                'state leaves the cell before the last step', k=k, **info)
    if len({o['loc'] for o in outs[:T + 1]}) > 1:
        m.ev('moved')
    m.sig([c.scene.content(), xs.tolist()])
    plt.close('all')


def blame(f, error, outs, x0, T):
    """Return reason when a failed simulation is not judged."""
    from tulip.abstract import find_controller
    c, ab = f.case, f.ab
    dyn, N = c.dyns[0], c.params['N']
    i = f.index(outs[0])
    cell = c.cells[i]
    if x0 is None:
        x = np.mean(poly.vertices(*cell[0]), axis=0)
    else:
        x = np.array(x0)
    for k in range(1, T + 1):
        start, end = f.index(outs[k - 1]), f.index(outs[k])
        if poly.depth(c.cells[start], x) < 1e-4:
            return 'boundary'
        if (len(c.cells[start]) > 1 or len(c.cells[end]) > 1 or
                len(c.ground(start)) > 1):
            return 'nonconvex'
        try:
            u = find_controller.get_input(
                x0=x, ssys=c.system, abstraction=ab, start=start,
                end=end, ord=1, mid_weight=5)
        except Exception:
            r = poly.reach(dyn, x, N, c.cells[end], c.ground(start),
                           c.closed, -1e-4)
            return None if r else 'no input'
        for a in u:
            x = dyn.step(x, a, np.zeros(dyn.n))
        if poly.depth(c.cells[end], x) < 1e-4:
            return 'boundary'
    return None
