"""H03: control inputs for the edges of abstractions."""
import numpy as np
import scipy.optimize as so
import scipy.spatial as sp

from rt import hyb, poly
from rt.abst import Case, EPS
from rt.core import Check, Skip
from rt.part import Scene, partition, quiet, to_poly

check = Check(
    'H03',
    rule='a distinct case is an abstraction, edge, state, and cost',
    require=['open.run', 'open.disturbed', 'open.best', 'open.default',
             'closed.pieces', 'closed.run', 'closed.disturbed',
             'closed.best', 'closed.default', 'closed.refused',
             'conservative.run', 'pwa.run', 'sequence.inside',
             'sequence.outside', 'state.inside', 'state.outside',
             'closed.norm1', 'closed.norm2', 'closed.norminf'],
    assumptions=[
        'closed-loop inputs are computed anew at each step, with '
        'decreasing horizon, as documented',
        'cells that are not convex, disturbances, and several steps: '
        'that no trajectory is found is not judged',
        'fixed horizon',
        'the cost for norm 2 is the sum of the squares of the norms'])
TOL = 1e-5


def trajectories(dyn, x0, u, drifts):
    """All sequences of states for extreme disturbances."""
    out = [[np.array(x0, float)]]
    for k in range(len(u)):
        out = [t + [dyn.step(t[-1], u[k], d)] for t in out for d in drifts]
    return out


def stacked(dyn, N, x0):
    """Return `M, c` such that `x == M u + c`, without disturbance."""
    n, m = dyn.n, dyn.m
    M = np.zeros((n, N * m))
    c = np.array(x0, float)
    Ms, cs = list(), list()
    for k in range(N):
        M = dyn.A @ M
        M[:, k * m:(k + 1) * m] += dyn.B
        c = dyn.A @ c + dyn.K
        Ms.append(M.copy())
        cs.append(c)
    return np.vstack(Ms), np.concatenate(cs)


def constraints(dyn, N, x0, between, target, drifts):
    """Rows `G u <= h` for all extreme disturbances (convex sets)."""
    n, m = dyn.n, dyn.m
    M, c = stacked(dyn, N, x0)
    rows, right = list(), list()
    # states that disturbances can add, at each step
    sums = [np.zeros(n)]
    spread = [sums]
    for k in range(N):
        sums = [dyn.A @ s + d for s in sums for d in drifts]
        spread.append(sums)
    A, b = dyn.U
    for k in range(N):
        for s in spread[k]:
            row = np.zeros((len(b), N * m))
            row[:, k * m:(k + 1) * m] = A[:, :m]
            h = b.copy()
            if dyn.state_input:
                if k:
                    at = slice((k - 1) * n, k * n)
                    row += A[:, m:] @ M[at]
                    h -= A[:, m:] @ (c[at] + s)
                else:
                    h -= A[:, m:] @ np.array(x0)
            rows.append(row)
            right.append(h)
    for k in range(1, N + 1):
        A, b = target if k == N else between
        at = slice((k - 1) * n, k * n)
        for s in spread[k]:
            rows.append(A @ M[at])
            right.append(b - A @ (c[at] + s))
    return np.vstack(rows), np.concatenate(right)


def cost(dyn, N, x0, u, R, r, Q, order):
    M, c = stacked(dyn, N, x0)
    u = np.array(u).flatten()
    x = M @ u + c
    a, b = R @ x, Q @ u
    if order == 2:
        return a @ a + b @ b + float((r.T @ x)[0])
    return (np.linalg.norm(a, order) + np.linalg.norm(b, order)
            + float((r.T @ x)[0]))


def best(dyn, N, x0, G, h, R, r, Q, order):
    """Least cost by linear or quadratic programming, or `None`."""
    M, c = stacked(dyn, N, x0)
    nu = N * dyn.m
    if order == 2:
        # start at a feasible point
        res = so.linprog(
            np.r_[np.zeros(nu), -1.],
            A_ub=np.c_[G, np.ones(len(h))], b_ub=h,
            bounds=[(None, None)] * nu + [(0, 1)], method='highs')
        if res.status != 0:
            return None
        P = Q.T @ Q + M.T @ R.T @ R @ M
        q = 2 * M.T @ R.T @ R @ c + M.T @ r.flatten()
        v = so.minimize(
            lambda u: u @ P @ u + q @ u, res.x[:nu],
            jac=lambda u: 2 * P @ u + q,
            constraints=[dict(type='ineq', fun=lambda u: h - G @ u,
                              jac=lambda u: -G)],
            method='SLSQP', options=dict(maxiter=200, ftol=1e-10))
        if np.min(h - G @ v.x) < -1e-7:
            return None
        return cost(dyn, N, x0, v.x, R, r, Q, 2)
    nx = len(c)
    one = order == 1
    na, nb = (nx, nu) if one else (1, 1)
    ea = np.eye(nx) if one else np.ones((nx, 1))
    eb = np.eye(nu) if one else np.ones((nu, 1))
    obj = np.r_[M.T @ r.flatten(), np.ones(na + nb)]
    rows = [
        np.c_[R @ M, -ea, np.zeros((nx, nb))],
        np.c_[-R @ M, -ea, np.zeros((nx, nb))],
        np.c_[Q, np.zeros((nu, na)), -eb],
        np.c_[-Q, np.zeros((nu, na)), -eb],
        np.c_[G, np.zeros((len(h), na + nb))]]
    right = np.r_[-R @ c, R @ c, np.zeros(2 * nu), h]
    res = so.linprog(
        obj, A_ub=np.vstack(rows), b_ub=right,
        bounds=[(None, None)] * (nu + na + nb), method='highs')
    if res.status != 0:
        return None
    return res.fun + float(r.flatten() @ c)


def costs(rng, m, dyn, N):
    """Random arguments of `get_input`."""
    n = dyn.n
    order = rng.choice([1, 1, 2, np.inf])
    k = rng.random()
    if k < .25:
        m.ev('default')
        return dict(ord=order), None

    def mat(size):
        kind = rng.choice(['zero', 'eye', 'diag', 'full'])
        if kind == 'zero':
            return np.zeros((size, size))
        if kind == 'eye':
            return np.eye(size)
        if kind == 'diag':
            return np.diag([round(rng.uniform(0, 2), 2)
                            for _ in range(size)])
        return np.round([[rng.uniform(-1, 1) for _ in range(size)]
                         for _ in range(size)], 2)
    R = mat(N * n)
    Q = mat(N * dyn.m) + 0.1 * np.eye(N * dyn.m)
    r = np.round([[rng.choice([0, rng.uniform(-1, 1)])]
                  for _ in range(N * n)], 2)
    mid = rng.choice([0., 0., 0., 1., 3.])
    return dict(R=R, r=r, Q=Q, ord=order, mid_weight=mid), mid == 0


def ground(c, i):
    """Convex set that bounds the state before the last step."""
    if not c.conservative:
        between = c.ground(i)
        return between[0] if len(between) == 1 else None
    cells = c.cells[i]
    if len(cells) == 1:
        return cells[0]
    corners = [v for p in cells for v in poly.vertices(*p)]
    if len(corners[0]) == 1:
        return poly.normal(*hyb.hull(corners))
    eqs = sp.ConvexHull(np.array(corners)).equations
    return poly.normal(eqs[:, :-1], -eqs[:, -1])


def call(c, x, i, j, N, kw):
    """Return inputs, or `None` if no trajectory was found."""
    from tulip.abstract import find_controller as fc
    sys = c.ab.ppp2sys(i)[1]
    c.ab.disc_params['N'] = N
    before = {k: np.array(v) for k, v in kw.items()
              if isinstance(v, np.ndarray)}
    try:
        u = fc.get_input(x.copy(), sys, c.ab, i, j, **kw)
    except Exception as e:
        known = ('Did not find', 'LP solver', 'QP solver', 'singular',
                 'Rank(')
        if any(k in str(e) for k in known) or 'Helper' in repr(e):
            return None
        if str(e) == 'domain error':  # numerical failure of `cvxopt`
            raise Skip('cvxopt')
        raise
    for k, v in before.items():
        c.m.check(np.array_equal(kw[k], v),
                  'argument was changed', **c.info(name=k))
    return np.array(u)


def drive(rng, m, most=5, **options):
    c = Case(rng, m, **options)
    index = {s: i for i, s in enumerate(c.ab.ppp2ts)}
    pairs = sorted({(index[a], index[b]) for a, b in c.ab.ts.edges()})
    absent = [(i, j) for i in range(len(c.cells))
              for j in range(len(c.cells)) if (i, j) not in set(pairs)]
    rng.shuffle(pairs)
    # first, edges to cells that are not convex
    pairs.sort(key=lambda e: len(c.cells[e[1]]) < 2)
    pairs = pairs[:2] + rng.sample(pairs[2:], len(pairs[2:]))
    N = c.params['N']
    if absent:
        from tulip.abstract import find_controller as fc
        i, j = rng.choice(absent)
        x = poly.points(rng, c.cells[i], 1)[0]
        try:
            fc.get_input(x, c.ab.ppp2sys(i)[1], c.ab, i, j)
        except Exception as e:
            m.check('no transition' in str(e),
                    'unexpected refusal of absent edge',
                    **c.info(edge=[i, j], error=str(e)))
            m.ev('refused')
        else:
            m.check(False, 'input for edge that does not exist',
                    **c.info(edge=[i, j]))
    for i, j in pairs[:most]:
        between = ground(c, i)
        if between is None:
            continue
        dyn = c.dyn(i)
        xs = [x for x in poly.points(rng, c.cells[i], 2)
              if poly.depth(c.cells[i], x) > EPS]
        for x in xs[:1]:
            if len(c.cells[j]) > 1:
                m.ev('pieces')
            edge(rng, m, c, dyn, i, j, x, between, N)
    c.ab.disc_params['N'] = N


def edge(rng, m, c, dyn, i, j, x, between, N):
    drifts = dyn.drifts()
    disturbed = dyn.W is not None
    target = c.cells[j]
    x0 = x
    steps = N if c.closed else 1
    path, inputs = [x], list()
    for k in range(steps):
        left = N - k
        kw, judged = costs(rng, m, dyn, left)
        info = c.info(edge=[i, j], x=x.tolist(), step=k, cost={
            a: np.array(b).tolist() for a, b in kw.items()})
        u = call(c, x, i, j, left, kw)
        if u is None:
            if (disturbed and N > 1 and len(target) > 1) or k:
                m.ev('none')
                return
            can = poly.reach(dyn, x, left, target, [between],
                             c.closed, -1e-4)
            m.check(not can, 'no input was found', **info)
            return
        m.check(u.shape == (left, dyn.m), 'shape of inputs', **info)
        m.ev({1: 'norm1', 2: 'norm2', np.inf: 'norminf'}[kw['ord']])
        if judged and (not disturbed or not c.closed):
            optimal(m, c, dyn, left, x, u, between, target, drifts,
                    kw, info)
        if not c.closed:
            for t in trajectories(dyn, x, u, drifts):
                inside(m, dyn, t, u, between, target, info)
            m.ev('run')
            return
        # the plan, without disturbance
        t = trajectories(dyn, x, u, [np.zeros(dyn.n)])[0]
        inside(m, dyn, t, u, between, target, info)
        s = dyn.input_slack(x, u[0])
        m.check(s > -TOL, 'input is not within the input set',
                slack=s, u=u.tolist(), **info)
        x = dyn.step(x, u[0], rng.choice(drifts))
        inputs.append(u[0])
        path.append(x)
        within = target if left == 1 else [between]
        d = poly.depth(within, x)
        m.check(d > -TOL, 'state left the cell' if left > 1
                else 'state did not reach the target', depth=d,
                path=[y.tolist() for y in path], **info)
    m.ev('run')


def inside(m, dyn, t, u, between, target, info):
    for k in range(len(u)):
        s = dyn.input_slack(t[k], u[k])
        m.check(s > -TOL, 'input is not within the input set',
                slack=s, at=k, u=u.tolist(), **info)
    for k in range(1, len(t)):
        where = target if k == len(t) - 1 else [between]
        d = poly.depth(where, t[k])
        m.check(d > -TOL, 'state leaves the cell, or misses the target',
                depth=d, at=k, path=[x.tolist() for x in t],
                u=u.tolist(), **info)


def optimal(m, c, dyn, N, x, u, between, target, drifts, kw, info):
    R, r, Q, order = kw['R'], kw['r'], kw['Q'], kw['ord']
    least = None
    for p in target:
        G, h = constraints(dyn, N, x, between, p, drifts)
        # not degenerate
        v = best(dyn, N, x, G, h - 1e-4, R, r, Q, order)
        if v is not None and (least is None or v < least):
            least = v
    if least is None:
        return
    m.ev('best')
    J = cost(dyn, N, x, u, R, r, Q, order)
    m.check(J <= least + 1e-3 * (1 + abs(least)),
            'cost of inputs is not the least', cost_of_inputs=J,
            least=least, u=u.tolist(), **info)


@check.case(quick=14, thorough=700, cpu=200)
def open(rng, m):
    drive(rng, m, closed_loop=False, horizon=2)


@check.case(quick=24, thorough=900, cpu=200)
def closed(rng, m):
    drive(rng, m)


@check.case(quick=10, thorough=400, cpu=200)
def conservative(rng, m):
    drive(rng, m, conservative=True, horizon=2, disturbed=False,
          state_input=False, closed_loop=rng.random() < .7)


@check.case(quick=12, thorough=500, cpu=200)
def pwa(rng, m):
    drive(rng, m, pwa=True, state_input=False)


@check.case(quick=200, thorough=5000, cpu=60)
def sequence(rng, m):
    from tulip.abstract import find_controller as fc
    quiet()
    n = hyb.rand_dims(rng)
    lows, highs = hyb.rand_domain(rng, n)
    dyn = hyb.rand_dyn(rng, lows, highs)
    sys = hyb.lti(dyn, to_poly(poly.box(lows, highs)))
    P0 = poly.normal(*poly.box(*hyb.rand_box(rng, lows, highs, .6)))
    P1 = poly.normal(*poly.box(*hyb.rand_box(rng, lows, highs, .5)))
    N = rng.randint(1, 4)
    x = poly.points(rng, [P0], 1)[0]
    u = list()
    y = x
    # at most one step leaves the set, usually
    bad = rng.choice([None, rng.randrange(N), 0])
    for k in range(N):
        # mostly inputs that keep the state inside
        tries = [np.array([rng.uniform(-.5, .5) for _ in range(dyn.m)])
                 for _ in range(12)]
        where = P1 if k == N - 1 else P0
        rng.shuffle(tries)
        if k == bad:
            tries = [4 * v for v in tries]
            tries.sort(key=lambda v: abs(.05 + poly.depth(
                [where], dyn.step(y, v, 0))))
        elif rng.random() < .85:
            if bad is not None:
                tries += [6 * v for v in tries]
            tries.sort(key=lambda v: -poly.depth(
                [where], dyn.step(y, v, 0)))
        u.append(tries[0])
        y = dyn.step(y, tries[0], 0)
    t = trajectories(dyn, x, u, [np.zeros(n)])[0]
    ds = [poly.depth([P0], z) for z in t[1:-1]]
    ds.append(poly.depth([P1], t[-1]))
    if min(abs(d) for d in ds) < 1e-6:
        return
    want = min(ds) > 0
    got = fc.is_seq_inside(x, np.array(u), sys, to_poly(P0), to_poly(P1))
    m.sig([hyb.describe(dyn), x.tolist(), N])
    m.ev('inside' if want else 'outside')
    m.check(bool(got) == want, 'whether the sequence is inside',
            depths=ds, got=bool(got), x=x.tolist(),
            u=[v.tolist() for v in u], dynamics=hyb.describe(dyn))


@check.case(quick=20, thorough=800, cpu=60)
def state(rng, m):
    from tulip.abstract import find_controller as fc
    quiet()
    scene = Scene(rng)
    part = partition(scene)
    cells = [poly.pieces(r) for r in part.regions]
    m.sig(scene.content())
    for _ in range(15):
        x = np.array([rng.uniform(a - .2, b + .2) for a, b in zip(
            scene.lows, scene.highs)])
        ds = [poly.depth(c, x) for c in cells]
        if min(abs(d) for d in ds) < 1e-6:
            continue
        want = next((i for i, d in enumerate(ds) if d > 0), None)
        got = fc.find_discrete_state(x, part)
        m.ev('outside' if want is None else 'inside')
        m.check(got == want, 'cell that contains the state', got=got,
                want=want, x=x.tolist(), scene=scene.content())


@check.finding('mid_weight')
def mid_weight():
    """The weight of the center is not what is documented."""
    import random
    from tulip import abstract
    from tulip.abstract import find_controller as fc
    from rt.core import Violation
    quiet()
    scene = Scene(random.Random(1), n=1)
    scene.lows, scene.highs = [0.], [4.]
    scene.domain = poly.normal(*poly.box([0.], [4.]))
    scene.props = dict(a=[poly.normal(*poly.box([2.], [4.]))])
    part = partition(scene)
    U = poly.box([-4.], [4.])
    dyn = poly.Dyn(np.eye(1), np.eye(1), np.zeros(1), U, None, None)
    system = hyb.lti(dyn, to_poly(scene.domain))
    ab = abstract.discretize(part, system, N=1, min_cell_volume=3.)
    i = next(i for i, r in enumerate(ab.ppp.regions) if not r.props)
    u = fc.get_input(
        np.array([1.]), system, ab, i, 1 - i, Q=1e-3 * np.eye(1),
        mid_weight=10.)
    x = 1. + float(u[0, 0])
    if abs(x - 3.) > .1:
        raise Violation(f'with a large weight, the final state is {x}, '
                        'the center of the end cell is 3')
