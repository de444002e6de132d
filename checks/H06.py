"""H06: reachability between polytopes under affine dynamics."""
import contextlib
import io
import logging

import numpy as np

from rt import hyb, poly
from rt.core import Check

check = Check(
    'H06',
    rule='a distinct case is a pair of sets, dynamics, horizon, and options',
    require=['closed.inside', 'closed.outside', 'closed.disturbed',
             'closed.two_steps', 'closed.state_input', 'open.inside',
             'open.outside', 'open.disturbed', 'open.refused',
             'pieces.inside', 'pieces.outside', 'within.inside',
             'within.later', 'feasible.yes', 'feasible.no',
             'coupled.inside', 'coupled.outside', 'coupled.disturbed'],
    assumptions=[
        'points closer than 1e-4 to the boundary of a set are not judged',
        'a disturbance matrix is given with a disturbance set that is '
        'full-dimensional',
        'nonconvex sets: the result is an underapproximation, so only '
        'its points are judged, and one-step reachability of points '
        'that it omits'])

EPS = 1e-4


def quiet():
    logging.disable(logging.CRITICAL)
    poly.seed_volumes()


def scene(rng, horizon, disturbed=None, state_input=None):
    """Return dynamics, box, horizon."""
    n = hyb.rand_dims(rng)
    lows, highs = hyb.rand_domain(rng, n)
    if disturbed is None:
        disturbed = rng.random() < .4
    dyn = hyb.rand_dyn(rng, lows, highs, disturbed, state_input)
    N = rng.randint(1, horizon)
    if dyn.W is not None and len(dyn.W)**N > 70:
        N = 1
    return dyn, lows, highs, N


def cut(rng, T, lows, highs):
    for _ in range(20):
        A, b = hyb.rand_poly(rng, lows, highs)
        A, b = np.r_[T[0], A], np.r_[T[1], b]
        if poly.cheby(A, b)[0] > .08:
            return poly.normal(A, b)
    return poly.normal(*T)


def to_poly(p):
    import polytope as pc
    return pc.Polytope(p[0].copy(), p[1].copy())


def edges(rng, S, P, count):
    """Points of `P` just outside `S`."""
    out = list()
    for A, b in poly.pieces(S):
        for _ in range(count):
            d = np.array([rng.gauss(0, 1) for _ in range(A.shape[1])])
            d = d / np.linalg.norm(d)
            v = poly.extreme_point(A, b, d)
            if v is None:
                continue
            x = v + d * rng.choice([3e-3, .02, .1])
            if poly.depth([P], x) > EPS:
                out.append(x)
    return out


def detail(dyn, N, P1, P2, T, x, **kw):
    return dict(dynamics=hyb.describe(dyn), N=N, x=list(map(float, x)),
                P1=[a.tolist() for p in P1 for a in p],
                P2=[a.tolist() for p in P2 for a in p],
                T=[a.tolist() for p in T for a in p], **kw)


def judge(rng, m, S0, dyn, N, P1, P2, T, closed, exact, within=False):
    """Compare the set `S0` to reachability from points."""
    S = poly.pieces(S0)
    S = [p for p in S if poly.cheby(*p)[0] > 1e-6]
    xs = list()
    if S:
        xs += poly.points(rng, S, 6)
        xs += edges(rng, S, P1[0], 3)
    xs += poly.points(rng, P1, 4)
    for x in xs:
        d = poly.depth(S, x) if S else -1.
        if d > EPS:
            m.ev('inside')
            m.check(poly.depth(P1, x) > -EPS,
                    'result is not within the initial set',
                    **detail(dyn, N, P1, P2, T, x))
            r = poly.reach(dyn, x, N, P2, T, closed, EPS, within=within)
            m.check(r is not False,
                    'target is not reachable from point of result',
                    **detail(dyn, N, P1, P2, T, x, depth=d,
                             closed=closed, within=within))
        elif d < -EPS and poly.depth(P1, x) > EPS and exact:
            r = poly.reach(dyn, x, N, P2, T, closed, -EPS)
            m.ev('outside')
            m.check(r is not True,
                    'target is reachable from point not in result',
                    **detail(dyn, N, P1, P2, T, x, depth=d,
                             closed=closed))
    m.sig([hyb.describe(dyn), N, [a.tolist() for p in P1 + P2 for a in p]])
    if dyn.W is not None and S:
        m.ev('disturbed')
    if N > 1 and S:
        m.ev('two_steps')
    if dyn.state_input and S:
        m.ev('state_input')


def sets(rng, lows, highs, same=None):
    T = poly.box(lows, highs)
    P1 = cut(rng, T, lows, highs)
    P2 = cut(rng, T, lows, highs)
    if same is None:
        same = rng.random() < .4
    if same:
        return P1, P2, P1, None
    if rng.random() < .5:
        # a set between the initial set and the box
        mid = [(P1[0], P1[1] + rng.uniform(.02, .3))]
        T = poly.normal(np.r_[T[0], mid[0][0]], np.r_[T[1], mid[0][1]])
    return P1, P2, T, to_poly(T)


@check.case(quick=90, thorough=2500, cpu=120)
def closed(rng, m):
    from tulip.abstract import feasible
    quiet()
    dyn, lows, highs, N = scene(rng, 3)
    P1, P2, T, trans = sets(rng, lows, highs)
    ssys = hyb.lti(dyn, to_poly(poly.box(lows, highs)))
    S0 = feasible.solve_feasible(
        to_poly(P1), to_poly(P2), ssys, N, True, False, trans)
    judge(rng, m, S0, dyn, N, [P1], [P2], [T], True, True)


@check.case(quick=70, thorough=2000, cpu=120)
def open(rng, m):
    from tulip.abstract import feasible
    quiet()
    dyn, lows, highs, N = scene(rng, 2)
    P1, P2, T, trans = sets(rng, lows, highs)
    ssys = hyb.lti(dyn, to_poly(poly.box(lows, highs)))
    S0 = feasible.solve_feasible(
        to_poly(P1), to_poly(P2), ssys, N, False, False, trans)
    judge(rng, m, S0, dyn, N, [P1], [P2], [T], False, True)
    try:
        feasible.solve_feasible(
            to_poly(P1), to_poly(P2), ssys, N, False, True, trans)
    except ValueError:
        m.ev('refused')
    else:
        m.check(False, 'varying horizon in open loop was accepted')


@check.case(quick=40, thorough=1500, cpu=120)
def turning(rng, m):
    """Dynamics that reverse the effect of earlier disturbances."""
    from tulip.abstract import feasible
    quiet()
    n = rng.choice([1, 1, 2])
    lows, highs = hyb.rand_domain(rng, n)
    size = min(b - a for a, b in zip(lows, highs))
    dyn = hyb.rand_dyn(rng, lows, highs, False, False)
    a = -round(rng.uniform(.5, 1.1), 3)
    A = a * np.eye(n)
    if n == 2 and rng.random() < .5:
        A = np.array([[0., a], [-a, 0.]])
    mid = (np.array(lows) + np.array(highs)) / 2
    K = np.round((np.eye(n) - A) @ mid, 3)
    w = size * rng.uniform(.04, .12)
    E = np.round([[rng.uniform(.5, 1)] for _ in range(n)], 3)
    W = [[round(-w, 4)], [round(w * rng.uniform(.5, 1), 4)]]
    dyn = poly.Dyn(A, dyn.B, K, dyn.U, E, W)
    N = rng.choice([2, 2, 3])
    P1, P2, T, trans = sets(rng, lows, highs)
    ssys = hyb.lti(dyn, to_poly(poly.box(lows, highs)))
    S0 = feasible.solve_feasible(
        to_poly(P1), to_poly(P2), ssys, N, False, False, trans)
    judge(rng, m, S0, dyn, N, [P1], [P2], [T], False, True)


@check.case(quick=80, thorough=2500, cpu=120)
def coupled(rng, m):
    """Bounds of inputs that depend much on the disturbed state."""
    from tulip.abstract import feasible
    quiet()
    n = rng.choice([1, 1, 2])
    lows, highs = hyb.rand_domain(rng, n)
    dyn = hyb.rand_dyn(rng, lows, highs, True, True, coupling=3.)
    N = 2 if n == 2 else rng.choice([2, 2, 3])
    closed = rng.random() < .25
    lo, hi = hyb.rand_box(rng, lows, highs, least=.4)
    P1 = poly.normal(*poly.box(lo, hi))
    lo, hi = hyb.rand_box(rng, lows, highs, least=.5)
    P2 = poly.normal(*poly.box(lo, hi))
    T = poly.normal(*poly.box(
        [a - .5 for a in lows], [b + .5 for b in highs]))
    ssys = hyb.lti(dyn, to_poly(poly.box(lows, highs)))
    S0 = feasible.solve_feasible(
        to_poly(P1), to_poly(P2), ssys, N, closed, False, to_poly(T))
    judge(rng, m, S0, dyn, N, [P1], [P2], [T], closed, True)


def region(rng, lows, highs, k):
    """Pieces without overlap: slices of boxes along an axis."""
    import polytope as pc
    axis = rng.randrange(len(lows))
    cuts = sorted(rng.uniform(lows[axis], highs[axis])
                  for _ in range(2 * k))
    out = list()
    for a, b in zip(cuts[::2], cuts[1::2]):
        if b - a < .1:
            continue
        lo, hi = hyb.rand_box(rng, lows, highs, least=.5)
        lo[axis], hi[axis] = round(a, 3), round(b, 3)
        out.append(poly.normal(*poly.box(lo, hi)))
    if not out:
        out.append(poly.normal(*poly.box(lows, highs)))
    return out, pc.Region([to_poly(p) for p in out])


@check.case(quick=50, thorough=1500, cpu=120)
def pieces(rng, m):
    """Sets that are unions of polytopes."""
    from tulip.abstract import feasible
    quiet()
    dyn, lows, highs, N = scene(rng, 2)
    P1, R1 = region(rng, lows, highs, rng.randint(1, 3))
    P2, R2 = region(rng, lows, highs, rng.randint(1, 3))
    if rng.random() < .5:
        T = [poly.normal(*poly.box(lows, highs))]
        trans = to_poly(T[0])
    else:
        T, trans = P1, None
    ssys = hyb.lti(dyn, to_poly(poly.box(lows, highs)))
    S0 = feasible.solve_feasible(R1, R2, ssys, N, True, False, trans)
    # with a disturbance, some polytope of the target contains the
    # successors of all points of the result, for each disturbance,
    # so omitted points can be in the largest such set
    exact = dyn.W is None and N == 1
    judge(rng, m, S0, dyn, N, P1, P2, T, True, exact)


@check.case(quick=50, thorough=1500, cpu=120)
def within(rng, m):
    """Reachability at any step of the horizon."""
    from tulip.abstract import feasible
    quiet()
    dyn, lows, highs, N = scene(rng, 3, state_input=False)
    P1, P2, T, trans = sets(rng, lows, highs)
    ssys = hyb.lti(dyn, to_poly(poly.box(lows, highs)))
    S0 = feasible.solve_feasible(
        to_poly(P1), to_poly(P2), ssys, N, True, True, trans)
    judge(rng, m, S0, dyn, N, [P1], [P2], [T], True, False, within=True)
    S = [p for p in poly.pieces(S0) if poly.cheby(*p)[0] > 1e-6]
    for x in poly.points(rng, [P1], 4):
        if poly.depth(S, x) < -EPS and poly.reach(
                dyn, x, 1, [P2], [T], True, -EPS):
            m.check(False, 'point that reaches the target in one step '
                    'is not in the result',
                    **detail(dyn, N, [P1], [P2], [T], x))
        if N > 1 and poly.depth(S, x) > EPS and not poly.reach(
                dyn, x, 1, [P2], [T], True, -EPS):
            m.ev('later')


@check.case(quick=50, thorough=1500, cpu=120)
def feasible(rng, m):
    """The whole set can reach the target."""
    from tulip.abstract import feasible
    quiet()
    dyn, lows, highs, N = scene(rng, 2)
    closed = rng.random() < .7
    P1, P2, T, trans = sets(rng, lows, highs)
    if rng.random() < .7:
        r, c = poly.cheby(*P1)
        w = rng.uniform(.02, .9) * r
        # a small initial set
        P1 = poly.normal(*poly.box(c - w, c + w))
        if trans is None:
            T = P1
    if rng.random() < .4:
        P2 = poly.normal(*poly.box(
            [a + .02 for a in lows], [a - .02 for a in highs]))
    ssys = hyb.lti(dyn, to_poly(poly.box(lows, highs)))
    r = feasible.is_feasible(
        to_poly(P1), to_poly(P2), ssys, N, closed, False, trans)
    m.sig([hyb.describe(dyn), N, closed, r])
    corners = poly.vertices(*P1)
    if r:
        m.ev('yes')
        for x in corners + poly.points(rng, [P1], 3):
            ok = poly.reach(dyn, x, N, [P2], [T], closed, EPS)
            m.check(ok is not False, 'set was claimed to reach the target',
                    **detail(dyn, N, [P1], [P2], [T], x, closed=closed))
    else:
        m.ev('no')
        bad = [x for x in corners if not poly.reach(
            dyn, x, N, [P2], [T], closed, -EPS)]
        m.check(bad, 'set can reach the target, but this was denied',
                **detail(dyn, N, [P1], [P2], [T], corners[0],
                         closed=closed))
