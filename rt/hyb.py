"""Random domains, propositions, and affine dynamics."""
import math

import numpy as np

from rt import poly


def _round(x, k=3):
    return round(float(x), k)


def rand_box(rng, lows, highs, least=.25):
    """Random box within the box `lows`, `highs`."""
    lo, hi = list(), list()
    for a, b in zip(lows, highs):
        w = (b - a) * rng.uniform(least, .8)
        s = rng.choice([0., 1., rng.random()])
        start = a + s * (b - a - w)
        lo.append(_round(start))
        hi.append(_round(start + w))
    return lo, hi


def rand_poly(rng, lows, highs):
    """Random convex polytope within a box, as `(A, b)`."""
    lo, hi = rand_box(rng, lows, highs, least=.35)
    A, b = poly.box(lo, hi)
    n = len(lo)
    if n == 1 or rng.random() < .5:
        return A, b
    for _ in range(rng.randint(1, 2)):
        d = np.array([rng.choice([-1., 1.]) * rng.choice([.5, 1., 2.])
                      for _ in range(n)])
        d = d / np.linalg.norm(d)
        c = (np.array(lo) + np.array(hi)) / 2
        w = np.min(np.array(hi) - np.array(lo))
        A = np.r_[A, d[None, :]]
        b = np.r_[b, _round(d @ c + w * rng.uniform(.1, .4))]
    return A, b


def rand_dims(rng):
    return rng.choice([1, 2, 2, 2, 2])


def rand_domain(rng, n):
    lows = [_round(rng.choice([0., -1., rng.uniform(-2, 1)]))
            for _ in range(n)]
    highs = [_round(a + rng.choice([2., 1.5, rng.uniform(1.2, 2.5)]))
             for a in lows]
    return lows, highs


def rand_dyn(rng, lows, highs, disturbed=None, state_input=None,
             strength=None, m=None, coupling=.3):
    """Random affine dynamics that suit the box."""
    n = len(lows)
    mid = (np.array(lows) + np.array(highs)) / 2
    size = float(np.min(np.array(highs) - np.array(lows)))
    kind = rng.choice(['id', 'id', 'shear', 'rot', 'scale', 'any'])
    A = np.eye(n)
    if kind == 'shear' and n > 1:
        A[0, 1] = _round(rng.uniform(-.4, .4))
    elif kind == 'rot' and n > 1:
        t = rng.uniform(-.4, .4)
        A[:2, :2] = np.round(
            [[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]], 3)
    elif kind == 'scale':
        A = np.diag([_round(rng.uniform(.7, 1.2)) for _ in range(n)])
    elif kind == 'any':
        A = A + np.round([[rng.uniform(-.3, .3) for _ in range(n)]
                          for _ in range(n)], 3)
    if m is None:
        m = rng.choice([n, n, n, 1])
    if m == n:
        B = np.eye(n)
        if rng.random() < .4:
            B = B + np.round([[rng.uniform(-.4, .4) for _ in range(n)]
                              for _ in range(n)], 3)
    else:
        B = np.round([[rng.uniform(.3, 1)] for _ in range(n)], 3)
    # keep the center of the box near an equilibrium
    K = np.round((np.eye(n) - A) @ mid, 3)
    if rng.random() < .5:
        K = K + np.round([rng.uniform(-.1, .1) for _ in range(n)], 3)
    if strength is None:
        strength = rng.uniform(.15, .7)
    s = [_round(size * strength * rng.uniform(.6, 1)) for _ in range(m)]
    if state_input is None:
        state_input = rng.random() < .2
    if state_input:
        # |u| <= s + g . (x - mid), where the right side is positive
        rows, right = list(), list()
        for k in range(m):
            g = np.round([rng.uniform(-coupling, coupling) * s[k] / size
                          for _ in range(n)], 3)
            for sign in (1., -1.):
                e = np.zeros(m)
                e[k] = sign
                rows.append(np.r_[e, -g])
                right.append(s[k] - g @ mid)
        U = (np.array(rows), np.array(right))
        # bounded
        A2, b2 = poly.box(
            [-2 * x for x in s] + [x - 1 for x in lows],
            [2 * x for x in s] + [x + 1 for x in highs])
        U = (np.r_[U[0], A2], np.r_[U[1], b2])
    elif m == 2 and rng.random() < .25:
        A2, b2 = poly.box([-x for x in s], s)
        U = (np.r_[A2, [[1., 1.]]], np.r_[b2, [_round(sum(s) * .6)]])
    else:
        shift = [rng.choice([0, 0, _round(rng.uniform(-.3, .3) * x)])
                 for x in s]
        U = poly.box([-x + d for x, d in zip(s, shift)],
                     [x + d for x, d in zip(s, shift)])
    E = W = None
    if disturbed is None:
        disturbed = rng.random() < .4
    if disturbed:
        w = size * rng.uniform(.01, .07)
        p = rng.choice([1, n])
        if p == 1:
            E = np.round([[rng.uniform(-1, 1)] for _ in range(n)], 3)
            W = [[_round(-w, 4)], [_round(w * rng.uniform(.3, 1), 4)]]
        else:
            E = np.eye(n) + (rng.random() < .3) * np.round(
                [[rng.uniform(-.3, .3) for _ in range(n)]
                 for _ in range(n)], 3)
            kind = rng.choice(['box', 'tri', 'poly'])
            if kind == 'box':
                W = [[a, b] for a in (-w, w) for b in (-w, w / 2)]
            else:
                k = 3 if kind == 'tri' else rng.choice([5, 11])
                W = [[w * math.cos(2 * math.pi * i / k),
                      w * math.sin(2 * math.pi * i / k)]
                     for i in range(k)]
            W = [[_round(a, 5) for a in v] for v in W]
    return poly.Dyn(A, B, K, U, E, W)


def hull(vertices):
    """Convex hull in one or two dimensions, as `(A, b)`."""
    v = np.array(vertices, float)
    if v.shape[1] == 1:
        return poly.box([v.min()], [v.max()])
    c = v.mean(axis=0)
    order = sorted(
        range(len(v)),
        key=lambda i: math.atan2(*(v[i] - c)[::-1]))
    rows, right = list(), list()
    for i, j in zip(order, order[1:] + order[:1]):
        d = v[j] - v[i]
        nrm = np.array([d[1], -d[0]])
        nrm = nrm / np.linalg.norm(nrm)
        rows.append(nrm)
        right.append(nrm @ v[i])
    return np.array(rows), np.array(right)


def lti(dyn, domain, **kw):
    """Return the `LtiSysDyn`."""
    import polytope as pc
    from tulip import hybrid
    W = None
    if dyn.W is not None:
        W = pc.Polytope(*hull(dyn.W))
    return hybrid.LtiSysDyn(
        dyn.A.copy(), dyn.B.copy(),
        None if dyn.E is None else dyn.E.copy(),
        dyn.K.reshape(-1, 1).copy(),
        pc.Polytope(*dyn.U), W, domain, **kw)


def describe(dyn):
    return dict(
        A=dyn.A.tolist(), B=dyn.B.tolist(), K=dyn.K.tolist(),
        U=[dyn.U[0].tolist(), dyn.U[1].tolist()],
        E=None if dyn.E is None else dyn.E.tolist(), W=dyn.W and [
            list(w) for w in dyn.W])
