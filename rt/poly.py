"""Oracles for polytopes and affine dynamics, by linear programming.

Nothing here calls the geometric operations of the package `polytope`:
polytopes are read as their arrays of inequalities, and everything else
(depth, points, vertices, reachability) is computed with `scipy`.
"""
import itertools
import math

import numpy as np
import scipy.optimize as so
import scipy.sparse as sparse


def seed_volumes():
    """Make the sampling of volumes by `polytope` repeatable."""
    original = np.random.default_rng

    def rng(seed=None):
        return original(0 if seed is None else seed)

    np.random.default_rng = rng


def normal(A, b):
    A = np.array(A, dtype=float)
    b = np.array(b, dtype=float).flatten()
    A = A.reshape(len(b), -1)
    norms = np.linalg.norm(A, axis=1)
    keep = norms > 1e-12
    return A[keep] / norms[keep][:, None], b[keep] / norms[keep]


def pieces(region):
    """Return list of `(A, b)` with unit rows."""
    if isinstance(region, list):
        return region
    polys = list(region.list_poly) if hasattr(
        region, 'list_poly') else [region]
    out = list()
    for p in polys:
        if getattr(p, 'A', None) is None or np.size(p.A) == 0:
            continue
        out.append(normal(p.A, p.b))
    return out


def depth(region, x):
    """Largest slack of `x` in a piece (negative if outside)."""
    best = -math.inf
    for A, b in pieces(region):
        best = max(best, np.min(b - A @ x))
    return best


def cheby(A, b):
    """Return `(radius, center)`; radius negative if empty."""
    n = A.shape[1]
    res = so.linprog(
        np.r_[np.zeros(n), -1.],
        A_ub=np.c_[A, np.ones(len(b))], b_ub=b,
        bounds=[(None, None)] * n + [(-1e3, 1e3)],
        method='highs')
    if res.status != 0:
        return -1., None
    return res.x[-1], res.x[:n]


def extreme_point(A, b, c):
    res = so.linprog(
        -np.asarray(c), A_ub=A, b_ub=b,
        bounds=[(None, None)] * A.shape[1],
        method='highs')
    return res.x if res.status == 0 else None


def vertices(A, b):
    """All vertices of a bounded polytope of dimension 1 or 2 or 3."""
    n = A.shape[1]
    out = list()
    for rows in itertools.combinations(range(len(b)), n):
        M = A[list(rows)]
        if abs(np.linalg.det(M)) < 1e-9:
            continue
        v = np.linalg.solve(M, b[list(rows)])
        if np.min(b - A @ v) < -1e-7:
            continue
        if not any(np.linalg.norm(v - w) < 1e-7 for w in out):
            out.append(v)
    return out


def box(lows, highs):
    n = len(lows)
    return (np.r_[np.eye(n), -np.eye(n)],
            np.r_[np.array(highs, float), -np.array(lows, float)])


def points(rng, region, count, pull=1e-3, least=1e-6):
    """Points in the interior of `region`: near vertices, and random."""
    out = list()
    ps = pieces(region)
    for A, b in ps:
        r, c = cheby(A, b)
        if r < least:
            continue
        k = max(1, count // len(ps))
        for t in range(k):
            d = np.array([rng.gauss(0, 1) for _ in c])
            v = extreme_point(A, b, d)
            if v is None:
                continue
            s = 1 - pull if rng.random() < .5 else rng.random()
            x = c + s * (v - c)
            if rng.random() < .5:
                w = extreme_point(
                    A, b, np.array([rng.gauss(0, 1) for _ in c]))
                if w is not None:
                    s = rng.random()
                    x = s * x + (1 - s) * (c + (1 - pull) * (w - c))
            out.append(x)
    return out


class Dyn:
    """`x' = A x + B u + E d + K`, with `U` as `(A, b)`, and vertices of `W`."""

    def __init__(self, A, B, K, U, E=None, W=None):
        self.A = np.array(A, float)
        self.B = np.array(B, float)
        self.n, self.m = self.B.shape
        self.K = np.array(K, float).flatten()
        self.U = normal(*U)
        self.E = None if E is None else np.array(E, float)
        self.W = [np.array(w, float) for w in W] if W else None
        self.state_input = self.U[0].shape[1] == self.n + self.m

    def drifts(self):
        """Vertices of the set `E W`."""
        if self.W is None:
            return [np.zeros(self.n)]
        return [self.E @ w for w in self.W]

    def step(self, x, u, drift):
        return self.A @ x + self.B @ u + self.K + drift

    def input_slack(self, x, u):
        A, b = self.U
        z = np.r_[u, x] if self.state_input else u
        return np.min(b - A @ z)


def reach(dyn, x0, N, target, between, closed, eps,
          within=False, bound=50.):
    """Whether `target` is reachable from `x0`, for each disturbance vertex.

    Constraints are relaxed by `eps` (tightened if `eps < 0`).
    With `within`, the target can be reached at steps `1..N`,
    at different steps for different disturbances.
    Relaxed infeasibility implies that the target cannot be forced.
    For convex sets, tightened feasibility implies that it can.
    """
    target = pieces(target)
    between = pieces(between)
    if not target:
        return False
    drifts = dyn.drifts()
    n, m = dyn.n, dyn.m
    # affine expressions over variables: inputs first, then choices
    tree = [[()]]
    for k in range(N):
        tree.append([
            s + (i,) for s in tree[-1] for i in range(len(drifts))])
    var = dict()
    for k in range(N):
        for s in tree[k]:
            key = s if closed else k
            if key not in var:
                var[key] = len(var) * m
    nu = len(var) * m
    state = {(): (np.zeros((n, nu)), np.array(x0, float))}
    for k in range(N):
        for s in tree[k]:
            M, c = state[s]
            at = var[s if closed else k]
            M1 = dyn.A @ M
            M1[:, at:at + m] += dyn.B
            c1 = dyn.A @ c + dyn.K
            for i, d in enumerate(drifts):
                state[s + (i,)] = (M1, c1 + d)
    rows, rhs, choice = list(), list(), list()
    nz = 0
    A, b = dyn.U
    for k in range(N):
        for s in tree[k]:
            at = var[s if closed else k]
            M, c = state[s]
            row = np.zeros((len(b), nu))
            row[:, at:at + m] += A[:, :m]
            right = b.copy()
            if dyn.state_input:
                row += A[:, m:] @ M
                right -= A[:, m:] @ c
            rows.append((row, right + eps, None))
    equal = list()  # (choices, parent choices or None)
    go_on = dict()
    for k in range(1, N + 1):
        for s in tree[k]:
            stop = target if (k == N or within) else []
            keep = between if k < N else []
            options = [(p, False) for p in stop] + [
                (p, True) for p in keep]
            M, c = state[s]
            parent = go_on.get(s[:-1])
            if len(options) == 1 and parent is None:
                (A, b), _ = options[0]
                rows.append((A @ M, b - A @ c + eps, None))
                go_on[s] = None
                continue
            zs = list()
            for (A, b), cont in options:
                rows.append((A @ M, b - A @ c + eps, nz))
                zs.append((nz, cont))
                nz += 1
            equal.append(([z for z, _ in zs], parent))
            go_on[s] = [z for z, cont in zs if cont]
    # a node with an empty list of continuing choices has no children
    mats, rights = list(), list()
    for row, right, z in rows:
        full = np.zeros((len(right), nu + nz))
        full[:, :nu] = row
        right = right.copy()
        if z is not None:
            full[:, nu + z] = bound
            right += bound
        mats.append(full)
        rights.append(right)
    mat = np.vstack(mats)
    right = np.concatenate(rights)
    if nz == 0:
        res = so.linprog(
            np.zeros(nu), A_ub=mat, b_ub=right,
            bounds=[(None, None)] * nu, method='highs')
        if res.status == 0:
            return True
        if res.status == 2:
            return False
        raise RuntimeError(res.message)
    cons = [so.LinearConstraint(sparse.csr_matrix(mat), ub=right)]
    for zs, parent in equal:
        row = np.zeros(nu + nz)
        row[[nu + z for z in zs]] = 1
        if parent is None:
            cons.append(so.LinearConstraint(row, 1, 1))
        else:
            row[[nu + z for z in parent]] -= 1
            cons.append(so.LinearConstraint(row, 0, 0))
    res = so.milp(
        np.zeros(nu + nz), constraints=cons,
        integrality=np.r_[np.zeros(nu), np.ones(nz)],
        bounds=so.Bounds(
            np.r_[np.full(nu, -np.inf), np.zeros(nz)],
            np.r_[np.full(nu, np.inf), np.ones(nz)]),
        options=dict(time_limit=10))
    if res.status == 0:
        return True
    if res.status == 2:
        return False
    return None


def facet_distance(a, b):
    """Distance in the infinity norm between regions `a` and `b`."""
    best = math.inf
    for A, p in pieces(a):
        for B, q in pieces(b):
            n = A.shape[1]
            # min t : |x - y| <= t
            rows = [
                np.c_[A, np.zeros((len(p), n + 1))],
                np.c_[np.zeros((len(q), n)), B, np.zeros((len(q), 1))],
                np.c_[np.eye(n), -np.eye(n), -np.ones((n, 1))],
                np.c_[-np.eye(n), np.eye(n), -np.ones((n, 1))]]
            res = so.linprog(
                np.r_[np.zeros(2 * n), 1.],
                A_ub=np.vstack(rows),
                b_ub=np.r_[p, q, np.zeros(2 * n)],
                bounds=[(None, None)] * (2 * n) + [(0, None)],
                method='highs')
            if res.status == 0:
                best = min(best, res.fun)
    return best


def overlap(a, b):
    """Largest radius of a ball in a piece of both."""
    best = -1.
    for A, p in pieces(a):
        for B, q in pieces(b):
            r, _ = cheby(np.r_[A, B], np.r_[p, q])
            best = max(best, r)
    return best


def shared_facet(a, b, gap=1e-6):
    """Largest half-width of a facet that pieces of `a` and `b` share.

    Zero if they touch in a smaller set, negative if they are apart.
    """
    best = -1.
    for A, p in pieces(a):
        for B, q in pieces(b):
            n = A.shape[1]
            for i in range(len(p)):
                # the opposite facet of the other polytope
                for j in range(len(q)):
                    if np.linalg.norm(A[i] + B[j]) > 1e-6:
                        continue
                    if abs(p[i] + q[j]) > gap:
                        continue
                    r = _facet_radius(A, p, B, q, i, j)
                    best = max(best, r)
    return best


def _facet_radius(A, p, B, q, i, j):
    n = A.shape[1]
    if n == 1:
        return 1.
    rows = np.r_[np.delete(A, i, 0), np.delete(B, j, 0)]
    right = np.r_[np.delete(p, i), np.delete(q, j)]
    # ball within the hyperplane of facet `i`
    nrm = A[i]
    proj = rows - np.outer(rows @ nrm, nrm)
    width = np.linalg.norm(proj, axis=1)
    res = so.linprog(
        np.r_[np.zeros(n), -1.],
        A_ub=np.c_[rows, width], b_ub=right,
        A_eq=np.r_[nrm, 0.][None, :], b_eq=[p[i]],
        bounds=[(None, None)] * n + [(0, 1e3)],
        method='highs')
    return res.x[-1] if res.status == 0 else -1.
