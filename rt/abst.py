"""Random abstractions, and judgement of their edges."""
import contextlib
import logging
import signal

import numpy as np

from rt import hyb, poly
from rt.core import Skip
from rt.part import (
    Scene, dense, partition, pwa_system, quiet, to_poly)


EPS = 1e-4


@contextlib.contextmanager
def limit(seconds):
    """Skip scenes that need many cells, or polytopes per cell."""
    def stop(*_):
        raise Skip('many cells')
    signal.signal(signal.SIGVTALRM, stop)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


@contextlib.contextmanager
def numerics():
    """Skip scenes that the package `polytope` cannot project."""
    try:
        yield
    except Exception as e:
        if 'iterative_hull' in str(e) or 'QhullError' in type(e).__name__:
            raise Skip(str(e))
        raise


class Case:
    """A scene with dynamics, and its abstraction."""

    def __init__(self, rng, m, pwa=False, disturbed=None, most=2,
                 state_input=None, horizon=3, least=(.02, .05, .1),
                 stripe=False, strength=(.25, .7), scene=None,
                 **kw):
        from tulip import abstract
        quiet()
        self.scene = scene or Scene(
            rng, most=most, convex=rng.random() < .8, stripe=stripe)
        self.start = partition(self.scene)
        if disturbed is None:
            disturbed = rng.random() < .3
        strength = rng.uniform(*strength)
        if pwa:
            self.system, self.dyns, self.doms = pwa_system(
                rng, self.scene, disturbed, state_input, strength)
        else:
            dyn = hyb.rand_dyn(
                rng, self.scene.lows, self.scene.highs, disturbed,
                state_input, strength)
            self.dyns = [dyn]
            self.doms = [self.scene.domain]
            self.system = hyb.lti(dyn, to_poly(self.scene.domain))
        N = min(horizon, rng.choice([1, 1, 2, 2, 2, 3]))
        w = max(len(d.drifts()) for d in self.dyns)
        if w**N > 70 or (w > 6 and N > 1):
            N = 1
        size = np.prod([b - a for a, b in zip(
            self.scene.lows, self.scene.highs)])
        self.params = dict(
            N=N, min_cell_volume=round(float(size) * rng.choice(
                least), 3), **kw)
        with limit(10), numerics():
            self.ab = abstract.discretize(
                self.start, self.system, **self.params)
        self.m = m
        self.cells = [poly.pieces(r) for r in self.ab.ppp.regions]
        m.sig([self.scene.content(), self.params,
               [hyb.describe(d) for d in self.dyns]])
        if len(self.cells) > len(self.ab.pwa_ppp.regions):
            m.ev('refined')
        if disturbed:
            m.ev('disturbed')
        if N > 1:
            m.ev('later')
        self.closed = kw.get('closed_loop', True)
        self.conservative = kw.get('conservative', False)
        self.within = kw.get('use_all_horizon', False)

    def info(self, **kw):
        return dict(scene=self.scene.content(), params=self.params,
                    dynamics=[hyb.describe(d) for d in self.dyns],
                    domains=[[a.tolist() for a in d] for d in self.doms],
                    **kw)

    def maps(self, rng):
        m, ab = self.m, self.ab
        k = len(self.cells)
        m.check(len(ab.ppp2ts) == k == len(ab.ts), 'cells and states')
        m.check(set(ab.ppp2ts) == set(ab.ts.states()), 'states')
        m.check(set(ab.ts.atomic_propositions) == set(self.scene.props),
                'atomic propositions')
        orig = [poly.pieces(r) for r in self.start.regions]
        for i, cell in enumerate(self.cells):
            info = self.info(cell=i)
            state = ab.ppp2ts[i]
            j, region = ab.ts2ppp(state)
            m.check(j == i, 'map from state to cell', **info)
            m.check(region is ab.ppp.regions[i] or
                    region == ab.ppp.regions[i], 'cell of state', **info)
            m.check(set(ab.ts.states[state]['ap']) ==
                    set(ab.ppp.regions[i].props), 'label of state', **info)
            _, pwa = ab.ppp2pwa(i)
            sub, active = ab.ppp2sys(i)
            o, old = ab.ppp2orig(i)
            same, act2 = ab.ppp2trans(i)
            m.check(act2 is active and same is pwa,
                    'maps differ', **info)
            if len(self.dyns) == 1 and active is self.system:
                pass
            else:
                m.check(active is self.system.list_subsys[sub],
                        'active subsystem', **info)
            m.check(old is self.start.regions[o],
                    'cell of original partition', **info)
            for x in poly.points(rng, cell, 4):
                m.check(poly.depth(poly.pieces(pwa), x) > -EPS,
                        'cell is not within the cell of its map', **info)
                m.check(poly.depth(orig[o], x) > -EPS,
                        'cell is not within the original cell', **info)
                m.check(poly.depth([self.doms[sub]], x) > -EPS,
                        'cell is not in domain of active subsystem',
                        subsystem=sub, **info)

    def ground(self, i):
        """Set where the state stays before the last step."""
        if self.conservative:
            return self.cells[i]
        return poly.pieces(self.ab.ppp2pwa(i)[1])

    def dyn(self, i):
        return self.dyns[self.ab.ppp2sys(i)[0]]

    def edges(self, rng, most=9):
        m, ab, N = self.m, self.ab, self.params['N']
        index = {s: i for i, s in enumerate(ab.ppp2ts)}
        pairs = sorted({(index[a], index[b]) for a, b in ab.ts.edges()})
        rng.shuffle(pairs)
        if rng.random() < .5:
            # cells that were divided because of themselves
            pairs.sort(key=lambda p: p[0] != p[1])
        for i, j in pairs[:most]:
            between = self.ground(i)
            dyn = self.dyn(i)
            if len(self.cells[i]) > 1:
                m.ev('nonconvex')
            for x in poly.points(rng, self.cells[i], 4):
                if poly.depth(self.cells[i], x) < EPS:
                    continue
                m.ev('edges')
                r = poly.reach(dyn, x, N, self.cells[j], between,
                               self.closed, EPS, within=self.within)
                m.check(r is not False, 'edge is not feasible',
                        **self.info(edge=[i, j], x=x.tolist()))
        return pairs

    def missing(self, rng, pairs, most=8, split=True):
        """Pairs of neighbors without an edge."""
        m, N = self.m, self.params['N']
        low = self.params['min_cell_volume']
        adj = dense(self.ab.ppp.adj)
        k = len(self.cells)
        near = hops = (adj != 0).astype(int)
        for _ in range(self.params.get('trans_length', 1) - 1):
            near = near @ hops
        rest = [(i, j) for i in range(k) for j in range(k)
                if near[i, j] and (i, j) not in set(pairs)]
        rng.shuffle(rest)
        for i, j in rest[:most]:
            if len(self.cells[i]) > 1 or len(self.cells[j]) > 1:
                continue
            between = self.ground(i)
            if len(between) > 1:
                continue
            dyn = self.dyn(i)

            def can(x, eps):
                return poly.reach(dyn, x, N, self.cells[j], between,
                                  self.closed, eps)
            corners = poly.vertices(*self.cells[i][0])
            m.ev('complete')
            if not adj[i, j]:
                m.ev('complete_far')
            m.check(not all(can(x, -EPS) for x in corners),
                    'edge is missing', **self.info(edge=[i, j]))
            # the cell should have been split
            if not split or dyn.W is not None:
                continue
            vol = volume(corners)
            if vol < 2.7 * low:
                continue
            xs = uniform(rng, self.cells[i][0], 60)
            frac = sum(bool(can(x, 0.)) for x in xs) / len(xs)
            m.ev('split_enough')
            m.check(not (low + .3 * vol < frac * vol and
                         low + .3 * vol < (1 - frac) * vol),
                    'cell was not split', volume=vol, fraction=frac,
                    **self.info(edge=[i, j]))


def volume(corners):
    v = np.array(corners)
    if v.shape[1] == 1:
        return float(v.max() - v.min())
    c = v.mean(axis=0)
    v = v[np.argsort(np.arctan2(*(v - c).T[::-1]))]
    w = np.roll(v, -1, axis=0)
    return abs(float(np.sum(v[:, 0] * w[:, 1] - v[:, 1] * w[:, 0]))) / 2


def uniform(rng, cell, count):
    A, b = cell
    n = A.shape[1]
    lo = [poly.extreme_point(A, b, -e)[k] for k, e in enumerate(np.eye(n))]
    hi = [poly.extreme_point(A, b, e)[k] for k, e in enumerate(np.eye(n))]
    out = list()
    while len(out) < count:
        x = np.array([rng.uniform(p, q) for p, q in zip(lo, hi)])
        if np.min(b - A @ x) > 0:
            out.append(x)
    return out
