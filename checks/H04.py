"""H04: abstractions of switched dynamics."""
import contextlib
import multiprocessing
import signal

import numpy as np

from rt import hyb, poly
from rt.abst import EPS, limit, numerics
from rt.core import Check, Violation
from rt.part import (
    Scene, adjacent, dense, judge, partition, pwa_system, quiet, to_poly)

check = Check(
    'H04',
    rule='a distinct case is a scene with dynamics of modes and parameters',
    require=['modes.edges', 'modes.complete', 'modes.refined',
             'modes.several', 'modes.defaults', 'modes.numbers',
             'modes.open', 'modes.disturbed', 'modes.later',
             'parallel.edges', 'same.edges'],
    assumptions=[
        'points closer than 1e-4 to the boundary of a cell are not judged',
        'bisimilar partitions (the default) in each mode',
        'the horizon is given for each mode, or all parameters are '
        'left out'])


def labels(rng, m):
    """Names of modes, and arguments of the constructor."""
    ne, ns = rng.choice([(1, 1), (2, 1), (1, 2), (2, 2), (1, 3)])
    kind = rng.random()
    if kind < .25:
        m.ev('numbers')
        return list(range(ne)), list(range(ns)), dict()
    if kind < .5:
        m.ev('numbers')
        es, ss = list(range(5, 5 + ne)), list(range(7, 7 + ns))
    else:
        es = [f'e{i}' for i in range(ne)]
        ss = [f's{i}' for i in range(ns)]
    return es, ss, dict(env_labels=es, disc_sys_labels=ss)


@contextlib.contextmanager
def returns(seconds):
    def stop(*_):
        for p in multiprocessing.active_children():
            p.kill()
        raise Violation('the parallel function does not return',
                        seconds=seconds)
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)


class Case:
    def __init__(self, rng, m, parallel=False, same=False):
        from tulip import abstract, hybrid
        quiet()
        self.m = m
        sc = self.scene = Scene(rng, most=2, convex=rng.random() < .8)
        self.start = partition(sc)
        es, ss, kw = labels(rng, m)
        self.modes = [(e, s) for e in es for s in ss]
        if rng.random() < .4:
            # dynamics in some of the modes, in another order
            rng.shuffle(self.modes)
            k = rng.randint(1, len(self.modes))
            if k < len(self.modes):
                m.ev('without')
            del self.modes[k:]
        disturbed = not same and rng.random() < .35
        strength = rng.uniform(.25, .7)
        self.parts = dict()
        dynamics = dict()
        for mode in self.modes:
            if same and self.parts:
                first = self.modes[0]
                self.parts[mode] = self.parts[first]
                dynamics[mode] = dynamics[first]
                continue
            k = rng.random()
            if k < .4:
                system, dyns, doms = pwa_system(
                    rng, sc, disturbed, False, strength)
            else:
                dyn = hyb.rand_dyn(rng, sc.lows, sc.highs, disturbed,
                                   None, strength)
                whole = to_poly(sc.domain)
                dyns, doms = [dyn], [sc.domain]
                system = hybrid.PwaSysDyn([hyb.lti(dyn, whole)], whole)
            dynamics[mode] = system
            self.parts[mode] = dyns, doms
        self.switched = hybrid.SwitchedSysDyn(
            (len(es), len(ss)), dynamics, to_poly(sc.domain), **kw)
        size = float(np.prod([b - a for a, b in zip(sc.lows, sc.highs)]))
        self.params = dict()
        for mode in self.modes:
            if same and self.params:
                self.params[mode] = self.params[self.modes[0]]
                continue
            w = max(len(d.drifts()) for d in self.parts[mode][0])
            N = rng.choice([1, 1, 2])
            if w > 4:
                N = 1
            p = dict(N=N, min_cell_volume=round(
                size * rng.choice([.1, .15, .3]), 3))
            if rng.random() < .3:
                p['closed_loop'] = False
            if rng.random() < .4:
                p['trans_length'] = 1
            self.params[mode] = p
        given = self.params
        if size > .4 and rng.random() < .2:
            m.ev('defaults')
            given = None
            self.params = {k: dict(N=1) for k in self.modes}
        if disturbed:
            m.ev('disturbed')
        if any(p['N'] > 1 for p in self.params.values()):
            m.ev('later')
        if not all(p.get('closed_loop', True)
                   for p in self.params.values()):
            m.ev('open')
        fn = (abstract.multiproc_discretize_switched if parallel
              else abstract.discretize_switched)
        if parallel:
            # neither slow, nor unsupported by the package `polytope`
            with limit(6), numerics():
                abstract.discretize_switched(
                    self.start, self.switched, given)
            with returns(240), numerics():
                self.ab = fn(self.start, self.switched, given)
        else:
            with limit(15), numerics():
                self.ab = fn(self.start, self.switched, given)
        self.cells = [poly.pieces(r) for r in self.ab.ppp.regions]
        m.sig([sc.content(), str(self.params), str(self.modes),
               [hyb.describe(d) for ds, _ in self.parts.values()
                for d in ds]])

    def info(self, **kw):
        return dict(
            scene=self.scene.content(), params=str(self.params),
            modes={str(k): [hyb.describe(d) for d in ds]
                   for k, (ds, _) in self.parts.items()},
            domains={str(k): [[a.tolist() for a in p] for p in doms]
                     for k, (_, doms) in self.parts.items()}, **kw)

    def maps(self, rng):
        m, ab = self.m, self.ab
        k = len(self.cells)
        m.check(set(ab.ts.states()) == set(range(k)), 'states')
        m.check(list(ab.ppp2ts) == list(range(k)), 'map of states')
        m.check(set(ab.ts.atomic_propositions) == set(self.scene.props),
                'atomic propositions')
        m.check(set(ab.modes) == set(self.modes), 'modes')
        m.check(set(map(str, ab.ts.env_actions)) ==
                {str(e) for e, _ in self.modes}, 'actions of environment')
        m.check(set(map(str, ab.ts.sys_actions)) ==
                {str(s) for _, s in self.modes}, 'actions of system')
        for mode in self.modes:
            dyns, doms = self.parts[mode]
            if len(doms) > 1:
                m.ev('several')
            sub = ab.modes[mode]
            parts = [poly.pieces(r) for r in sub.ppp.regions]
            if len(parts) < k:
                m.ev('refined')
            judge(rng, m, self.scene, sub.ppp, adjacency=False, count=8)
            m.check(len(ab.ppp2modes[mode]) == k, 'map to mode')
            for i, cell in enumerate(self.cells):
                info = self.info(cell=i, mode=str(mode))
                parent = parts[ab.ppp2modes[mode][i]]
                j, pwa = ab.ppp2pwa(mode, i)
                a, active = ab.ppp2sys(mode, i)
                m.check(active is
                        self.switched.dynamics[mode].list_subsys[a]
                        or _same(active, self.switched.dynamics[
                            mode].list_subsys[a]), 'active subsystem',
                        **info)
                for x in poly.points(rng, cell, 3):
                    m.check(poly.depth(parent, x) > -EPS,
                            'cell is not within the cell of the mode',
                            **info)
                    m.check(poly.depth(poly.pieces(pwa), x) > -EPS,
                            'cell is not within the cell of its map',
                            **info)
                    m.check(poly.depth([doms[a]], x) > -EPS,
                            'cell is not in the domain of the active '
                            'subsystem', **info)
        for i in range(k):
            m.check(set(ab.ts.states[i]['ap']) ==
                    set(ab.ppp.regions[i].props), 'label of state')

    def edges(self, rng, most=8):
        m, ab = self.m, self.ab
        found = {mode: set() for mode in self.modes}
        names = {(str(e), str(s)): (e, s) for e, s in self.modes}
        for i, j, d in ab.ts.edges(data=True):
            mode = names.get((d.get('env_actions'), d.get('sys_actions')))
            m.check(mode is not None, 'label of edge', label=str(d))
            found[mode].add((i, j))
        adj = dense(ab.ppp.adj)
        for mode in self.modes:
            p = self.params[mode]
            N, closed = p['N'], p.get('closed_loop', True)
            pairs = sorted(found[mode])
            rng.shuffle(pairs)
            for i, j in pairs[:most]:
                m.check(adj[i, j] != 0, 'edge between cells that are not '
                        'adjacent', **self.info(edge=[i, j]))
                between = poly.pieces(ab.ppp2pwa(mode, i)[1])
                dyn = self.parts[mode][0][ab.ppp2sys(mode, i)[0]]
                for x in poly.points(rng, self.cells[i], 3):
                    if poly.depth(self.cells[i], x) < EPS:
                        continue
                    m.ev('edges')
                    r = poly.reach(dyn, x, N, self.cells[j], between,
                                   closed, EPS)
                    m.check(r is not False, 'edge is not feasible',
                            **self.info(edge=[i, j], x=x.tolist(),
                                        mode=str(mode)))
            k = len(self.cells)
            rest = [(i, j) for i in range(k) for j in range(k)
                    if adj[i, j] and (i, j) not in found[mode]]
            rng.shuffle(rest)
            for i, j in rest[:most]:
                between = poly.pieces(ab.ppp2pwa(mode, i)[1])
                if max(map(len, (between, self.cells[i],
                                 self.cells[j]))) > 1:
                    continue
                dyn = self.parts[mode][0][ab.ppp2sys(mode, i)[0]]
                m.ev('complete')
                m.check(not all(
                    poly.reach(dyn, x, N, self.cells[j], between,
                               closed, -EPS)
                    for x in poly.vertices(*self.cells[i][0])),
                    'edge is missing', **self.info(
                        edge=[i, j], mode=str(mode)))
        return found


def _same(a, b):
    """Whether two systems are equal (after sending to a process)."""
    return (np.array_equal(a.A, b.A) and np.array_equal(a.B, b.B)
            and np.array_equal(a.K, b.K) and a.domain == b.domain)


def run(rng, m, **kw):
    c = Case(rng, m, **kw)
    judge(rng, m, c.scene, c.ab.ppp, adjacency=False)
    adjacent(m, c.ab.ppp, c.cells, c.info(), far=True)
    c.maps(rng)
    return c, c.edges(rng)


@check.case(quick=18, thorough=1200, cpu=200)
def modes(rng, m):
    run(rng, m)


@check.case(quick=8, thorough=300, cpu=200)
def same(rng, m):
    """Same dynamics in all modes."""
    c, found = run(rng, m, same=True)
    first = found[c.modes[0]]
    for mode in c.modes:
        a = first ^ found[mode]
        m.check(not a, 'modes with the same dynamics have other edges',
                **c.info(edges=sorted(a)))


@check.case(quick=6, thorough=200, cpu=200)
def parallel(rng, m):
    run(rng, m, parallel=True)
