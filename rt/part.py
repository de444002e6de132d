"""Random scenes, and judgement of partitions."""
import logging
import warnings

import numpy as np

from rt import hyb, poly


EPS = 1e-5


def quiet():
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    poly.seed_volumes()


def to_poly(p):
    import polytope as pc
    return pc.Polytope(p[0].copy(), p[1].copy())


class Scene:
    """Domain `(A, b)` and propositions as lists of `(A, b)`."""

    def __init__(self, rng, n=None, most=3, convex=False,
                 stripe=False):
        self.n = hyb.rand_dims(rng) if n is None else n
        self.lows, self.highs = hyb.rand_domain(rng, self.n)
        self.domain = poly.normal(*poly.box(self.lows, self.highs))
        if rng.random() < .2:
            A, b = hyb.rand_poly(rng, self.lows, self.highs)
            A, b = np.r_[self.domain[0], A], np.r_[self.domain[1], b + .2]
            if poly.cheby(A, b)[0] > .3:
                self.domain = poly.normal(A, b)
        self.props = dict()
        for i in range(rng.choice([0, 1, 1, 2, 2, most])):
            name = 'abcd'[i]
            self.props[name] = self.prop(rng, convex)
        if stripe:
            self.props = dict(s=[self.stripe(rng)])

    def stripe(self, rng):
        """Cuts the domain in two."""
        axis = rng.randrange(self.n)
        lo, hi = list(self.lows), list(self.highs)
        w = hi[axis] - lo[axis]
        lo[axis] = round(lo[axis] + rng.uniform(.25, .4) * w, 3)
        hi[axis] = round(hi[axis] - rng.uniform(.25, .4) * w, 3)
        return poly.normal(*poly.box(lo, hi))

    def tile(self, rng):
        """Use disjoint boxes as propositions."""
        k = rng.randint(3, 5)
        axis = rng.randrange(self.n)
        a = self.lows[axis]
        w = (self.highs[axis] - a) / k
        self.props = dict()
        for i in range(k):
            lo, hi = list(self.lows), list(self.highs)
            lo[axis] = round(a + (i + rng.uniform(0, .3)) * w, 3)
            hi[axis] = round(a + (i + rng.uniform(.7, .95)) * w, 3)
            self.props['abcde'[i]] = [poly.normal(*poly.box(lo, hi))]
        names = list(self.props)
        rng.shuffle(names)
        self.props = {x: self.props[x] for x in names}

    def prop(self, rng, convex):
        k = rng.random()
        if self.props and k < .1:
            return rng.choice(list(self.props.values()))
        if k < .2:
            # partly, or fully, outside the domain
            lo = [x + rng.uniform(-.5, .5) for x in self.lows]
            hi = [x + rng.uniform(-.4, .9) + .3 for x in lo]
            return [poly.normal(*poly.box(lo, hi))]
        if k < .3 and not convex:
            out = list()
            axis = rng.randrange(self.n)
            mid = (self.lows[axis] + self.highs[axis]) / 2
            for a, b in ((self.lows[axis], mid - .05),
                         (mid + .05, self.highs[axis])):
                lo, hi = hyb.rand_box(rng, self.lows, self.highs)
                w = b - a
                lo[axis] = round(a + rng.uniform(0, .3) * w, 3)
                hi[axis] = round(b - rng.uniform(0, .3) * w, 3)
                out.append(poly.normal(*poly.box(lo, hi)))
            return out
        return [poly.normal(*hyb.rand_poly(rng, self.lows, self.highs))]

    def build(self):
        import polytope as pc
        props = dict()
        for name, ps in self.props.items():
            qs = [to_poly(p) for p in ps]
            props[name] = qs[0] if len(qs) == 1 else pc.Region(qs)
        return to_poly(self.domain), props

    def content(self):
        return dict(
            domain=[a.tolist() for a in self.domain],
            props={k: [a.tolist() for p in v for a in p]
                   for k, v in self.props.items()})

    def label(self, x):
        """Names of propositions at `x`, `None` at boundaries."""
        out = set()
        for name, ps in self.props.items():
            d = poly.depth(ps, x)
            if abs(d) < EPS:
                return None
            if d > 0:
                out.add(name)
        return out


def judge(rng, m, scene, part, adjacency=True, count=25, overlaps=False):
    """Compare a partition to the domain and propositions."""
    regions = [poly.pieces(r) for r in part.regions]
    xs = poly.points(rng, [scene.domain], count, pull=1e-4)
    owners = set()
    for x in xs:
        m.ev('points')
        ds = [poly.depth(r, x) for r in regions]
        owner = [i for i, d in enumerate(ds) if d > EPS]
        near = [i for i, d in enumerate(ds) if d > -EPS]
        info = dict(scene=scene.content(), x=x.tolist(), depths=ds)
        m.check(near, 'point of domain is in no cell', **info)
        if not overlaps:
            m.check(len(owner) <= 1, 'cells overlap', **info)
        want = scene.label(x)
        if want is None:
            continue
        for i in owner:
            m.ev('labeled')
            m.check(set(part.regions[i].props) == want,
                    'cell is labeled with other propositions',
                    cell=i, props=sorted(part.regions[i].props),
                    want=sorted(want), **info)
        owners.update(owner)
    for i, r in enumerate(regions):
        m.ev('regions')
        inside = poly.points(rng, r, 4)
        m.check(inside, 'cell is empty', cell=i, scene=scene.content())
        for x in inside:
            info = dict(scene=scene.content(), x=x.tolist(), cell=i)
            m.check(poly.depth([scene.domain], x) > -EPS,
                    'cell leaves the domain', **info)
            want = scene.label(x)
            if want is not None:
                m.check(set(part.regions[i].props) == want,
                        'cell is labeled with other propositions',
                        want=sorted(want),
                        props=sorted(part.regions[i].props), **info)
    if adjacency:
        adjacent(m, part, regions, scene.content())
    m.check(part.preserves_predicates(),
            'partition claims that it does not preserve propositions',
            scene=scene.content())
    dom = poly.pieces(part.domain)
    for x in poly.points(rng, dom, 4):
        m.check(poly.depth([scene.domain], x) > -EPS, 'domain changed')
    m.check(set(part.prop_regions) == set(scene.props),
            'propositions changed')


def dense(adj):
    return np.array(adj.toarray() if hasattr(adj, 'toarray') else adj)


def adjacent(m, part, regions, content, far=True):
    adj = dense(part.adj)
    k = len(regions)
    m.check(adj.shape == (k, k), 'shape of adjacency matrix')
    for i in range(k):
        m.check(adj[i, i] != 0, 'cell is not adjacent to itself', cell=i)
        for j in range(i):
            info = dict(cells=[j, i], scene=content)
            m.check((adj[i, j] != 0) == (adj[j, i] != 0),
                    'adjacency is not symmetric', **info)
            if poly.shared_facet(regions[i], regions[j]) > 1e-3:
                m.ev('adjacent')
                m.check(adj[i, j] != 0,
                        'cells with a common facet are not adjacent',
                        **info)
            elif far and poly.facet_distance(
                    regions[i], regions[j]) > 1e-3:
                m.ev('apart')
                m.check(adj[i, j] == 0,
                        'cells that are apart are adjacent', **info)


def partition(scene):
    from tulip import abstract
    domain, props = scene.build()
    return abstract.prop2part(domain, props)


def slices(rng, scene):
    """Domains of subsystems, as `(A, b)`, that cover the domain."""
    lo = [a - rng.choice([0, .3]) for a in scene.lows]
    hi = [a + rng.choice([0, .3]) for a in scene.highs]
    doms = [(lo, hi)]
    for _ in range(rng.choice([0, 1, 1, 2])):
        i = rng.randrange(len(doms))
        a, b = doms.pop(i)
        axis = rng.randrange(scene.n)
        c = round(a[axis] + (b[axis] - a[axis]) * rng.uniform(.3, .7), 2)
        b1, a1 = list(b), list(a)
        b1[axis] = a1[axis] = c
        doms += [(a, b1), (a1, b)]
    rng.shuffle(doms)
    return [poly.normal(*poly.box(a, b)) for a, b in doms], (lo, hi)


def pwa_system(rng, scene, disturbed=False, state_input=False,
               strength=None):
    from tulip import hybrid
    doms, outer = slices(rng, scene)
    m = rng.choice([scene.n, scene.n, 1])
    dyns = [hyb.rand_dyn(
        rng, scene.lows, scene.highs, disturbed, state_input, strength, m)
        for _ in doms]
    if disturbed:
        p = dyns[0].E.shape[1]
        for d in dyns[1:]:
            d.E, d.W = dyns[0].E, dyns[0].W
    pwa = hybrid.PwaSysDyn(
        [hyb.lti(d, to_poly(q)) for d, q in zip(dyns, doms)],
        to_poly(poly.normal(*poly.box(*outer))))
    return pwa, dyns, doms
