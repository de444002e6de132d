"""H01: partitions that preserve propositions."""
import numpy as np

from rt import hyb, poly
from rt.core import Check
from rt.part import (
    EPS, Scene, dense, judge, partition, pwa_system, quiet, to_poly)

check = Check(
    'H01',
    rule='a distinct case is a domain with propositions and refinement',
    require=['part.points', 'part.labeled', 'part.adjacent', 'part.apart',
             'part.regions', 'convex.split', 'pwa.cells', 'pwa.split',
             'grid.cells', 'grid.refused', 'grid.by_number',
             'grid.by_size', 'ts.edges', 'ts.absent', 'build.outside',
             'build.unknown', 'build.shape', 'build.wrong_label',
             'build.missing_label'],
    assumptions=[
        'points closer than 1e-5 to the boundary of a set are not judged',
        'cells that touch in a set of dimension smaller than a facet '
        'may be adjacent or not'])

@check.case(quick=40, thorough=3000, cpu=120)
def part(rng, m):
    quiet()
    scene = Scene(rng, most=4)
    if rng.random() < .3:
        scene.tile(rng)
        m.ev('tiles')
    domain, props = scene.build()
    from tulip import abstract
    p = abstract.prop2part(domain, props)
    m.sig(scene.content())
    # a partition is not changed by what happens to its propositions
    if props and rng.random() < .3:
        props.pop(sorted(props)[0])
        props['zz'] = domain.copy()
        m.check(set(p.prop_regions) == set(scene.props),
                'propositions of the partition changed',
                got=sorted(p.prop_regions))
    judge(rng, m, scene, p)
    i = rng.randrange(len(p.regions))
    props = p.reg2props(i)
    m.check(props == p.regions[i].props, 'propositions of region')
    props.add('zz')
    m.check('zz' not in p.regions[i].props,
            'propositions of region were not copied')


@check.case(quick=26, thorough=2000, cpu=120)
def convex(rng, m):
    from tulip import abstract
    quiet()
    scene = Scene(rng)
    p = partition(scene)
    before = len(p.regions)
    q, new2old = abstract.part2convex(p)
    m.sig(scene.content())
    m.check(len(p.regions) == before, 'argument was changed')
    judge(rng, m, scene, q)
    old = [poly.pieces(r) for r in p.regions]
    m.check(len(new2old) == len(q.regions), 'length of map')
    if len(q.regions) > before:
        m.ev('split')
    for i, r in enumerate(q.regions):
        ps = poly.pieces(r)
        m.check(len(ps) == 1, 'cell is not convex', cell=i,
                scene=scene.content())
        for x in poly.points(rng, ps, 4):
            m.check(poly.depth(old[new2old[i]], x) > -EPS,
                    'cell is not within the cell that it is mapped to',
                    cell=i, old=new2old[i], scene=scene.content())


@check.case(quick=26, thorough=2000, cpu=120)
def pwa(rng, m):
    from tulip import abstract
    from tulip.abstract import prop2partition as p2p
    quiet()
    scene = Scene(rng)
    p = partition(scene)
    system, dyns, doms = pwa_system(rng, scene)
    q, subs, parents = p2p.pwa_partition(system, p)
    m.sig([scene.content(), [a.tolist() for d in doms for a in d]])
    judge(rng, m, scene, q)
    m.check(len(subs) == len(parents) == len(q.regions),
            'length of maps')
    if len(q.regions) > len(p.regions):
        m.ev('split')
    old = [poly.pieces(r) for r in p.regions]
    for i, r in enumerate(q.regions):
        m.ev('cells')
        for x in poly.points(rng, poly.pieces(r), 4):
            info = dict(cell=i, sub=subs[i], parent=parents[i],
                        scene=scene.content(), x=x.tolist())
            m.check(poly.depth([doms[subs[i]]], x) > -EPS,
                    'cell is not within the domain of its subsystem',
                    **info)
            m.check(poly.depth(old[parents[i]], x) > -EPS,
                    'cell is not within the cell that it is mapped to',
                    **info)
    # the system has to be defined at all of the domain
    lo = list(scene.lows)
    axis = rng.randrange(scene.n)
    lo[axis] += .3 * (scene.highs[axis] - lo[axis])
    from tulip import hybrid
    small = to_poly(poly.normal(*poly.box(lo, scene.highs)))
    system = hybrid.PwaSysDyn([hyb.lti(dyns[0], small)], small)
    if poly.extreme_point(
            *scene.domain, -np.eye(scene.n)[axis])[axis] < lo[axis] - .05:
        try:
            p2p.pwa_partition(system, p)
        except Exception:
            m.ev('refused')
        else:
            m.check(False, 'system that is not defined everywhere '
                    'was accepted')


@check.case(quick=20, thorough=1500, cpu=120)
def grid(rng, m):
    from tulip import abstract
    quiet()
    n = rng.choice([1, 2, 2, 2, 3])
    scene = Scene(rng, n=n, most=2)
    p = partition(scene)
    most = {1: 6, 2: 3, 3: 2}[n]
    corner = poly.vertices(*scene.domain) if n < 3 else None
    bb_lo = [poly.extreme_point(*scene.domain, -e)[i]
             for i, e in enumerate(np.eye(n))]
    bb_hi = [poly.extreme_point(*scene.domain, e)[i]
             for i, e in enumerate(np.eye(n))]
    span = [b - a for a, b in zip(bb_lo, bb_hi)]
    if rng.random() < .5:
        m.ev('by_number')
        num = [rng.randint(1, most) for _ in range(n)]
        if rng.random() < .5:
            arg, num = num[0], [num[0]] * n
        else:
            arg = list(num)
        kw = dict(num_grid_pnts=arg)
        size = [s / k for s, k in zip(span, num)]
    else:
        m.ev('by_size')
        size = [round(s / rng.uniform(.9, most), 2) for s in span]
        if rng.random() < .5:
            size = [float(max(size))] * n
            arg = size[0]
        else:
            arg = list(size)
        kw = dict(grid_size=arg)
        num = [int(np.ceil(s / z - 1e-9)) for s, z in zip(span, size)]
    q = abstract.add_grid(p, **kw)
    m.sig([scene.content(), kw])
    judge(rng, m, scene, q)
    for i, r in enumerate(q.regions):
        m.ev('cells')
        ps = poly.pieces(r)
        for k in range(n):
            e = np.eye(n)[k]
            hi = max(poly.extreme_point(*a, e)[k] for a in ps)
            lo = min(poly.extreme_point(*a, -e)[k] for a in ps)
            # same interval of the grid
            j = np.floor(((hi + lo) / 2 - bb_lo[k]) / size[k])
            a = bb_lo[k] + j * size[k]
            m.check(lo >= a - 1e-6 and hi <= a + size[k] + 1e-6,
                    'cell is not within a box of the grid',
                    cell=i, interval=[lo, hi], size=size,
                    scene=scene.content(), **kw)
    bad = rng.choice([
        dict(), dict(grid_size=.5, num_grid_pnts=2),
        dict(grid_size=[.5] * (n + 1)), dict(num_grid_pnts=[2] * (n + 1)),
        dict(num_grid_pnts=[1.5] * n), dict(num_grid_pnts='a'),
        dict(grid_size='a')])
    try:
        abstract.add_grid(p, **bad)
    except Exception:
        m.ev('refused')
    else:
        m.check(False, 'invalid description of grid was accepted', **bad)


@check.case(quick=20, thorough=1500, cpu=120)
def ts(rng, m):
    from tulip import abstract
    from tulip.abstract import prop2partition as p2p
    quiet()
    scene = Scene(rng)
    p = partition(scene)
    if rng.random() < .5:
        p, _ = abstract.part2convex(p)
    g, states = p2p.ppp2ts(p)
    states = list(states)
    m.sig(scene.content())
    m.check(len(states) == len(set(states)) == len(p.regions),
            'states and cells differ in number')
    m.check(set(g.states()) == set(states), 'states of the system')
    m.check(set(g.atomic_propositions) == set(scene.props),
            'atomic propositions')
    adj = dense(p.adj)
    edges = {(a, b) for a, b in g.edges()}
    for i, a in enumerate(states):
        m.check(set(g.states[a]['ap']) == set(p.regions[i].props),
                'label of state')
        for j, b in enumerate(states):
            m.ev('edges' if adj[i, j] else 'absent')
            m.check(((a, b) in edges) == bool(adj[i, j]),
                    'edges differ from adjacency', cells=[i, j],
                    scene=scene.content())


@check.case(quick=20, thorough=1500, cpu=120)
def build(rng, m):
    """Construction of partitions from regions."""
    import polytope as pc
    from tulip.abstract import prop2partition as p2p
    quiet()
    scene = Scene(rng)
    if not scene.props:
        scene.props['a'] = scene.prop(rng, True)
    p = partition(scene)
    domain, props = scene.build()

    def make(regions, adj=None):
        return p2p.PropPreservingPartition(
            domain=domain, regions=regions, adj=adj, prop_regions=props)

    def copies():
        return [pc.Region(list(r.list_poly), set(r.props))
                for r in p.regions]
    cells = copies()
    q = make(cells, p.adj)
    if rng.random() < .5:
        cells.reverse()
        cells.append(cells[0].copy())
        props['zz'] = domain.copy()
        m.check(set(q.prop_regions) == set(scene.props),
                'propositions of the partition changed',
                got=sorted(q.prop_regions))
        del props['zz']
    judge(rng, m, scene, q)
    m.check(q.preserves_predicates(), 'partition is claimed not to '
            'preserve propositions', scene=scene.content())
    # a cell that is labeled, but is not within the proposition
    rs4 = [pc.Region([domain.copy()], set(rng.sample(
        sorted(scene.props), rng.randint(0, len(scene.props)))))]
    right = len({frozenset(r.props) for r in p.regions}) == 1 and (
        rs4[0].props == p.regions[0].props)
    sizes = [max(poly.cheby(*a)[0] for a in poly.pieces(r))
             for r in p.regions]
    if min(sizes) > 1e-2:
        m.ev('coarse')
        m.check(make(rs4).preserves_predicates() == right,
                'whether the partition with one cell preserves '
                'propositions', label=sorted(rs4[0].props),
                scene=scene.content(), want=right)
    m.sig(scene.content())
    i = rng.randrange(len(p.regions))
    # region outside the domain
    rs = copies()
    lo = [a - .3 for a in scene.lows]
    rs[i] = pc.Region([to_poly(poly.box(lo, scene.highs))], rs[i].props)
    _refused(m, 'outside', ValueError, lambda: make(rs, p.adj))
    rs2 = copies()
    rs2[i].props.add('unknown')
    _refused(m, 'unknown', ValueError, lambda: make(rs2, p.adj))
    k = len(rs)
    shape = rng.choice([(k + 1, k + 1), (k, k + 1), (k + 1, k)])
    _refused(m, 'shape', ValueError,
             lambda: make(copies(), np.ones(shape)))
    # wrong labels
    rs3 = copies()
    name = rng.choice(sorted(scene.props))
    if name in rs3[i].props:
        rs3[i].props.discard(name)
        m.ev('missing_label')
    else:
        rs3[i].props.add(name)
        m.ev('wrong_label')
    big = max(poly.cheby(*a)[0] for a in poly.pieces(p.regions[i]))
    if big > 1e-2:
        m.check(not make(rs3, p.adj).preserves_predicates(),
                'partition with a wrong label is claimed to preserve '
                'propositions', cell=i, prop=name,
                scene=scene.content())


def _refused(m, name, kind, fn):
    try:
        fn()
    except kind:
        m.ev(name)
    else:
        m.check(False, f'{name} was accepted')
