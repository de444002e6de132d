"""W04: the partition of the plane that a gridworld defines."""
from rt import grid
from rt.core import Check

check = Check(
    'W04',
    rule='a distinct case is a world with lengths and corner',
    require=['plane.cells', 'plane.points', 'plane.adjacent'],
    assumptions=[
        'lengths of sides are at least 0.25, well above tolerances of '
        'polytope'])


@check.case(quick=60, thorough=1500, cpu=60)
def plane(rng, m):
    import numpy as np
    w = grid.rand_world(rng, 4)
    g = grid.build(w, 'Q')
    a = rng.choice([0.25, 0.5, 1.0, 1.0, 2.0, 3.5])
    b = rng.choice([0.25, 0.5, 1.0, 1.0, 2.0])
    x0, y0 = rng.choice([(0, 0), (-3, 2.5), (1.5, -7)])
    nonbool = rng.random() < 0.5
    m.sig((w.rows, w.cols, a, b, x0, y0, nonbool))
    p = g.dump_ppartition(
        side_lengths=(a, b), offset=(x0, y0), nonbool=nonbool)
    here = dict(size=(w.rows, w.cols), sides=(a, b), corner=(x0, y0))

    def cell(x, y):
        return (w.rows - 1 - int((y - y0) // b), int((x - x0) // a))
    name = {c: g.__getitem__(c, nonbool=nonbool) for c in w.cells}
    m.check(len(p.regions) == len(w.cells), 'number of regions',
            got=len(p.regions), **here)
    at = dict()
    for k, r in enumerate(p.regions):
        m.ev('cells')
        m.check(len(r.props) == 1 and set(r.props) <= set(name.values()),
                'propositions of a region', got=sorted(r.props), **here)
        c, = [c for c in w.cells if name[c] in r.props]
        m.check(c not in at, 'two regions of a cell', cell=c, **here)
        at[c] = k
        low, high = (np.array(x).flatten() for x in r.bounding_box)
        want = [x0 + c[1] * a, y0 + (w.rows - 1 - c[0]) * b]
        m.check(np.allclose(low, want) and np.allclose(
            high, [want[0] + a, want[1] + b]), 'region of a cell',
            cell=c, low=low.tolist(), high=high.tolist(), **here)
    m.check(set(p.prop_regions) == set(name.values()), 'propositions',
            got=sorted(p.prop_regions), **here)
    for _ in range(10):
        x = x0 + rng.random() * a * w.cols
        y = y0 + rng.random() * b * w.rows
        fx, fy = ((x - x0) / a) % 1, ((y - y0) / b) % 1
        if min(fx, 1 - fx, fy, 1 - fy) < 1e-3:
            continue
        m.ev('points')
        pt = np.array([x, y])
        got = [k for k, r in enumerate(p.regions) if pt in r]
        m.check(got == [at[cell(x, y)]], 'region of a point',
                point=(x, y), got=got, want=cell(x, y), **here)
        m.check(pt in p.domain, 'point in the domain', point=(x, y))
    for pt in [(x0 - 0.1, y0 + b / 2), (x0 + a / 2, y0 - 0.1),
               (x0 + a * w.cols + 0.1, y0 + b / 2),
               (x0 + a / 2, y0 + b * w.rows + 0.1)]:
        m.check(np.array(pt) not in p.domain, 'point outside the domain',
                point=pt, **here)
    adj = p.adj.toarray() if hasattr(p.adj, 'toarray') else np.array(p.adj)
    for c in w.cells:
        for d in w.cells:
            dist = abs(c[0] - d[0]) + abs(c[1] - d[1])
            far = max(abs(c[0] - d[0]), abs(c[1] - d[1])) > 1
            got = bool(adj[at[c], at[d]])
            if dist <= 1:
                m.ev('adjacent')
                m.check(got, 'neighbors are adjacent', cells=(c, d), **here)
            elif far:
                m.check(not got, 'cells far apart are not adjacent',
                        cells=(c, d), **here)
