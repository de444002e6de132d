"""W02: reachability, and worlds that are generated."""
from rt import grid
from rt.core import Check

check = Check(
    'W02',
    rule='a distinct case is a world, by content',
    require=['reach.yes', 'reach.no', 'random.worlds', 'random.feasible',
             'random.trolls', 'random.timeout', 'passage.worlds',
             'passage.refused'],
    assumptions=['worlds with as many free cells as the things to place'])


def model(g):
    n, k, walls, init, goals = grid.content(g)
    return grid.World(n, k, walls, init, goals)


@check.case(quick=1500, thorough=40000)
def reach(rng, m):
    w = grid.rand_world(rng, 6)
    g = grid.build(w)
    m.sig(w.key())
    for _ in range(6):
        a, b = rng.choice(w.cells), rng.choice(w.cells)
        want = b in w.reach(a)
        m.ev('yes' if want else 'no')
        neg = [(c[0] - rng.choice([0, w.rows]),
                c[1] - rng.choice([0, w.cols])) for c in (a, b)]
        got = g.is_reachable(*neg)
        m.check(got == want, 'reachability', world=w.key(), start=neg[0],
                stop=neg[1], got=got, want=want)


@check.case(quick=400, thorough=10000)
def random(rng, m):
    import numpy as np
    from tulip import gridworld as gw
    np.random.seed(rng.randrange(2**32))
    n, k = rng.randint(1, 7), rng.randint(1, 7)
    goals, init = rng.randint(0, 3), rng.randint(0, 3)
    trolls = rng.choice([0, 0, 1, 2])
    density = rng.choice([0, 0.1, 0.2, 0.3, 0.5, 0.7])
    blocks = int(np.round(density * n * k))
    feasible = rng.random() < 0.5
    used = goals + init + trolls
    if blocks + used > n * k:
        blocks = None
        density = 0
        if used > n * k:
            goals = init = trolls = 0
        blocks = 0
    kw = dict(prefix=rng.choice(['Y', 'Z_1']), ensure_feasible=feasible,
              num_trolls=trolls)
    if feasible:
        kw['timeout'] = 0.4
    r = gw.random_world((n, k), density, init, goals, **kw)
    if r is None:
        m.check(feasible, 'no world')
        m.ev('timeout')
        return
    if trolls:
        g, tr = r
        m.ev('trolls', len(tr))
    else:
        g, tr = r, list()
    w = model(g)
    m.sig(w.key())
    m.ev('worlds')
    here = dict(size=(n, k), density=density, init=init, goals=goals,
                trolls=tr, world=w.key())
    m.check((w.rows, w.cols) == (n, k), 'size', **here)
    m.check(g.prefix == kw['prefix'], 'prefix', **here)
    m.check(len(w.walls) == blocks, 'number of walls', want=blocks, **here)
    centers = [(int(c[0]), int(c[1])) for c, _ in tr]
    m.check(all(r == 1 for _, r in tr), 'radius of trolls', **here)
    m.check((len(w.init), len(w.goals), len(tr)) == (init, goals, trolls),
            'number of initial cells, goals, and trolls', **here)
    used = w.init + w.goals + centers
    m.check(len(set(used)) == len(used) and set(used) <= set(w.free),
            'cells used for different things', **here)
    if feasible:
        m.ev('feasible')
        points = w.init + w.goals
        m.check(not points or set(points) <= w.reach(points[0]),
                'cells that cannot reach each other', **here)


@check.case(quick=400, thorough=10000)
def passage(rng, m):
    import random as _random
    import numpy as np
    from tulip import gridworld as gw
    seed = rng.randrange(2**32)
    np.random.seed(seed)
    _random.seed(seed)
    n, k = rng.randint(2, 9), rng.randint(2, 12)
    width = rng.randint(1, max(1, n - 1))
    length = rng.choice([0.0, 0.2, 0.4, 0.7, 1.0])
    init, goals = rng.randint(0, 3), rng.randint(0, 3)
    top = rng.choice([None, 0, n - width])
    prefix = rng.choice(['Y', 'Z'])
    try:
        g = gw.narrow_passage(
            (n, k), width, init, goals, length, top, prefix)
    except ValueError:
        m.ev('refused')
        m.check(n < 3 or k < 3, 'world was refused', size=(n, k),
                width=width, init=init, goals=goals)
        return
    m.ev('worlds')
    w = model(g)
    m.sig(w.key())
    here = dict(size=(n, k), width=width, length=length, world=w.key())
    m.check((w.rows, w.cols) == (n, k) and g.prefix == prefix,
            'size and prefix', **here)
    m.check(n >= 3 and k >= 3, 'too small a world', **here)
    m.check(len(set(w.init)) == init and len(set(w.goals)) == goals,
            'number of initial cells and goals', **here)
    m.check(not (set(w.init) | set(w.goals)) & w.walls
            and not set(w.init) & set(w.goals),
            'cells used for different things', **here)
    m.check(set(w.free) == w.reach(w.free[0]), 'zones not connected', **here)
    middle = sorted({j for i, j in w.walls})
    m.check(middle == list(range(middle[0], middle[-1] + 1))
            if middle else True, 'middle of the world', **here)
    if not middle:
        return
    left, right = middle[0], middle[-1]
    m.check(all(j < left for i, j in w.init) and
            all(j > right for i, j in w.goals),
            'initial cells in the left zone, goals in the right zone',
            **here)
    open_ = {j: [i for i in range(n) if (i, j) not in w.walls]
             for j in middle}
    rows = open_[left]
    m.check(all(x == rows for x in open_.values()) and len(rows) == width
            and rows == list(range(rows[0], rows[0] + width))
            and (top is None or rows[0] == top),
            'passage', rows=rows, top=top, **here)
    m.check(abs(len(middle) - length * k) <= 2, 'length of the passage',
            **here)
