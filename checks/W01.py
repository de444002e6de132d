"""W01: descriptions, copies, names, and parts of gridworlds."""
import os

from rt import grid, ltl
from rt.core import Check

check = Check(
    'W01',
    rule='a distinct case is a description, world, or part of a world',
    require=['text.read', 'text.missing_rows', 'text.comments',
             'text.refused', 'copy.changed', 'eq.same', 'eq.different',
             'empty.refused',
             'names.cells', 'names.refused', 'parts.extended',
             'parts.refused', 'parts.scaled', 'pretty.cells',
             'pretty.paths'],
    assumptions=[
        'goal cells that are initial cells too are not compared after '
        'printing, which shows one symbol for each cell'])


def text_of(w):
    rows = list()
    for i in range(w.rows):
        s = ''
        for j in range(w.cols):
            c = (i, j)
            s += ('*' if c in w.walls else 'I' if c in w.init
                  else 'G' if c in w.goals else ' ')
        rows.append(s)
    return rows


@check.case(quick=700, thorough=20000)
def text(rng, m):
    from tulip import gridworld as gw
    w = grid.rand_world(rng, 6)
    w.init.sort()
    w.goals.sort()
    rows = text_of(w)
    comment = rng.random() < 0.4
    lines = list()

    def notes():
        for _ in range(rng.choice([0, 0, 1, 2])):
            lines.append('#' + rng.choice(
                ['', ' a comment', '3 4', '***', ' 2 3', 'G']))
            m.ev('comments')
    for _ in range(rng.choice([0, 0, 1, 2])):
        lines.append(rng.choice(['', '   ', '\t']))
    notes()
    if rng.random() < 0.3:
        lines.append('  # comment')
    sep = rng.choice([' ', '  ', '\t'])
    lines.append(rng.choice(['', ' ']) + f'{w.rows}{sep}{w.cols}'
                 + rng.choice(['', ' ']))
    drop = 0
    while drop < len(rows) and not rows[-1 - drop].strip():
        drop += 1
    drop = rng.randint(0, drop)
    if drop:
        m.ev('missing_rows')
    for r in rows[:len(rows) - drop]:
        if comment:
            notes()
        style = rng.choice(['full', 'strip', 'more', 'symbols'])
        if style == 'strip':
            r = r.rstrip()
        elif style == 'more':
            r += '    '
        elif style == 'symbols':
            r += rng.choice(['*', 'G', 'xyz', '| 3'])
        lines.append(r)
    if not drop:
        for _ in range(rng.choice([0, 0, 1, 2])):
            lines.append(rng.choice(['', '***', 'anything', '# comment']))
    desc = '\n'.join(lines) + rng.choice(['', '\n'])
    m.sample(desc)
    m.sig(w.key())
    how = rng.choice(['init', 'loads', 'load'])
    if how == 'init':
        g = gw.GridWorld(desc, prefix='Q')
        m.check(g.prefix == 'Q', 'prefix', got=g.prefix)
    elif how == 'loads':
        g = gw.GridWorld.loads(desc)
    else:
        with open('world.txt', 'w') as f:
            f.write(desc)
        g = gw.GridWorld.load('world.txt')
        os.remove('world.txt')
    m.ev('read')
    want = (w.rows, w.cols, sorted(w.walls), w.init, w.goals)
    m.check(grid.content(g) == want, 'world of the description',
            desc=desc, got=grid.content(g), want=want)
    prefix = rng.choice(['', '', '# ', 'v '])
    out = g.dumps(line_prefix=prefix)
    m.check(all(x.startswith(prefix) for x in out.splitlines()),
            'prefix of lines', out=out)
    out = '\n'.join(x[len(prefix):] for x in out.splitlines())
    h = gw.GridWorld(out)
    m.check(grid.content(h) == want and h == g,
            'world that was dumped and loaded', out=out,
            got=grid.content(h), want=want)
    # descriptions with unknown symbols are refused
    k = rng.randrange(w.rows)
    j = rng.randrange(w.cols)
    bad = text_of(w)
    x = rng.choice('xgi.o-|0')
    bad[k] = bad[k][:j] + x + bad[k][j + 1:]
    try:
        gw.GridWorld(f'{w.rows} {w.cols}\n' + '\n'.join(bad))
    except ValueError:
        m.ev('refused')
    else:
        m.check(False, 'unknown symbol was read', rows=bad)
    try:
        gw.GridWorld('\n# none\n')
    except ValueError:
        pass
    else:
        m.check(False, 'description without size was read')


def change(rng, g, w):
    """Change one thing; return whether the world differs then."""
    k = rng.choice(['wall', 'goals', 'init', 'order', 'none'])
    if k == 'wall':
        c = rng.choice(w.cells)
        if c in w.walls:
            g.mark_empty(c)
        else:
            g.mark_occupied(c)
        return True
    if k == 'order':
        if len(g.goal_list) > 1:
            g.goal_list.reverse()
            return g.goal_list != w.goals
        return False
    if k == 'none':
        return False
    x = g.goal_list if k == 'goals' else g.init_list
    was = list(x)
    if x and rng.random() < 0.6:
        x.pop(rng.randrange(len(x)))
    else:
        was.append(None)
    free = [c for c in w.free if c not in x and c not in was]
    if free and rng.random() < 0.6:
        x.append(rng.choice(free))
    if was and was[-1] is None:
        was.pop()
    return x != was


@check.case(quick=700, thorough=20000)
def eq(rng, m):
    from tulip import gridworld as gw
    w = grid.rand_world(rng, 4, overlap=True)
    g, h = grid.build(w), grid.build(w, rng.choice(['Y', 'Z']))
    m.check(g == h and h == g and not g != h, 'equal worlds', world=w.key())
    m.ev('same')
    m.sig(w.key())
    if change(rng, h, w):
        m.ev('different')
        m.check(g != h and h != g and not g == h, 'different worlds',
                a=grid.content(g), b=grid.content(h))
    else:
        m.check(g == h, 'equal worlds', world=w.key())
    v = grid.rand_world(rng, 4)
    x = grid.build(v)
    m.check((x == g) == (grid.content(x) == grid.content(g)),
            'equality of two worlds', a=w.key(), b=v.key())
    e = gw.GridWorld()
    m.check(e == gw.GridWorld() and e != g and g != e, 'empty world')


@check.case(quick=500, thorough=20000)
def copy(rng, m):
    import copy as _copy
    from tulip import gridworld as gw
    w = grid.rand_world(rng, 4, overlap=True)
    g = grid.build(w, rng.choice(['Y', 'robot_1', 'x']))
    g.offset = rng.choice([(0, 0), (2, 1)])
    h = rng.choice([g.copy, lambda: _copy.copy(g)])()
    m.sig(w.key())
    want = grid.content(g)
    m.check(h is not g and grid.content(h) == want and h == g
            and h.prefix == g.prefix and h[0, 0] == g[0, 0],
            'copy', got=grid.content(h), want=want)
    for _ in range(3):
        if change(rng, h, w):
            m.ev('changed')
            m.check(grid.content(g) == want,
                    'a change to the copy changed the world',
                    got=grid.content(g), want=want)
    e = gw.GridWorld(prefix='E').copy()
    m.check(e == gw.GridWorld() and e.prefix == 'E'
            and e.size() == (0, 0), 'copy of the empty world')


@check.case(quick=500, thorough=20000)
def names(rng, m):
    from tulip import gridworld as gw
    w = grid.rand_world(rng, 4)
    prefix = rng.choice(['Y', 'robot_1', 'x_n', 'a_2_3'])
    g = grid.build(w, prefix)
    m.sig((w.rows, w.cols, prefix))
    off = rng.choice([(0, 0), (0, 0), (2, 1), (0, 3)])
    g.offset = off
    c = rng.choice(w.cells)
    trees = dict()
    seen = dict()
    for d in w.cells:
        neg = (d[0] - rng.choice([0, w.rows]), d[1] - rng.choice([0, w.cols]))
        f = g[neg]
        m.check(f == g[d], 'negative index', cell=d, neg=neg)
        trees[d] = ltl.parse(f)
        name = g.__getitem__(neg, nonbool=False)
        m.check(name not in seen, 'two cells with the same name',
                name=name, cells=(d, seen.get(name)))
        seen[name] = d
        got = gw.extract_coord(name)
        m.check(got == (prefix, d[0] + off[0], d[1] + off[1]),
                'coordinates of the name', name=name, got=got, cell=d)
        m.ev('cells')
    # a state is at exactly one cell
    v = g.state(c, offset=off)
    lasso = ltl.Lasso([dict.fromkeys(v, -1)], [v])
    for d in w.cells:
        m.check(ltl.holds(trees[d], ltl.Lasso([], [v])) == (d == c),
                'formula of a cell in the state of a cell',
                state=v, cell=c, formula=g[d])
        nx = ltl.parse(g.__getitem__(d, use_next=True))
        m.check(ltl.holds(nx, lasso) == (d == c),
                'next formula of a cell', state=v, cell=c, formula=g[d])
    b = g.state(c, offset=off, nonbool=False)
    m.check(set(b) == set(seen), 'Boolean variables of the state',
            got=sorted(b), want=sorted(seen))
    for d in w.cells:
        name = g.__getitem__(d, nonbool=False)
        m.check(bool(b[name]) == (d == c), 'Boolean state', state=b, cell=c)
        nx = ltl.parse(g.__getitem__(d, nonbool=False, use_next=True))
        m.check(nx == ('X', ('var', name)), 'next variable', got=nx)
    for bad in [(w.rows, 0), (0, w.cols), (-w.rows - 1, 0),
                (0, -w.cols - 1), (0,), (0, 0, 0)]:
        for f in (g.__getitem__, g.state,
                  lambda x: g.is_reachable(x, c),
                  lambda x: g.is_reachable(c, x)):
            try:
                got = f(bad)
            except ValueError:
                m.ev('refused')
            else:
                m.check(False, 'cell outside was accepted', cell=bad,
                        got=got)
    for x in ['Y', 'Y_1', 'Y_a_b', 'Y_1_b', 'a_2_n']:
        m.check(gw.extract_coord(x) is None, 'name without coordinates',
                name=x, got=gw.extract_coord(x))
    m.check(gw.extract_coord('Y_n_n') == ('Y', -1, -1), 'nowhere')


@check.case(quick=700, thorough=20000)
def parts(rng, m):
    w = grid.rand_world(rng, 5)
    g = grid.build(w)
    m.sig(w.key())
    n, k = rng.randint(1, 6), rng.randint(1, 6)
    off = (rng.randint(-7, 6), rng.randint(-7, 6))
    if rng.random() < 0.6:
        off = rng.choice(w.cells)
        n = rng.randint(1, w.rows - off[0])
        k = rng.randint(1, w.cols - off[1])
    inside = (off[0] >= 0 and off[1] >= 0 and off[0] + n <= w.rows
              and off[1] + k <= w.cols)

    def occupied(i, j):
        c = (i + off[0], j + off[1])
        return c not in w.cells or c in w.walls
    want = [(i, j) for i in range(n) for j in range(k) if occupied(i, j)]
    extend = rng.random() < 0.5
    try:
        s = g.dump_subworld((n, k), off, prefix='S', extend=extend)
    except ValueError:
        m.check(not extend and not inside, 'subworld was refused',
                size=(n, k), offset=off, world=w.key())
        m.ev('refused')
    else:
        m.check(extend or inside, 'subworld does not fit',
                size=(n, k), offset=off, world=w.key())
        if extend and not inside:
            m.ev('extended')
        m.check(grid.content(s) == (n, k, want, [], []),
                'subworld', size=(n, k), offset=off, world=w.key(),
                got=grid.content(s), want=want)
        m.check(s.prefix == 'S', 'prefix of the subworld')
        s.mark_occupied((0, 0))
        s.mark_empty((0, 0))
        m.check(grid.content(g) == (w.rows, w.cols, sorted(w.walls),
                                    w.init, w.goals),
                'a change to the subworld changed the world')
    # cells outside are occupied
    c = (rng.randint(-2, 7), rng.randint(-2, 7))
    m.check(g.is_empty(c, extend=True) == (c in w.cells
                                           and c not in w.walls),
            'empty cell, with walls outside', cell=c, world=w.key())
    c = rng.choice(w.cells)
    neg = (c[0] - rng.choice([0, w.rows]), c[1] - rng.choice([0, w.cols]))
    m.check(g.is_empty(neg) == (c not in w.walls), 'empty cell', cell=neg)
    # scaled
    xf, yf = rng.randint(1, 3), rng.randint(1, 3)
    g.prefix = rng.choice(['Y', 'Z_1'])
    s = g.scale(xf, yf)
    m.ev('scaled')
    m.check(s.prefix == g.prefix, 'prefix of the scaled world',
            got=s.prefix, want=g.prefix)
    walls = [(i, j) for i in range(w.rows * yf) for j in range(w.cols * xf)
             if (i // yf, j // xf) in w.walls]
    a, b, x, y, z = grid.content(s)
    m.check((a, b, x, sorted(y), sorted(z)) == (
        w.rows * yf, w.cols * xf, walls,
        sorted((i * yf, j * xf) for i, j in w.init),
        sorted((i * yf, j * xf) for i, j in w.goals)),
        'scaled world', world=w.key(), factors=(xf, yf),
        got=grid.content(s))


@check.case(quick=60, thorough=600)
def empty(rng, m):
    """The empty world has no cells."""
    from tulip import gridworld as gw
    e = gw.GridWorld(prefix=rng.choice(['Y', 'Z']))
    m.check(e.size() == (0, 0) and not e.goal_list and not e.init_list,
            'empty world')
    c = (rng.randint(0, 2), rng.randint(0, 2))
    d = (rng.randint(0, 2), rng.randint(0, 2))
    m.sig((c, d))
    for name, f in [
            ('key', lambda: e[c]),
            ('state', lambda: e.state(c)),
            ('empty', lambda: e.is_empty(c)),
            ('reachable', lambda: e.is_reachable(c, d)),
            ('occupied', lambda: e.mark_occupied(c)),
            ('mark empty', lambda: e.mark_empty(c)),
            ('part', lambda: e.dump_subworld((1, 1), c)),
            ('specification', lambda: e.spec())]:
        try:
            f()
        except ValueError:
            m.ev('refused')
        else:
            m.check(False, 'cells of the empty world', method=name)


@check.case(quick=500, thorough=10000)
def pretty(rng, m):
    w = grid.rand_world(rng, 6)
    g = grid.build(w)
    m.sig(w.key())
    path = list()
    if rng.random() < 0.7:
        free = [c for c in w.free if c not in w.init and c not in w.goals]
        c = rng.choice(w.free)
        path = [c]
        while rng.random() < 0.9:
            nx = [d for d in w.near(path[-1]) if d not in path]
            if not nx:
                break
            path.append(rng.choice(nx))
        if path[0] not in w.near(path[-1]):
            path = path + path[-2:0:-1]
    arrows = dict()
    for x, c in enumerate(path):
        d = path[(x + 1) % len(path)]
        a = {(1, 0): 'v', (-1, 0): '^', (0, 1): '>', (0, -1): '<'}.get(
            (d[0] - c[0], d[1] - c[1]), '.')
        arrows.setdefault(c, set()).add(a)
    grid_ = rng.random() < 0.5
    order = rng.random() < 0.5
    prefix = rng.choice(['', '# ', '  '])
    out = g.pretty(show_grid=grid_, line_prefix=prefix, path=path,
                   goal_order=order)
    if not path and not prefix and not order and grid_:
        m.check(str(g) == out, 'text of the world')
    lines = out.splitlines()
    m.check(all(x.startswith(prefix) for x in lines), 'prefix of lines')
    lines = [x[len(prefix):] for x in lines]
    if grid_:
        body = lines[2::2]
        body = [x[2:] for x in body]
        body = [x[1::2] for x in body]
    else:
        body = [x[1:-1] for x in lines[1:-1]]
    m.check(len(body) == w.rows and all(len(x) == w.cols for x in body),
            'shape of the picture', out=out, world=w.key())
    for (i, j) in w.cells:
        c = (i, j)
        m.ev('cells')
        if c in w.walls:
            want = '*'
        elif c in w.init:
            want = 'I'
        elif c in w.goals:
            want = str(w.goals.index(c)) if order else 'G'
        elif c in arrows:
            want = ''.join(arrows[c])
            m.ev('paths')
        else:
            want = ' '
        m.check(body[i][j] in want, 'symbol of a cell', out=out,
                cell=c, want=want, path=path)
