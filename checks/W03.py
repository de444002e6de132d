"""W03: specifications of gridworlds allow exactly the legal moves."""
import itertools

from rt import grid, ltl
from rt.core import Check

check = Check(
    'W03',
    rule='a distinct case is a world with its way of writing it',
    require=['moves.allowed', 'moves.forbidden', 'moves.initial',
             'moves.goals', 'trolls.allowed', 'trolls.forbidden',
             'trolls.collisions', 'trolls.states', 'trolls.initial',
             'trolls.refused'],
    assumptions=[
        'steps are judged from states that are at one free cell; the '
        'initial condition and the steps keep to such states'])


def formulas(xs):
    """Trees, for a string or list of strings."""
    if isinstance(xs, str):
        xs = [xs]
    return [ltl.parse(x) for x in xs if x.strip()]


def now(ts, v):
    w = ltl.Lasso([], [v])
    return all(ltl.holds(t, w) for t in ts)


def step(ts, u, v):
    w = ltl.Lasso([u], [v])
    return all(ltl.holds(t, w) for t in ts)


def values(dom):
    if dom == 'boolean':
        return [False, True]
    if isinstance(dom, tuple):
        return list(range(dom[0], dom[1] + 1))
    return list(dom)


def name(prefix, c, off=(0, 0)):
    return f'{prefix}_{c[0] + off[0]}_{c[1] + off[1]}'


def state(w, c, prefix, nonbool, off=(0, 0)):
    if nonbool:
        return {f'{prefix}_r': c[0], f'{prefix}_c': c[1]}
    return {name(prefix, d, off): d == c for d in w.cells}


def variables(w, prefix, nonbool, off=(0, 0)):
    if nonbool:
        return {f'{prefix}_r': set(range(w.rows)),
                f'{prefix}_c': set(range(w.cols))}
    return {name(prefix, d, off): {False, True} for d in w.cells}


def sides(spec):
    e = (spec.env_vars, spec.env_init, spec.env_safety, spec.env_prog)
    s = (spec.sys_vars, spec.sys_init, spec.sys_safety, spec.sys_prog)
    return e, s


def doms(d):
    return {k: set(values(x)) for k, x in d.items()}


def others(rng, w, prefix, nonbool, off):
    """Valuations that are at no cell, or several."""
    if nonbool:
        return list()
    names_ = [name(prefix, d, off) for d in w.cells]
    out = list()
    if len(names_) <= 4:
        for x in itertools.product([False, True], repeat=len(names_)):
            if sum(x) != 1:
                out.append(dict(zip(names_, x)))
    else:
        out.append(dict.fromkeys(names_, False))
        for _ in range(8):
            k = rng.randint(2, min(4, len(names_)))
            on = set(rng.sample(names_, k))
            out.append({n: n in on for n in names_})
    return out


@check.case(quick=450, thorough=12000)
def moves(rng, m):
    nonbool = rng.random() < 0.5
    w = grid.rand_world(rng, 4 if nonbool else 3, overlap=True)
    prefix = rng.choice(['Y', 'robot_1'])
    off = rng.choice([(0, 0), (2, 1), (0, 3)]) if not nonbool else (0, 0)
    controlled = rng.random() < 0.5
    g = grid.build(w, prefix)
    before = grid.content(g)
    spec = g.spec(offset=off, controlled_dyn=controlled, nonbool=nonbool)
    m.check(grid.content(g) == before and g.offset == (0, 0),
            'the world changed')
    m.sig((w.key(), nonbool, controlled, off))
    e, s = sides(spec)
    mine, rest = (s, e) if controlled else (e, s)
    here = dict(world=w.key(), nonbool=nonbool, controlled=controlled,
                offset=off)
    m.check(not rest[0] and not formulas(rest[1]) and not formulas(rest[2])
            and all(t == ('bool', 'True') for t in formulas(rest[3])),
            'the other player is not constrained', rest=rest, **here)
    m.check(doms(mine[0]) == variables(w, prefix, nonbool, off),
            'variables', got=mine[0], **here)
    init, safety, prog = map(formulas, mine[1:])
    st = {c: state(w, c, prefix, nonbool, off) for c in w.cells}
    junk = others(rng, w, prefix, nonbool, off)
    if w.init:
        for c in w.cells:
            m.ev('initial')
            m.check(now(init, st[c]) == (c in w.init), 'initial cell',
                    cell=c, init=mine[1], **here)
        for v in junk:
            m.check(not now(init, v), 'initially not at one cell',
                    state=v, init=mine[1], **here)
    free = w.free
    for c in free:
        legal = set(w.near(c)) | {c}
        for d in w.cells:
            want = d in legal
            m.ev('allowed' if want else 'forbidden')
            m.check(step(safety, st[c], st[d]) == want, 'move',
                    start=c, stop=d, want=want, safety=mine[2], **here)
        for v in rng.sample(junk, min(3, len(junk))):
            m.check(not step(safety, st[c], v), 'move to no single cell',
                    start=c, stop=v, safety=mine[2], **here)
    got = sorted(tuple(c for c in w.cells if now([t], st[c]))
                 for t in prog if t != ('bool', 'True'))
    m.ev('goals', len(got))
    m.check(got == sorted((c,) for c in w.goals), 'recurrent goals',
            got=got, prog=mine[3], **here)


@check.case(quick=250, thorough=6000)
def trolls(rng, m):
    from tulip import gridworld as gw
    nonbool = rng.random() < 0.5
    w = grid.rand_world(rng, 4 if nonbool else 3, overlap=True)
    g = grid.build(w, 'Y')
    prefix = rng.choice(['X', 'T_a'])
    tr = [(rng.choice(w.free), rng.randint(0, 2))
          for _ in range(rng.randint(1, 2))]
    anywhere = rng.random() < 0.5
    lists = rng.random() < 0.7
    here = dict(world=w.key(), trolls=tr, nonbool=nonbool,
                anywhere=anywhere)
    if rng.random() < 0.3:
        i, j = rng.choice(w.cells)
        bad = rng.choice([(w.rows, j), (i, w.cols), (-1, j), (i, -1),
                          (w.rows + 1, w.cols)])
        try:
            gw.add_trolls(g, [*tr, (bad, rng.randint(0, 2))],
                          prefix=prefix, nonbool=nonbool)
        except ValueError:
            m.ev('refused')
        else:
            m.check(False, 'a troll outside the world', center=bad, **here)
    r = gw.add_trolls(g, tr, prefix=prefix, start_anywhere=anywhere,
                      nonbool=nonbool, get_moves_lists=lists)
    m.sig((w.key(), tr, nonbool, anywhere))
    spec, states = r if lists else (r, None)
    e, s = sides(spec)
    # the part of the world where each troll moves
    part = list()
    env = dict()
    for k, ((a, b), rad) in enumerate(tr):
        cells = [c for c in w.cells
                 if abs(c[0] - a) <= rad and abs(c[1] - b) <= rad]
        low = min(cells)
        high = max(cells)
        sub = grid.World(
            high[0] - low[0] + 1, high[1] - low[1] + 1,
            [(i - low[0], j - low[1]) for i, j in cells
             if (i, j) in w.walls])
        off = low
        part.append((f'{prefix}_{k}', sub, off, (a - low[0], b - low[1])))
        env.update(variables(sub, f'{prefix}_{k}', nonbool, off))
    m.check(doms(e[0]) == env, 'variables of trolls', got=e[0], want=env,
            **here)
    m.check(doms(s[0]) == variables(w, 'Y', nonbool), 'variables',
            got=s[0], **here)
    einit, esafe, eprog = map(formulas, e[1:])
    sinit, ssafe, sprog = map(formulas, s[1:])

    def joint(cs):
        v = dict()
        for (pre, sub, off, _), c in zip(part, cs):
            v.update(state(sub, c, pre, nonbool, off))
        return v
    free = [sub.free for _, sub, _, _ in part]
    every = [sub.cells for _, sub, _, _ in part]

    def at(cs):
        """Cells of the world."""
        return [(c[0] + p[2][0], c[1] + p[2][1]) for p, c in zip(part, cs)]
    for _ in range(6):
        cs = [rng.choice(x) for x in every]
        if rng.random() < 0.5:
            cs = [p[3] for p in part]
        want = all(
            c in x if anywhere else c == p[3]
            for c, p, x in zip(cs, part, free))
        m.ev('initial')
        m.check(now(einit, joint(cs)) == want, 'initially',
                cells=cs, want=want, init=e[1], **here)
    for _ in range(25):
        cs = [rng.choice(x) for x in free]
        y = rng.choice(w.free)
        ds = list()
        for c, p, x in zip(cs, part, every):
            sub = p[1]
            ds.append(rng.choice(
                sub.near(c) + [c] if rng.random() < 0.75 else x))
        z = rng.choice(w.near(y) + [y] if rng.random() < 0.75
                       else w.cells)
        if rng.random() < 0.3:
            z = rng.choice(at(ds))
        u = joint(cs) | state(w, y, 'Y', nonbool)
        v = joint(ds) | state(w, z, 'Y', nonbool)
        want = all(d == c or d in p[1].near(c)
                   for c, d, p in zip(cs, ds, part))
        m.ev('allowed' if want else 'forbidden')
        m.check(step(esafe, u, v) == want, 'moves of trolls',
                start=cs, stop=ds, want=want, **here)
        hit = z in at(ds)
        want = (z == y or z in w.near(y)) and not hit
        if hit:
            m.ev('collisions')
        m.check(step(ssafe, u, v) == want, 'move among trolls',
                start=(y, at(cs)), stop=(z, at(ds)), want=want, **here)
    # trolls return to their centers
    got = list()
    for t in eprog:
        if t == ('bool', 'True'):
            continue
        for k, (pre, sub, off, mid) in enumerate(part):
            v = {x: min(q) - 1 if nonbool else False
                 for x, q in env.items()}
            for c in sub.cells:
                if now([t], v | state(sub, c, pre, nonbool, off)):
                    got.append((k, c))
    m.check(sorted(got) == [(k, p[3]) for k, p in enumerate(part)],
            'recurrent cells of trolls', got=got, prog=e[3], **here)
    if states is None:
        return
    m.check(len(states) == len(tr), 'a list of states for each troll')
    for (pre, sub, off, _), xs in zip(part, states):
        m.ev('states', len(xs))
        want = [state(sub, c, pre, nonbool, off) for c in sub.cells]
        must = [state(sub, c, pre, nonbool, off) for c in sub.free]
        m.check(all(x in want for x in xs) and all(x in xs for x in must),
                'states of a troll', got=xs, want=want, **here)
