"""E02: plots of partitions, abstractions, strategies, trajectories."""
import numpy as np

from rt import poly
from rt.core import Check, Skip
from rt.flow import Flow, scene
from rt.abst import Case
from rt.part import dense, partition, quiet

check = Check(
    'E02',
    rule='a distinct case is a scene with dynamics, and what is plotted',
    require=['trajectory.drawn', 'trajectory.axes', 'trajectory.new',
             'strategy.pairs', 'strategy.arrows', 'graph.arrows',
             'graph.near', 'graph.labeled', 'sccs.alone',
             'sccs.together', 'modes.arrows', 'modes.near',
             'modes.numbers', 'movie.frames', 'movie.none', 'movie.dual'],
    assumptions=[
        'two-dimensional partitions',
        'arrows are compared with those that `polytope` draws'])


def figures():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    return plt


def arrows(ax):
    from matplotlib import patches
    return sorted(
        tuple(np.round(p.get_verts().flatten(), 6).tolist())
        for p in ax.patches if isinstance(p, patches.Arrow))


def expected(plt, ab, pairs, width=True):
    """Arrows between the cells of `pairs`."""
    import polytope.plot as pp
    _, ax = plt.subplots()
    l, u = ab.ppp.domain.bounding_box
    ax.set_xlim(l[0, 0], u[0, 0])
    ax.set_ylim(l[1, 0], u[1, 0])
    size = (u[0, 0] - l[0, 0]) / 50.
    for i, j in pairs:
        pp.plot_transition_arrow(
            ab.ppp.regions[i], ab.ppp.regions[j], ax, size)
    return ax


def ends(ax):
    """Pairs of end points of arrows, in data coordinates."""
    from matplotlib import patches
    out = list()
    for p in ax.patches:
        if not isinstance(p, patches.Arrow):
            continue
        t = p.get_patch_transform()
        a, b = t.transform([[0., 0.], [1., 0.]])
        out.append(tuple(np.round(np.r_[a, b], 5).tolist()))
    return sorted(out)


def same(m, what, have, want, info):
    m.check(len(have) == len(want) and
            all(np.allclose(a, b, atol=1e-4)
                for a, b in zip(have, want)),
            what, have=have[:20], want=want[:20], **info)


@check.case(quick=20, thorough=800, cpu=120)
def trajectory(rng, m):
    from tulip.abstract import plot
    from rt import hyb
    from rt.part import to_poly
    quiet()
    plt = figures()
    sc, _ = scene(rng)
    part = partition(sc)
    dyn = hyb.rand_dyn(rng, sc.lows, sc.highs, False, False)
    ssys = hyb.lti(dyn, to_poly(sc.domain))
    x = np.array([rng.uniform(a, b) for a, b in zip(sc.lows, sc.highs)])
    u = np.array([[rng.uniform(-1, 1) for _ in range(dyn.m)]
                  for _ in range(rng.randint(1, 6))])
    if rng.random() < .5:
        _, ax = plt.subplots()
        m.ev('axes')
    else:
        ax = None
        m.ev('new')
    x0 = x.copy()
    got = plot.plot_trajectory(
        part, x, u, ssys, ax=ax,
        color_seed=rng.choice([None, 3]))
    m.check(ax is None or got is ax, 'other axes')
    m.check(np.array_equal(x, x0), 'initial state changed')
    m.check(len(got.get_lines()) == 1, 'number of lines')
    have = got.get_lines()[0].get_xydata()
    want = [x0]
    for v in u:
        want.append(dyn.step(want[-1], v, np.zeros(2)))
    m.ev('drawn')
    info = dict(dynamics=hyb.describe(dyn), x=x0.tolist(), u=u.tolist())
    m.check(have.shape == (len(want), 2) and np.allclose(have, want),
            'trajectory is not of the dynamics', have=have.tolist(),
            **info)
    m.check(len(got.patches) == sum(
        len(poly.pieces(r)) for r in part.regions),
        'cells are not drawn', **info)
    m.sig(info)
    plt.close('all')


@check.case(quick=24, thorough=800, cpu=240)
def strategy(rng, m):
    from tulip.abstract import plot
    plt = figures()
    f = Flow(rng, m)
    ab, ctrl = f.ab, f.ctrl
    k = len(f.case.cells)
    edges = list(ctrl.edges(data=True))
    want = np.zeros((k, k))
    for _, v, d in edges:
        for w, _, e in edges:
            if v == w:
                want[f.index(d), f.index(e)] = 1
    have = plot.project_strategy_on_partition(ab.ppp, ctrl)
    have = np.array(have.toarray())
    m.check(have.shape == (k, k), 'shape')
    m.check(np.array_equal(have != 0, want != 0),
            'transitions of strategy', have=have.tolist(),
            want=want.tolist(), **f.info())
    m.ev('pairs', int(want.sum()))
    ax = plot.plot_strategy(ab, ctrl)
    ref = expected(plt, ab, list(zip(*np.nonzero(want))))
    same(m, 'arrows of strategy', ends(ax), ends(ref), f.info())
    m.ev('arrows', len(ends(ref)))
    m.sig([f.info(), want.tolist()])
    plt.close('all')


@check.case(quick=20, thorough=800, cpu=200)
def graph(rng, m):
    """Arrows for the transitions with a label."""
    from tulip import transys
    from tulip.abstract import plot
    plt = figures()
    sc, _ = scene(rng)
    c = Case(rng, m, scene=sc, disturbed=False, state_input=False)
    ab = c.ab
    k = len(c.cells)
    # transitions of two modes, on the cells
    ts = transys.FTS()
    names = [f's{i}' for i in range(k)]
    rng.shuffle(names)
    ts.states.add_from(names)
    ts.sys_actions.update({'one', 'two'})
    drawn = set()
    for i in range(k):
        for j in range(k):
            for mode in ('one', 'two'):
                if rng.random() < .3:
                    ts.transitions.add(
                        names[i], names[j], sys_actions=mode)
                    drawn.add((i, j, mode))
    near = rng.random() < .5
    _, ax = plt.subplots()
    l, u = ab.ppp.domain.bounding_box
    ax.set_xlim(l[0, 0], u[0, 0])
    ax.set_ylim(l[1, 0], u[1, 0])
    label = rng.choice([
        dict(sys_actions='one'), dict(sys_actions='two')])
    plot.plot_ts_on_partition(ab.ppp, ts, names, label, near, ax)
    adj = dense(ab.ppp.adj)
    pairs = [(i, j) for i, j, mode in drawn
             if mode == label['sys_actions']
             and (not near or adj[i, j])]
    ref = expected(plt, ab, pairs)
    same(m, 'arrows of transitions', ends(ax), ends(ref),
         c.info(near=near, drawn=sorted(drawn), label=label))
    m.ev('arrows', len(ends(ref)))
    m.ev('labeled')
    if near:
        m.ev('near')
    plt.close('all')


def components(n, edges):
    reach = np.eye(n, dtype=bool)
    for i, j in edges:
        reach[i, j] = True
    for k in range(n):
        reach |= np.outer(reach[:, k], reach[k])
    return reach & reach.T


@check.case(quick=20, thorough=800, cpu=200)
def sccs(rng, m):
    """Cells have equal colors if mutually reachable."""
    from tulip.abstract import plot
    plt = figures()
    sc, _ = scene(rng)
    c = Case(rng, m, scene=sc, disturbed=False, state_input=False,
             strength=(.1, .4))
    ab = c.ab
    k = len(c.cells)
    drop = [e for e in ab.ts.edges() if rng.random() < .4]
    for a, b in set(drop):
        ab.ts.remove_edge(a, b)
    index = {s: i for i, s in enumerate(ab.ppp2ts)}
    want = components(
        k, [(index[a], index[b]) for a, b in ab.ts.edges()])
    _, ax0 = plt.subplots()
    ax = plot.plot_abstraction_scc(ab, ax0)
    m.check(ax is ax0, 'other axes')
    colors = [set() for _ in range(k)]
    for p in ax.patches:
        # cell that contains the center of the patch
        v = p.get_xy()
        x = np.mean(np.unique(np.round(v, 9), axis=0), axis=0)
        i = max(range(k), key=lambda i: poly.depth(c.cells[i], x))
        colors[i].add(tuple(p.get_facecolor()[:3]))
    for i in range(k):
        m.check(len(colors[i]) == 1, 'colors of cell', cell=i, **c.info())
    for i in range(k):
        for j in range(i):
            m.ev('together' if want[i, j] else 'alone')
            m.check((colors[i] == colors[j]) == want[i, j],
                    'colors of cells', cells=[i, j],
                    component=bool(want[i, j]), **c.info())
    plt.close('all')


@check.case(quick=10, thorough=300, cpu=240)
def modes(rng, m):
    """Arrows of each mode of switched abstractions."""
    from tulip import abstract, hybrid
    from rt import hyb
    from rt.part import to_poly
    from rt.abst import limit, numerics
    quiet()
    plt = figures()
    sc, _ = scene(rng)
    part = partition(sc)
    ne, ns = rng.choice([(1, 2), (2, 1), (1, 3), (2, 2)])
    if rng.random() < .5:
        es, ss, kw = list(range(ne)), list(range(ns)), dict()
        m.ev('numbers')
    else:
        es = [f'e{i}' for i in range(ne)]
        ss = [f's{i}' for i in range(ns)]
        kw = dict(env_labels=es, disc_sys_labels=ss)
    whole = to_poly(sc.domain)
    dyns, params = dict(), dict()
    for e in es:
        for s in ss:
            dyn = hyb.rand_dyn(rng, sc.lows, sc.highs, False, False,
                               rng.uniform(.2, .6))
            dyns[(e, s)] = hybrid.PwaSysDyn([hyb.lti(dyn, whole)], whole)
            params[(e, s)] = dict(
                N=1, trans_length=1, min_cell_volume=.25 * float(
                    np.prod([b - a for a, b in zip(sc.lows, sc.highs)])))
    sw = hybrid.SwitchedSysDyn((ne, ns), dyns, whole, **kw)
    with limit(10), numerics():
        ab = abstract.discretize_switched(part, sw, params)
    near = rng.random() < .5
    show = rng.random() < .7
    axs = ab.plot(show_ts=show, only_adjacent=near)
    k = len(dyns)
    info = dict(scene=sc.content(), near=near, modes=str(list(dyns)))
    m.check(len(axs) == 2 * k and len(set(map(id, axs))) == 2 * k,
            'number of axes', **info)
    adj = dense(ab.ppp.adj)
    index = {s: i for i, s in enumerate(ab.ppp2ts)}
    for mode, ax in zip(ab.modes, axs):
        e, s = mode
        pairs = [
            (index[u], index[v]) for u, v, d in ab.ts.edges(data=True)
            if d['env_actions'] == str(e) and d['sys_actions'] == str(s)]
        pairs = [(i, j) for i, j in pairs if not near or adj[i, j]]
        ref = expected(plt, ab, pairs)
        same(m, 'arrows of mode', ends(ax), ends(ref), dict(
            mode=str(mode), **info))
        m.ev('arrows', len(ends(ref)))
        if near:
            m.ev('near')
    for (mode, one), ax in zip(ab.modes.items(), axs[k:]):
        index1 = {s: i for i, s in enumerate(one.ppp2ts)}
        adj1 = dense(one.ppp.adj)
        pairs = {(index1[u], index1[v]) for u, v in one.ts.edges()}
        pairs = [(i, j) for i, j in pairs if not near or adj1[i, j]]
        ref = expected(plt, one, pairs if show else [])
        same(m, 'arrows of partition of mode', ends(ax), ends(ref),
             dict(mode=str(mode), **info))
    m.sig([info])
    plt.close('all')


@check.case(quick=8, thorough=200, cpu=240)
def movie(rng, m):
    """Plotting does not change the abstraction."""
    import glob
    from tulip import abstract
    plt = figures()
    sc, _ = scene(rng)
    simu = rng.choice(['bi', 'dual'])
    c = Case(rng, m, scene=sc, disturbed=False, state_input=False,
             strength=(.4, .8), least=(.15, .25), simu_type=simu, horizon=1)
    frames = list()
    pause, plt.pause = plt.pause, lambda t: frames.append(t)
    save = rng.random() < .7
    every = rng.choice([3, 5, 9])
    for path in glob.glob('movie*.pdf') + glob.glob('progress.pdf'):
        raise Skip('files are present')
    try:
        ab = abstract.discretize(
            c.start, c.system, plotit=True, save_img=save,
            plot_every=every, **c.params)
        files = sorted(glob.glob('movie*.pdf'))
        more = glob.glob('progress.pdf')
    finally:
        plt.pause = pause
        plt.ioff()
        plt.close('all')
        import os
        for path in glob.glob('movie*.pdf') + glob.glob('progress.pdf'):
            os.remove(path)
    info = c.info(every=every, save=save, simu=simu)
    a, b = c.ab, ab
    m.check(sorted(a.ts.edges()) == sorted(b.ts.edges()) and
            [a.ts.states[s]['ap'] for s in a.ts.states()] ==
            [b.ts.states[s]['ap'] for s in b.ts.states()],
            'plotting changes the abstraction', **info)
    m.check(len(a.ppp) == len(b.ppp) and all(
        len(poly.pieces(p)) == len(poly.pieces(q)) and
        poly.overlap(p, q) > 0
        for p, q in zip(a.ppp.regions, b.ppp.regions)),
        'plotting changes the cells', **info)
    m.ev('frames', len(frames))
    m.check(len(files) == (len(frames) if save else 0),
            'number of saved images', files=files, frames=len(frames),
            **info)
    m.check(len(more) == int(save), 'image of progress', **info)
    if not save:
        m.ev('none')
    if simu == 'dual':
        m.ev('dual')
    m.sig([c.scene.content(), every, simu])
