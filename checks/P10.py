"""P10: formulas for mutual exclusion, and for what states imply."""
from rt import expr as X
from rt import fts, ltl
from rt.core import Check

check = Check(
    'P10',
    rule='a distinct case is a list of formulas, or a labeled transition '
    'system, whose generated formulas were evaluated on assignments',
    require=['mutex.true', 'mutex.false', 'mutex.trivial', 'one.true',
             'one.false', 'one.single', 'table.true', 'table.false',
             'table.never', 'table.replaced'],
    assumptions=['formulas given are pairwise different texts'])


def rand_formulas(rng, n):
    """Return variables, and texts with their trees."""
    vrs = {v: 'boolean' for v in rng.sample(
        ['a', 'b', 'c', 'd', 'ready', 'x1'], rng.choice([2, 3, 4]))}
    if rng.random() < .5:
        vrs['k'] = (0, 3)
    if rng.random() < .4:
        vrs['mode'] = ['idle', 'run', 'halt']
    out = dict()
    for _ in range(8 * n):
        if len(out) == n:
            break
        e = X.rand_expr(rng, vrs, rng.choice([0, 0, 0, 1, 2]))
        t = ltl.of_expr(e)
        s = ltl.Printer(rng).show(t)
        out.setdefault(s, t)
    return vrs, out


def holds(texts, a):
    w = ltl.Lasso([], [a])
    return all(ltl.holds(ltl.parse(s), w) for s in texts)


def shape(rng, items):
    """Return the items in some container."""
    k = rng.randrange(4)
    if k == 0:
        return list(items)
    if k == 1:
        return set(items)
    if k == 2:
        return tuple(items)
    return {s: None for s in items}.keys()


@check.case(quick=500, thorough=8000)
def mutex(rng, m):
    from tulip import synth
    n = rng.choice([0, 1, 2, 2, 3, 3, 4, 5])
    vrs, fs = rand_formulas(rng, n)
    n = len(fs)
    items = shape(rng, fs)
    if rng.random() < .2:
        items = [*items, '']
    elif rng.random() < .2:
        items = (s for s in list(items))
    got = synth.mutex(items)
    what = dict(formulas=list(fs), got=got)
    m.check(isinstance(got, list), 'a list of formulas', **what)
    if n <= 1:
        m.check(got == [], 'no exclusion needed', **what)
        m.ev('trivial')
        return
    for a in X.assignments(vrs):
        w = ltl.Lasso([], [a])
        want = sum(ltl.holds(t, w) for t in fs.values()) <= 1
        m.check(holds(got, a) == want, f'at most one: {want}',
                at=a, **what)
        m.ev('true' if want else 'false')
    m.sig(sorted(fs))
    m.sample(what)


@check.case(quick=500, thorough=8000)
def one(rng, m):
    from tulip import synth
    vrs, fs = rand_formulas(rng, rng.choice([1, 2, 2, 3, 3, 4, 5]))
    got = synth.exactly_one(shape(rng, fs))
    what = dict(formulas=list(fs), got=got)
    m.check(isinstance(got, list) and got, 'a list of formulas', **what)
    if len(fs) == 1:
        m.ev('single')
    for a in X.assignments(vrs):
        w = ltl.Lasso([], [a])
        want = sum(ltl.holds(t, w) for t in fs.values()) == 1
        m.check(holds(got, a) == want, f'exactly one: {want}',
                at=a, **what)
        m.ev('true' if want else 'false')
    m.sig(sorted(fs))
    m.sample(what)


@check.case(quick=300, thorough=5000)
def table(rng, m):
    """Propositions as functions of the state variable."""
    from tulip import synth
    ts = fts.rand_ts(
        rng, rng.choice(['sys', 'env']), actions=False,
        ap_names=['p', 'q', 'home'][:rng.choice([1, 2, 3])])
    g = ts.build(rng)
    name = rng.choice(['loc', 'eloc', 'position'])
    tab = synth.build_dependent_var_table(g, name)
    what = dict(ts=ts.describe(), got=tab, name=name)
    m.check(set(tab) == set(ts.aps), 'propositions of the table', **what)
    trees = {p: ltl.parse(s) for p, s in tab.items()}
    # a formula, with the propositions replaced
    e = X.rand_expr(rng, {p: 'boolean' for p in ts.aps}, 3)
    text = X.pr(e, X.Style(rng))
    tree = ltl.of_expr(e)
    for s in ts.states:
        a = {name: s}
        w = ltl.Lasso([], [a])
        lab = {p: p in ts.label[s] for p in ts.aps}
        for p, t in trees.items():
            got = ltl.holds(t, w)
            m.check(got == lab[p], f'{p} at {s}: {got}', **what)
            m.ev('true' if got else 'false')
        got = ltl.holds(subs(tree, trees), w)
        want = ltl.holds(tree, ltl.Lasso([], [lab]))
        m.check(got == want, 'after replacement', text=text, **what)
        m.ev('replaced')
    for p in ts.aps:
        if not any(p in ts.label[s] for s in ts.states):
            m.ev('never')
    m.sig(what)


def subs(t, trees):
    if t[0] == 'var':
        return trees[t[1]]
    if t[0] in ('num', 'str', 'bool'):
        return t
    return (t[0], *(subs(x, trees) for x in t[1:]))
