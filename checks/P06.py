"""P06: temporal patterns converted to GR(1) accept the same behaviors."""
import itertools

from rt import expr as X
from rt import game, gr1, ltl
from rt.core import Check, Skip

check = Check(
    'P06',
    rule='a distinct case is a pattern with formulas in it, by text',
    require=['stability.words', 'response.words', 'eventually.words',
             'until.words', 'stability.accepted', 'response.accepted',
             'eventually.accepted', 'until.accepted',
             'until.rejected', 'response.rejected',
             'stability.rejected', 'eventually.rejected',
             'conflict.rejected'],
    assumptions=['state formulas inside the patterns'])


def exists_aux(spec, w, aux):
    """Is there a sequence for `aux` that satisfies the GR(1) form?"""
    def tree(x):
        return ltl.parse(x)
    nodes = list(itertools.product(range(w.n), (False, True)))

    def ev(t, u, v):
        # `u`, `v` consecutive nodes
        a = dict(w.word[u[0]], **{aux: u[1]})
        b = dict(w.word[v[0]], **{aux: v[1]})
        return bool(ltl.vals(t, ltl.Lasso([a], [b]))[0])
    init = [tree(x) for x in spec.sys_init]
    safe = [tree(x) for x in spec.sys_safety]
    prog = [tree(x) for x in spec.sys_prog]
    succ = dict()
    for u in nodes:
        j = w.succ(u[0])
        succ[u] = [
            (j, b) for b in (False, True)
            if all(ev(t, u, (j, b)) for t in safe)]
    start = [u for u in nodes
             if u[0] == 0 and all(ev(t, u, u) for t in init)]
    seen = set(start)
    todo = list(start)
    while todo:
        u = todo.pop()
        for v in succ[u]:
            if v not in seen:
                seen.add(v)
                todo.append(v)
    for c in game.sccs(seen, lambda u: [v for v in succ[u] if v in seen]):
        c = set(c)
        cyc = len(c) > 1 or any(u in succ[u] for u in c)
        if cyc and all(any(ev(t, u, u) for u in c) for t in prog):
            return True
    return False


VRS = {'a': 'boolean', 'b': 'boolean', 'c': 'boolean'}


def formula(rng):
    if rng.random() < 0.3:
        depth = 0
    else:
        depth = rng.randint(1, 2)
    e = X.rand_expr(rng, VRS, depth)
    s = X.pr(e, X.Style(rng, xor=True))
    if s.startswith('(') and s.endswith(')') and rng.random() < 0.7:
        # without the outermost parentheses
        d = 0
        for i, ch in enumerate(s):
            d += (ch == '(') - (ch == ')')
            if d == 0 and i < len(s) - 1:
                break
        else:
            s = s[1:-1]
    return ltl.parse(s), s


def run(rng, m, name, make, k):
    from tulip.spec import gr1_fragment as gf
    fs = [formula(rng) for _ in range(k)]
    args = [s for _, s in fs]
    ts = [t for t, _ in fs]
    aux = 'aux'
    if rng.random() < 0.4:
        aux = rng.choice(['z', 'aux_1', 'done'])
        args.append(aux)
    spec = getattr(gf, name)(*args)
    want = make(*ts)

    def names(t):
        if t[0] == 'var':
            return {t[1]}
        if t[0] in ('num', 'str', 'bool'):
            return set()
        return set().union(*map(names, t[1:]))
    m.check(set(spec.sys_vars) == {aux}.union(*map(names, ts)) and
            all(v == 'boolean' for v in spec.sys_vars.values()) and
            not spec.env_vars, 'declared variables', got=spec.sys_vars)
    m.check(not (spec.env_init or spec.env_safety or spec.env_prog),
            'assumption', spec=spec)
    spec.check_syntax()
    for _ in range(5):
        w = ltl.rand_lasso(rng, VRS, X.domain_values)
        a = ltl.holds(want, w)
        b = exists_aux(spec, w, aux)
        m.check(a == b, 'GR(1) form accepts other behaviors',
                formulas=args, word=w.word, back=w.back,
                pattern=a, gr1=b)
        m.ev('words')
        m.ev('accepted' if a else 'rejected')
    m.sig(args)
    m.sample(args)


@check.case(quick=500, thorough=8000, cpu=60)
def stability(rng, m):
    run(rng, m, 'stability_to_gr1', lambda p: ('F', ('G', p)), 1)


@check.case(quick=500, thorough=8000, cpu=60)
def response(rng, m):
    run(rng, m, 'response_to_gr1',
        lambda p, q: ('G', ('->', p, ('F', q))), 2)


@check.case(quick=500, thorough=8000, cpu=60)
def eventually(rng, m):
    run(rng, m, 'eventually_to_gr1', lambda p: ('F', p), 1)


@check.case(quick=500, thorough=8000, cpu=60)
def until(rng, m):
    run(rng, m, 'until_to_gr1', lambda p, q: ('U', p, q), 2)


@check.case(quick=60, thorough=500, cpu=60)
def conflict(rng, m):
    """An auxiliary name that occurs in the formula is refused."""
    from tulip.spec import gr1_fragment as gf
    name, k = rng.choice([
        ('stability_to_gr1', 1), ('response_to_gr1', 2),
        ('eventually_to_gr1', 1), ('until_to_gr1', 2)])
    args = [rng.choice(['a', 'b -> c', 'a & b']) for _ in range(k)]
    i = rng.randrange(k)
    args[i] = f'({args[i]}) | zed'
    try:
        getattr(gf, name)(*args, 'zed')
    except ValueError:
        m.ev('rejected')
        m.sig((name, args))
        return
    m.check(False, 'accepted', name=name, args=args)
