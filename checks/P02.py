"""P02: writing a formula back and reading it again changes nothing."""
from rt import ltl
from rt import expr as X
from rt.core import Check, Skip, Violation

check = Check(
    'P02',
    rule='a distinct case is a formula with at least two operators, '
    'by text',
    require=['flatten.trees', 'graph.trees', 'replace.words',
             'infer.trees'],
    assumptions=[])


@check.case(quick=4000, thorough=80000, cpu=30)
def flatten(rng, m):
    from tulip.spec import parser
    # text of string constants: findings below
    t = ltl.rand_tree(rng, rng.randint(0, 5), strings=False)
    text = ltl.Printer(rng).show(t)
    a = parser.parse(text)
    flat = a.flatten()
    m.check(ltl.parse(flat) == t, 'flattened text has another meaning',
            text=text, flat=flat)
    b = parser.parse(flat)
    m.check(ltl.from_ast(b) == t, 'reading back', text=text, flat=flat)
    m.check(b.flatten() == flat, 'not stable', flat=flat)
    m.check(len(a) == ltl.size(t), 'length', text=text, n=len(a))
    m.ev('trees')
    if ltl.size(t) >= 4:
        m.sig(text)
        m.sample(dict(text=text, flat=flat))


@check.case(quick=2000, thorough=30000, cpu=30)
def graph(rng, m):
    """Through the graph form of a syntax tree."""
    from tulip.spec import parser, transformation as tx
    t = ltl.rand_tree(rng, rng.randint(0, 5))
    a = parser.parse(ltl.Printer(rng).show(t))
    g = tx.Tree.from_recursive_ast(a)
    b = g.to_recursive_ast()
    m.check(ltl.from_ast(b) == t, 'graph and back', want=t)
    m.check(ltl.from_ast(a) == t, 'the given tree was changed', want=t)

    def leaves(t):
        if t[0] in ('var', 'num', 'str', 'bool'):
            return [t]
        return [x for c in t[1:] for x in leaves(c)]
    names = sorted(n for k, n in leaves(t) if k == 'var')
    m.check(sorted(u.value for u in g.variables) == names,
            'variables of the tree', names=names)
    m.check(len(g) == ltl.size(t), 'number of nodes', n=len(g))

    def primed(t, p):
        if t[0] == 'var':
            return {t[1]} if p else set()
        if t[0] in ('num', 'str', 'bool'):
            return set()
        return set().union(*(
            primed(c, p or t[0] == 'X') for c in t[1:]))
    m.check(tx.collect_primed_vars(a) == primed(t, False),
            'variables that occur primed', tree=t)
    m.ev('trees')
    if ltl.size(t) >= 4:
        m.sig(t)


def bool_text(rng, vrs, depth):
    e = X.rand_expr(rng, vrs, depth)
    return e, X.pr(e, X.Style(rng, xor=True))


@check.case(quick=1200, thorough=20000, cpu=30)
def replace(rng, m):
    """Definitions substituted for Boolean variables."""
    from tulip import spec
    from tulip.spec import form
    vrs = {'p': 'boolean', 'q': 'boolean', 'n': (0, 2)}
    dep = {f'd{i}': 'boolean' for i in range(rng.randint(1, 3))}
    allv = {**vrs, **dep}
    defs = dict()
    texts = dict()
    for d in dep:
        if rng.random() < 0.85:
            defs[d], texts[d] = bool_text(rng, vrs, rng.randint(0, 2))
    parts = dict()
    txt = dict()
    for k in ['env_init', 'env_safety', 'env_prog',
              'sys_init', 'sys_safety', 'sys_prog']:
        es = [X.rand_expr(rng, allv, rng.randint(0, 3), ())
              for _ in range(rng.choice([0, 1, 1, 2]))]
        parts[k] = es
        txt[k] = [X.pr(e, X.Style(rng, xor=True)) for e in es]
    if rng.random() < 0.5:
        # replacement below the next operator
        e = X.rand_expr(rng, allv, 2, tuple(allv))
        parts['sys_safety'].append(e)
        txt['sys_safety'].append(X.pr(e, X.Style(rng, xor=True)))
    s = spec.GRSpec(env_vars={}, sys_vars=dict(allv), **txt)
    form.replace_dependent_vars(s, texts)
    trees = {k: [ltl.parse(x) for x in getattr(s, k)] for k in parts}
    for k, es in parts.items():
        m.check(len(trees[k]) == len(es), 'clauses', part=k)
    for _ in range(6):
        w = ltl.rand_lasso(rng, vrs, X.domain_values)
        for i, a in enumerate(w.word):
            for d in dep:
                a[d] = X.ev(defs[d], a, None) if d in defs \
                    else rng.random() < 0.5
        for k, es in parts.items():
            for e, t in zip(es, trees[k]):
                m.check(
                    [bool(x) for x in ltl.vals(ltl.of_expr(e), w)] ==
                    [bool(x) for x in ltl.vals(t, w)],
                    'meaning changed by substitution',
                    clause=X.pr(e, X.Style()), defs=texts, got=t)
                def names(t):
                    if t[0] == 'var':
                        return {t[1]}
                    if t[0] in ('num', 'str', 'bool'):
                        return set()
                    return set().union(*map(names, t[1:]))
                m.check(not names(t) & set(defs),
                        'replaced variable still occurs', got=t)
        m.ev('words')
    m.sig((txt, texts))


@check.case(quick=1500, thorough=20000, cpu=30)
def infer(rng, m):
    """Names that are not variables become string constants."""
    from tulip.spec import transformation as tx
    vrs = {'p': 'boolean', 's': ['a', 'b'], 't': ['red', 'home'],
           'n': (0, 3)}
    words = ['a', 'b', 'red', 'home']

    def atoms(r):
        k = r.random()
        if k < 0.3:
            return ('var', 'p')
        if k < 0.75:
            v = r.choice(['s', 't'])
            return (r.choice(['=', '!=']), ('var', v),
                    ('var', r.choice(vrs[v])))
        return ('=', ('var', 'n'), ('num', str(r.randint(0, 3))))
    t = ltl.rand_tree(rng, rng.randint(1, 4), arith=False, atoms=atoms)
    text = ltl.Printer(rng).show(t)

    def want(t):
        if t[0] == 'var' and t[1] in words:
            return ('str', t[1])
        if t[0] in ('var', 'num', 'str', 'bool'):
            return t
        return (t[0], *map(want, t[1:]))
    got = tx.infer_constants(text, vrs)
    m.check(ltl.parse(got) == want(t), 'inferred constants',
            text=text, got=got)
    m.ev('trees')
    m.sig(text)


@check.finding('flatten_str')
def flatten_str():
    """Quotes of string constants are written back."""
    from tulip.spec import parser
    got = parser.parse('s = "a"').flatten()
    if ltl.parse(got) != ('=', ('var', 's'), ('str', 'a')):
        raise Violation(f'`s = "a"` flattened to `{got}`')


@check.finding('replace_str')
def replace_str():
    """Substitution of definitions keeps quotes."""
    from tulip import spec
    from tulip.spec import form
    s = spec.GRSpec(sys_vars={'d': 'boolean', 's': ['a', 'b']},
                    sys_init=['d & (s = "a")'])
    form.replace_dependent_vars(s, {'d': 's = "b"'})
    (got,) = s.sys_init
    want = ('&', ('=', ('var', 's'), ('str', 'b')),
            ('=', ('var', 's'), ('str', 'a')))
    if ltl.parse(got) != want:
        raise Violation(f'string constants become variables: `{got}`')


@check.finding('infer_str')
def infer_str():
    from tulip.spec import transformation as tx
    got = tx.infer_constants('s = "a"', {'s': ['a', 'b']})
    if ltl.parse(got) != ('=', ('var', 's'), ('str', 'a')):
        raise Violation(f'`s = "a"` with constants inferred is `{got}`')
