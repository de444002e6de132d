"""P05: substituting values for variables, integers for strings."""
from rt import expr as X
from rt import gr1, ltl
from rt import lasso_spec as L
from rt.core import Check, Skip, Violation

check = Check(
    'P05',
    rule='a distinct case is a formula after substitution, by text',
    require=['values.evaluated', 'spec_values.evaluated',
             'constants.words'],
    assumptions=['values given for all variables of a formula'])


def truth(t):
    return bool(ltl.vals(t, ltl.Lasso([], [{}]))[0])


VRS = {'p': 'boolean', 'q': 'boolean', 'n': (-2, 3), 'k': (0, 2),
       's': ['a', 'b', 'red'], 't': ['red', 'b']}


def names(t):
    if t[0] == 'var':
        return {t[1]}
    if t[0] in ('num', 'str', 'bool'):
        return set()
    return set().union(*map(names, t[1:]))


SVRS = {k: v for k, v in VRS.items() if isinstance(v, list)}


@check.case(quick=3000, thorough=50000, cpu=30)
def values(rng, m):
    """Constants for all variables of a formula.

    Values of Boolean and integer variables: finding `typed_values`.
    """
    from tulip.spec import parser, transformation as tx
    e = X.rand_expr(rng, SVRS, rng.randint(0, 4))
    text = X.pr(e, X.Style(rng, xor=True))
    d = {k: rng.choice(X.domain_values(v)) for k, v in SVRS.items()}
    g = tx.Tree.from_recursive_ast(parser.parse(text))
    tx.sub_values(g, dict(d))
    t = ltl.from_ast(g.to_recursive_ast())
    m.check(not names(t), 'variable left', text=text, got=t)
    m.check(truth(t) == X.ev(e, d, None), 'value of formula',
            text=text, at=d, got=t)
    m.ev('evaluated')
    m.sig((text, sorted(d.items())))
    m.sample(dict(text=text, at=d, got=t))


@check.case(quick=800, thorough=10000, cpu=30)
def spec_values(rng, m):
    """All clauses of a specification."""
    from tulip import spec
    env, sys = gr1.rand_vars(rng, ['str'], 60)
    vrs = {**env, **sys}
    parts = L.rand_parts(rng, env, sys, primed=False)
    text = {k: [X.pr(e, X.Style(rng)) for e in es]
            for k, es in parts.items()}
    s = spec.GRSpec(env_vars=dict(env), sys_vars=dict(sys), **text)
    s.parse()
    d = {k: rng.choice(X.domain_values(v)) for k, v in vrs.items()}
    r = s.sub_values(dict(d))
    for k, es in parts.items():
        for e, x in zip(es, text[k]):
            t = ltl.from_ast(r[x])
            m.check(truth(t) == X.ev(e, d, None), 'value of clause',
                    clause=x, at=d, got=t)
            m.check(s.ast(x) is not r[x] and
                    names(ltl.from_ast(s.ast(x))) == X.names(e),
                    'the specification itself was changed', clause=x)
            m.ev('evaluated')
    m.sig((text, sorted(d.items())))


@check.case(quick=1500, thorough=25000, cpu=30)
def constants(rng, m):
    """Positions in the domains replace string constants."""
    from tulip.spec import parser, transformation as tx
    vrs = dict(VRS)
    for k in ('s', 't'):
        vrs[k] = rng.sample(gr1.WORDS, rng.randint(2, 4))
    e = X.rand_expr(rng, vrs, rng.randint(0, 4), tuple(vrs))
    text = X.pr(e, X.Style(rng, xor=True))
    g = tx.Tree.from_recursive_ast(parser.parse(text))
    tx.sub_constants(g, {k: vrs[k] for k in ('s', 't')})
    flat = g.to_recursive_ast().flatten()
    t = ltl.parse(flat)
    m.check('"' not in flat, 'string constant left', flat=flat)
    for w in L.words(rng, vrs, 6):
        m.check(
            [bool(x) for x in ltl.vals(ltl.of_expr(e), w)] ==
            [bool(x) for x in ltl.vals(t, L.as_ints(w, vrs))],
            'meaning changed', text=text, flat=flat)
        m.ev('words')
    m.sig((text, tuple(vrs['s']), tuple(vrs['t'])))


@check.finding('typed_values')
def typed_values():
    """Values of Boolean and integer variables."""
    from tulip.spec import parser, transformation as tx
    for text, d in [('p & q', dict(p=True, q=False)), ('n = 1', dict(n=1))]:
        g = tx.Tree.from_recursive_ast(parser.parse(text))
        try:
            tx.sub_values(g, d)
        except TypeError as e:
            raise Violation(f'values {d} in `{text}`: {e}')
