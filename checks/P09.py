"""P09: specifications that are not well formed are refused."""
from rt import expr as X
from rt import gr1
from rt.core import Check, Skip, Violation

check = Check(
    'P09',
    rule='a distinct case is a specification, by its text',
    require=['names.declared', 'names.undeclared', 'names.synth',
             'primes.placed', 'primes.misplaced', 'primes.env_safety',
             'join.accepted', 'join.domains', 'join.options',
             'clash.used', 'clash.unused'],
    assumptions=['constants outside of domains: finding `constants`',
                 'primes in sys_prog: finding `primed_sys_prog` of P03'])


def used(sp):
    out = set()
    for k in gr1.PARTS:
        for e in getattr(sp, k):
            out |= X.names(e)
    return out


@check.case(quick=900, thorough=15000, cpu=30)
def names(rng, m):
    """Variables that are not declared."""
    from tulip import spec, synth
    sp = gr1.rand_spec(rng, max_states=16)
    g = gr1.to_grspec(sp, rng)
    everything = {**sp.env, **sp.sys}
    drop = set(rng.sample(
        sorted(everything), min(len(everything), rng.choice([0, 1, 1, 2]))))
    for d in (g.env_vars, g.sys_vars):
        for k in drop:
            d.pop(k, None)
    bad = drop & used(sp)
    info = dict(spec=gr1.describe(sp), dropped=sorted(drop))
    m.sig([info['spec'], sorted(drop)])

    def refused(fn, what):
        try:
            fn()
        except ValueError:
            return True
        return False
    got = refused(g.parse, 'parse')
    m.ev('undeclared' if bad else 'declared')
    m.check(got == bool(bad), 'refusal of undeclared variables',
            refused=got, **info)
    if not bad:
        return
    # for each clause, by itself
    for k in gr1.PARTS:
        for e, x in zip(getattr(sp, k), list(getattr(g, k))):
            h = spec.GRSpec(env_vars=dict(g.env_vars),
                            sys_vars=dict(g.sys_vars), **{k: [x]})
            m.check(refused(lambda: h.ast(x), 'ast') ==
                    bool(X.names(e) & drop), 'refusal of one clause',
                    clause=x, part=k, **info)
    if rng.random() < .3:
        for fn in (lambda: synth.synthesize(g, solver='omega'),
                   lambda: synth.is_realizable(g, solver='omega')):
            try:
                r = fn()
            except Exception:
                m.ev('synth')
            else:
                m.check(False, 'undeclared variables in synthesis',
                        result=str(r), **info)


def primed(e):
    """Names of variables that are primed."""
    if e[0] in ('true', 'false'):
        return set()
    if e[0] == 'var':
        return {e[1]} if e[2] else set()
    if e[0] == 'cmp':
        return {e[2]} if e[3] else set()
    if e[0] == 'cmpv':
        return ({e[2]} if e[3] else set()) | ({e[4]} if e[5] else set())
    return set().union(*map(primed, e[1:]))


@check.case(quick=900, thorough=15000, cpu=30)
def primes(rng, m):
    """Primed variables in the wrong places."""
    sp = gr1.rand_spec(rng, max_states=16)
    everything = {**sp.env, **sp.sys}
    part = rng.choice([None, 'env_init', 'sys_init', 'env_prog',
                       'env_safety', 'env_safety'])
    wrong = False
    if part is not None:
        pool = tuple(everything)
        e = X.rand_expr(rng, everything, rng.randint(0, 2), pool)
        if part == 'env_safety':
            wrong = bool(primed(e) & set(sp.sys))
            m.ev('env_safety', int(wrong))
        else:
            wrong = X.is_primed(e)
        es = list(getattr(sp, part))
        es.insert(rng.randint(0, len(es)), e)
        setattr(sp, part, es)
    g = gr1.to_grspec(sp, rng)
    m.sig(gr1.describe(sp))
    try:
        g.check_syntax()
    except AssertionError as e:
        got = True
    else:
        got = False
    m.ev('misplaced' if wrong else 'placed')
    m.check(got == wrong, 'refusal of misplaced primes', refused=got,
            part=part, spec=gr1.describe(sp))


@check.case(quick=500, thorough=8000, cpu=30)
def join(rng, m):
    """Conjunction of specifications that do not match."""
    a = gr1.rand_spec(rng, max_states=30)
    b = gr1.rand_spec(rng, max_states=30)
    if rng.random() < .7:
        b.moore, b.plus_one, b.qinit = a.moore, a.plus_one, a.qinit
    options = (a.moore, a.plus_one, a.qinit) != (
        b.moore, b.plus_one, b.qinit)
    domains = any(
        x[k] != y[k]
        for x, y in ((a.env, b.env), (a.sys, b.sys))
        for k in set(x) & set(y))
    g, h = gr1.to_grspec(a, rng), gr1.to_grspec(b, rng)
    m.sig([gr1.describe(a), gr1.describe(b)])
    if options and domains:
        return
    try:
        r = g | h
    except (ValueError, AssertionError):
        m.ev('options' if options else 'domains')
        m.check(options or domains, 'specifications that match are refused',
                a=gr1.describe(a), b=gr1.describe(b))
        return
    m.check(not options and not domains,
            'specifications that do not match are joined',
            a=gr1.describe(a), b=gr1.describe(b))
    m.ev('accepted')
    for k in gr1.PARTS:
        m.check(list(getattr(r, k)) ==
                list(getattr(g, k)) + list(getattr(h, k)),
                'clauses of the result', part=k)
    m.check(r.env_vars == {**g.env_vars, **h.env_vars} and
            r.sys_vars == {**g.sys_vars, **h.sys_vars}, 'variables')
    m.check((r.moore, r.plus_one, r.qinit) ==
            (g.moore, g.plus_one, g.qinit), 'options')
    try:
        g | 'x'
    except TypeError:
        pass
    else:
        m.check(False, 'joined with a string')


@check.case(quick=500, thorough=8000, cpu=30)
def clash(rng, m):
    """Names that are already used in a formula."""
    from tulip.spec import transformation as tx
    vrs = dict(rng.sample(sorted(
        {'p': 'boolean', 'q': 'boolean', 'n': (0, 3), 's': ['a', 'b'],
         'pq': 'boolean', 'n1': (0, 2)}.items()), 4))
    e = X.rand_expr(rng, vrs, rng.randint(0, 3), tuple(vrs))
    text = X.pr(e, X.Style(rng))
    name = rng.choice(sorted(vrs) + ['zz'])
    m.sig([text, name])
    try:
        got = tx.check_var_name_conflict(text, name)
    except ValueError:
        m.ev('used')
        m.check(name in X.names(e), 'name that is not used was refused',
                text=text, name=name)
    else:
        m.ev('unused')
        m.check(name not in X.names(e), 'name that is used was accepted',
                text=text, name=name)
        m.check(set(got) == X.names(e), 'names in formula', text=text,
                got=sorted(got))


@check.finding('constants')
def constants():
    """Constants outside of the domain of a variable."""
    from tulip import spec
    for dom, text in (((0, 2), 'x = 5'), (['a', 'b'], 'x = "c"')):
        s = spec.GRSpec(sys_vars=dict(x=dom), sys_safety=[text])
        try:
            s.parse()
        except Exception:
            return
    raise Violation('`x = 5` for x in 0..2 and `x = "c"` for x in '
                    '{a, b} are accepted')
