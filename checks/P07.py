"""P07: an LTL formula of GR(1) shape is split without loss."""
from rt import expr as X
from rt import ltl
from rt import lasso_spec as L
from rt.core import Check, Skip, Violation

check = Check(
    'P07',
    rule='a distinct case is a formula that was split or refused, '
    'by text',
    require=['split.words', 'grspec.words', 'refused.rejected'],
    assumptions=[])

VRS = {'p': 'boolean', 'q': 'boolean', 'n': (0, 3)}


def terms(rng, least=0):
    """Conjuncts `B`, `[]C`, `[]<>B`, in random order."""
    out = list()
    for _ in range(rng.randint(max(1, least), 5)):
        k = rng.choice(['init', 'G', 'GF'])
        e = X.rand_expr(rng, VRS, rng.randint(0, 2),
                        tuple(VRS) if k == 'G' else ())
        out.append((k, ltl.of_expr(e)))
    return out


def whole(ts):
    fs = [t if k == 'init' else ('G', t) if k == 'G' else
          ('G', ('F', t)) for k, t in ts]
    return fs


def tree(rng, fs):
    """Conjunction with random association."""
    if len(fs) == 1:
        return fs[0]
    i = rng.randint(1, len(fs) - 1)
    return ('&', tree(rng, fs[:i]), tree(rng, fs[i:]))


def of_parts(d):
    def read(x):
        return ltl.parse(x) if x.strip() else ('bool', 'True')
    return ltl.conj(
        [read(x) for x in d['init']] +
        [('G', read(x)) for x in d['G']] +
        [('G', ('F', read(x))) for x in d['GF']])


def temporal(t, ops):
    if t[0] in ('var', 'num', 'str', 'bool'):
        return False
    return t[0] in ops or any(temporal(x, ops) for x in t[1:])


@check.case(quick=1500, thorough=25000, cpu=60)
def split(rng, m):
    from tulip.spec import gr1_fragment as gf, parser
    ts = terms(rng)
    f = tree(rng, whole(ts))
    text = ltl.Printer(rng).show(f)
    arg = parser.parse(text) if rng.random() < 0.3 else text
    d = gf.split_gr1(arg)
    m.check(set(d) == {'init', 'G', 'GF'}, 'keys')
    n = sum(k == 'GF' for k, _ in ts)
    m.check(len(d['GF']) == n, 'number of recurrence goals', got=d)
    for k in ('init', 'GF'):
        for x in d[k]:
            m.check(not x.strip() or not temporal(
                ltl.parse(x), 'XGFUWV'), 'temporal operator left', got=d)
    for x in d['G']:
        m.check(not x.strip() or not temporal(ltl.parse(x), 'GFUWV'),
                'temporal operator left', got=d)
    g = of_parts(d)
    for w in L.words(rng, VRS, 8):
        m.check(ltl.holds(f, w) == ltl.holds(g, w), 'meaning changed',
                text=text, got=d, word=w.word)
        m.ev('words')
    m.sig(text)
    m.sample(dict(text=text, parts=d))


@check.case(quick=700, thorough=12000, cpu=60)
def grspec(rng, m):
    from tulip.spec import gr1_fragment as gf
    a, b = terms(rng), terms(rng)
    f = ('->', tree(rng, whole(a)), tree(rng, whole(b)))
    text = ltl.Printer(rng).show(f)
    s = gf.str_to_grspec(text)

    def parts(side):
        return dict(init=getattr(s, side + '_init'),
                    G=getattr(s, side + '_safety'),
                    GF=getattr(s, side + '_prog'))
    A, G = of_parts(parts('env')), of_parts(parts('sys'))
    for w in L.words(rng, VRS, 6):
        m.check(ltl.holds(f[1], w) == ltl.holds(A, w), 'assumption',
                text=text, got=parts('env'))
        m.check(ltl.holds(f[2], w) == ltl.holds(G, w), 'guarantee',
                text=text, got=parts('sys'))
        m.ev('words')
    m.sig(text)


@check.case(quick=800, thorough=12000, cpu=60)
def refused(rng, m):
    """A conjunct of another shape is never dropped or misfiled."""
    from tulip.spec import gr1_fragment as gf

    def atoms(r):
        e = X.rand_atom(r, VRS)
        return ltl.of_expr(e)
    bad = rng.choice([
        lambda a, b: ('F', a), lambda a, b: ('U', a, b),
        lambda a, b: ('V', a, b),
        lambda a, b: ('F', ('G', a)), lambda a, b: ('X', a),
        lambda a, b: ('!', ('G', a)), lambda a, b: ('|', ('G', a), b),
        lambda a, b: ('G', ('G', a)), lambda a, b: ('G', ('|', b, ('F', a))),
        lambda a, b: ('G', ('F', ('X', a))),
        lambda a, b: ('G', ('F', ('&', b, ('G', a)))),
        lambda a, b: ('->', a, ('F', b)),
        lambda a, b: ('G', ('->', a, ('U', a, b)))])
    fs = whole(terms(rng))
    x = bad(atoms(rng), atoms(rng))
    fs.insert(rng.randint(0, len(fs)), x)
    f = tree(rng, fs)
    text = ltl.Printer(rng).show(f)
    try:
        d = gf.split_gr1(text)
    except AssertionError:
        m.ev('rejected')
        m.sig(text)
        return
    m.check(False, 'accepted', text=text, got=d)


@check.finding('weak_until')
def weak_until():
    from tulip.spec import gr1_fragment as gf
    try:
        got = gf.split_gr1('p & (p W q)')
    except AssertionError:
        return
    raise Violation(f'`p & (p W q)` is split to {got}')


@check.finding('split_str')
def split_str():
    from tulip.spec import gr1_fragment as gf
    try:
        got = gf.split_gr1('(s = "a") & []<>(p)')
    except Exception as e:
        raise Violation(f'{type(e).__name__}: {e}')
    if '"' not in got['init'][0]:
        raise Violation(f'string constant becomes a variable: {got}')
