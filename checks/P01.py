"""P01: formulas are read with the documented syntax and precedence."""
from rt import ltl
from rt.core import Check, Skip, Violation

check = Check(
    'P01',
    rule='a distinct case is a formula with at least two operators '
    'whose tree was compared, by text',
    require=['precedence.trees', 'words.trees', 'soup.accepted',
             'soup.rejected', 'recovery.trees', 'reserved.cases'],
    assumptions=['ASCII text without characters unknown to the lexer '
                 '(those are skipped, with a warning)'])


def real(text, **kw):
    from tulip.spec import parser
    return ltl.from_ast(parser.parse(text, **kw))


def compare(m, text, want, **kw):
    got = real(text, **kw)
    m.check(got == want, 'formula read with another structure',
            text=text, got=got, want=want)
    m.ev('trees')
    if ltl.size(want) >= 4:
        m.sig(text)
        m.sample(text)


@check.case(quick=6000, thorough=120000, cpu=30)
def precedence(rng, m):
    t = ltl.rand_tree(rng, rng.randint(1, 5))
    text = ltl.Printer(rng, extra=rng.choice([0, 0.1, 0.4])).show(t)
    if rng.random() < 0.1:
        text = text + rng.choice([' # note & (', '\n', '\n# | x\n'])
    compare(m, text, t)


@check.case(quick=2500, thorough=40000, cpu=30)
def words(rng, m):
    """Operators written as words."""
    def atoms(r):
        k = r.random()
        if k < 0.75:
            return ('var', r.choice(['p', 'q', 'band', 'notes', 'orange',
                                     'x_and', 'nextx', 'Until1']))
        if k < 0.9:
            return ('bool', r.choice(['True', 'False']))
        return ('num', r.choice(['0', '7']))
    t = ltl.rand_tree(rng, rng.randint(1, 4), arith=False, atoms=atoms)
    text = ltl.Printer(rng, words=True).show(t)
    compare(m, text, t, full_operators=True)


SOUP = ['(', ')', '(', ')', '!', '[]', '<>', 'X', 'next', 'G', 'F',
        'U', 'W', 'V', '&', '&&', '/\\', '|', '||', '\\/', '->',
        '<->', '^', '=', '!=', '<', '<=', '>', '>=',
        '+', '-', '*', '/', "'", 'p', 'q', 'r', 'p', 'q', '3', '0',
        '"a"', 'true', 'FALSE', ',', 'ite', '"', '- 2']


@check.case(quick=5000, thorough=80000, cpu=30)
def soup(rng, m):
    """Accept and reject as a precedence-climbing parser does."""
    if rng.random() < 0.3:
        toks = [rng.choice(SOUP) for _ in range(rng.randint(1, 9))]
    else:
        t = ltl.rand_tree(rng, rng.randint(1, 4))
        toks = ltl.Printer(rng).show(t).split()
        for _ in range(rng.randint(1, 2)):
            i = rng.randrange(len(toks) + 1)
            k = rng.random()
            if k < 0.4 and i < len(toks):
                del toks[i]
            elif k < 0.8:
                toks.insert(i, rng.choice(SOUP))
            elif i + 1 < len(toks):
                toks[i], toks[i + 1] = toks[i + 1], toks[i]
    text = ' '.join(toks)
    if not text.strip():
        raise Skip()
    try:
        want = ltl.parse(text)
    except ltl.ParseError:
        want = None
    try:
        got = real(text)
    except Exception:
        got = None
    if want is None:
        m.check(got is None, 'text outside the grammar accepted',
                text=text, got=got)
        m.ev('rejected')
    else:
        m.check(got == want, 'other structure, or rejected',
                text=text, got=got, want=want)
        m.ev('accepted')
        m.sig(text)


@check.case(quick=800, thorough=10000, cpu=30)
def recovery(rng, m):
    """A rejected text does not influence what is read next."""
    for _ in range(rng.randint(1, 4)):
        bad = ' '.join(rng.choice(SOUP) for _ in range(
            rng.randint(1, 8)))
        try:
            real(bad)
        except Exception:
            m.ev('rejections')
        t = ltl.rand_tree(rng, rng.randint(1, 3))
        compare(m, ltl.Printer(rng).show(t), t)


@check.case(quick=8, thorough=8)
def reserved(rng, m):
    """Reserved words are case-sensitive, except constants."""
    for w, want in [('true', ('bool', 'True')), ('FALSE', ('bool', 'False')),
                    ('tRUE', ('bool', 'True')), ('g', ('var', 'g')),
                    ('x', ('var', 'x')), ('u', ('var', 'u')),
                    ('Next', ('var', 'Next')), ('trueish', ('var', 'trueish'))]:
        compare(m, w, want)


@check.finding('release_R')
def release_r():
    try:
        got = real('p R q')
    except Exception as e:
        raise Violation('documented operator `R` is rejected')
    if got != ('V', ('var', 'p'), ('var', 'q')):
        raise Violation('documented operator `R` is read as something else')


@check.finding('operator_aliases')
def operator_aliases():
    """`~`, `=>`, `<=>`, `/=`, `=<` are other spellings."""
    p, q = ('var', 'p'), ('var', 'q')
    for text, want in [
            ('~ p', ('!', p)), ('p => q', ('->', p, q)),
            ('p <=> q', ('<->', p, q)), ('p /= q', ('!=', p, q)),
            ('p =< q', ('<=', p, q))]:
        got = real(text)
        if got == want:
            continue
        # only the spelling of the operator is the known defect
        if got[1:] != want[1:] or got[0] not in text:
            raise ValueError(f'`{text}` is read as {got}')
        raise Violation(
            f'operator of `{text}` stays {got[0]}, '
            'which nothing downstream knows')


@check.finding('name_characters')
def name_characters():
    """`^`, `[`, and backslash are not characters of names."""
    for text in ['p^q', 'p\\/q']:
        try:
            got = real(text)
        except Exception as e:
            got = repr(e)
        if not isinstance(got, tuple) or len(got) != 3:
            raise Violation(f'`{text}` is read as {got}')
