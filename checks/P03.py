"""P03: translations to the languages of other tools keep the meaning."""
import re

from rt import expr as X
from rt import gr1, ltl
from rt import lasso_spec as L
from rt.core import Check, Skip, Violation

check = Check(
    'P03',
    rule='a distinct case is a specification or formula that was '
    'translated and evaluated, by content',
    require=['gr1c.words', 'jtlv.words', 'slugs.words', 'wring.words',
             'python.words', 'promela.words', 'smv.words',
             'gr1c.satisfied', 'gr1c.violated', 'undeclared.rejected'],
    assumptions=['operators that the target language has'])


def variables(rng, kinds):
    return gr1.rand_vars(rng, kinds, max_states=60)


def make(rng, kinds, xor=False, nat=False):
    from tulip import spec
    env, sys = variables(rng, kinds)
    for k in list(env) + list(sys):
        d = env if k in env else sys
        if isinstance(d[k], tuple) and nat:
            d[k] = (0, 2)
    parts = L.rand_parts(rng, env, sys)
    st = X.Style(rng, xor=xor)
    text = {k: [X.pr(e, st) for e in es] for k, es in parts.items()}
    s = spec.GRSpec(env_vars=dict(env), sys_vars=dict(sys), **text)
    return env, sys, parts, text, s


def judge(rng, m, env, sys, parts, text, A, G, ints=True):
    """Compare formulas `A`, `G` with the meaning of `parts`."""
    a, g = ltl.gr1(L.trees(parts))
    vrs = {**env, **sys}
    for w in L.words(rng, vrs, 8):
        u = L.as_ints(w, vrs) if ints else w
        for mine, its in [(a, A), (g, G)]:
            want = ltl.holds(mine, w)
            got = ltl.holds(its, u)
            m.check(got == want, 'translation differs on a word',
                    text=text, word=w.word, back=w.back,
                    got=got, want=want)
            m.ev('satisfied' if want else 'violated')
        m.ev('words')
    m.sig(text)
    m.sample(dict(env=env, sys=sys, **text))


def gr1c_vars(s):
    """Parse the declarations of gr1c."""
    out = dict()
    toks = re.findall(r'\[[^\]]*\]|[^\s\[\]]+', s)
    i = 0
    while i < len(toks):
        name = toks[i]
        i += 1
        if i < len(toks) and toks[i].startswith('['):
            a, b = toks[i][1:-1].split(',')
            out[name] = (int(a), int(b))
            i += 1
        else:
            out[name] = 'boolean'
    return out


def as_int_vars(d):
    return {k: (0, len(v) - 1) if isinstance(v, list) else v
            for k, v in d.items()}


@check.case(quick=900, thorough=15000, cpu=60)
def gr1c(rng, m):
    from tulip.spec import translation as ts
    env, sys, parts, text, s = make(rng, ['bool', 'int', 'str'])
    out = ts.translate(s, 'gr1c')
    sec = dict()
    for c in out.split(';'):
        if not c.strip():
            continue
        k, v = c.split(':', 1)
        m.check(k.strip() not in sec, 'section given twice', text=out)
        sec[k.strip()] = v
    m.check(gr1c_vars(sec['ENV']) == as_int_vars(env) and
            gr1c_vars(sec['SYS']) == as_int_vars(sys),
            'declarations', text=out)

    def part(k):
        t = sec.get(k, '').strip()
        return ltl.parse(t) if t else ('bool', 'True')
    A = ltl.conj([part('ENVINIT'), part('ENVTRANS'), part('ENVGOAL')])
    G = ltl.conj([part('SYSINIT'), part('SYSTRANS'), part('SYSGOAL')])
    # gr1c has only `'`
    m.check(not re.search(r'\b(X|next)\b', out.split('ENVINIT')[1]),
            'next operator that gr1c lacks', text=out)
    judge(rng, m, env, sys, parts, text, A, G)


@check.case(quick=900, thorough=15000, cpu=60)
def jtlv(rng, m):
    from tulip.spec import translation as ts
    env, sys, parts, text, s = make(rng, ['bool', 'int', 'str'])
    out = ts.translate(s, 'jtlv')
    m.check(len(out) == 2, 'pair')

    def read(t):
        lines = [x for x in t.splitlines()
                 if not x.strip().startswith('--')]
        t = ' '.join(lines)
        for k in env:
            m.check(f's.{k})' not in t, 'owner of variable', t=t)
        for k in sys:
            m.check(f'e.{k})' not in t, 'owner of variable', t=t)
        t = re.sub(r'\b[es]\.', '', t)
        return ltl.parse(t) if t.strip() else ('bool', 'True')
    judge(rng, m, env, sys, parts, text, read(out[0]), read(out[1]))


@check.case(quick=700, thorough=12000, cpu=60)
def slugs(rng, m):
    from tulip.spec import translation as ts
    env, sys, parts, text, s = make(rng, ['bool', 'int'], nat=True)
    out = ts.translate(s, 'slugs')
    sec = dict()
    cur = None
    for line in out.splitlines():
        line = line.strip()
        mt = re.fullmatch(r'\[([A-Z_]+)\]', line)
        if mt:
            cur = sec.setdefault(mt.group(1), list())
        elif line:
            cur.append(line)

    def decl(lines):
        d = dict()
        for x in lines:
            if ':' in x:
                k, r = x.split(':')
                a, b = r.split('...')
                d[k.strip()] = (int(a), int(b))
            else:
                d[x] = 'boolean'
        return d
    m.check(decl(sec['INPUT']) == env and decl(sec['OUTPUT']) == sys,
            'declarations', text=out)
    p = {'env_init': 'ENV_INIT', 'env_safety': 'ENV_TRANS',
         'env_prog': 'ENV_LIVENESS', 'sys_init': 'SYS_INIT',
         'sys_safety': 'SYS_TRANS', 'sys_prog': 'SYS_LIVENESS'}
    its = {k: [ltl.parse(x) for x in sec[v]] for k, v in p.items()}
    A, G = ltl.gr1(its)
    judge(rng, m, env, sys, parts, text, A, G)


@check.case(quick=600, thorough=10000, cpu=60)
def wring(rng, m):
    from tulip.spec import translation as ts
    env, sys, parts, text, s = make(rng, ['bool'])
    out = ts.translate(s, 'wring')
    a, g = ltl.gr1(L.trees(parts))
    names = {'0': ('bool', 'False'), '1': ('bool', 'True')}
    t = wring_parse(out)
    vrs = {**env, **sys}
    for w in L.words(rng, vrs, 10):
        want = ltl.holds(('->', a, g), w)
        m.check(ltl.holds(t, w) == want, 'translation differs',
                text=text, out=out, word=w.word, back=w.back)
        m.ev('words')
    m.sig(text)


def wring_parse(s):
    """Wring: `*` is and, `+` is or, `p=1` an atom, 0 and 1."""
    toks = ltl.tokens(s)
    out = list()
    i = 0
    while i < len(toks):
        t = toks[i]
        if t[0] == 'var':
            # atom
            assert toks[i + 1] == ('op', '=') and toks[i + 2][0] == 'num'
            if toks[i + 2][1] == '1':
                out.append(t)
            else:
                out.extend([('op', '!'), t])
            i += 3
            continue
        if t[0] == 'num':
            out.append(('bool', 'True' if t[1] == '1' else 'False'))
        elif t == ('op', '*'):
            out.append(('op', '&'))
        elif t == ('op', '+'):
            out.append(('op', '|'))
        else:
            out.append(t)
        i += 1
    return ltl.Parser(out).all()


@check.case(quick=700, thorough=12000, cpu=60)
def python(rng, m):
    """State formulas, as python expressions."""
    from tulip.spec import parser, translation as ts
    vrs = {'p': 'boolean', 'q': 'boolean', 'n': (-1, 3), 'k': (0, 2)}
    e = X.rand_expr(rng, vrs, rng.randint(1, 4))
    text = X.pr(e, X.Style(rng, xor=True))
    out = ts.translate_ast(parser.parse(text), 'python').flatten()
    for a in X.assignments(vrs):
        if rng.random() < 0.7:
            continue
        m.check(bool(eval(out, {'__builtins__': {}}, dict(a))) ==
                X.ev(e, a, None), 'python expression differs',
                text=text, out=out, at=a)
        m.ev('words')
    m.sig(text)


OPS = ['!', '&', '|', '->', '<->', '^', 'X', 'G', 'F', 'U', 'V']


def ltl_case(rng, m, lang, read, ops=OPS, numbers=True):
    from tulip.spec import parser, translation as ts
    vrs = {'p': 'boolean', 'q': 'boolean', 'n': (0, 3)}

    def atoms(r):
        k = r.random()
        if k < 0.6 or not numbers:
            return ('var', r.choice(['p', 'q']))
        if k < 0.7:
            return ('bool', r.choice(['True', 'False']))
        return (r.choice(['=', '!=', '<', '<=', '>', '>=']),
                ('var', 'n'), ('num', str(r.randint(0, 3))))
    t = rand_ltl(rng, rng.randint(1, 4), atoms, ops)
    text = ltl.Printer(rng).show(t)
    out = ts.translate_ast(parser.parse(text), lang).flatten()
    u = read(out)
    for w in L.words(rng, vrs, 8):
        m.check(ltl.holds(u, w) == ltl.holds(t, w),
                'translation differs on a word', text=text, out=out,
                word=w.word, back=w.back)
        m.ev('words')
    m.sig(text)


def rand_ltl(rng, depth, atoms, ops):
    """Well-typed LTL formula."""
    if depth == 0 or rng.random() < 0.1:
        return atoms(rng)
    op = rng.choice(ops)
    n = 1 if op in ltl.UNARY else 2
    return (op, *(rand_ltl(rng, depth - 1, atoms, ops) for _ in range(n)))


@check.case(quick=700, thorough=12000, cpu=60)
def promela(rng, m):
    def read(s):
        m.check(not re.search(r'[^=!<>]=[^=>]', s),
                'comparison is written `==` in Promela', out=s)
        return ltl.parse(s)
    ltl_case(rng, m, 'promela', read)


@check.case(quick=500, thorough=8000, cpu=60)
def smv(rng, m):
    def read(s):
        return ltl.parse(re.sub(r'\bxor\b', '^', s))
    ltl_case(rng, m, 'smv', read, ['X', 'G', 'F', 'U'], False)


@check.case(quick=300, thorough=3000, cpu=60)
def undeclared(rng, m):
    """Misplaced primes and undeclared names are not translated."""
    from tulip.spec import translation as ts
    from tulip import spec
    env, sys, parts, text, s = make(rng, ['bool', 'int'])
    lang = rng.choice(['gr1c', 'slugs', 'jtlv'])
    allv = {**env, **sys}
    kind = rng.choice(['undeclared', 'primed', 'primed_sys'])
    # primes in `sys_prog`: finding below
    if kind == 'undeclared':
        k = rng.choice(gr1.PARTS)
        bad = 'zz'
    elif kind == 'primed':
        k = rng.choice(['env_init', 'sys_init', 'env_prog'])
        v = rng.choice(sorted(allv))
        bad = f"{v}'" if allv[v] == 'boolean' else f"({v}' = 1)"
    else:
        k = 'env_safety'
        v = rng.choice(sorted(sys))
        bad = f"X {v}" if sys[v] == 'boolean' else f"(X {v} = 1)"
    if rng.random() < 0.5:
        bad = f'(True -> {bad})'
    getattr(s, k).append(bad)
    try:
        ts.translate(s, lang)
    except Exception:
        m.ev('rejected')
        m.sig((kind, k, bad))
        return
    raise Violation('translated', part=k, clause=bad)


def translated(text, lang):
    from tulip.spec import parser, translation as ts
    try:
        return ts.translate_ast(parser.parse(text), lang).flatten()
    except Exception as e:
        return f'{type(e).__name__}: {e}'


@check.finding('smv_boolean')
def smv_boolean():
    """Boolean operators, comparisons, constants for SMV."""
    for text, ok in [('p & q', '&'), ('p | q', '|'), ('! p', '!'),
                     ('p -> q', '->'), ('n = 1', '='), ('n < 1', '<'),
                     ('p V q', 'V'), ('True', 'TRUE')]:
        out = translated(text, 'smv')
        if out.startswith('KeyError') or ok not in out:
            raise Violation(f'`{text}` is not translated: {out}')


@check.finding('wring_xor')
def wring_xor():
    out = translated('p ^ q', 'wring')
    if 'Error' in out:
        raise Violation(f'`p ^ q` is not translated: {out}')


@check.finding('python_str')
def python_str():
    out = translated('s = "a"', 'python')
    try:
        ok = eval(out, {}, dict(s='a')) and not eval(out, {}, dict(s='b'))
    except NameError as e:
        raise Violation(f'`{out}`: {e}')
    if not ok:
        raise ValueError(out)


@check.finding('primed_sys_prog')
def primed_sys_prog():
    from tulip import spec
    from tulip.spec import translation as ts
    s = spec.GRSpec(sys_vars={'p': 'boolean'}, sys_prog=["X p"])
    try:
        ts.translate(s, 'gr1c')
    except AssertionError:
        return
    raise Violation('primed variable in `sys_prog` is accepted')
