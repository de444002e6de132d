"""P08: LTL specification files."""
import io
import os

from rt import expr as X
from rt import gr1, ltl
from rt.core import Check, Skip, Violation

check = Check(
    'P08',
    rule='a distinct case is a specification that was written and read, '
    'or a file text that was read, by content',
    require=['roundtrip.vars', 'grspec.vars', 'text.vars',
             'malformed.rejected'],
    assumptions=['elements of finite sets are integers or names'])


def rand_decl(rng, prefix):
    d = dict()
    for i in range(rng.randint(0, 3)):
        k = rng.choice([f'{prefix}{i}', f'{prefix}.{i}', f'{prefix}_a{i}'])
        r = rng.random()
        if r < 0.4:
            d[k] = 'boolean'
        elif r < 0.7:
            lo = rng.randint(-5, 5)
            d[k] = (lo, lo + rng.randint(0, 9))
        elif r < 0.85:
            d[k] = set(rng.sample(range(-3, 9), rng.randint(1, 4)))
        else:
            # more words: finding `set_of_words`
            d[k] = set(rng.sample(gr1.WORDS, 1))
    return d


def rand_formula(rng, d):
    def atoms(r):
        if not d or r.random() < 0.3:
            return ('var', 'p')
        k = r.choice(sorted(d))
        if d[k] == 'boolean':
            return ('var', k)
        return ('=', ('var', k), ('num', '1'))
    return ltl.rand_tree(rng, rng.randint(0, 4), arith=False, atoms=atoms)


@check.case(quick=1500, thorough=20000, cpu=30)
def roundtrip(rng, m):
    from tulip.spec.form import LTL
    i, o = rand_decl(rng, 'in'), rand_decl(rng, 'out')
    t = rand_formula(rng, {**i, **o})
    text = ltl.Printer(rng).show(t)
    f = LTL(text, input_variables=dict(i), output_variables=dict(o))
    s = f.dumps(timestamp=rng.random() < 0.4)
    how = rng.choice(['loads', 'file'])
    if how == 'loads':
        g = LTL.loads(s)
    else:
        g = LTL.load(io.StringIO(s))
    m.check(dict(g.input_variables) == i, 'inputs', text=s,
            got=g.input_variables)
    m.check(dict(g.output_variables) == o, 'outputs', text=s,
            got=g.output_variables)
    m.check(ltl.parse(g.formula) == t, 'formula', text=s, got=g.formula)
    m.ev('vars', len(i) + len(o) + 1)
    m.sig(s)
    m.sample(s)


@check.case(quick=500, thorough=8000, cpu=30)
def grspec(rng, m):
    """A GR(1) specification, edited, then written."""
    from tulip.spec.form import LTL
    from tulip import spec
    sp = gr1.rand_spec(rng, ['bool', 'int'], max_states=60)
    s = gr1.to_grspec(sp, rng)
    for _ in range(rng.randint(0, 2)):
        k = rng.choice(gr1.PARTS)
        e = X.rand_expr(rng, sp.sys, 1)
        getattr(sp, k).append(e)
        getattr(s, k).append(X.pr(e, X.Style(rng)))
    g = LTL.loads(s.dumps())
    m.check(dict(g.input_variables) == sp.env, 'inputs')
    m.check(dict(g.output_variables) == sp.sys, 'outputs')
    a, b = ltl.gr1({k: [ltl.of_expr(e) for e in getattr(sp, k)]
                    for k in gr1.PARTS})
    t = ltl.parse(g.formula)
    vrs = {**sp.env, **sp.sys}
    for _ in range(6):
        w = ltl.rand_lasso(rng, vrs, X.domain_values)
        m.check(ltl.holds(t, w) == ltl.holds(('->', a, b), w),
                'formula', spec=gr1.describe(sp), got=g.formula)
    m.ev('vars', len(vrs))
    m.sig(g.formula)


def noise(rng):
    """Blank space and comments."""
    return rng.choice(['', '', ' ', '\t', '  # note', '# x : boolean;',
                       ' # INPUT : not', '\n', '\n# c\n'])


def layout(rng, i, o, text):
    def dom(d):
        b = rng.choice(['', ' '])
        if d == 'boolean':
            return 'boolean'
        if isinstance(d, tuple):
            return f'[{b}{d[0]}{b},{b}{d[1]}{b}]' + b
        xs = [str(x) for x in sorted(d)]
        if not all(isinstance(x, int) for x in d):
            b = ''
        return '{' + b + f'{b},{b}'.join(xs) + b + '}'

    def decls(d):
        s = ''
        for k, v in d.items():
            s += (rng.choice(['', ' ', '\t', '\n']) + k +
                  rng.choice([':', ' : ', ': ', '\n : ']) +
                  dom(v) + ';' + rng.choice(['', ' ']) +
                  (noise(rng) + '\n' if rng.random() < 0.7 else ''))
        return s
    ins = 'INPUT:' + noise(rng) + '\n' + decls(i) + '\n'
    outs = 'OUTPUT:' + noise(rng) + '\n' + decls(o) + '\n'
    r = rng.random()
    if not i and r < 0.5:
        body = '\n' + decls(o)
        if rng.random() < 0.5:
            body = outs
    elif r < 0.6 or not o:
        body = ins + outs
        if not o and rng.random() < 0.5:
            pass
    else:
        body = outs + ins
    pre = rng.choice(['', '\n', '# made by hand\n', ' \n'])
    return (pre + '0' + rng.choice(['', ' ', '  # Version']) + '\n' +
            '%%\n' +
            body +
            '\n%%\n' +
            text + rng.choice(['', '\n', '\n# end\n', '  # end']))


@check.case(quick=1500, thorough=20000, cpu=30)
def text(rng, m):
    """Layouts that the documentation admits."""
    from tulip.spec.form import LTL
    i, o = rand_decl(rng, 'in'), rand_decl(rng, 'out')
    t = rand_formula(rng, {**i, **o})
    s = layout(rng, i, o, ltl.Printer(rng).show(t))
    g = LTL.loads(s)
    m.check(dict(g.input_variables) == i, 'inputs', text=s,
            got=g.input_variables, want=i)
    m.check(dict(g.output_variables) == o, 'outputs', text=s,
            got=g.output_variables, want=o)
    m.check(ltl.parse(g.formula) == t, 'formula', text=s, got=g.formula)
    m.ev('vars', len(i) + len(o) + 1)
    m.sig(s)


@check.case(quick=300, thorough=3000, cpu=30)
def malformed(rng, m):
    from tulip.spec.form import LTL
    i, o = {'x': 'boolean'}, {'y': (0, 3)}
    s = LTL('x -> y = 1', i, o).dumps()
    bad = rng.choice([
        lambda s: s.replace('0  #', '1  #'),
        lambda s: s.replace('0  #', 'v  #'),
        lambda s: s.replace('%%\n', '', 1),
        lambda s: s.replace('boolean', 'bool'),
        lambda s: s.replace('[0, 3]', '[0; 3]'),
        lambda s: s.replace('[0, 3]', '[a, 3]'),
        lambda s: s.replace('[0, 3]', '0, 3')])
    try:
        LTL.loads(bad(s))
    except Exception:
        m.ev('rejected')
        m.sig(bad(s))
        return
    m.check(False, 'accepted', text=bad(s))


def loaded(s):
    from tulip.spec.form import LTL
    try:
        g = LTL.loads(s)
    except Exception as e:
        return f'{type(e).__name__}: {e}'
    return dict(g.output_variables)


@check.finding('set_of_words')
def set_of_words():
    """What `dumps` writes for a set of words is read back."""
    from tulip.spec.form import LTL
    dom = {'a', 'b'}
    got = loaded(LTL('x', {}, {'s': dom}).dumps())
    if got != {'s': dom}:
        raise Violation(f'domain {dom} is read back as {got}')


@check.finding('space_after_domain')
def space_after_domain():
    for d in ['boolean ', '{1, 2} ']:
        got = loaded(f'0\n%%\nOUTPUT:\nx : {d};\n%%\nx\n')
        if not isinstance(got, dict):
            raise Violation(f'`x : {d};` is rejected: {got}')


@check.finding('comment_joins_lines')
def comment_joins_lines():
    got = loaded('0\n%% # variables\nOUTPUT:\nx : boolean;\n%%\nx\n')
    if not isinstance(got, dict):
        raise Violation(f'comment after `%%` is rejected: {got}')


@check.finding('load_path')
def load_path():
    from tulip.spec.form import LTL
    with open('spec.ltl', 'w') as h:
        h.write(LTL('x', {}, {'x': 'boolean'}).dumps())
    try:
        LTL.load('spec.ltl')
    except ValueError as e:
        raise Violation(f'`load` of a path fails: {e}')
    finally:
        os.unlink('spec.ltl')
