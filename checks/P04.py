"""P04: a specification means what its clauses say, after any edits."""
import re

from rt import expr as X
from rt import game, gr1, ltl
from rt import lasso_spec as L
from rt.core import Check, Skip, Violation

check = Check(
    'P04',
    rule='a distinct case is a history of edits and queries of '
    'a specification, by content',
    require=['history.queries', 'history.canon', 'history.gr1c',
             'history.init', 'history.copies', 'history.unions',
'verdicts.queries', 'verdicts.true',
             'verdicts.false'],
    assumptions=[
        'domains of variables do not change while formulas '
        'mention them (finding `stale_ints` for strings)'])


class Mirror:
    """The specification as the user wrote it."""

    def __init__(self):
        self.env = dict()
        self.sys = dict()
        self.parts = {k: list() for k in gr1.PARTS}     # (expr, text)

    def vrs(self):
        return {**self.env, **self.sys}

    def clone(self):
        m = Mirror()
        m.env = {k: list(v) if isinstance(v, list) else v
                 for k, v in self.env.items()}
        m.sys = {k: list(v) if isinstance(v, list) else v
                 for k, v in self.sys.items()}
        m.parts = {k: list(v) for k, v in self.parts.items()}
        return m

    def exprs(self):
        return {k: [e for e, _ in v] for k, v in self.parts.items()}


def new_clause(rng, mir, part, plain=False):
    vrs = mir.vrs()
    pr = ()
    if part == 'env_safety':
        pr = tuple(mir.env)
    elif part == 'sys_safety':
        pr = tuple(vrs)
    e = X.rand_expr(rng, vrs, rng.randint(0, 2), pr)
    return e, X.pr(e, X.Style(rng, plain=plain))


def start(rng, kinds=('bool', 'int', 'str'), max_states=60):
    from tulip import spec
    mir = Mirror()
    mir.env, mir.sys = gr1.rand_vars(rng, list(kinds), max_states)
    for k in gr1.PARTS:
        for _ in range(rng.choice([0, 1, 1, 2])):
            mir.parts[k].append(new_clause(rng, mir, k))
    args = {k: [t for _, t in v] for k, v in mir.parts.items()}
    for k in gr1.PARTS:
        r = rng.random()
        if len(args[k]) == 1 and r < 0.4:
            args[k] = args[k][0]
        elif r < 0.6:
            args[k] = tuple(args[k])
    env, sys = dict(mir.env), dict(mir.sys)
    if rng.random() < 0.5:
        s = spec.GRSpec(env_vars=env, sys_vars=sys, **args)
    else:
        s = spec.GRSpec(**args)
        declare(s, mir.env, True)
        declare(s, mir.sys, False)
    return mir, s


def declare(s, d, env):
    for k, v in d.items():
        if v == 'boolean':
            s.declare(k, env=env)
        else:
            s.declare(env=env, **{k: v})


def edit(rng, mir, s, m):
    """Apply the same random edit to both."""
    part = rng.choice(gr1.PARTS)
    clauses = getattr(s, part)
    op = rng.choice(['append', 'append', 'replace', 'remove', 'set',
                     'declare', 'move'])
    if op == 'append':
        c = new_clause(rng, mir, part)
        mir.parts[part].append(c)
        if rng.random() < 0.5:
            clauses.append(c[1])
        else:
            clauses += [c[1]]
    elif op == 'replace' and clauses:
        i = rng.randrange(len(clauses))
        c = new_clause(rng, mir, part)
        mir.parts[part][i] = c
        clauses[i] = c[1]
    elif op == 'remove' and clauses:
        i = rng.randrange(len(clauses))
        del mir.parts[part][i]
        del clauses[i]
    elif op == 'set':
        new = [new_clause(rng, mir, part)
               for _ in range(rng.choice([0, 1, 2]))]
        mir.parts[part] = new
        setattr(s, part, [t for _, t in new])
    elif op == 'declare':
        k = f'v{len(mir.vrs())}'
        dom = gr1.rand_domain(rng, ['bool', 'int', 'str'])
        env = rng.random() < 0.5
        n = 1
        for d in [*mir.vrs().values(), dom]:
            n *= len(X.domain_values(d))
        if n > 100:
            return op
        (mir.env if env else mir.sys)[k] = dom
        declare(s, {k: dom}, env)
    elif op == 'move':
        # the same text in another part
        src = rng.choice(['env_init', 'sys_init', 'env_prog', 'sys_prog'])
        if mir.parts[src]:
            c = rng.choice(mir.parts[src])
            dst = rng.choice(gr1.PARTS)
            mir.parts[dst].append(c)
            getattr(s, dst).append(c[1])
    return op


def query(rng, mir, s, m):
    from tulip.spec import translation as ts
    parts = mir.exprs()
    a, g = ltl.gr1(L.trees(parts))
    vrs = mir.vrs()
    what = rng.choice(['canon', 'gr1c', 'init', 'jtlv', 'init'])
    text = {k: [t for _, t in v] for k, v in mir.parts.items()}
    m.check({k: list(getattr(s, k)) for k in gr1.PARTS} == text,
            'clauses', want=text)
    m.check(dict(s.env_vars) == mir.env and dict(s.sys_vars) == mir.sys,
            'declarations', env=s.env_vars, sys=s.sys_vars)
    m.ev('queries')
    if what == 'canon':
        t = ltl.parse(rng.choice([s.to_canon, s.__str__])())
        want = ('->', a, g)
        for w in L.words(rng, vrs, 5):
            m.check(ltl.holds(t, w) == ltl.holds(want, w),
                    'canonical formula', text=text, word=w.word,
                    got=s.to_canon())
        m.ev('canon')
    elif what in ('gr1c', 'jtlv'):
        out = ts.translate(s, what)
        if what == 'gr1c':
            sec = dict()
            for c in out.split(';'):
                if c.strip():
                    k, v = c.split(':', 1)
                    sec[k.strip()] = v.strip()

            def part(k):
                t = sec.get(k, '')
                return ltl.parse(t) if t else ('bool', 'True')
            A = ltl.conj(map(part, ['ENVINIT', 'ENVTRANS', 'ENVGOAL']))
            G = ltl.conj(map(part, ['SYSINIT', 'SYSTRANS', 'SYSGOAL']))
        else:
            def read(t):
                t = ' '.join(x for x in t.splitlines()
                             if not x.strip().startswith('--'))
                t = re.sub(r'\b[es]\.', '', t)
                return ltl.parse(t) if t.strip() else ('bool', 'True')
            A, G = map(read, out)
        for w in L.words(rng, vrs, 5):
            u = L.as_ints(w, vrs)
            for mine, its in [(a, A), (g, G)]:
                m.check(ltl.holds(mine, w) == ltl.holds(its, u),
                        f'translation to {what}', text=text,
                        word=w.word, out=out, vars=vrs)
        m.ev(what)
    elif what == 'init':
        no_str = rng.random() < 0.5 or any(
            isinstance(d, list) for d in vrs.values())
        code = s.compile_init(no_str=no_str)
        for d in X.assignments(vrs):
            if rng.random() < 0.5:
                continue
            want = (not X.conj_ev(parts['env_init'], d, None)) or \
                X.conj_ev(parts['sys_init'], d, None)
            at = dict(d)
            if no_str:
                at = L.as_ints(ltl.Lasso([], [d]), vrs).word[0]
            got = bool(eval(code, {'__builtins__': {}}, at))
            m.check(got == want, 'compiled initial condition',
                    text=text, at=at, got=got)
        m.ev('init')
    return what


@check.case(quick=1500, thorough=25000, cpu=60)
def history(rng, m):
    mir, s = start(rng)
    log = list()
    others = list()
    for _ in range(rng.randint(2, 8)):
        r = rng.random()
        if r < 0.45:
            log.append(edit(rng, mir, s, m))
        elif r < 0.85:
            log.append(query(rng, mir, s, m))
        elif r < 0.93:
            c = s.copy()
            for k in ('moore', 'plus_one', 'qinit'):
                m.check(getattr(c, k) == getattr(s, k), k)
            others.append((mir.clone(), s))
            mir, s = mir.clone(), c
            log.append('copy')
            m.ev('copies')
        else:
            mir2, s2 = start(rng)
            clash = any(
                k in mir.vrs() and
                (mir.env.get(k), mir.sys.get(k)) !=
                (mir2.env.get(k), mir2.sys.get(k))
                for k in mir2.vrs())
            if clash:
                continue
            u = s | s2
            new = mir.clone()
            new.env.update(mir2.env)
            new.sys.update(mir2.sys)
            for k in gr1.PARTS:
                new.parts[k] += mir2.parts[k]
            n = 1
            for d in new.vrs().values():
                n *= len(X.domain_values(d))
            if n > 300:
                continue
            others += [(mir.clone(), s), (mir2, s2)]
            mir, s = new, u
            log.append('union')
            m.ev('unions')
    for a, b in [(mir, s)] + others:
        # operands and originals are untouched by later edits
        query(rng, a, b, m)
    m.sig((log, {k: [t for _, t in v] for k, v in mir.parts.items()}))
    m.sample(log)


@check.case(quick=250, thorough=4000, cpu=120)
def verdicts(rng, m):
    """The same object is solved again after edits."""
    from tulip import synth
    mir, s = start(rng, max_states=12)
    mir.parts['env_safety'] = []
    s.env_safety = []
    qinit = r'\A \E'
    s.moore = rng.random() < 0.5
    s.plus_one = rng.random() < 0.5
    s.qinit = qinit
    for _ in range(rng.randint(2, 4)):
        sp = game.Spec(dict(mir.env), dict(mir.sys), s.moore,
                       s.plus_one, qinit)
        n = 1
        for d in mir.vrs().values():
            n *= len(X.domain_values(d))
        if n > 36:
            return
        for k, es in mir.exprs().items():
            setattr(sp, k, es)
        g = game.Game(sp)
        fine = gr1.feasible_action(sp, g) and gr1.nonblocking(g)
        # the solver needs satisfiable operands
        fine = fine and all(
            any(X.conj_ev(getattr(sp, k), d, d)
                for d in X.assignments(mir.vrs()))
            for k in ('env_init', 'sys_init'))
        if fine:
            want = g.realizable()
            got = synth.is_realizable(s)
            m.check(bool(got) == want, 'verdict after edits',
                    spec=gr1.describe(sp), got=got)
            m.ev('queries')
            m.ev('true' if want else 'false')
            m.sig(gr1.describe(sp))
        for _ in range(rng.randint(1, 2)):
            edit(rng, mir, s, m)
        if rng.random() < 0.3:
            s.moore = not s.moore
        if rng.random() < 0.3:
            s.plus_one = not s.plus_one


@check.finding('stale_ints')
def stale_ints():
    """Integers for strings follow the declared domain."""
    from tulip import spec
    from tulip.spec import translation as ts
    s = spec.GRSpec(sys_vars={'s': ['a', 'b']}, sys_init=['s = "a"'])
    ts.translate(s, 'gr1c')
    s.sys_vars['s'] = ['b', 'a']
    out = ts.translate(s, 'gr1c')
    line, = [x for x in out.split(';') if 'SYSINIT' in x]
    if '1' not in line:
        raise Violation(f'translation after the domain changed: {line}')


@check.finding('init_str')
def init_str():
    """Compiled initial condition, with string constants kept."""
    from tulip import spec
    s = spec.GRSpec(sys_vars={'s': ['a', 'b']}, sys_init=['s = "a"'])
    code = s.compile_init(no_str=False)
    try:
        ok = eval(code, {}, dict(s='a')) and not eval(
            code, {}, dict(s='b'))
    except NameError as e:
        raise Violation(f'{e}')
    if not ok:
        raise Violation('wrong value')
