"""Expressions over finite-domain variables, independent of `tulip`.

An expression is a nested tuple:

    ('true',) ('false',)
    ('var', name, primed)                boolean variable
    ('cmp', op, name, primed, value)     integer or string variable
    ('cmpv', op, n1, p1, n2, p2)         two integer variables
    ('not', e) ('and', a, b) ('or', a, b) ('imp', a, b)
    ('iff', a, b) ('xor', a, b)
"""
import itertools
import operator

CMP = {
    '=': operator.eq, '!=': operator.ne, '<': operator.lt,
    '<=': operator.le, '>': operator.gt, '>=': operator.ge}


def ev(e, cur, nxt):
    """Value of `e`, with `cur`, `nxt` the two assignments."""
    t = e[0]
    if t == 'true':
        return True
    if t == 'false':
        return False
    if t == 'var':
        return bool((nxt if e[2] else cur)[e[1]])
    if t == 'cmp':
        return CMP[e[1]]((nxt if e[3] else cur)[e[2]], e[4])
    if t == 'cmpv':
        return CMP[e[1]](
            (nxt if e[3] else cur)[e[2]],
            (nxt if e[5] else cur)[e[4]])
    if t == 'not':
        return not ev(e[1], cur, nxt)
    a = ev(e[1], cur, nxt)
    b = ev(e[2], cur, nxt)
    if t == 'and':
        return a and b
    if t == 'or':
        return a or b
    if t == 'imp':
        return (not a) or b
    if t == 'iff':
        return a == b
    if t == 'xor':
        return a != b
    raise ValueError(e)


STYLES = dict(
    and_=['&', '&&', '/\\'], or_=['|', '||', '\\/'],
    not_=['!'], imp_=['->'], iff_=['<->'],
    eq_=['='], true_=['True', 'TRUE', 'true'],
    false_=['False', 'FALSE', 'false'])


class Style:
    """Concrete syntax choices for printing."""

    def __init__(self, rng=None, plain=False, prime=None, xor=False):
        self.rng = rng
        self.xor = xor
        self.plain = plain
        self.prime = prime

    def pick(self, name):
        opts = STYLES[name]
        if self.plain or self.rng is None:
            return opts[0]
        return self.rng.choice(opts)

    def next(self, s):
        p = self.prime
        if p is None:
            p = "'" if self.rng is None else self.rng.choice(["'", 'X'])
        if p == 'X':
            return f'(X {s})'
        return f"{s}'"


def pr(e, st):
    """Return text in the input syntax of `tulip`."""
    t = e[0]
    if t == 'true':
        return st.pick('true_')
    if t == 'false':
        return st.pick('false_')
    if t == 'var':
        return st.next(e[1]) if e[2] else e[1]
    if t == 'cmp':
        op = st.pick('eq_') if e[1] == '=' else e[1]
        v = e[4]
        v = f'"{v}"' if isinstance(v, str) else str(v)
        n = st.next(e[2]) if e[3] else e[2]
        return f'({n} {op} {v})'
    if t == 'cmpv':
        op = st.pick('eq_') if e[1] == '=' else e[1]
        a = st.next(e[2]) if e[3] else e[2]
        b = st.next(e[4]) if e[5] else e[4]
        return f'({a} {op} {b})'
    if t == 'not':
        return f'({st.pick("not_")} {pr(e[1], st)})'
    a = pr(e[1], st)
    b = pr(e[2], st)
    if t == 'xor':
        if not st.xor:
            return f'({st.pick("not_")} ({a} {st.pick("iff_")} {b}))'
        op = '^'
    else:
        op = st.pick(t + '_')
    return f'({a} {op} {b})'


def domain_values(dom):
    if dom == 'boolean':
        return [False, True]
    if isinstance(dom, tuple):
        return list(range(dom[0], dom[1] + 1))
    return list(dom)


def assignments(vrs):
    """All assignments to `vrs`, as `dict`s."""
    names = sorted(vrs)
    for vals in itertools.product(
            *(domain_values(vrs[k]) for k in names)):
        yield dict(zip(names, vals))


def key(d, names):
    return tuple(d[k] for k in names)


def rand_atom(rng, vrs, primed_ok=()):
    """Random atom over `vrs`; names in `primed_ok` may be primed."""
    name = rng.choice(sorted(vrs))
    dom = vrs[name]
    p = name in primed_ok and rng.random() < 0.5
    if dom == 'boolean':
        return ('var', name, p)
    if isinstance(dom, tuple):
        ints = sorted(
            k for k, d in vrs.items() if isinstance(d, tuple))
        if len(ints) > 1 and rng.random() < 0.2:
            other = rng.choice(ints)
            q = other in primed_ok and rng.random() < 0.5
            return ('cmpv', rng.choice(sorted(CMP)), name, p, other, q)
        v = rng.randint(dom[0], dom[1])
        op = rng.choice(['=', '=', '=', '!=', '<', '<=', '>', '>='])
        return ('cmp', op, name, p, v)
    return ('cmp', rng.choice(['=', '=', '!=']), name, p, rng.choice(dom))


def rand_expr(rng, vrs, depth, primed_ok=()):
    if depth == 0 or rng.random() < 0.15:
        if rng.random() < 0.04:
            return (rng.choice(['true', 'false']),)
        return rand_atom(rng, vrs, primed_ok)
    t = rng.choice([
        'not', 'and', 'and', 'or', 'or', 'imp', 'iff', 'xor'])
    if t == 'not':
        return ('not', rand_expr(rng, vrs, depth - 1, primed_ok))
    return (
        t,
        rand_expr(rng, vrs, depth - 1, primed_ok),
        rand_expr(rng, vrs, depth - 1, primed_ok))


def conj_ev(es, cur, nxt):
    return all(ev(e, cur, nxt) for e in es)


def size(e):
    if e[0] in ('true', 'false'):
        return 0
    if e[0] in ('var', 'cmp', 'cmpv'):
        return 1
    return sum(size(a) for a in e[1:])


def is_primed(e):
    if e[0] in ('true', 'false'):
        return False
    if e[0] == 'var':
        return e[2]
    if e[0] == 'cmp':
        return e[3]
    if e[0] == 'cmpv':
        return e[3] or e[5]
    return any(is_primed(a) for a in e[1:])


def names(e):
    """Names of variables that occur in `e`."""
    if e[0] in ('true', 'false'):
        return set()
    if e[0] == 'var':
        return {e[1]}
    if e[0] == 'cmp':
        return {e[2]}
    if e[0] == 'cmpv':
        return {e[2], e[4]}
    return set().union(*(names(a) for a in e[1:]))
