"""H05: descriptions of affine, piecewise affine, and switched systems."""
import logging
import warnings

import numpy as np

from rt import hyb, poly
from rt.core import Check

check = Check(
    'H05',
    rule='a distinct case is a system with its dimensions and time data',
    require=['lti.accepted', 'lti.refused', 'lti.defaults',
             'pwa.accepted', 'pwa.uncovered', 'pwa.overlap',
             'pwa.dimensions', 'switched.accepted', 'switched.refused',
             'switched.missing', 'switched.labels', 'time.valid',
             'time.invalid', 'time.pushed', 'time.consistent',
             'time.inconsistent', 'short.lti', 'short.pwa'],
    assumptions=['sets overlap or leave gaps by more than 1e-2, or not '
                 'at all'])


def quiet():
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    poly.seed_volumes()


def to_poly(p):
    import polytope as pc
    return pc.Polytope(p[0].copy(), p[1].copy())


def box(n, a=0., b=1.):
    return to_poly(poly.box([a] * n, [b] * n))


def parts(rng, n=None, m=None, p=None):
    """Arguments of a valid system."""
    n = rng.randint(1, 3) if n is None else n
    m = rng.randint(1, 3) if m is None else m
    p = rng.randint(1, 3) if p is None else p

    def mat(r, c):
        return np.array([[round(rng.uniform(-1, 1), 3) for _ in range(c)]
                         for _ in range(r)])
    kw = dict(A=mat(n, n), B=mat(n, m), E=mat(n, p), K=mat(n, 1),
              Uset=box(rng.choice([m, m, m + n])), Wset=box(p),
              domain=box(n))
    return n, m, p, kw


def refused(m, kinds, fn, what, **info):
    try:
        fn()
    except kinds:
        m.ev('refused')
        return
    m.check(False, 'invalid system was accepted', what=what, **info)


@check.case(quick=250, thorough=20000)
def lti(rng, m):
    from tulip import hybrid
    import polytope as pc
    quiet()
    n, k, p, kw = parts(rng)
    m.sig([n, k, p, kw['A'].tolist()])
    if rng.random() < .3:
        # domain that is a region
        kw['domain'] = pc.Region([box(n), box(n, 1., 2.)])
    s = hybrid.LtiSysDyn(**kw)
    m.ev('accepted')
    for name, value in kw.items():
        got = getattr(s, name)
        if isinstance(value, np.ndarray):
            m.check(np.array_equal(np.array(got), value),
                    'array differs from the given one', name=name)
        else:
            m.check(got is value or got == value,
                    'set differs from the given one', name=name)
    # defaults
    kw2 = dict(kw)
    if rng.random() < .7:
        del kw2['E'], kw2['Wset']
    if rng.random() < .7:
        del kw2['K']
    t = hybrid.LtiSysDyn(**kw2)
    m.ev('defaults')
    if 'K' not in kw2:
        m.check(t.K.shape == (n, 1) and not t.K.any(), 'default of `K`')
    if 'E' not in kw2:
        m.check(t.E.shape[0] == n and not t.E.any(), 'default of `E`')
        m.check(pc.is_empty(t.Wset), 'default of `Wset`')
    # what does not fit
    def mat(*shape):
        return np.ones(shape)
    q = k + 1 if k + 1 != n + k else k + 2
    bad = dict(
        A_rect=dict(A=mat(n, n + 1)), A_big=dict(A=mat(n + 1, n + 1)),
        A_1d=dict(A=mat(n)), B_rows=dict(B=mat(n + 1, k)),
        B_1d=dict(B=mat(n)), U_dim=dict(Uset=box(q)),
        E_rows=dict(E=mat(n + 1, p)), E_1d=dict(E=mat(n)),
        W_dim=dict(Wset=box(p + 1)),
        W_less=dict(Wset=box(p - 1 or p + 2)), K_rows=dict(K=mat(n + 1, 1)),
        K_cols=dict(K=mat(n, 2)), K_1d=dict(K=mat(n)),
        D_dim=dict(domain=box(n + 1)), U_type=dict(Uset=[[0, 1]]),
        D_type=dict(domain=[[0, 1]]),
        U_region=dict(Uset=pc.Region([box(k)])))
    what = rng.choice(sorted(bad))
    refused(m, (ValueError, TypeError),
            lambda: hybrid.LtiSysDyn(**{**kw, **bad[what]}), what,
            dims=[n, k, p])


def tiles(rng, n):
    """Boxes that cover a box exactly."""
    doms = [([0.] * n, [2.] * n)]
    for _ in range(rng.choice([0, 1, 2, 3])):
        a, b = doms.pop(rng.randrange(len(doms)))
        i = rng.randrange(n)
        c = round(a[i] + (b[i] - a[i]) * rng.uniform(.3, .7), 2)
        a1, b1 = list(a), list(b)
        a1[i] = b1[i] = c
        doms += [(a, b1), (a1, b)]
    rng.shuffle(doms)
    return doms


def systems(rng, doms, n, dims=None):
    from tulip import hybrid
    k, p = dims or (rng.randint(1, 2), rng.randint(1, 2))
    out = list()
    for a, b in doms:
        _, _, _, kw = parts(rng, n, k, p)
        kw['domain'] = to_poly(poly.box(a, b))
        out.append(hybrid.LtiSysDyn(**kw))
    return out, (k, p)


@check.case(quick=120, thorough=8000)
def pwa(rng, m):
    from tulip import hybrid
    import polytope as pc
    quiet()
    n = rng.randint(1, 2)
    doms = tiles(rng, n)
    subs, dims = systems(rng, doms, n)
    whole = to_poly(poly.box([0.] * n, [2.] * n))
    m.sig([n, doms, dims])
    s = hybrid.PwaSysDyn(subs, whole)
    m.ev('accepted')
    m.check(s.list_subsys == subs, 'subsystems')
    m.check(s.domain == whole, 'domain')
    # smaller domain than what is covered
    hybrid.PwaSysDyn(subs, to_poly(poly.box([.2] * n, [1.8] * n)))
    # gap
    i = rng.randrange(len(doms))
    a, b = doms[i]
    axis = rng.randrange(n)
    b2 = list(b)
    b2[axis] -= .1 * (b[axis] - a[axis])
    fewer, _ = systems(rng, doms[:i] + [(a, b2)] + doms[i + 1:], n, dims)
    refused_as(m, 'uncovered', lambda: hybrid.PwaSysDyn(fewer, whole),
               doms=doms)
    # overlap
    if len(doms) > 1:
        a2, b2 = list(a), list(b)
        b2[axis] += .05
        a2[axis] -= .05
        more, _ = systems(
            rng, doms[:i] + [(a2, b2)] + doms[i + 1:], n, dims)
        clash = any(
            poly.cheby(*map(np.concatenate, zip(
                poly.box(a2, b2), poly.box(*d))))[0] > 1e-2
            for k, d in enumerate(doms) if k != i)
        if clash:
            refused_as(m, 'overlap',
                       lambda: hybrid.PwaSysDyn(more, whole), doms=doms)
        # dimensions
        k, p = dims
        other = rng.choice([(k + 1, p), (k, p + 1)])
        one, _ = systems(rng, [doms[i]], n, other)
        mixed = subs[:i] + one + subs[i + 1:]
        refused_as(m, 'dimensions',
                   lambda: hybrid.PwaSysDyn(mixed, whole), doms=doms)
    refused_as(m, None, lambda: hybrid.PwaSysDyn(subs, None))
    try:
        hybrid.PwaSysDyn(subs, [0, 1])
    except TypeError:
        pass
    else:
        m.check(False, 'domain of wrong type was accepted')


def refused_as(m, name, fn, **info):
    try:
        fn()
    except ValueError:
        if name:
            m.ev(name)
    else:
        m.check(False, 'invalid system was accepted', what=name, **info)


@check.case(quick=150, thorough=10000)
def switched(rng, m):
    from tulip import hybrid
    import warnings as w
    quiet()
    n = 1
    ne, ns = rng.randint(1, 3), rng.randint(1, 3)
    el = rng.choice([None, [f'e{i}' for i in range(ne)],
                     list(range(5, 5 + ne)), ['on', 'off', 'e'][:ne]])
    sl = rng.choice([None, [f's{i}' for i in range(ns)],
                     list(range(7, 7 + ns)), ['off', 'on', 's'][:ns]])
    es = list(range(ne)) if el is None else el
    ss = list(range(ns)) if sl is None else sl
    whole = to_poly(poly.box([0.], [2.]))
    subs, dims = systems(rng, [([0.], [2.])], n)
    dyn = {(a, b): hybrid.PwaSysDyn(subs, whole) for a in es for b in ss}
    m.sig([ne, ns, el, sl])
    kw = dict(cts_ss=whole, env_labels=el, disc_sys_labels=sl)
    with w.catch_warnings(record=True) as seen:
        w.simplefilter('always')
        s = hybrid.SwitchedSysDyn((ne, ns), dyn, **kw)
    m.check(not any('issing' in str(x.message) for x in seen),
            'warning for modes that are not missing')
    m.ev('accepted')
    if el or sl:
        m.ev('labels')
    m.check(list(s.env_labels) == es, 'labels of environment',
            got=list(s.env_labels), want=es)
    m.check(list(s.disc_sys_labels) == ss, 'labels of system',
            got=list(s.disc_sys_labels), want=ss)
    m.check(sorted(s.all_mode_combs) == sorted(dyn), 'modes',
            got=sorted(s.all_mode_combs))
    m.check(set(s.modes) == set(dyn), 'modes with dynamics')
    m.check(tuple(s.disc_domain_size) == (ne, ns), 'size')
    m.check(s.dynamics == dyn, 'dynamics')
    # missing mode is allowed
    if len(dyn) > 1:
        fewer = dict(dyn)
        fewer.pop(rng.choice(sorted(dyn)))
        with w.catch_warnings(record=True) as seen:
            w.simplefilter('always')
            t = hybrid.SwitchedSysDyn((ne, ns), fewer, **kw)
        m.check(any('issing' in str(x.message) for x in seen),
                'no warning for missing mode')
        m.check(set(t.modes) == set(fewer), 'modes with dynamics')
        m.ev('missing')
    what = rng.choice(['mode', 'type', 'env', 'sys', 'space', 'swap'])
    if what == 'mode':
        extra = dict(dyn)
        extra[('zz', ss[0])] = dyn[es[0], ss[0]]
        fn = lambda: hybrid.SwitchedSysDyn((ne, ns), extra, **kw)
    elif what == 'swap':
        if set(es) & set(ss):
            return
        extra = {(b, a): v for (a, b), v in dyn.items()}
        fn = lambda: hybrid.SwitchedSysDyn((ne, ns), extra, **kw)
    elif what == 'type':
        extra = dict(dyn)
        extra[rng.choice(sorted(dyn))] = subs[0]
        fn = lambda: hybrid.SwitchedSysDyn((ne, ns), extra, **kw)
    elif what == 'env':
        fn = lambda: hybrid.SwitchedSysDyn(
            (ne, ns), dict(), **{**kw, 'env_labels': ['a'] * (ne + 1)})
    elif what == 'sys':
        fn = lambda: hybrid.SwitchedSysDyn(
            (ne, ns), dict(), **{**kw, 'disc_sys_labels': ['a'] * (ns + 1)})
    else:
        fn = lambda: hybrid.SwitchedSysDyn(
            (ne, ns), dyn, **{**kw, 'cts_ss': [0, 1]})
    refused(m, (ValueError, TypeError), fn, what)


VALID = [(None, None), ('sampled', None), ('sampled', .5),
         ('sampled', 2), (None, .25), ('discrete', None)]
INVALID = [('discrete', .5), ('discrete', 1), ('other', None),
           ('sampled', 0), ('sampled', -1.), (None, -2), (None, 0.),
           ('sampled', 'a'), ('sampled', [1])]


@check.case(quick=200, thorough=15000)
def time(rng, m):
    from tulip import hybrid
    import warnings as w
    quiet()
    whole = to_poly(poly.box([0.], [2.]))
    _, _, _, kw = parts(rng, 1, 1, 1)

    def lti(data, dom):
        return hybrid.LtiSysDyn(**{
            **kw, 'domain': to_poly(poly.box(*dom)),
            'time_semantics': data[0], 'timestep': data[1]})
    a, b, c = (rng.choice(VALID) for _ in range(3))
    bad = rng.choice(INVALID)
    m.sig([a, b, c, bad])
    doms = [([0.], [1.]), ([1.], [2.])]

    def subs(x, y):
        return [lti(x, doms[0]), lti(y, doms[1])]

    def pwa(x, y, z, **more):
        return hybrid.PwaSysDyn(
            subs(x, y), whole, time_semantics=z[0], timestep=z[1], **more)

    def modes(x, y, z, **more):
        return hybrid.SwitchedSysDyn(
            (2, 1), {(0, 0): pwa(x, x, x), (1, 0): pwa(y, y, y)}, whole,
            time_semantics=z[0], timestep=z[1], **more)
    for fn in (lambda: lti(bad, doms[0]), lambda: pwa(a, a, bad),
               lambda: modes(a, a, bad)):
        try:
            fn()
        except (ValueError, TypeError):
            m.ev('invalid')
        else:
            m.check(False, 'invalid time data was accepted', data=bad)

    def has(s, z):
        m.check((s.time_semantics, s.timestep) == z, 'time data',
                got=[s.time_semantics, s.timestep], want=z)
    s = lti(a, doms[0])
    m.ev('valid')
    has(s, a)
    # the data of the whole overwrites the data of the parts
    s = pwa(a, b, c)
    has(s, c)
    for t in s.list_subsys:
        has(t, c)
    s = modes(a, b, c)
    has(s, c)
    for t in s.dynamics.values():
        has(t, c)
        for u in t.list_subsys:
            has(u, c)
    m.ev('pushed')
    # warnings when data is lost
    with w.catch_warnings(record=True) as seen:
        w.simplefilter('always')
        pwa(a, b, c)
    lost = any(
        (x[0] is not None and x[0] != c[0]) or
        (x[1] is not None and x[1] != c[1]) for x in (a, b))
    told = any('verwriting' in str(x.message) for x in seen)
    m.check(lost == told, 'warnings when time data is overwritten',
            data=[a, b, c], told=told)
    # or has to be the same
    for make in (pwa, modes):
        try:
            s = make(a, b, c, overwrite_time=False)
        except ValueError:
            m.ev('inconsistent')
            m.check(not a == b == c, 'consistent time data was refused',
                    data=[a, b, c])
        else:
            m.ev('consistent')
            m.check(a == b == c, 'inconsistent time data was accepted',
                    data=[a, b, c])
            has(s, c)
    for make in (pwa, modes):
        has(make(a, a, a, overwrite_time=False), a)
        m.ev('consistent')


@check.case(quick=80, thorough=5000)
def short(rng, m):
    """Systems of one affine subsystem, or of one mode."""
    from tulip import hybrid
    import polytope as pc
    quiet()
    n, k, p, kw = parts(rng)
    if rng.random() < .5:
        del kw['E'], kw['Wset']
    if rng.random() < .5:
        del kw['K']
    m.sig([n, k, p, sorted(kw)])
    want = hybrid.LtiSysDyn(**kw)

    def same(s):
        for name in 'ABEK':
            m.check(np.array_equal(
                getattr(s, name), getattr(want, name)),
                'arrays differ', name=name)
        for name in ('Uset', 'Wset', 'domain'):
            m.check(getattr(s, name) == getattr(want, name),
                    'sets differ', name=name)

    def one(s, dom):
        m.check(len(s.list_subsys) == 1, 'number of subsystems')
        same(s.list_subsys[0])
        m.check(s.domain == dom, 'domain')
    one(hybrid.PwaSysDyn.from_lti(**kw), kw['domain'])
    m.ev('lti')

    def mode(s):
        m.check(list(s.modes) == [(0, 0)], 'modes')
        m.check(s.cts_ss == kw['domain'], 'state space')
        one(s.dynamics[0, 0], kw['domain'])
    mode(hybrid.SwitchedSysDyn.from_lti(**kw))
    mode(hybrid.SwitchedSysDyn.from_pwa([want], kw['domain']))
    m.ev('pwa')
