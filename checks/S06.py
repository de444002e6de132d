"""S06: post-processing of synthesized controllers."""
import copy

from rt import gr1, game
from rt import expr as X
from rt.core import Check, Skip

check = Check(
    'S06',
    rule='a distinct case is a specification whose controller was '
    'post-processed and changed by that, by content',
    require=['determinize.removed', 'determinize.given',
             'determinize.steps', 'mask.erased', 'mask_any.erased', 'deadends.removed'],
    assumptions=[])


def controller(rng, **kw):
    from tulip import synth
    sp = gr1.rand_spec(rng, ['bool', 'int', 'str'], **kw)
    g = game.Game(sp)
    if not gr1.feasible_action(sp, g) or not gr1.nonblocking(g):
        raise Skip()
    mach = synth.synthesize(gr1.to_grspec(sp, rng), rm_deadends=False)
    if mach is None:
        raise Skip()
    return sp, g, mach


def edges(mach):
    return sorted(
        ((repr(u), repr(v), sorted((k, repr(x)) for k, x in d.items()))
         for u, v, d in mach.edges(data=True)))


@check.case(quick=700, thorough=12000, cpu=60)
def determinize(rng, m):
    """One reaction to each initial input, with the given outputs."""
    from tulip import synth
    sp, g, mach = controller(
        rng, qinit=rng.choice([r'\A \A', r'\A \A', r'\A \E', r'\E \A']))
    c = gr1.Closed(mach, sp, g)
    c.judge(m, live=False)
    before = edges(mach)
    given = dict()
    first = c.edges['Sinit']
    if first and rng.random() < 0.6:
        _, lab = rng.choice(first)
        for k in sp.sys:
            if rng.random() < 0.6:
                # (equal, but another object)
                v = lab[k]
                given[k] = ''.join(list(v)) if isinstance(v, str) else \
                    float(v)
    args = [dict(given)] if given or rng.random() < 0.5 else []
    det = synth.determinize_machine_init(mach, *args)
    m.check(edges(mach) == before, 'the given machine was changed')
    d = gr1.Closed(det, sp, g)
    ok = [(v, lab) for v, lab in first
          if all(lab[k] == x for k, x in given.items())]
    want = {c.split(lab)[0] for _, lab in ok}
    got = d.edges['Sinit']
    m.check(
        len(got) == len({c.split(lab)[0] for _, lab in got}),
        'two initial reactions to one input', edges=got)
    m.check({c.split(lab)[0] for _, lab in got} == want,
            'initial inputs with a reaction', got=got, want=want)
    for e in got:
        m.check(e in ok, 'reaction that was not in the machine, or '
                'has other outputs than those given', edge=e,
                given=given)
    m.check(det.is_deterministic() if hasattr(det, 'is_deterministic')
            else True, 'is_deterministic')
    rest = [e for e in edges(det) if e[0] != repr('Sinit')]
    m.check(rest == [e for e in before if e[0] != repr('Sinit')],
            'transitions other than initial changed')
    m.check(set(det.nodes) == set(mach.nodes), 'states changed')
    if given:
        m.ev('given')
    if len(got) < len(first):
        m.ev('removed')
        m.sig((gr1.describe(sp), sorted(given)))
        m.sample(dict(spec=gr1.describe(sp), given=given))
    # what remains satisfies the specification
    bykey = {d.split(g.val[s]): s for s in g.states}
    start = [(bykey[d.split(lab)], v) for v, lab in got]
    seen, succ = d.reach(m, [z for z in start if z[0] in g.einit])
    d.liveness(seen, succ)


@check.case(quick=300, thorough=4000, cpu=60)
def mask(rng, m):
    """Exactly the outputs that are zero are erased."""
    from tulip import synth
    sp, g, mach = controller(rng)
    was = {(u, v, k): dict(d)
           for u, v, k, d in mach.edges(keys=True, data=True)}
    synth.mask_outputs(mach)
    now = {(u, v, k): dict(d)
           for u, v, k, d in mach.edges(keys=True, data=True)}
    m.check(set(now) == set(was), 'transitions changed')
    n = 0
    for e, d in was.items():
        want = {k: x for k, x in d.items()
                if not (k in sp.sys and x == 0)}
        m.check(now[e] == want, 'label', was=d, now=now[e])
        n += len(d) - len(want)
    m.ev('erased', n)
    if n:
        m.sig(gr1.describe(sp))


@check.case(quick=200, thorough=2000, cpu=60)
def mask_any(rng, m):
    """Machines with outputs of several types."""
    from tulip import synth, transys
    dom = dict(
        a={0, 1, 2}, b={'0', '', 'none', 'c'}, c={True, False},
        d={0, 1}, e={'0', 'go'})
    outs = rng.sample(sorted(dom), rng.randint(1, 4))
    g = transys.MealyMachine()
    g.add_inputs({k: dom[k] for k in dom if k not in outs})
    g.add_outputs({k: dom[k] for k in outs})
    n = rng.randint(1, 4)
    g.states.add_from(range(n))
    for _ in range(rng.randint(1, 8)):
        lab = {k: rng.choice(sorted(dom[k])) for k in dom}
        try:
            g.transitions.add(rng.randrange(n), rng.randrange(n), **lab)
        except Exception:
            raise Skip()
    was = {(u, v, k): dict(d)
           for u, v, k, d in g.edges(keys=True, data=True)}
    synth.mask_outputs(g)
    now = {(u, v, k): dict(d)
           for u, v, k, d in g.edges(keys=True, data=True)}
    want = {e: {k: x for k, x in d.items() if k not in outs or
                isinstance(x, str) or x != 0}
            for e, d in was.items()}
    m.check(now == want, 'labels', was=was, now=now, outputs=outs)
    m.ev('erased', sum(len(was[e]) - len(now[e]) for e in was))
    m.sig((sorted(outs), sorted(map(repr, was.values()))))


@check.case(quick=400, thorough=4000, cpu=60)
def deadends(rng, m):
    """What remains is what lies on infinite paths."""
    from tulip import transys
    n = rng.randint(2, 9)
    g = transys.MealyMachine()
    g.add_inputs({'a': {0, 1}})
    g.states.add_from(range(n))
    es = set()
    for _ in range(rng.randint(1, 2 * n)):
        u, v, a = rng.randrange(n), rng.randrange(n), rng.randint(0, 1)
        es.add((u, v, a))
    for u, v, a in sorted(es):
        g.transitions.add(u, v, a=a)
    if rng.random() < 0.7:
        g.states.initial.add_from([0])
    # greatest set of nodes with a successor in the set
    keep = set(range(n))
    while True:
        new = {u for u in keep if any(
            a == u and b in keep for a, b, _ in es)}
        if new == keep:
            break
        keep = new
    if not keep:
        try:
            g.remove_deadends()
        except AssertionError:
            m.ev('all_gone')
            return
        m.check(False, 'no complaint, though no state remains')
    g.remove_deadends()
    m.check(set(g.nodes) == keep, 'states kept',
            edges=sorted(es), got=sorted(g.nodes), want=sorted(keep))
    left = sorted((u, v, d['a']) for u, v, d in g.edges(data=True))
    m.check(left == sorted(
        e for e in es if e[0] in keep and e[1] in keep), 'edges kept')
    m.check(set(g.states.initial) <= keep, 'initial states')
    if len(keep) < n:
        m.ev('removed', n - len(keep))
        m.sig((n, sorted(es)))
        m.sample(dict(n=n, edges=sorted(es)))
