"""M01: simulating a machine takes exactly its transitions."""
import sys
import io

from rt import mach
from rt.core import Check, Skip, Violation

check = Check(
    'M01',
    rule='a distinct case is a machine that was simulated for at least '
    'two reactions, by content',
    require=['reaction.reactions', 'reaction.refused', 'lazy.reactions',
             'lazy.refused', 'guided.reactions', 'guided.refused',
             'random_runs.reactions', 'strip.edges',
             'interactive.reactions', 'synthesized.reactions'],
    assumptions=['explicit (not symbolic) guards'])


def react(m, g, u, x, **kw):
    try:
        return g.reaction(u, dict(x), **kw)
    except ValueError:
        return None


@check.case(quick=1000, thorough=15000, cpu=30)
def reaction(rng, m):
    """`reaction` for every state and input."""
    t = mach.rand_table(rng, deterministic=rng.random() < 0.7)
    g = t.mealy(rng)
    for u in t.states:
        for x in mach.all_vals(t.inputs):
            want = t.step(u, x)
            got = react(m, g, u, x)
            if len(want) == 1:
                m.check(got == want[0], 'reaction', table=t.describe(),
                        state=u, inputs=x, got=got, want=want)
                m.ev('reactions')
            else:
                m.check(got is None, 'reaction though none, or several, '
                        'transitions are enabled', table=t.describe(),
                        state=u, inputs=x, got=got, want=want)
                m.ev('refused')
            # too few, or too many
            odd = dict(x)
            if x and rng.random() < 0.5:
                del odd[rng.choice(sorted(x))]
            else:
                k = rng.choice([*t.outputs, 'no such port'])
                odd[k] = rng.choice([0, 1, 'on'])
            got = react(m, g, u, odd)
            m.check(got is None, 'reaction to what is not an input',
                    table=t.describe(), state=u, inputs=odd, got=got)
    if len(t.edges) > 1:
        m.sig(t.describe())
        m.sample(t.describe())


@check.case(quick=600, thorough=8000, cpu=30)
def lazy(rng, m):
    """Some of the inputs, when that determines the transition."""
    t = mach.rand_table(rng, density=0.5)
    g = t.mealy(rng)
    for u in t.states:
        for _ in range(4):
            x = mach.rand_val(rng, t.inputs)
            x = {k: v for k, v in x.items() if rng.random() < 0.6}
            want = [(v, y) for a, v, i, y in t.edges if a == u and all(
                i[k] == x[k] for k in x)]
            try:
                got = g.reactionpart(u, dict(x))
            except ValueError:
                got = None
            if len(want) == 1:
                m.check(got == want[0], 'reaction', table=t.describe(),
                        state=u, inputs=x, got=got, want=want)
                m.ev('reactions')
            else:
                m.check(got is None, 'reaction that is not determined',
                        state=u, inputs=x, got=got, want=want)
                m.ev('refused')
            odd = {**x, rng.choice([*t.outputs, 'no such port']):
                   rng.choice([0, 1, 'on'])}
            try:
                got = g.reactionpart(u, odd)
            except ValueError:
                got = None
            m.check(got is None, 'reaction to what is not an input',
                    table=t.describe(), state=u, inputs=odd, got=got)
    m.sig(t.describe())


@check.case(quick=800, thorough=10000, cpu=30)
def guided(rng, m):
    from tulip.transys import machines
    t = mach.rand_table(rng, density=0.95)
    if not t.inputs:
        raise Skip()
    g = t.mealy(rng)
    n = rng.randint(1, 8)
    word = [mach.rand_val(rng, t.inputs) for _ in range(n)]
    seqs = {k: [x[k] for x in word] for k in t.inputs}
    start = rng.choice(t.states) if rng.random() < 0.5 else None
    u = t.init[0] if start is None else start
    want_s, want_o = list(), {k: list() for k in t.outputs}
    blocked = False
    for x in word:
        nxt = t.step(u, x)
        if not nxt:
            blocked = True
            break
        (u, y), = nxt
        want_s.append(u)
        for k in y:
            want_o[k].append(y[k])
    run = rng.choice([
        lambda: machines.guided_run(
            g, from_state=start, input_sequences=seqs),
        lambda: g.run(from_state=start, input_sequences=seqs)])
    try:
        got = run()
    except ValueError:
        m.check(blocked, 'run refused', table=t.describe(), word=word)
        m.ev('refused')
        return
    m.check(not blocked, 'run with an input that is not allowed',
            table=t.describe(), word=word, got=got)
    m.check(got == (want_s, want_o), 'run', table=t.describe(),
            word=word, got=got, want=(want_s, want_o))
    m.ev('reactions', n)
    m.sig((t.describe(), word))
    bad = dict(seqs)
    k = rng.choice(sorted(bad))
    if rng.random() < 0.5:
        del bad[k]
    elif len(bad) > 1:
        bad[k] = bad[k] + bad[k]
    else:
        return
    try:
        machines.guided_run(g, from_state=start, input_sequences=bad)
    except ValueError:
        return
    m.check(False, 'missing port, or unequal lengths, accepted')


@check.case(quick=500, thorough=6000, cpu=30)
def random_runs(rng, m):
    """Each step of a random run is a transition."""
    from tulip.transys import machines
    import random
    random.seed(rng.random())
    t = mach.rand_table(rng, deterministic=rng.random() < 0.5,
                        density=rng.choice([1, 1, 0.7]))
    g = t.mealy(rng)
    n = rng.randint(1, 12)
    start = rng.choice([None, *t.states])
    dead = set(t.states) - {e[0] for e in t.edges}
    try:
        states, outs = machines.random_run(g, from_state=start, N=n)
    except Exception:
        # only if a dead end can be reached
        m.check(dead, 'random run failed', table=t.describe())
        m.ev('dead ends')
        return
    m.check(len(states) == n and all(len(v) == n for v in outs.values())
            and set(outs) == set(t.outputs), 'length of run')
    u = t.init[0] if start is None else start
    for i, v in enumerate(states):
        y = {k: outs[k][i] for k in outs}
        m.check(any(a == u and b == v and o == y
                    for a, b, _, o in t.edges),
                'step that is not a transition', table=t.describe(),
                step=(u, v, y))
        u = v
        m.ev('reactions')
    m.sig((t.describe(), states))


@check.case(quick=400, thorough=5000, cpu=30)
def strip(rng, m):
    """Removing ports keeps everything else."""
    from tulip.transys import machines
    t = mach.rand_table(rng, deterministic=rng.random() < 0.5)
    g = t.mealy(rng)
    ports = sorted({**t.inputs, **t.outputs})
    # without any port left, parallel edges are refused (documented)
    drop = set(rng.sample(ports, rng.randint(0, len(ports) - 1)))
    h = machines.strip_ports(g, drop)
    m.check(set(h.inputs) == set(t.inputs) - drop and
            set(h.outputs) == set(t.outputs) - drop, 'ports')
    m.check(set(h.nodes) == set(t.states) and
            set(h.states.initial) == set(t.init), 'states')
    want = sorted({repr((u, v, sorted(
        (k, z) for k, z in {**x, **y}.items() if k not in drop)))
        for u, v, x, y in t.edges})
    got = sorted({repr((u, v, sorted(d.items())))
                  for u, v, d in h.edges(data=True)})
    m.check(got == want, 'transitions', table=t.describe(), drop=drop,
            got=got)
    m.check(sorted(map(repr, g.inputs)) == sorted(map(repr, t.inputs))
            and len(g.edges) == len(t.edges), 'the machine changed')
    m.ev('edges', len(want))
    m.sig((t.describe(), sorted(drop)))


@check.case(quick=150, thorough=2000, cpu=30)
def interactive(rng, m):
    """The user picks transitions by their position."""
    from tulip.transys import machines
    t = mach.rand_table(rng, deterministic=rng.random() < 0.5,
                        density=rng.choice([0.6, 1]))
    g = t.mealy(rng)
    start = rng.choice([None, *t.states])
    picks = list()
    u = t.init[0] if start is None else start
    path = [u]
    ended = False
    for _ in range(rng.randint(0, 6)):
        trans = g.transitions.find([u])
        if not trans:
            ended = True
            break
        if rng.random() < 0.2:
            picks.append(rng.choice(['x', '99', 'a b']))
        i = rng.randrange(len(trans))
        picks.append(str(i))
        u = trans[i][1]
        path.append(u)
    if ended and rng.random() < 0.5:
        typed = picks
    else:
        typed = picks + ['']
    old = sys.stdin, sys.stdout
    sys.stdin = io.StringIO(''.join(f'{p}\n' for p in typed))
    sys.stdout = out = io.StringIO()
    try:
        g.run(from_state=start)
    finally:
        sys.stdin, sys.stdout = old
    shown = [x.split(':', 1)[1].strip() for x in
             out.getvalue().splitlines() if 'Current state' in x]
    m.check(shown == [str(x) for x in path], 'states visited',
            table=t.describe(), typed=typed, got=shown, want=path)
    m.ev('reactions', len(path) - 1)
    m.ev('runs')
    m.sig((t.describe(), typed))


@check.case(quick=150, thorough=2000, cpu=60)
def synthesized(rng, m):
    """Simulation of controllers."""
    from rt import gr1, game
    from tulip import synth
    from tulip.transys import machines
    sp = gr1.rand_spec(rng, ['bool', 'int', 'str'],
                       qinit=rng.choice([r'\A \E', r'\E \A']))
    g = game.Game(sp)
    if not gr1.feasible_action(sp, g) or not gr1.nonblocking(g):
        raise Skip()
    c = synth.synthesize(gr1.to_grspec(sp, rng), rm_deadends=False)
    if c is None:
        raise Skip()
    c = synth.determinize_machine_init(c)
    u = 'Sinit'
    word, states, outs = list(), list(), list()
    for _ in range(6):
        es = list(c.edges(u, data=True))
        if not es:
            break
        _, u, d = rng.choice(es)
        word.append({k: d[k] for k in sp.env})
        states.append(u)
        outs.append({k: d[k] for k in sp.sys})
    if not sp.env or not word:
        raise Skip()
    got = machines.guided_run(c, input_sequences={
        k: [x[k] for x in word] for k in sp.env})
    m.check(got == (states, {k: [y[k] for y in outs] for k in sp.sys}),
            'run of controller', spec=gr1.describe(sp), word=word)
    m.ev('reactions', len(word))
    m.sig((gr1.describe(sp), word))
