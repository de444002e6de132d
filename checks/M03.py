"""M03: generated Python code behaves as the machine."""
import os

from rt import mach
from rt.core import Check, Skip, Violation

check = Check(
    'M03',
    rule='a distinct case is a machine whose generated class was run '
    'from every state with every input, by content',
    require=['transducer.moves', 'transducer.refused',
             'transducer.dead_ends', 'files.moves',
             'controller.moves', 'no_inputs.moves',
             'transducer.strings'],
    assumptions=[
        'port names are Python identifiers, values are integers, '
        'Booleans, or strings',
        'transitions are deterministic and label every port'])


ODD = ["it's", 'a\\b', 'say "x"', 'two\nlines', '{t}', '%s', '', "'",
       '\\', '0', 'None', "a' or 'b", 'end\\']


def load(code, name):
    env = dict()
    exec(compile(code, '<generated>', 'exec'), env)
    return env[name]


def outcome(call):
    try:
        return 'ok', call()
    except ValueError:
        return 'refused', None
    except RuntimeError:
        return 'dead end', None


def typed(d):
    return sorted((k, type(v).__name__, v) for k, v in d.items())


def explore(m, t, cls, start):
    """All paths: pair each machine state with instances."""
    import copy
    first = cls()
    m.check(sorted(first.input_vars) == sorted(t.inputs),
            'names of inputs', table=t.describe(), got=first.input_vars)
    todo, seen = [(start, first)], {start}
    number = {start: first.state}
    while todo:
        u, c = todo.pop()
        for x in mach.all_vals(t.inputs):
            d = copy.copy(c)
            want = t.step(u, x)
            before = d.state
            kind, got = outcome(lambda: d.move(**x))
            if not any(a == u for a, *_ in t.edges):
                m.check(kind == 'dead end', 'move from a dead end',
                        table=t.describe(), state=u, inputs=x,
                        got=(kind, got))
                m.ev('dead_ends')
                continue
            if not want:
                m.check(kind == 'refused' and d.state == before,
                        'input that no transition admits',
                        table=t.describe(), state=u, inputs=x,
                        got=(kind, got))
                m.ev('refused')
                continue
            (v, y), = want
            m.check(kind == 'ok' and typed(got) == typed(y),
                    'outputs', table=t.describe(), state=u, inputs=x,
                    got=(kind, got), want=y)
            m.ev('moves')
            m.check(number.setdefault(v, d.state) == d.state,
                    'number of the next state', table=t.describe())
            if v not in seen:
                seen.add(v)
                todo.append((v, d))
            # positional arguments follow `input_vars`
            d = copy.copy(c)
            m.check(typed(d.move(*[x[k] for k in d.input_vars])) ==
                    typed(y), 'positional arguments', state=u, inputs=x)
    m.check(len(set(number.values())) == len(number),
            'two states have one number')


@check.case(quick=500, thorough=6000, cpu=30)
def transducer(rng, m):
    from tulip import dumpsmach
    inputs = mach.rand_ports(rng, 'i', 1)
    outputs = mach.rand_ports(rng, 'o', 1)
    odd = rng.random() < .3
    if odd:
        ports = rng.choice([inputs, outputs])
        ports[rng.choice(sorted(ports))] = rng.sample(ODD, 2)
        m.ev('strings')
    t = mach.rand_table(rng, density=rng.choice([0.4, 0.8, 1]),
                        inputs=inputs, outputs=outputs)
    g = t.mealy(rng)
    start = rng.choice(t.states)
    name = rng.choice(['TulipStrategy', 'Ctrl', 'C1'])
    if start == 'Sinit' and rng.random() < 0.5:
        code = dumpsmach.python_case(g, classname=name)
    else:
        code = dumpsmach.python_case(g, classname=name, start=start)
    explore(m, t, load(code, name), start)
    m.sig((t.describe(), start))
    m.sample(t.describe())


@check.case(quick=60, thorough=600, cpu=30)
def no_inputs(rng, m):
    from tulip import dumpsmach
    t = mach.rand_table(rng, inputs=dict(), density=0.9)
    g = t.mealy(rng)
    code = dumpsmach.python_case(g, start=t.init[0])
    explore(m, t, load(code, 'TulipStrategy'), t.init[0])
    m.sig(t.describe())


@check.case(quick=60, thorough=600, cpu=30)
def files(rng, m):
    from tulip import dumpsmach
    t = mach.rand_table(rng, inputs=mach.rand_ports(rng, 'i', 1))
    g = t.mealy(rng)
    path = os.path.abspath(f'generated_{rng.randrange(10**9)}.py')
    try:
        dumpsmach.write_python_case(
            path, g, classname='Ctrl', start=t.init[0])
        with open(path) as f:
            code = f.read()
    finally:
        if os.path.exists(path):
            os.unlink(path)
    explore(m, t, load(code, 'Ctrl'), t.init[0])
    m.sig(t.describe())


@check.case(quick=150, thorough=2000, cpu=60)
def controller(rng, m):
    """Generated code of synthesized controllers."""
    from rt import gr1, game
    from tulip import synth, dumpsmach
    sp = gr1.rand_spec(rng, ['bool', 'int', 'str'])
    if not sp.env:
        raise Skip()
    g = game.Game(sp)
    if not gr1.feasible_action(sp, g) or not gr1.nonblocking(g):
        raise Skip()
    c = synth.synthesize(gr1.to_grspec(sp, rng), rm_deadends=False)
    if c is None:
        raise Skip()
    c = synth.determinize_machine_init(c)
    obj = load(dumpsmach.python_case(c), 'TulipStrategy')()
    u = 'Sinit'
    for _ in range(12):
        es = list(c.edges(u, data=True))
        if not es:
            kind, got = outcome(
                lambda: obj.move(**{k: 0 for k in sp.env}))
            m.check(kind == 'dead end', 'move from a dead end')
            break
        _, u, d = rng.choice(es)
        kind, got = outcome(
            lambda: obj.move(**{k: d[k] for k in sp.env}))
        m.check(kind == 'ok' and got == {k: d[k] for k in sp.sys},
                'outputs of generated controller',
                spec=gr1.describe(sp), label=d, got=(kind, got))
        m.ev('moves')
    m.sig(gr1.describe(sp))
