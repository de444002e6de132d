"""Random machines, and their own table of transitions."""
PORTS = {
    'bool': [0, 1], 'int': [0, 1, 2], 'str': ['on', 'off', 'red'],
    'neg': [-1, 0, 4]}


class Table:
    """Transducer, independent of `tulip`."""

    def __init__(self):
        self.inputs = dict()
        self.outputs = dict()
        self.states = list()
        self.init = list()
        self.edges = list()     # (u, v, inputs, outputs)
        self.out = dict()       # state -> outputs (Moore)

    def describe(self):
        return dict(inputs=self.inputs, outputs=self.outputs,
                    states=self.states, init=self.init,
                    edges=self.edges, out=self.out)

    def step(self, u, x):
        return [(v, y) for a, v, i, y in self.edges
                if a == u and i == x]

    def mealy(self, rng=None):
        from tulip import transys
        g = transys.MealyMachine()
        g.add_inputs({k: set(v) for k, v in self.inputs.items()})
        g.add_outputs({k: set(v) for k, v in self.outputs.items()})
        return self._fill(g, rng)

    def moore(self, rng=None):
        from tulip import transys
        g = transys.MooreMachine()
        g.add_inputs({k: set(v) for k, v in self.inputs.items()})
        g.add_outputs({k: set(v) for k, v in self.outputs.items()})
        return self._fill(g, rng)

    def _fill(self, g, rng):
        states = list(self.states)
        edges = list(self.edges)
        if rng is not None:
            rng.shuffle(states)
            rng.shuffle(edges)
        for s in states:
            g.states.add(s, **self.out.get(s, dict()))
        g.states.initial.add_from(self.init)
        for u, v, x, y in edges:
            g.transitions.add(u, v, **x, **y)
        return g


def rand_ports(rng, prefix, least=0, most=2):
    # also names that begin with each other
    names = rng.choice([
        [f'{prefix}{i}' for i in range(most)],
        [prefix + '1' * i for i in range(most)]])
    if rng.random() < .5:
        names.reverse()
    return {name: list(PORTS[rng.choice(sorted(PORTS))])
            for name in names[:rng.randint(least, most)]}


def rand_val(rng, ports):
    return {k: rng.choice(v) for k, v in ports.items()}


def all_vals(ports):
    out = [dict()]
    for k, v in ports.items():
        out = [{**d, k: x} for d in out for x in v]
    return out


def rand_table(rng, moore=False, deterministic=True, density=0.8,
               inputs=None, outputs=None, names=None):
    t = Table()
    t.inputs = rand_ports(rng, 'i', 0 if rng.random() < 0.2 else 1) \
        if inputs is None else inputs
    t.outputs = rand_ports(rng, 'o', 1) if outputs is None else outputs
    n = rng.randint(1, 5)
    kind = names or rng.choice(['int', 'str', 'mixed', 'odd', 'alike'])
    pool = {'int': list(range(n)), 'str': [f's{i}' for i in range(n)],
            'mixed': [f's{i}' if i % 2 else i for i in range(n)],
            # names that are false, not sortable together, or composite
            # names that are the same when written
            'alike': [1, '1', 's1', 's', "('s', 1)", ('s', 1)][:n],
            'odd': ['', (), 0, ('s', 1), frozenset({1}), (0,)][:n]}[kind]
    first = 0 if names or rng.random() < 0.5 else rng.randrange(n)
    if rng.random() < 0.5:
        pool[first] = 'Sinit'
    t.states = pool
    t.init = [pool[first]]
    if moore:
        t.out = {s: rand_val(rng, t.outputs) for s in pool}
    vals = all_vals(t.inputs)
    seen = set()
    for u in pool:
        for x in vals:
            k = 1 if deterministic else rng.choice([1, 1, 2])
            if rng.random() > density:
                k = 0
            for _ in range(k):
                v = rng.choice(pool)
                y = dict() if moore else rand_val(rng, t.outputs)
                key = repr((u, v, x, y))
                if key not in seen:
                    seen.add(key)
                    t.edges.append((u, v, x, y))
    rng.shuffle(t.edges)
    return t
