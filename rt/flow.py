"""From continuous dynamics to a controller, with judgement of runs."""
import contextlib
import io

import numpy as np

from rt import poly
from rt.abst import Case
from rt.core import Skip
from rt.part import Scene


def scene(rng, least=1):
    """Two-dimensional scene with propositions inside of the domain."""
    for _ in range(50):
        s = Scene(rng, n=2, most=2, convex=True)
        inside = [
            p for p, (q,) in s.props.items()
            if poly.overlap([q], [s.domain]) > .1]
        if len(inside) >= least:
            return s, inside
    raise Skip('no propositions')


class Flow:
    """Abstraction, specification, and controller."""

    def __init__(self, rng, m, qinit=None, moving=.5, **kw):
        self.m = m
        sc, inside = scene(rng)
        args = dict(
            scene=sc, disturbed=False, state_input=False,
            strength=(.3, .8), least=(.08, .15),
            conservative=rng.random() < .5)
        args.update(kw)
        self.case = c = Case(rng, m, **args)
        if len(c.cells) > 14:
            raise Skip('many cells')
        self.ab = c.ab
        ts = c.ab.ts
        self.labels = {s: set(ts.states[s]['ap']) for s in ts.states()}
        seen = sorted(set().union(*self.labels.values()))
        if not seen or not ts.number_of_edges():
            raise Skip('no labels or transitions')
        self.qinit = qinit or rng.choice([r'\E \A', r'\A \E', r'\A \A'])
        states = list(ts.states())
        if self.qinit == r'\A \A' or rng.random() < .5:
            start = states
        else:
            start = rng.sample(states, rng.randint(1, len(states)))
        self.start = set(start)
        ts.states.initial.add_from(start)
        for most in (2, 2, 1, 1, 0, 0):
            self.goals = rng.sample(seen, min(
                len(seen), rng.randint(min(most, 1), most)))
            self.not_goal = (
                bool(self.goals) and rng.random() < moving)
            self.guard = rng.choice([None, None, 'avoid', 'after'])
            self.guarded = rng.choice(seen)
            self.ctrl = self.synthesize(rng)
            if self.ctrl is not None:
                break
            m.ev('unrealizable')
        else:
            raise Skip('unrealizable')
        m.ev('synthesized')

    def synthesize(self, rng):
        from tulip import spec, synth
        p = self.guarded
        safe = set()
        if self.guard == 'avoid':
            safe.add(f'park -> X(!{p})')
        elif self.guard == 'after':
            safe.add(f'{p} -> X(!{p} || park)')
        prog = set(self.goals)
        if self.not_goal:
            prog.add(f'!{self.goals[0]}')
        specs = spec.GRSpec(
            {'park'}, set(), set(), set(), set(), safe,
            {'!park'}, prog)
        specs.qinit = self.qinit
        specs.moore = rng.random() < .3
        with contextlib.redirect_stdout(io.StringIO()):
            return synth.synthesize(
                specs, sys=self.ab.ts, ignore_sys_init=False)

    def info(self, **kw):
        return self.case.info(
            goals=self.goals, guard=[self.guard, self.guarded],
            qinit=self.qinit, start=sorted(map(str, self.start)), **kw)

    def word(self, rng):
        k = rng.randint(1, 3)
        w = [rng.randint(0, 1) for _ in range(k)]
        w[rng.randrange(k)] = 0
        return w

    def first(self, rng):
        """Initial edge, if more than one suits an input."""
        if self.qinit in (r'\E \A', r'\A \E'):
            return None
        edges = [(v, d) for _, v, d in self.ctrl.edges('Sinit', data=True)]
        return edges[0] if self.qinit == r'\E \E' else rng.choice(edges)

    def discrete(self, word, first, least=0):
        """Outputs of the controller until it repeats."""
        node, outs, inputs, seen = 'Sinit', list(), list(), dict()
        if first is not None:
            node, out = first
            outs, inputs = [dict(out)], [int(out['park'])]
        back = None
        while back is None or len(outs) < least:
            k = len(outs)
            key = (node, k % len(word))
            if key in seen and back is None:
                back = seen[key]
            seen[key] = k
            park = word[k % len(word)]
            node, out = self.ctrl.reaction(node, dict(park=park))
            outs.append(dict(out))
            inputs.append(park)
        return outs, inputs, back

    def judge(self, outs, inputs, back):
        """The sequence of outputs satisfies the specification."""
        m, ts = self.m, self.ab.ts
        info = self.info(outs=outs[:40], inputs=inputs[:40])
        edges = set(ts.edges())
        m.check(outs[0]['loc'] in self.start, 'initial state', **info)
        for k, out in enumerate(outs):
            have = {p for p in self.case.scene.props if out.get(p)}
            m.check(have == self.labels[out['loc']],
                    'outputs differ from the label of the state',
                    k=k, **info)
            if k == 0:
                continue
            last = outs[k - 1]
            m.check((last['loc'], out['loc']) in edges,
                    'controller uses no transition', k=k, **info)
            p = self.guarded
            if self.guard == 'avoid':
                m.check(not (inputs[k - 1] and out[p]),
                        'safety is violated', k=k, **info)
            elif self.guard == 'after':
                m.check(not last[p] or not out[p] or inputs[k - 1]
                        or inputs[k],
                        'safety is violated', k=k, **info)
        for g in self.goals:
            m.check(any(out[g] for out in outs[back:]),
                    'goal is not visited again and again',
                    goal=g, back=back, **info)
        if self.not_goal:
            m.check(any(not out[self.goals[0]] for out in outs[back:]),
                    'goal is not left again and again', **info)

    def point(self, rng, i, pull=.9):
        (A, b), *_ = self.case.cells[i]
        r, c = poly.cheby(A, b)
        d = np.array([rng.gauss(0, 1) for _ in c])
        d = d / np.linalg.norm(d)
        return c + r * pull * rng.random() * d

    def index(self, out):
        return self.ab.ppp2ts.index(out['loc'])

    def inside(self, x, out, what, k):
        """The point is in the cell that the controller announced."""
        m, c = self.m, self.case
        i = self.index(out)
        d = poly.depth(c.cells[i], x)
        info = self.info(k=k, x=list(map(float, x)), depth=d, out=out)
        m.check(d > -1e-5, f'{what}: state is not in cell of `loc`', **info)
        want = c.scene.label(x)
        if want is not None and d > 1e-4:
            have = {p for p in c.scene.props if out.get(p)}
            m.check(have == want,
                    f'{what}: propositions do not hold at state', **info)
            m.ev('labels')
        return d
