"""Explicit-state GR(1) games, and monitors for their controllers.

Written from the definitions in the documentation of `GRSpec`
and `synth.synthesize`; shares no code with the solvers.
"""
import collections
import itertools

from rt import expr as X


class Spec:
    """GR(1) specification as abstract syntax."""

    def __init__(self, env, sys, moore, plus_one, qinit):
        self.env = env      # name -> domain
        self.sys = sys
        self.moore = moore
        self.plus_one = plus_one
        self.qinit = qinit
        self.env_init = list()
        self.sys_init = list()
        self.env_safety = list()
        self.sys_safety = list()
        self.env_prog = list()
        self.sys_prog = list()


class Game:
    """Explicit game graph.

    `xs`, `ys` list the assignments to the environment, and
    system, variables.  States are index pairs `(i, j)`.
    `env_ok[(i, j)]` is the set of `i'` allowed next, and
    `sys_ok(i, j, i2, j2)` is the guarantee at a step.
    """

    def __init__(self, spec):
        self.spec = spec
        self.xs = list(X.assignments(spec.env))
        self.ys = list(X.assignments(spec.sys))
        self.states = list(itertools.product(
            range(len(self.xs)), range(len(self.ys))))
        self.val = dict()
        for i, j in self.states:
            d = dict(self.xs[i])
            d.update(self.ys[j])
            self.val[i, j] = d
        self.einit = {
            s for s in self.states
            if X.conj_ev(spec.env_init, self.val[s], None)}
        self.sinit = {
            s for s in self.states
            if X.conj_ev(spec.sys_init, self.val[s], None)}
        self.env_ok = dict()
        for s in self.states:
            d = self.val[s]
            # the environment action refers to x, y, x' only
            self.env_ok[s] = {
                i for i, x in enumerate(self.xs)
                if X.conj_ev(spec.env_safety, d, x)}
        self.sys_ok = dict()
        for s in self.states:
            d = self.val[s]
            self.sys_ok[s] = {
                t for t in self.states
                if X.conj_ev(spec.sys_safety, d, self.val[t])}
        self.assume = [
            {s for s in self.states if X.ev(e, self.val[s], None)}
            for e in spec.env_prog]
        self.goals = [
            {s for s in self.states if X.ev(e, self.val[s], None)}
            for e in spec.sys_prog] or [set(self.states)]

    def step(self, target):
        """States from where the system can force `target` next."""
        sp = self.spec
        nx, ny = range(len(self.xs)), range(len(self.ys))
        out = set()
        for s in self.states:
            eok, sok = self.env_ok[s], self.sys_ok[s]

            def form(i, j):
                t = (i, j)
                if sp.plus_one:
                    return t in sok and (i not in eok or t in target)
                return i not in eok or (t in sok and t in target)
            if sp.moore:
                w = any(all(form(i, j) for i in nx) for j in ny)
            else:
                w = all(any(form(i, j) for j in ny) for i in nx)
            if w:
                out.add(s)
        return out

    def winning(self):
        z = set(self.states)
        while True:
            zold = set(z)
            for goal in self.goals:
                base = goal & self.step(z)
                y = set()
                while True:
                    yold = set(y)
                    unless = self.step(y) | base
                    for fair in (self.assume or [None]):
                        bad = set(self.states) if fair is None \
                            else set(self.states) - fair
                        if fair is None:
                            # no assumption: no trap is useful
                            bad = set()
                        x = set(self.states)
                        while True:
                            xold = x
                            x = (bad & self.step(x)) | unless
                            if x == xold:
                                break
                        y |= x
                    if y == yold:
                        break
                z &= y
            if z == zold:
                return z

    def realizable(self, win=None):
        win = self.winning() if win is None else win
        sp = self.spec
        nx, ny = range(len(self.xs)), range(len(self.ys))

        def form(s):
            if sp.plus_one:
                return s in self.sinit and (
                    s not in self.einit or s in win)
            return s not in self.einit or (
                s in self.sinit and s in win)
        if sp.qinit == r'\A \A':
            return all(s in win for s in self.einit)
        if sp.qinit == r'\A \E':
            return all(any(form((i, j)) for j in ny) for i in nx)
        if sp.qinit == r'\E \A':
            return any(all(form((i, j)) for i in nx) for j in ny)
        if sp.qinit == r'\E \E':
            return any(s in self.sinit and s in win
                       for s in self.states)
        raise ValueError(sp.qinit)


def sccs(nodes, succ):
    """Strongly connected components (Tarjan, iterative)."""
    index = dict()
    low = dict()
    on = set()
    stack = list()
    out = list()
    counter = itertools.count()
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(succ(root)))]
        index[root] = low[root] = next(counter)
        stack.append(root)
        on.add(root)
        while work:
            u, it = work[-1]
            for v in it:
                if v not in nodes:
                    continue
                if v not in index:
                    index[v] = low[v] = next(counter)
                    stack.append(v)
                    on.add(v)
                    work.append((v, iter(succ(v))))
                    break
                if v in on:
                    low[u] = min(low[u], index[v])
            else:
                work.pop()
                if work:
                    w = work[-1][0]
                    low[w] = min(low[w], low[u])
                if low[u] == index[u]:
                    c = set()
                    while True:
                        v = stack.pop()
                        on.discard(v)
                        c.add(v)
                        if v == u:
                            break
                    out.append(c)
    return out


def unfair_cycle(nodes, succ, assume, goal):
    """Return an SCC that meets every assumption, and avoids `goal`.

    `assume`: list of node predicates; `goal`: node predicate.
    """
    inside = {u for u in nodes if not goal(u)}
    for c in sccs(inside, succ):
        if len(c) == 1:
            u = next(iter(c))
            if u not in set(succ(u)):
                continue
        if all(any(a(u) for u in c) for a in assume):
            return c
    return None
