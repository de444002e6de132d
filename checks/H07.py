"""H07: parallel abstraction ends, whatever its workers do."""
import contextlib
import multiprocessing
import os
import signal
import threading
import time

from rt import hyb, poly
from rt.abst import limit, numerics
from rt.core import Check, Violation
from rt.part import Scene, partition, quiet, to_poly

check = Check(
    'H07',
    rule='a distinct case is a scene with modes, and a failure',
    require=['raises.refused', 'raises.several', 'killed.refused',
             'stopped.equal', 'alone.equal',
             'killed.first', 'killed.late', 'stopped.returned',
             'alone.returned'],
    assumptions=[
        'workers are not killed while they write a result',
        'a function that has not returned after 100 s hangs'])


@contextlib.contextmanager
def returns(seconds):
    def stop(*_):
        for p in multiprocessing.active_children():
            with contextlib.suppress(Exception):
                os.kill(p.pid, signal.SIGCONT)
            p.kill()
        raise Violation('the parallel function does not return',
                        seconds=seconds)
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        for p in multiprocessing.active_children():
            with contextlib.suppress(Exception):
                os.kill(p.pid, signal.SIGCONT)


class Case:
    def __init__(self, rng, m, least=2, disturbed=0.):
        from tulip import hybrid
        quiet()
        sc = self.scene = Scene(rng, most=1, convex=True)
        self.start = partition(sc)
        ns = rng.randint(least, 3)
        self.modes = [(0, k) for k in range(ns)]
        whole = to_poly(sc.domain)
        dynamics = dict()
        self.dyns = dict()
        for mode in self.modes:
            dyn = hyb.rand_dyn(rng, sc.lows, sc.highs,
                               rng.random() < disturbed, False,
                               rng.uniform(.3, .7))
            self.dyns[mode] = hyb.describe(dyn)
            dynamics[mode] = hybrid.PwaSysDyn(
                [hyb.lti(dyn, whole)], whole)
        self.switched = hybrid.SwitchedSysDyn(
            (1, ns), dynamics, whole)
        size = 1.
        for a, b in zip(sc.lows, sc.highs):
            size *= b - a
        self.params = {
            mode: dict(N=rng.choice([1, 1, 2]), trans_length=1,
                       min_cell_volume=round(.1 * size, 3))
            for mode in self.modes}
        for q in self.params.values():
            if rng.random() < .5:
                q['closed_loop'] = rng.random() < .3
            if rng.random() < .3:
                q['conservative'] = True
        m.sig([sc.content(), str(self.dyns)])

    def info(self, **kw):
        return dict(scene=self.scene.content(), modes=str(self.dyns), **kw)

    def alone(self):
        """Without processes."""
        from tulip import abstract
        with limit(8), numerics():
            return abstract.discretize_switched(
                self.start, self.switched, self.params)

    def parallel(self, seconds=100):
        from tulip import abstract
        with returns(seconds):
            return abstract.multiproc_discretize_switched(
                self.start, self.switched, self.params)


def no_children(m, c):
    end = time.time() + 10
    while multiprocessing.active_children() and time.time() < end:
        time.sleep(.05)
    m.check(not multiprocessing.active_children(),
            'workers are left running', **c.info())


def same(m, c, a, b):
    """Cells can be merged in another order."""
    def content(ab):
        ts = ab.ts
        return (
            sorted(sorted(ts.states[s]['ap']) for s in ts.states()),
            sorted((d['env_actions'], d['sys_actions'],
                    sorted(ts.states[u]['ap']), sorted(ts.states[v]['ap']))
                   for u, v, d in ts.edges(data=True)))
    x, y = content(a), content(b)
    m.check(x[0] == y[0], 'cells differ', **c.info())
    m.check(x[1] == y[1], 'transitions differ', **c.info())
    m.ev('equal')


@check.case(quick=10, thorough=150, cpu=200)
def raises(rng, m):
    """Some modes cannot be abstracted."""
    c = Case(rng, m)
    bad = rng.sample(c.modes, rng.randint(1, len(c.modes)))
    for mode in bad:
        how = rng.choice(['simu', 'N', 'name'])
        if how == 'simu':
            c.params[mode]['simu_type'] = 'other'
        elif how == 'N':
            c.params[mode]['N'] = 'two'
        else:
            c.params[mode]['unknown'] = 1
    if len(bad) > 1:
        m.ev('several')
    try:
        c.parallel()
    except Violation:
        raise
    except Exception:
        m.ev('refused')
    else:
        m.check(False, 'result in spite of a failed worker',
                **c.info(bad=str(bad)))
    no_children(m, c)


class Killer(threading.Thread):
    """Signals a worker, after a number of workers were seen."""

    def __init__(self, nth, delay, sig, resume=None):
        super().__init__(daemon=True)
        self.nth, self.delay, self.sig = nth, delay, sig
        self.resume = resume
        self.done = False
        self.hit = None

    def run(self):
        seen = list()
        while not self.done:
            for p in multiprocessing.active_children():
                if p.pid is not None and p.pid not in seen:
                    seen.append(p.pid)
            if len(seen) > self.nth:
                pid = seen[self.nth]
                time.sleep(self.delay)
                with contextlib.suppress(ProcessLookupError):
                    os.kill(pid, self.sig)
                    self.hit = pid
                if self.resume:
                    time.sleep(self.resume)
                    with contextlib.suppress(ProcessLookupError):
                        os.kill(pid, signal.SIGCONT)
                return
            time.sleep(.0005)


@check.case(quick=14, thorough=250, cpu=200)
def killed(rng, m):
    """A worker is killed, at some moment."""
    c = Case(rng, m)
    c.alone()
    k = len(c.modes)
    nth = rng.randrange(2 * k)
    delay = rng.choice([0, 0, .001, .002, .005])
    sig = rng.choice([signal.SIGKILL, signal.SIGTERM])
    ab = None
    for attempt in range(2):
        killer = Killer(nth, delay, sig)
        killer.start()
        try:
            ab = c.parallel(60 if attempt == 0 else 100)
        except Violation:
            # a worker that is killed while it writes is not judged
            if attempt == 1:
                raise
            m.ev('again')
            continue
        except Exception:
            m.ev('refused')
            m.ev('first' if nth < k else 'late')
        finally:
            killer.done = True
            killer.join()
        break
    if ab is not None:
        # the worker had written its result
        m.ev('survived')
        same(m, c, ab, c.alone())
    no_children(m, c)


@check.case(quick=6, thorough=100, cpu=200)
def stopped(rng, m):
    """A worker is suspended for a while."""
    c = Case(rng, m)
    ref = c.alone()
    killer = Killer(rng.randrange(2 * len(c.modes)), 0, signal.SIGSTOP,
                    resume=rng.uniform(1.2, 2.5))
    killer.start()
    ab = c.parallel()
    killer.done = True
    killer.join()
    m.ev('returned')
    same(m, c, ab, ref)
    no_children(m, c)


@check.case(quick=24, thorough=200, cpu=200)
def alone(rng, m):
    """Workers that are not disturbed, a single mode too."""
    c = Case(rng, m, least=1, disturbed=.6)
    ref = c.alone()
    ab = c.parallel()
    m.ev('returned')
    same(m, c, ab, ref)
    no_children(m, c)
