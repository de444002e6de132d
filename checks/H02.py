"""H02: abstractions of affine and piecewise affine dynamics."""
import logging

from rt import poly
from rt.abst import Case
from rt.core import Check
from rt.part import adjacent, judge


check = Check(
    'H02',
    rule='a distinct case is a scene with dynamics and parameters',
    require=['lti.edges', 'lti.complete', 'lti.refined', 'lti.disturbed',
             'lti.later', 'pwa.edges', 'pwa.several', 'dual.edges',
             'dual_pwa.several', 'dual_cons.later',
             'conservative.edges', 'open.edges', 'open.refined',
             'horizon.edges', 'far.edges', 'far.complete_far', 'neighbors.edges', 'stripe.split',
             'lti.verified', 'lti.split_enough'],
    assumptions=[
        'points closer than 1e-4 to the boundary of a cell are not judged',
        'a disturbance matrix is given with a disturbance set that is '
        'full-dimensional',
        'for cells that are not convex, edges are judged for each '
        'sequence of vertices of the disturbance set'])

def run(rng, m, bi=True, complete=True, **kw):
    c = Case(rng, m, **kw)
    judge(rng, m, c.scene, c.ab.ppp, adjacency=False, overlaps=not bi)
    if bi:
        adjacent(m, c.ab.ppp, c.cells, c.info(), far=False)
    c.maps(rng)
    pairs = c.edges(rng)
    if complete:
        c.missing(rng, pairs, split=bi)
    return c, pairs


@check.case(quick=16, thorough=1200, cpu=200)
def lti(rng, m):
    c, pairs = run(rng, m)
    log = list()

    class Handler(logging.Handler):
        def emit(self, record):
            log.append(record.getMessage())
    logger = logging.getLogger('tulip.abstract.discretization')
    h = Handler(level=logging.ERROR)
    logging.disable(logging.NOTSET)
    logger.addHandler(h)
    propagate = logger.propagate
    logger.propagate = False
    try:
        c.ab.verify_transitions()
    finally:
        logger.removeHandler(h)
        logger.propagate = propagate
        logging.disable(logging.CRITICAL)
    m.ev('verified')
    m.check(not log, 'verification reports incorrect transitions',
            **c.info(log=log[:4]))


@check.case(quick=10, thorough=700, cpu=200)
def pwa(rng, m):
    c, _ = run(rng, m, pwa=True, state_input=False)
    if len(c.doms) > 1:
        m.ev('several')


@check.case(quick=14, thorough=700, cpu=200)
def dual(rng, m):
    c, _ = run(rng, m, bi=False, pwa=rng.random() < .3,
               state_input=False, simu_type='dual', least=(.05, .08, .12),
               conservative=rng.random() < .2)
    if any(poly.overlap(a, b) > 1e-3
           for i, a in enumerate(c.cells) for b in c.cells[:i]):
        m.ev('overlap')


@check.case(quick=8, thorough=500, cpu=200)
def dual_pwa(rng, m):
    c, _ = run(rng, m, bi=False, pwa=True, state_input=False,
               simu_type='dual', least=(.05, .08), disturbed=False)
    if len(c.doms) > 1:
        m.ev('several')


@check.case(quick=8, thorough=500, cpu=200)
def dual_cons(rng, m):
    run(rng, m, bi=False, state_input=False, simu_type='dual',
        least=(.05, .08, .12), conservative=True, horizon=2,
        disturbed=rng.random() < .1)


@check.case(quick=10, thorough=700, cpu=200)
def conservative(rng, m):
    run(rng, m, pwa=rng.random() < .3, state_input=False,
        conservative=True, horizon=2)


@check.case(quick=12, thorough=500, cpu=200)
def open(rng, m):
    c, _ = run(rng, m, closed_loop=False, horizon=2)


@check.case(quick=8, thorough=500, cpu=200)
def horizon(rng, m):
    run(rng, m, use_all_horizon=True, complete=False, state_input=False)


@check.case(quick=8, thorough=400, cpu=200)
def far(rng, m):
    c, pairs = run(rng, m, trans_length=rng.choice([2, 2, 3]),
                   least=(.12, .2),
                   simu_type=rng.choice(['bi', 'bi', 'dual']),
                   bi=False)
    if any(poly.facet_distance(c.cells[i], c.cells[j]) > 1e-3
           for i, j in pairs):
        m.ev('jumps')


@check.case(quick=8, thorough=400, cpu=200)
def neighbors(rng, m):
    """No transitions between cells that are apart, if asked for."""
    conservative = rng.random() < .6
    c, pairs = run(rng, m, conservative=conservative,
                   pwa=rng.random() < .3, state_input=False,
                   remove_trans=True, trans_length=1,
                   **(dict(horizon=2) if conservative else dict()))
    for i, j in pairs:
        if i == j or not conservative:
            continue
        m.check(poly.facet_distance(c.cells[i], c.cells[j]) < 1e-3,
                'transition between cells that are apart',
                **c.info(start=i, end=j))
        m.ev('near')


@check.case(quick=8, thorough=400, cpu=200)
def stripe(rng, m):
    """Cells that are not connected are split in connected ones."""
    c, _ = run(rng, m, conservative=True, pwa=rng.random() < .2,
               state_input=False, stripe=True, strength=(.12, .35),
               horizon=2, disturbed=rng.random() < .15)
    if len(c.cells) > 2:
        m.ev('split')
