"""G01: labeled graphs under histories of changes."""
import copy
import itertools

from rt.core import Check

check = Check(
    'G01',
    rule='a distinct case is a history of changes of one graph, by '
    'content',
    require=['history.changes', 'history.refused', 'history.queries',
             'history.duplicates', 'history.copies', 'history.in_place',
             'history.inconsistent', 'deadends.graphs',
             'declared.refused'],
    assumptions=[
        'nodes and edges are changed with the methods of `states` and '
        '`transitions` (not with `networkx` directly)',
        'edges with labels are not mixed with edges without labels '
        'between the same states'])
STATES = ['s1', 's10', 's0', 's', 0, 1, 10, ('s', 1), ('s1', 's0'),
          frozenset([1]), 1.5, '']


class Model:
    """Set of labeled nodes, and list of labeled edges."""

    def __init__(self, kind, rng):
        self.kind = kind
        self.nodes = dict()
        self.edges = list()
        self.init = set()
        self.accepting = set()
        self.aps = set()
        # name -> (values, default or None)
        self.node_types = dict()
        self.edge_types = dict()

    def snapshot(self):
        return (
            {n: dict(d) for n, d in self.nodes.items()},
            [(u, v, dict(d)) for u, v, d in self.edges],
            set(self.init), set(self.accepting))


def make(rng):
    from tulip import transys as trs
    from tulip.transys import automata
    kind = rng.choice(['graph', 'graph', 'fts', 'ks', 'ba', 'wks'])
    md = Model(kind, rng)
    if kind == 'graph':
        node = list()
        edge = list()
        for k in ['color', 'size'][:rng.randint(0, 2)]:
            vals = rng.sample(['r', 'g', 1, 2, (1, 2)], rng.randint(1, 4))
            d = dict(name=k, values=set(vals))
            default = None
            if rng.random() < 0.6:
                default = d['default'] = rng.choice(vals)
            md.node_types[k] = (d['values'], default)
            node.append(d)
        if rng.random() < 0.4:
            tags = {'t', 'u'}
            node.append(dict(
                name='tags', values=trs.PowerSet(tags), default=set()))
            md.node_types['tags'] = (Power(tags), set())
        if rng.random() < 0.3:
            ways = {'w', 'v'}
            edge.append(dict(
                name='ways', values=trs.PowerSet(ways), default=set()))
            md.edge_types['ways'] = (Power(ways), set())
        for k in ['act', 'cost'][:rng.randint(0, 2)]:
            vals = rng.sample(['go', 'stop', 0, 1, 2], rng.randint(1, 4))
            d = dict(name=k, values=set(vals), setter=True)
            default = None
            if rng.random() < 0.4:
                default = d['default'] = rng.choice(vals)
            md.edge_types[k] = (d['values'], default)
            edge.append(d)
        g = trs.LabeledDiGraph(node or None, edge or None)
        return g, md
    aps = rng.sample(['p', 'q', 'pq'], rng.randint(0, 3))
    md.aps = set(aps)
    subsets = Power(md.aps)
    if kind == 'fts':
        g = trs.FTS()
        g.atomic_propositions.add_from(aps)
        g.env_actions.add_from(['e0', 'e1'])
        g.sys_actions.add_from(['a', 'b', 'ab'])
        md.node_types['ap'] = (subsets, set())
        md.edge_types['env_actions'] = ({'e0', 'e1'}, None)
        md.edge_types['sys_actions'] = ({'a', 'b', 'ab'}, None)
    elif kind in ('ks', 'wks'):
        g = (trs.KripkeStructure() if kind == 'ks'
             else trs.WeightedKripkeStructure())
        g.atomic_propositions.add_from(aps)
        md.node_types['ap'] = (subsets, set())
        if kind == 'wks':
            md.edge_types['cost'] = (Costs(), None)
    else:
        g = automata.BuchiAutomaton()
        g.atomic_propositions.add_from(aps)
        md.edge_types['letter'] = (subsets, None)
    return g, md


class Power:
    def __init__(self, aps):
        self.aps = aps

    def __contains__(self, x):
        return (isinstance(x, (set, frozenset, list, tuple)) and
                set(x) <= self.aps)

    def pick(self, rng):
        return {x for x in sorted(self.aps) if rng.random() < 0.5}


class Own(set):
    """Label that is a default value, so no other shares it."""


class Costs:
    def __contains__(self, x):
        return isinstance(x, (int, float)) and x >= 0

    def pick(self, rng):
        return rng.choice([0, 1, 2.5])


def plain(d):
    return {k: set(x) if isinstance(x, Own) else x
            for k, x in d.items()}


def value(rng, values):
    if hasattr(values, 'pick'):
        return values.pick(rng)
    return rng.choice(sorted(values, key=repr))


def bad_value(rng, values):
    for _ in range(20):
        x = rng.choice(['nope', 77, -1, {'nope'}, ('z',), None])
        try:
            if x not in values:
                return x
        except TypeError:
            return x
    return None


def labels(rng, types, bad=0.1, every=0.6):
    """Labels, and whether each one is in its domain."""
    d = dict()
    ok = True
    for k, (vals, _) in types.items():
        if rng.random() >= every:
            continue
        if rng.random() < bad:
            x = bad_value(rng, vals)
            if x is None:
                continue
            ok = False
        else:
            x = value(rng, vals)
        d[k] = x
    return d, ok


def with_defaults(types, d):
    out = {k: Own(x) if isinstance(x, set) else x
           for k, (_, x) in types.items() if x is not None}
    out.update(d)
    return out


def attempt(f):
    try:
        f()
        return None
    except Exception as e:          # which one is checked by the caller
        return e


def compare(m, g, md, log):
    got = {n: dict(d) for n, d in g.nodes(data=True)}
    m.check(got == md.nodes, 'states', history=log, got=got,
            want=md.nodes)
    m.check(set(g.states) == set(md.nodes) and
            len(g.states) == len(md.nodes) and
            all(s in g.states for s in md.nodes) and
            set(g.states()) == set(md.nodes), 'states', history=log)
    got = sorted(repr((u, v, sorted(
        (k, canon(x)) for k, x in d.items())))
        for u, v, d in g.transitions(data=True))
    want = sorted(repr((u, v, sorted(
        (k, canon(x)) for k, x in d.items())))
        for u, v, d in md.edges)
    m.check(got == want, 'transitions', history=log, got=got,
            want=want)
    m.check(len(g.transitions) == len(md.edges), 'number of transitions',
            history=log)
    m.check(set(g.states.initial) == md.init and
            len(g.states.initial) == len(md.init),
            'initial states', history=log, got=set(g.states.initial),
            want=md.init)
    if md.kind == 'ba':
        m.check(set(g.accepting) == md.accepting,
                'accepting states', history=log,
                got=set(g.accepting), want=md.accepting)


def canon(x):
    if isinstance(x, (set, frozenset)):
        return ('set', sorted(map(repr, x)))
    return x


def succ(md, s):
    return {v for u, v, _ in md.edges if u == s}


def pred(md, s):
    return {u for u, v, _ in md.edges if v == s}


def closure(step, s):
    out, todo = set(), [s]
    while todo:
        for t in step(todo.pop()):
            if t not in out:
                out.add(t)
                todo.append(t)
    return out


def queries(rng, m, g, md, log):
    m.ev('queries')
    names = list(md.nodes)
    for s in rng.sample(names, min(3, len(names))):
        m.check(g.states.post([s]) == succ(md, s), 'post', history=log,
                state=s, got=g.states.post([s]))
        m.check(g.states.pre([s]) == pred(md, s), 'pre', history=log,
                state=s)
        m.check(g.states.is_terminal(s) == (not succ(md, s)),
                'is_terminal', history=log, state=s)
        fwd = closure(lambda x: succ(md, x), s)
        m.check(set(g.states.forward_reachable(s)) - {s} == fwd - {s},
                'forward_reachable', history=log, state=s)
        bwd = closure(lambda x: pred(md, x), s)
        m.check(set(g.states.backward_reachable(s)) - {s} == bwd - {s},
                'backward_reachable', history=log, state=s)
        got = g.states.find([s])
        m.check(len(got) == 1 and got[0][0] == s and
                dict(got[0][1]) == md.nodes[s], 'label of state',
                history=log, state=s, got=got)
    some = {s for s in names if rng.random() < 0.4}
    m.check(g.states.post(some) == set().union(
        *[succ(md, s) for s in some]), 'post', history=log,
        states=some)
    m.check(g.states.post() == md.init, 'post of nothing', history=log)
    m.check(g.has_deadends() == any(not succ(md, s) for s in names),
            'has_deadends', history=log)
    # states with a label
    if names:
        d = plain(md.nodes[rng.choice(names)])
        if d and rng.random() < 0.3:
            k = rng.choice(sorted(d))
            if k in md.node_types:
                d[k] = value(rng, md.node_types[k][0])
        where = some if rng.random() < 0.5 else None
        arg = d if rng.random() < 0.5 else None
        got = (g.states.find(where, with_attr_dict=dict(d)) if arg
               else g.states.find(where, **d))
        want = {s for s in (names if where is None else where)
                if not d or md.nodes[s] == d}
        m.check({s for s, _ in got} == want and len(got) == len(want),
                'states with a label', history=log, label=d,
                among=where, got=got, want=want)
        for _, x in got:
            x['changed by user'] = 1
    # transitions between states, with a label
    frm = ({s for s in names if rng.random() < 0.5}
           if rng.random() < 0.7 else None)
    to = ({s for s in names if rng.random() < 0.5}
          if rng.random() < 0.5 else None)
    d = dict()
    if md.edges and rng.random() < 0.7:
        d = plain(rng.choice(md.edges)[2])
    got = g.transitions.find(frm, to, **d)
    scope = [(u, v, x) for u, v, x in md.edges
             if (frm is None or u in frm) and (to is None or v in to)]
    key = lambda e: repr((e[0], e[1], sorted(
        (k, canon(x)) for k, x in e[2].items())))
    must = sorted(key(e) for e in scope if not d or e[2] == d)
    may = sorted(key(e) for e in scope
                 if not d or e[2] == d or not e[2])
    found, got = got, sorted(key(e) for e in got)
    for _, _, x in found:
        x['changed by user'] = 1
    m.check([x for x in got if x in must] == must and
            all(x in may for x in got) and len(got) <= len(may),
            'transitions with a label', history=log, label=d,
            frm=frm, to=to, got=got, want=must)


@check.case(quick=1500, thorough=15000, cpu=30)
def history(rng, m):
    """All methods that change a graph, against a model."""
    g, md = make(rng)
    log = [md.kind, {k: str(v) for k, v in md.node_types.items()},
           {k: str(v) for k, v in md.edge_types.items()}]
    pool = rng.sample(STATES, rng.randint(2, 6))
    compare(m, g, md, log)

    def put_node(s, d):
        full = with_defaults(md.node_types, d)
        md.nodes[s] = {**md.nodes.get(s, dict()), **full}

    def edge_status(u, v, d, check):
        if u not in md.nodes or v not in md.nodes:
            return 'missing'
        between = [x for a, b, x in md.edges if (a, b) == (u, v)]
        if {} in between:
            return 'unlabeled'
        if with_defaults(md.edge_types, d) in between:
            return 'same'
        if check and set(d) - set(md.edge_types):
            return 'untyped'
        if not with_defaults(md.edge_types, d) and between:
            return 'avoid'
        return 'new'

    def add_state():
        s = rng.choice(pool)
        d, ok = labels(rng, md.node_types)
        typed = True
        chk = rng.random() < 0.8
        if rng.random() < 0.1:
            d['untyped'] = 1
            typed = not chk
        log.append(('state', s, d, chk))
        how = rng.randrange(3)
        if how == 0:
            e = attempt(lambda: g.states.add(s, check=chk, **d))
        elif how == 1:
            e = attempt(lambda: g.states.add(s, dict(d), check=chk))
        else:
            e = attempt(lambda: g.states.add_from(
                [(s, dict(d))], check=chk))
        if ok and typed:
            if e is not None:
                m.check(False, 'label refused', history=log,
                        error=repr(e))
            put_node(s, d)
        else:
            m.check(e is not None, 'bad label accepted', history=log)
            want = ValueError if not ok else AttributeError
            m.check(isinstance(e, want), 'error', history=log,
                    got=repr(e))
            m.ev('refused')

    def add_states():
        ss = [s for s in pool if rng.random() < 0.5]
        d, ok = labels(rng, md.node_types, bad=0, every=0.3)
        log.append(('states', ss, d))
        arg = iter(ss) if rng.random() < 0.3 else ss
        if not d and rng.random() < 0.5:
            g.states |= arg
        elif rng.random() < 0.5 and md.node_types and not any(
                isinstance(s, tuple) for s in ss):
            # some of them with labels of their own
            own = {s: labels(rng, md.node_types, bad=0, every=0.5)[0]
                   for s in ss if rng.random() < 0.5}
            log.append(('own labels', own))
            g.states.add_from(
                [(s, copy.deepcopy(own[s])) if s in own else s
                 for s in ss], **d)
            for s in ss:
                put_node(s, {**d, **own.get(s, dict())})
            return
        else:
            g.states.add_from(arg, **d)
        for s in ss:
            put_node(s, d)

    def in_place():
        """Change a label that is a set, without assigning it."""
        m.ev('in_place')
        sets = [(s, k) for s, d in md.nodes.items()
                for k in d if isinstance(d[k], Own)]
        if sets and rng.random() < 0.7:
            s, k = rng.choice(sets)
            x = value(rng, md.node_types[k][0])
            log.append(('in place', s, k, x))
            g.states[s][k] |= x
            md.nodes[s][k] = Own(md.nodes[s][k] | x)
            return
        todo = [(i, k) for i, (_, _, d) in enumerate(md.edges)
                for k in d if isinstance(d[k], Own)]
        if todo:
            i, k = rng.choice(todo)
            u, v, d = md.edges[i]
            x = value(rng, md.edge_types[k][0])
            new = {**d, k: Own(d[k] | x)}
            if any(new == e for a, b, e in md.edges
                   if (a, b) == (u, v)):
                return
            log.append(('in place', u, v, d, x))
            e, = [e for e in g[u][v].values() if dict(e) == d]
            e[k].update(x)
            md.edges[i] = (u, v, new)

    def assign():
        if not md.nodes or not md.node_types:
            return
        s = rng.choice(list(md.nodes))
        k = rng.choice(sorted(md.node_types))
        d, ok = labels(rng, {k: md.node_types[k]}, bad=0.4, every=1)
        if not d:
            return
        log.append(('assign', s, d))
        where = g.states[s] if rng.random() < 0.5 else g.nodes[s]
        how = rng.randrange(3)
        e = attempt(
            (lambda: where.__setitem__(k, d[k])) if how == 0 else
            (lambda: where.update(d)) if how == 1 else
            (lambda: where.update(**d)))
        if ok:
            m.check(e is None, 'label refused', history=log,
                    error=repr(e))
            md.nodes[s][k] = d[k]
        else:
            m.check(isinstance(e, ValueError), 'bad label accepted',
                    history=log, got=repr(e))
            m.ev('refused')

    def remove_state():
        if not md.nodes:
            return
        ss = rng.sample(list(md.nodes),
                        rng.randint(1, min(2, len(md.nodes))))
        log.append(('remove states', ss))
        if len(ss) == 1:
            g.states.remove(ss[0])
        else:
            g.states.remove_from(ss)
        for s in ss:
            del md.nodes[s]
            md.init.discard(s)
            md.accepting.discard(s)
        md.edges[:] = [e for e in md.edges
                       if e[0] not in ss and e[1] not in ss]

    def mark():
        which = 'init'
        if md.kind == 'ba' and rng.random() < 0.5:
            which = 'accepting'
        where = g.states.initial if which == 'init' else g.accepting
        mine = md.init if which == 'init' else md.accepting
        ss = [rng.choice(pool) for _ in range(rng.randint(1, 3))]
        log.append((which, ss))
        if len(ss) == 1 and rng.random() < 0.7:
            e = attempt(lambda: where.add(ss[0]))
        elif rng.random() < 0.5:
            e = attempt(lambda: where.update(ss))
        else:
            e = attempt(lambda: where.add_from(iter(ss)))
        if set(ss) <= set(md.nodes):
            m.check(e is None, 'refused', history=log, error=repr(e))
            mine |= set(ss)
        else:
            m.check(isinstance(e, ValueError),
                    'marked what is not a state', history=log,
                    got=repr(e))
            m.ev('refused')

    def unmark():
        if md.init:
            s = rng.choice(sorted(md.init, key=repr))
            log.append(('not initial', s))
            g.states.initial.remove(s)
            md.init.discard(s)

    def add_edge():
        u, v = rng.choice(pool), rng.choice(pool)
        d, ok = labels(rng, md.edge_types, every=0.7)
        chk = rng.random() < 0.8
        if rng.random() < 0.08:
            d['untyped'] = 3
        if md.edges and rng.random() < 0.25:
            u, v, d = rng.choice(md.edges)
            d, ok = dict(d), True
        status = edge_status(u, v, d, chk)
        if status == 'avoid':
            return
        log.append(('edge', u, v, d, chk))
        how = rng.randrange(4)
        if how == 0:
            f = lambda: g.transitions.add(u, v, check=chk, **d)
        elif how == 1:
            f = lambda: g.transitions.add(u, v, dict(d), check=chk)
        elif how == 2 and status in ('new', 'same'):
            key = ('my key', len(log))
            f = lambda: g.add_edge(u, v, key, dict(d), check=chk)
        else:
            f = lambda: g.transitions.add_from(
                [(u, v, dict(d))], check=chk)
        e = attempt(f)
        if status == 'missing':
            m.check(isinstance(e, ValueError), 'state was not missed',
                    history=log, got=repr(e))
            m.ev('refused')
        elif not ok:
            m.check(isinstance(e, ValueError), 'bad label accepted',
                    history=log, got=repr(e))
            m.ev('refused')
        elif status == 'unlabeled':
            m.check(e is not None, 'mixed with unlabeled', history=log)
            m.ev('refused')
        elif status == 'same':
            m.check(e is None, 'same label', history=log, got=repr(e))
            m.ev('duplicates')
        elif status == 'untyped':
            m.check(isinstance(e, AttributeError), 'untyped label',
                    history=log, got=repr(e))
            m.ev('refused')
        else:
            m.check(e is None, 'transition refused', history=log,
                    error=repr(e))
            md.edges.append((u, v, with_defaults(md.edge_types, d)))

    def add_comb():
        names = list(md.nodes)
        us = [s for s in names if rng.random() < 0.4]
        vs = [s for s in names if rng.random() < 0.4]
        d, _ = labels(rng, md.edge_types, bad=0, every=0.7)
        if any(edge_status(u, v, d, True) != 'new'
               for u in us for v in vs):
            return
        how = rng.randrange(4)
        log.append(('comb', us, vs, d, how))
        if how == 3:
            # some edges with more labels than the common ones
            edges = list()
            for u in us:
                for v in vs:
                    own, _ = labels(rng, md.edge_types, bad=0,
                                    every=0.5)
                    if rng.random() < 0.5:
                        own = dict()
                    both = {**d, **own}
                    if edge_status(u, v, both, True) != 'new':
                        continue
                    edges.append((u, v, own) if own else (u, v))
                    md.edges.append(
                        (u, v, with_defaults(md.edge_types, both)))
            log.append(edges)
            g.transitions.add_from(
                [(*e[:2], *map(dict, e[2:])) for e in edges],
                **dict(d))
            return
        if how == 0:
            g.transitions.add_comb(us, vs, **d)
        elif how == 1:
            g.transitions.add_from(
                itertools.product(us, vs), attr_dict=dict(d))
        else:
            import numpy as np
            import scipy.sparse as sp
            if not names:
                return
            order = rng.sample(names, len(names))
            a = sp.lil_array((len(order), len(order)))
            if rng.random() < 0.3:
                # refused, and nothing is added
                a[0, 0] = 1
                n = len(order)
                odd = rng.randrange(2)
                b = (sp.lil_array((n, n + 1)) if odd else
                     sp.lil_array((n + 1, n + 1)))
                b[:n, :n] = a[:n, :n]
                e = attempt(lambda: g.transitions.add_adj(
                    b, order + ['no such state'], dict(d)))
                m.check(isinstance(e, ValueError),
                        'unknown state in matrix', history=log,
                        got=repr(e))
                m.ev('refused')
                compare(m, g, md, log)
                a[0, 0] = 0
            for u in us:
                for v in vs:
                    a[order.index(u), order.index(v)] = 1
            states = (order if rng.random() < 0.5
                      else dict(enumerate(order)))
            g.transitions.add_adj(a, states, dict(d))
        for u in us:
            for v in vs:
                md.edges.append((u, v, with_defaults(md.edge_types, d)))

    def remove_edge():
        if not md.edges:
            return
        u, v, d = rng.choice(md.edges)
        if rng.random() < 0.2:
            u, v = rng.choice(pool), rng.choice(pool)
        how = rng.randrange(6)
        if how == 4 and len(d) > 1:
            # what is said of the labels must be all of them
            k = rng.choice(sorted(d))
            d = {k: d[k]}
        log.append(('remove edge', u, v, d, how))
        if how == 5:
            # several, some with a label
            es = [rng.choice(md.edges)
                  for _ in range(rng.randint(1, 3))]
            arg = list()
            for a, b, x in es:
                if x and rng.random() < 0.6:
                    arg.append((a, b, dict(x)))
                else:
                    arg.append((a, b))
            log.append(arg)
            g.transitions.remove_from(arg)
            for e in arg:
                md.edges[:] = [
                    (a, b, x) for a, b, x in md.edges
                    if (a, b) != e[:2] or (len(e) == 3 and x != e[2])]
            return
        whole = how in (0, 1)
        if how == 0:
            g.transitions.remove(u, v)
        elif how == 1:
            g.transitions.remove_from([(u, v)])
        elif how == 2:
            g.transitions.remove(u, v, **d)
        else:
            g.transitions.remove_from([(u, v, dict(d))])
        if not d:
            whole = True
        md.edges[:] = [
            (a, b, x) for a, b, x in md.edges
            if (a, b) != (u, v) or not (whole or x == d)]

    others = list()

    def copied():
        nonlocal g
        log.append('copy')
        m.ev('copies')
        h = copy.deepcopy(g)
        compare(m, h, md, log)
        frozen = copy.deepcopy(md)
        if rng.random() < 0.5:
            g, h = h, g
        others.append((h, frozen))

    def inconsistent():
        """A value is removed from a type, then added again."""
        m.check(g.is_consistent(), 'is_consistent', history=log)
        sets = [(k, vals, md.nodes.values())
                for k, (vals, _) in md.node_types.items()
                if isinstance(vals, set)]
        if md.kind == 'graph':
            sets += [(k, vals, [d for _, _, d in md.edges])
                     for k, (vals, _) in md.edge_types.items()
                     if isinstance(vals, set)]
        if not sets or others:
            return
        k, vals, ds = rng.choice(sets)
        x = rng.choice(sorted(vals, key=repr))
        used = any(k in d and d[k] == x for d in ds)
        vals.remove(x)
        m.check(g.is_consistent() == (not used), 'is_consistent',
                history=log, removed=(k, x), used=used)
        vals.add(x)
        m.ev('inconsistent')

    def more_types():
        """Types of labels are added."""
        if rng.random() < 0.6 or len(md.node_types) > 4:
            return
        edge = rng.random() < 0.5
        types = md.edge_types if edge else md.node_types
        k = f'late{len(types)}'
        d = dict(name=k, values=set(rng.sample(
            ['x', 'y', 0, 1], rng.randint(1, 3))))
        default = None
        if rng.random() < 0.5:
            default = d['default'] = rng.choice(
                sorted(d['values'], key=repr))
        if rng.random() < 0.5:
            d['setter'] = True
        log.append(('more types', edge, d))
        g.add_label_types([d], edge)
        if 'setter' in d:
            m.check(getattr(g, k) == d['values'], 'values of a type',
                    history=log)
        types[k] = (d['values'], default)
        m.ev('types')

    steps = [more_types, add_state, add_states, assign, remove_state, mark, unmark,
             add_edge, add_edge, add_edge, add_comb, remove_edge,
             in_place, inconsistent, copied]
    add_states()
    n = rng.randint(4, 25)
    for _ in range(n):
        rng.choice(steps)()
        m.ev('changes')
        compare(m, g, md, log)
        if rng.random() < 0.3:
            queries(rng, m, g, md, log)
    queries(rng, m, g, md, log)
    compare(m, g, md, log)
    for h, frozen in others:
        log.append('the other copy')
        compare(m, h, frozen, log)
        queries(rng, m, h, frozen, log)
    m.sig(log)
    m.sample(log)


@check.case(quick=400, thorough=4000, cpu=20)
def deadends(rng, m):
    """`remove_deadends` keeps what can continue forever."""
    from tulip import transys as trs
    from tulip.transys import automata
    g = rng.choice([trs.LabeledDiGraph, trs.FTS,
                    automata.BuchiAutomaton, trs.MealyMachine])()
    n = rng.randint(1, 9)
    names = rng.sample(range(30), n)
    g.states.add_from(names)
    init = {s for s in names if rng.random() < 0.4}
    g.states.initial.add_from(init)
    edges = {(rng.choice(names), rng.choice(names))
             for _ in range(rng.randint(0, 2 * n))}
    g.transitions.add_from(edges)
    keep = set(names)
    while True:
        new = {s for s in keep
               if any(u == s and v in keep for u, v in edges)}
        if new == keep:
            break
        keep = new
    e = attempt(g.remove_deadends)
    m.ev('graphs')
    if not keep:
        m.check(isinstance(e, AssertionError),
                'all states removed in silence', edges=edges)
    else:
        m.check(e is None, 'error', edges=edges, error=repr(e))
        m.check(set(g.nodes) == keep, 'states that can continue',
                edges=edges, states=names, got=set(g.nodes), want=keep)
        m.check(set(g.states.initial) == init & keep, 'initial states',
                edges=edges, got=set(g.states.initial))
        m.check({(u, v) for u, v in g.edges()} ==
                {(u, v) for u, v in edges
                 if u in keep and v in keep}, 'transitions',
                edges=edges)
        m.check(not g.has_deadends(), 'dead ends remain')
    m.sig((names, sorted(edges)))


@check.case(quick=60, thorough=600)
def declared(rng, m):
    """Owners and types of actions are declared sensibly."""
    from tulip import transys as trs
    env = rng.random() < 0.5
    a = rng.sample(['go', 'stay', 'back', 1, 2], rng.randint(1, 3))
    types = [dict(name=rng.choice(['env_actions', 'moves']) if env
                  else 'sys_actions',
                  values=set(a), setter=rng.random() < 0.5)]
    g = trs.FTS(types) if rng.random() < 0.7 else trs.FTS()
    for x in rng.sample(['env', 'sys', 'none', 'ENV', '', 'e'], 6):
        before = g.owner
        e = attempt(lambda: setattr(g, 'owner', x))
        if x in ('env', 'sys'):
            m.ev('owner')
            m.check(e is None and g.owner == x, 'owner', want=x,
                    got=g.owner, error=e)
        else:
            m.ev('refused')
            m.check(isinstance(e, ValueError) and g.owner == before,
                    'an owner that does not exist', owner=x, got=g.owner)
    bad = types + [dict(name='actions', values={'x'})]
    rng.shuffle(bad)
    e = attempt(lambda: trs.FTS(bad))
    m.check(isinstance(e, ValueError), 'a type of actions with the name '
            'of the attribute for all of them')
    m.sig((env, tuple(a)))
