"""P11: prioritized specifications list their rules in order."""
import itertools

from rt.core import Check, Violation

check = Check(
    'P11',
    rule='a distinct case is a sequence of additions, by levels and '
    'priorities',
    require=['history.rules', 'history.gaps', 'history.products',
             'history.refused', 'history.iterated', 'history.several'],
    assumptions=['integer priorities: finding `float_priority`',
                 'one iteration at a time: finding `nested_iteration`'])


def automaton(rng, aps, n=None):
    from tulip import transys
    from tulip.transys import automata
    fa = automata.FiniteWordAutomaton()
    fa.atomic_propositions.add_from(aps)
    n = n or rng.randint(1, 3)
    states = [f'q{i}' for i in range(n)]
    fa.states.add_from(states)
    init = [s for s in states if rng.random() < .6]
    acc = [s for s in states if rng.random() < .6]
    fa.states.initial.add_from(init)
    fa.accepting.add_from(acc)
    return fa, states, init, acc


@check.case(quick=500, thorough=10000, cpu=30)
def history(rng, m):
    from tulip.spec import prioritized_safety as ps
    aps = {'a', 'b'}
    s = ps.PrioritizedSpecification()
    model = list()   # (level, order, priority, fa, states, init, acc)
    log = list()

    def listing():
        return [r for r in sorted(model, key=lambda r: (r[0], r[1]))]

    def compare():
        want = listing()
        info = dict(log=log)
        got = list(s)
        m.ev('iterated')
        m.check([r.automaton() for r in got] == [r[3] for r in want]
                and all(r.automaton() is w[3]
                        for r, w in zip(got, want)),
                'order of rules', **info)
        m.check([r.priority() for r in got] == [r[2] for r in want],
                'priorities', **info)
        m.check([r.level() for r in got] == [r[0] for r in want],
                'levels', **info)
        m.check(len(s) == len(want), 'number of rules', **info)
        m.check([id(r) for r in s.get_rules()] == [id(r) for r in got],
                'list of rules', **info)
        for i, r in enumerate(got):
            m.check(s[i] is r, 'rule at index', index=i, **info)
        try:
            s[len(got)]
        except IndexError:
            pass
        else:
            m.check(False, 'index out of range was accepted', **info)
        top = 1 + max((r[0] for r in want), default=-1)
        m.check(s.get_num_levels() == top, 'number of levels', **info)
        for k in range(top + 2):
            m.check([id(r) for r in s.get_rules_at(k)] ==
                    [id(r) for r in got if r.level() == k],
                    'rules at level', level=k, **info)
        for fn, c in ((s.get_states, 4), (s.get_initial_states, 5),
                      (s.get_accepting_states, 6)):
            a = sorted(map(tuple, fn()))
            b = sorted(itertools.product(*(r[c] for r in want)))
            m.ev('products', int(len(want) > 1))
            m.check(a == b, 'product of states', got=a[:9],
                    want=b[:9], what=fn.__name__, **info)
    for step in range(rng.randint(1, 7)):
        fa, states, init, acc = automaton(rng, aps)
        if rng.random() < .25:
            kind = rng.choice(['fa', 'priority', 'level', 'zero',
                               'negative', 'below', 'aps'])
            if kind == 'aps' and not model:
                continue
            args = [fa, 1, 0]
            if kind == 'fa':
                args[0] = rng.choice([None, 'x', 3])
            elif kind == 'priority':
                args[1] = rng.choice(['1', None, [1]])
            elif kind == 'level':
                args[2] = rng.choice(['0', None, 1.5])
            elif kind == 'zero':
                args[1] = 0
            elif kind == 'negative':
                args[1] = -rng.randint(1, 3)
            elif kind == 'below':
                args[2] = -rng.randint(1, 3)
            else:
                args[0] = automaton(rng, aps | {'c'})[0]
            try:
                s.add_rule(*args)
            except (TypeError, ValueError, AssertionError):
                m.ev('refused')
            else:
                m.check(False, 'wrong rule was accepted', kind=kind,
                        log=log)
            log.append(['refused', kind])
        else:
            level = rng.choice([0, 0, 1, 1, 2, 4])
            priority = rng.choice([1, 2, 3, 10])
            s.add_rule(fa, priority, level)
            model.append((level, step, priority, fa, states, init, acc))
            log.append([level, priority, len(states)])
            m.ev('rules')
            m.check(set(s.atomic_propositions) == aps,
                    'atomic propositions', log=log)
        if rng.random() < .5:
            compare()
    compare()
    levels = {r[0] for r in model}
    m.ev('several', int(len(levels) > 1))
    m.ev('gaps', int(bool(levels) and max(levels) >= len(levels)))
    m.sig(log)
    m.sample(log)


@check.finding('float_priority')
def float_priority():
    import random
    from tulip.spec import prioritized_safety as ps
    s = ps.PrioritizedSpecification()
    fa = automaton(random.Random(1), {'a'})[0]
    try:
        s.add_rule(fa, .5, 0)
    except TypeError:
        raise Violation('add_rule(fa, .5, 0) raises TypeError, though '
                        'priorities are documented as float or int')


@check.finding('nested_iteration')
def nested_iteration():
    import random
    from tulip.spec import prioritized_safety as ps
    s = ps.PrioritizedSpecification()
    for _ in range(2):
        s.add_rule(automaton(random.Random(1), {'a'})[0], 1, 0)
    n = sum(1 for a in s for b in s)
    if n != 4:
        raise Violation(f'nested iteration over 2 rules yields {n} pairs')
