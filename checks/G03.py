"""G03: mathematical sets, subsets, powersets, and products."""
import itertools
import warnings

from rt.core import Check, Violation

check = Check(
    'G03',
    rule='a distinct case is a history of operations on one set, by '
    'content',
    require=['sets.operations', 'sets.unhashable', 'subsets.refused',
             'powersets.members', 'products.members', 'products.removed',
             'dicts.refused'],
    assumptions=['elements compare with `==` and do not change'])
POOL = [1, 2, 'a', 'ab', 'b', '', (1, 2), None, 2.5, frozenset([1]),
        [1, 2], [2, 1], {'x': 1}, {3, 4}, [], ([1], 2), {5}, [[1]]]


def member(x, xs):
    return any(type(x) is type(y) and x == y for y in xs)


def same(got, want):
    got = list(got)
    return (len(got) == len(want) and
            all(member(x, got) for x in want) and
            all(member(x, want) for x in got))


def some(rng, k=4):
    return [rng.choice(POOL) for _ in range(rng.randint(0, k))]


def unique(xs):
    out = list()
    for x in xs:
        if not member(x, out):
            out.append(x)
    return out


def carrier(rng, xs):
    """Different iterables with the same items."""
    from tulip.transys.mathset import MathSet
    kinds = [list, tuple, iter, MathSet]
    try:
        set(xs)
        kinds.append(set)
    except TypeError:
        pass
    return rng.choice(kinds)(list(xs))


def look(m, s, model, log):
    m.check(same(s, model), 'elements', history=log, got=list(s),
            want=model)
    m.check(len(s) == len(model), 'len', history=log, got=len(s))
    for x in POOL:
        m.check((x in s) == member(x, model), 'membership',
                history=log, item=x, got=x in s)


@check.case(quick=1200, thorough=12000, cpu=20)
def sets(rng, m):
    """Histories of operations on `MathSet`."""
    from tulip.transys.mathset import MathSet
    xs = some(rng)
    s = MathSet(carrier(rng, xs))
    model = unique(xs)
    log = [xs]
    look(m, s, model, log)
    for _ in range(rng.randint(1, 12)):
        xs = some(rng)
        op = rng.choice(['add', 'update', 'or', 'ior', 'sub', 'isub',
                         'remove', 'pop', 'mul', 'inter', 'eq', 'self',
                         'absent'])
        log.append((op, xs))
        before = list(model)
        if op == 'add':
            for x in xs:
                s.add(x)
            model = unique(model + xs)
        elif op == 'update':
            rng.choice([s.update, s.add_from])(carrier(rng, xs))
            model = unique(model + xs)
        elif op == 'or':
            t = s | carrier(rng, xs)
            look(m, t, unique(model + xs), log)
            t.add('fresh')
        elif op == 'ior':
            s |= carrier(rng, xs)
            model = unique(model + xs)
        elif op == 'sub':
            t = s - carrier(rng, xs)
            look(m, t, [x for x in model if not member(x, xs)], log)
            t.add('fresh')
        elif op == 'isub':
            s -= carrier(rng, xs)
            model = [x for x in model if not member(x, xs)]
        elif op == 'remove' and model:
            x = rng.choice(model)
            s.remove(x)
            model = [y for y in model if not member(y, [x])]
        elif op == 'absent':
            out = [x for x in POOL if not member(x, model)]
            x = rng.choice(out)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    s.remove(x)
            except (KeyError, ValueError):
                pass
            else:
                m.check(False, 'removed what is not an element',
                        history=log, item=x)
        elif op == 'pop':
            if model:
                x = s.pop()
                m.check(member(x, model), 'popped', history=log, got=x)
                model = [y for y in model if not member(y, [x])]
            else:
                try:
                    s.pop()
                except KeyError:
                    pass
                else:
                    raise Violation('popped from the empty set')
        elif op == 'mul':
            t = s * MathSet(xs)
            m.check(same(t, [(x, y) for x in model
                             for y in unique(xs)]),
                    'product', history=log, got=list(t))
        elif op == 'inter':
            t = s.intersection(carrier(rng, xs))
            common = [x for x in unique(xs) if member(x, model)]
            look(m, t, common, log)
            m.check(s.intersects(carrier(rng, xs)) == bool(common),
                    'intersects', history=log)
        elif op == 'eq':
            ys = list(model)
            rng.shuffle(ys)
            if rng.random() < 0.5:
                ys = some(rng)
            m.check((s == MathSet(ys)) == same(unique(ys), model),
                    'equality', history=log, other=ys)
            m.check((s != MathSet(ys)) != (s == MathSet(ys)),
                    'equality')
        elif op == 'self':
            s |= s
            t = MathSet(s)
            t.add('fresh')
            u = s | s
            look(m, u, model, log)
        m.ev('operations')
        look(m, s, model, log)
        if any(isinstance(x, (list, dict, set)) for x in model):
            m.ev('unhashable')
    m.sig(log)
    m.sample(log)


@check.case(quick=700, thorough=7000, cpu=20)
def subsets(rng, m):
    """A `SubSet` never holds what its superset does not."""
    from tulip.transys.mathset import MathSet, SubSet
    sup = unique(some(rng, 8))
    hold = MathSet(sup) if rng.random() < 0.5 else list(sup)
    s = SubSet(hold)
    m.check(s.superset is hold, 'superset')
    model = list()
    log = [sup]
    for _ in range(rng.randint(1, 10)):
        xs = some(rng)
        if sup and rng.random() < 0.6:
            xs = [rng.choice(sup) for _ in xs]
        op = rng.choice(['add', 'update', 'ior', 'remove', 'sub'])
        log.append((op, xs))
        if op == 'remove':
            if model:
                x = rng.choice(model)
                s.remove(x)
                model = [y for y in model if not member(y, [x])]
        elif op == 'sub':
            s -= xs
            model = [y for y in model if not member(y, xs)]
        else:
            if op == 'add':
                xs = xs[:1]
            legal = all(member(x, sup) for x in xs)
            try:
                if op == 'add':
                    for x in xs:
                        s.add(x)
                elif op == 'update':
                    rng.choice([s.update, s.add_from])(
                        carrier(rng, xs))
                else:
                    s |= carrier(rng, xs)
                ok = True
            except (ValueError, TypeError):
                # `TypeError` for items that are not hashable
                ok = False
                m.ev('refused')
            m.check(ok == legal, 'subset check', history=log,
                    accepted=ok)
            if ok:
                model = unique(model + xs)
        look(m, s, model, log)
    m.sig(log)


@check.case(quick=600, thorough=6000, cpu=20)
def powersets(rng, m):
    """Membership, iteration, size, union, and equality."""
    from tulip.transys.mathset import MathSet, PowerSet
    xs = unique(some(rng, 5))
    p = PowerSet(carrier(rng, xs))
    extra = some(rng, 2)
    if rng.random() < 0.5:
        p.math_set.add_from(extra)
        xs = unique(xs + extra)
    m.check(len(p) == 2 ** len(xs), 'size', base=xs)
    subs = list(p)
    m.check(len(subs) == 2 ** len(xs), 'number of subsets', base=xs)
    m.check(len({frozenset(next(i for i, y in enumerate(xs)
                                if member(x, [y])) for x in sub)
                 for sub in subs}) == len(subs), 'subsets', base=xs)
    for _ in range(12):
        ys = some(rng, 3)
        if xs and rng.random() < 0.5:
            ys = [rng.choice(xs) for _ in ys]
        want = all(member(y, xs) for y in ys)
        for arg in (ys, tuple(ys), MathSet(ys)):
            m.check((arg in p) == want, 'membership', base=xs,
                    item=arg, got=arg in p)
        m.ev('members')
    ys = some(rng, 3)
    q = PowerSet(ys)
    m.check(same((p + q).math_set, unique(xs + ys)), 'union', base=xs,
            other=ys)
    m.check((p == q) == same(unique(ys), xs), 'equality', base=xs,
            other=ys)
    m.check(same(p.math_set, xs), 'operand changed', base=xs)
    try:
        p.math_set = {1}
    except TypeError:
        pass
    else:
        raise Violation('math_set that is not a MathSet')
    m.sig((xs, ys))


@check.case(quick=500, thorough=5000, cpu=20)
def products(rng, m):
    """Membership in `CartesianProduct`."""
    from tulip.transys.mathset import CartesianProduct, MathSet
    c = CartesianProduct()
    factors = [unique(some(rng, 4)) for _ in range(rng.randint(1, 3))]
    held = [MathSet(x) if rng.random() < 0.5 else list(x)
            for x in factors]
    if rng.random() < 0.5:
        for h in held:
            c.add(h)
    else:
        c.add_from(held)
    # sets compare with sets only
    if rng.random() < 0.6 and len(set(map(type, held))) == 1:
        gone = rng.sample(range(len(held)), rng.randint(1, len(held)))
        # equal factors: the first one is removed
        for i in gone:
            if rng.random() < 0.5 and len(gone) == 1:
                c.remove(held[i])
        if len(gone) > 1 or len(c.mathsets) == len(held):
            c.remove_from([held[i] for i in gone])
        rest = list(range(len(held)))
        for i in gone:
            j = next(j for j in rest if held[j] == held[i])
            rest.remove(j)
        factors = [factors[j] for j in rest]
        m.check(len(c.mathsets) == len(factors), 'factors left')
        m.ev('removed')
    for _ in range(15):
        item = [rng.choice(x) if x and rng.random() < 0.8
                else rng.choice(POOL) for x in factors]
        if rng.random() < 0.15:
            item = item[:-1]
        elif rng.random() < 0.1:
            item = item + [1]
        want = len(item) == len(factors) and all(
            member(x, f) for x, f in zip(item, factors))
        m.check((tuple(item) in c) == want, 'membership',
                factors=factors, item=item)
        m.ev('members')
    m.sig(factors)


@check.case(quick=600, thorough=6000, cpu=20)
def dicts(rng, m):
    """`TypedDict` never takes a value outside of a domain."""
    from tulip.transys.mathset import MathSet, TypedDict
    keys = ['name', 'age', 'any', 'free']
    domain = {'name': {'Maria', 'John'}, 'age': range(5), 'any': None}
    mutable = MathSet(['x', [1]])
    domain['mut'] = mutable
    keys.append('mut')
    allowed = {'name': ['Maria', 'John'], 'age': [0, 1, 2, 3, 4],
               'mut': ['x', [1]]}
    values = ['Maria', 'John', 'Bob', 0, 4, 5, 'x', [1], [2], None,
              {1: 2}]

    def legal(k, x):
        return k not in allowed or member(x, allowed[k])
    d = TypedDict()
    d.set_types(domain)
    model = dict()
    log = list()
    for _ in range(rng.randint(1, 12)):
        k, x = rng.choice(keys), rng.choice(values)
        if k in allowed and rng.random() < 0.5:
            x = rng.choice(allowed[k])
        op = rng.choice(['set', 'update', 'kw', 'default', 'shrink',
                         'or'])
        log.append((op, k, x))
        if op == 'shrink':
            if member([1], allowed['mut']):
                mutable.remove([1])
                allowed['mut'] = ['x']
                want = all(legal(a, b) for a, b in model.items())
                m.check(d.is_consistent() == want, 'is_consistent',
                        history=log, dict=model, got=d.is_consistent())
            continue
        change = not (op == 'default' and k in model)
        try:
            if op == 'set':
                d[k] = x
            elif op == 'update':
                d.update({k: x})
            elif op == 'kw':
                d.update(**{k: x})
            elif op == 'or':
                d |= {k: x}
            else:
                got = d.setdefault(k, x)
                m.check(got == (x if change else model[k]),
                        'setdefault', history=log)
            ok = True
        except ValueError:
            ok = False
            m.ev('refused')
        if change:
            m.check(ok == legal(k, x), 'value check', history=log,
                    accepted=ok)
            if ok:
                model[k] = x
        m.check(dict(d) == model, 'content', history=log, got=dict(d),
                want=model)
        m.check(d.is_consistent() == all(
            legal(a, b) for a, b in model.items()), 'is_consistent',
            history=log)
    m.sig(log)
