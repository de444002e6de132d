"""G05: functions on labeled states, and their files."""
import json
import os

from rt.core import Check, Violation

check = Check(
    'G05',
    rule='a distinct case is a history of definitions of one function, '
    'by content',
    require=['history.lookups', 'history.replaced', 'history.missing',
             'history.files', 'history.arity'])
STATES = [0, 1, 's1', 's10', (0, 1), ('a',), None]
OTHER = ['on', 'off', 0, 1, (1, 2), None]


@check.case(quick=1200, thorough=10000, cpu=20)
def history(rng, m):
    """The function returns what was defined last."""
    from tulip import transys as trs
    from tulip.transys.mathfunc import FunctionOnLabeledState
    nin = rng.randint(0, 2)
    keys = ['mode', 'memory'][:nin]
    keys.insert(rng.randint(0, nin), 'state')
    outs = rng.sample(['action', 'move', 'next'], rng.randint(1, 3))
    one_in = keys == ['state']
    one_out = len(outs) == 1
    f = FunctionOnLabeledState(
        'state' if one_in and rng.random() < 0.5 else keys,
        outs[0] if one_out and rng.random() < 0.5 else outs)
    model = dict()
    log = [keys, outs]
    ts = trs.FTS()
    ts.atomic_propositions.add_from(['p', 'q'])
    for s in STATES:
        if s is not None:
            ts.states.add(s, ap={x for x in 'pq' if rng.random() < 0.5})

    def arg(x):
        return x[0] if one_in else x

    def key():
        return tuple(
            rng.choice(STATES[:-1]) if k == 'state'
            else rng.choice(OTHER) for k in keys)
    for _ in range(rng.randint(1, 12)):
        x = key()
        if model and rng.random() < 0.25:
            x = rng.choice(list(model))
        y = tuple(rng.choice(OTHER) for _ in outs)
        label = rng.choice([None, ['odd'], [], ['p', 'q']])
        args = (arg(x), y[0] if one_out else y)
        log.append((x, y, label))
        if label is None:
            f.add(*args)
        else:
            f.add(*args, label)
        if x in model:
            m.ev('replaced')
        model[x] = (y, label or [])
        m.check(len(f) == len(model), 'number of elements', history=log)
        for x, (y, label) in model.items():
            got = f[arg(x)]
            want = y[0] if one_out else y
            m.check(type(got) is type(want) and got == want, 'value',
                    history=log, at=x, got=got, want=want)
            state, d = f.get_state_and_input_dict(arg(x))
            m.check(state == x[keys.index('state')] and d == {
                k: v for k, v in zip(keys, x) if k != 'state'},
                'state and inputs', history=log, at=x)
            pair = f.get_state_input_output_pair(state, d)
            m.check(pair.labels == label and
                    pair.output_dict == dict(zip(outs, y)),
                    'labels and outputs', history=log, at=x)
            m.ev('lookups')
        # wrong number of inputs, or of outputs
        for wrong_in in (True, False):
            if len(keys if wrong_in else outs) == 1:
                continue
            x, y = key(), tuple(rng.choice(OTHER) for _ in outs)
            z = x if wrong_in else y
            z = z[:-1] if rng.random() < 0.5 else z + (z[0],)
            args = ((z, y[0] if one_out else y) if wrong_in
                    else (arg(x), z))
            calls = [lambda: f.add(*args)]
            if wrong_in:
                calls.append(lambda: f[z])
            for call in calls:
                try:
                    call()
                except Exception:
                    m.ev('arity')
                else:
                    raise Violation('wrong number of values accepted',
                                    history=log, args=args)
            m.check(len(f) == len(model), 'refused, but added',
                    history=log)
        for _ in range(3):
            x = key()
            if x not in model:
                try:
                    f[arg(x)]
                except KeyError:
                    m.ev('missing')
                else:
                    raise Violation('value where undefined',
                                    history=log, at=x)
    for labels_of in (None, ts):
        path = os.path.abspath('f.json')
        f.save(path) if labels_of is None else f.save(path, labels_of)
        got = json.load(open(path))
        os.remove(path)
        want = list()
        for x, (y, label) in model.items():
            state = x[keys.index('state')]
            d = dict(state=state, labels=(
                label if labels_of is None
                else sorted(ts.states[state]['ap'])))
            d.update({k: v for k, v in zip(keys, x) if k != 'state'})
            d.update(zip(outs, y))
            want.append(d)
        for d in got:
            d['labels'] = sorted(d['labels'])
        want = json.loads(json.dumps(want))
        for d in want:
            d['labels'] = sorted(d['labels'])
        m.check(got == want, 'file', history=log, got=got, want=want)
        m.ev('files')
    m.sig(log)
    m.sample(log)
