"""M04: strategies of external solvers become machines faithfully.

The solvers are replaced with programs that record how they are called,
and print a prepared answer in the format of the solver.
"""
import contextlib
import io
import json
import os
import shutil
import stat
import sys
import tempfile

from rt import gr1, expr as X
from rt.core import Check, Skip, Violation

check = Check(
    'M04',
    rule='a distinct case is an answer of a solver (strategy and '
    'specification) that was imported and compared transition by '
    'transition, by content',
    require=['from_json.nodes', 'from_xml.nodes', 'from_xml.no_strategy',
             'gr1c_process.transitions', 'gr1c_process.unrealizable',
             'slugs_process.transitions', 'slugs_process.unrealizable',
             'verdicts.true', 'verdicts.false', 'session.answers',
             'from_xml.repeated', 'from_xml.namespace', 'verdicts.failed',
             'installed.old', 'installed.syntax', 'refused.refused'],
    assumptions=[
        'answers have the formats that the interfaces document; '
        'integer domains given to slugs start from 0, because '
        'how its compiler encodes others is not part of this repository'])

FAKE = '''#!/bin/sh
if [ "$1" = "-V" ]; then echo "gr1c {version}"; exit 0; fi
D="{folder}"
for a in "$@"; do printf '%s\\n' "$a"; done > "$D/argv"
cat > "$D/stdin"
cat "$D/answer"
exit $(cat "$D/rc")
'''

SLUGS = '''#!/bin/sh
D="{folder}"
for a in "$@"; do printf '%s\\n' "$a"; done > "$D/argv"
cat "$1" > "$D/stdin"
cat "$D/answer"
cat "$D/verdict" >&2
exit $(cat "$D/rc")
'''

COMPILER = '''import sys
sys.stdout.write("COMPILED\\n" + open(sys.argv[1]).read())
'''

SESSION = '''#!{python}
import sys, json
table = json.load(open("{folder}/table"))
with open("{folder}/files", "a") as f:
    f.write(sys.argv[2] + "\\n")
first = True
while True:
    sys.stdout.write(">>> ")
    sys.stdout.flush()
    line = sys.stdin.readline()
    if not line or line.strip() == "quit":
        break
    sys.stdout.write(table.get(
        line.strip(), "0\\n" if "getindex" in line else "---\\n"))
    sys.stdout.flush()
'''


def script(path, text):
    with open(path, 'w') as f:
        f.write(text)
    os.chmod(path, stat.S_IRWXU)


@contextlib.contextmanager
def solvers():
    d = tempfile.mkdtemp(dir=os.getcwd())
    old, cwd, tmp = os.environ['PATH'], os.getcwd(), tempfile.tempdir
    os.makedirs(f'{d}/bin')
    os.makedirs(f'{d}/tmp')
    os.makedirs(f'{d}/tools/StructuredSlugsParser')
    script(f'{d}/bin/gr1c', FAKE.format(folder=d, version='0.13.0'))
    # (found second in the path)
    os.makedirs(f'{d}/bin2')
    for name in ('gr1c', 'slugs'):
        script(f'{d}/bin2/{name}', '#!/bin/sh\nexit 7\n')
    script(f'{d}/bin/slugs', SLUGS.format(folder=d))
    script(f'{d}/bin/python',
           f'#!/bin/sh\nexec "{sys.executable}" -S -E -B "$@"\n')
    script(f'{d}/tools/StructuredSlugsParser/compiler.py', COMPILER)
    os.environ['PATH'] = os.pathsep.join([
        f'{d}/bin', f'{d}/bin2', old])
    tempfile.tempdir = f'{d}/tmp'
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        tempfile.tempdir = tmp
        os.environ['PATH'] = old
        shutil.rmtree(d)


def answer(d, text, rc=0, verdict=''):
    for name, s in (('answer', text), ('rc', str(rc)),
                    ('verdict', verdict)):
        with open(f'{d}/{name}', 'w') as f:
            f.write(s)


def read(d, name):
    with open(f'{d}/{name}') as f:
        return f.read()


def ints(dom):
    """Values that a solver uses for a domain."""
    if isinstance(dom, list):
        return list(range(len(dom)))
    return [int(x) for x in X.domain_values(dom)]


def rand_strategy(rng, sp, n_max=7):
    """Any graph whose nodes carry valuations in integers."""
    allv = {**sp.env, **sp.sys}
    n = rng.randint(1, n_max)
    nodes = {i: {k: rng.choice(ints(d)) for k, d in allv.items()}
             for i in range(n)}
    edges = {i: sorted({rng.randrange(n)
                        for _ in range(rng.choice([0, 1, 1, 2, 3]))})
             for i in range(n)}
    return nodes, edges


def words(sp, d):
    """Values as in the specification."""
    out = dict()
    for k, dom in {**sp.env, **sp.sys}.items():
        out[k] = dom[d[k]] if isinstance(dom, list) else d[k]
    return out


def plain_val(sp, d):
    w = words(sp, d)
    return {k: bool(v) if {**sp.env, **sp.sys}[k] == 'boolean' else v
            for k, v in w.items()}


def mix(rng, sp):
    """Declare variables in another order."""
    for d in (sp.env, sp.sys):
        items = list(d.items())
        rng.shuffle(items)
        d.clear()
        d.update(items)


def as_json(rng, sp, nodes, edges, initial, names):
    def dom(x):
        if isinstance(x, list):
            return [0, len(x) - 1]
        return x if x == 'boolean' else list(x)
    order = list(nodes)
    rng.shuffle(order)
    return json.dumps(dict(
        version=1, gr1c='0.13.0', date='2020-01-01 00:00:00', extra='',
        ENV=[{k: dom(v)} for k, v in sp.env.items()],
        SYS=[{k: dom(v)} for k, v in sp.sys.items()],
        nodes={names[i]: dict(
            state=[nodes[i][k] for k in [*sp.env, *sp.sys]],
            mode=i % 3, rgrad=i, initial=i in initial,
            trans=[names[j] for j in edges[i]]) for i in order}))


def addresses(rng, n):
    return {i: hex(0x1E8F000 + 64 * a)
            for i, a in enumerate(rng.sample(range(500), n))}


@check.case(quick=300, thorough=4000, cpu=30)
def from_json(rng, m):
    from tulip.interfaces import gr1c
    sp = gr1.rand_spec(rng, ['bool', 'int'])
    mix(rng, sp)
    nodes, edges = rand_strategy(rng, sp)
    initial = set(rng.sample(sorted(nodes), rng.randint(0, len(nodes))))
    names = addresses(rng, len(nodes))
    text = as_json(rng, sp, nodes, edges, initial, names)
    how = rng.choice(['text', 'stream', 'path'])
    if how == 'text':
        g = gr1c.load_aut_json(text)
    elif how == 'stream':
        g = gr1c.load_aut_json(io.StringIO(text))
    else:
        path = f's{rng.randrange(10**9)}.json'
        with open(path, 'w') as f:
            f.write(text)
        g = gr1c.load_mealy(path, fformat=rng.choice(['json', 'JSON']))
        try:
            gr1c.load_mealy(path, fformat='yaml')
        except ValueError:
            pass
        else:
            m.check(False, 'unknown format accepted')
        os.unlink(path)
    m.check({u: dict(g.nodes[u]['state']) for u in g.nodes} ==
            {names[i]: d for i, d in nodes.items()}, 'states of nodes',
            text=text)
    m.check(set(g.edges) == {(names[i], names[j])
                             for i in edges for j in edges[i]},
            'transitions', text=text)
    m.check(set(g.initial_nodes) == {names[i] for i in initial},
            'initial nodes', text=text)
    m.check(all(g.nodes[names[i]]['mode'] == i % 3 and
                g.nodes[names[i]]['rgrad'] == i for i in nodes),
            'annotation of nodes')
    m.check(list(g.env_vars) == list(sp.env) and
            list(g.sys_vars) == list(sp.sys), 'variables')
    m.ev('nodes', len(nodes))
    m.sig(text)
    bad = json.loads(text)
    bad['version'] = 2
    try:
        gr1c.load_aut_json(json.dumps(bad))
    except ValueError:
        return
    m.check(False, 'unsupported version accepted')


@check.case(quick=300, thorough=4000, cpu=30)
def from_xml(rng, m):
    from xml.sax import saxutils
    from tulip.interfaces import gr1c
    import xml.etree.ElementTree as ET
    sp = gr1.rand_spec(rng, ['bool', 'int'])
    mix(rng, sp)
    nodes, edges = rand_strategy(rng, sp)
    parts = gr1.to_text(sp, rng)

    def dom(x):
        gap = rng.choice(['', ' ', '  '])
        return 'boolean' if x == 'boolean' else f'[{x[0]},{gap}{x[1]}]'

    def many(xs):
        """List of items, or text."""
        if rng.random() < .4:
            return ''.join(f'<litem value="{x}" />' for x in xs)
        gap = rng.choice([' ', '  ', '\n'])
        return rng.choice(['', ' ', '\n']) + gap.join(map(str, xs))

    def items(d):
        return ''.join(f'<item key="{k}" value="{v}" />'
                       for k, v in d.items())

    def variables(d):
        return items({k: dom(v) for k, v in d.items()})
    # `gr1c` escapes formulas
    esc = saxutils.escape if rng.random() < .5 else str
    spec = ''.join(
        f'<{p}>' + ''.join(
            f'<litem value={saxutils.quoteattr(esc(c))} />'
            for c in parts[p]) + f'</{p}>'
        for p in ['env_init', 'env_safety', 'env_prog',
                  'sys_init', 'sys_safety', 'sys_prog'])
    with_aut = rng.random() < 0.7
    anno = rng.random() < 0.5

    def node(i, succ, vals, mode, rgrad):
        return (
            f'<node><id>{i}</id><anno>'
            f'{many([mode, rgrad]) if anno else ""}</anno>'
            f'<child_list>{many(succ)}</child_list>'
            f'<state>{items(vals)}</state></node>')
    aut = ''.join(
        node(i, edges[i], nodes[i], i % 2, i + 3) for i in nodes)
    if rng.random() < .2 and nodes:
        # a node that repeats an identifier is ignored
        i, j = rng.choice(sorted(nodes)), rng.choice(sorted(nodes))
        aut += node(i, [j], nodes[j], 7, 7)
        m.ev('repeated')
    aut = f'<aut type="basic">{aut}</aut>' if with_aut else \
        rng.choice(['<aut />', ''])
    space = rng.choice([
        'http://tulip-control.sourceforge.net/ns/1',
        'http://tulip-control.sourceforge.net/ns/1',
        'http://example.org/another', ''])
    kw = dict()
    xmlns = f'xmlns="{space}" ' if space else ''
    if 'tulip' not in space:
        kw['namespace'] = space or rng.choice(['', None])
        m.ev('namespace')
    text = ('<?xml version="1.0" encoding="UTF-8"?>'
            f'<tulipcon {xmlns}version="1"><env_vars>{variables(sp.env)}</env_vars>'
            f'<sys_vars>{variables(sp.sys)}</sys_vars>'
            f'<spec>{spec}</spec>{aut}<extra></extra></tulipcon>')
    for old, new, err in [
            ('tulipcon', 'tulip', TypeError),
            ('version="1">', 'version="2">', ValueError),
            ('version="1">', '>', ValueError),
            ('type="basic"', 'type="other"', ValueError),
            ('sys_prog', 'sys_goal', ValueError),
            ('value="boolean"', 'value="real"', ValueError)]:
        bad = text.replace(old, new)
        if bad == text:
            continue
        try:
            gr1c.load_aut_xml(bad, **kw)
        except err:
            continue
        m.check(False, 'malformed text accepted', text=bad)
    how = rng.choice(['text', 'element', 'path'])
    if how == 'text':
        g = gr1c.load_aut_xml(text, **kw)
    elif how == 'element':
        g = gr1c.load_aut_xml(ET.fromstring(text), **kw)
    elif how == 'path':
        if not with_aut or kw:
            raise Skip()
        path = f's{rng.randrange(10**9)}.xml'
        with open(path, 'w') as f:
            f.write(text)
        g = gr1c.load_mealy(path, **rng.choice([
            dict(), dict(fformat='tulipxml'),
            dict(fformat='TulipXML')]))
        os.unlink(path)
    if not with_aut:
        s, none = g
        m.check(none is None, 'strategy from nothing')
        m.check(dict(s.env_vars) == sp.env and
                dict(s.sys_vars) == sp.sys, 'variables')
        for p in ['env_init', 'env_safety', 'env_prog',
                  'sys_init', 'sys_safety', 'sys_prog']:
            m.check(list(getattr(s, p)) == list(parts[p]),
                    'clauses of the specification', part=p,
                    got=getattr(s, p), want=parts[p])
        m.ev('no_strategy')
        m.sig(text)
        return
    m.check({u: dict(g.nodes[u]['state']) for u in g.nodes} == nodes,
            'states of nodes', text=text)
    m.check(set(g.edges) == {(i, j) for i in edges for j in edges[i]},
            'transitions', text=text)
    m.check(all((g.nodes[i]['mode'], g.nodes[i]['rgrad']) ==
                ((i % 2, i + 3) if anno else (-1, -1)) for i in nodes),
            'annotation of nodes')
    m.check(dict(g.env_vars) == sp.env and dict(g.sys_vars) == sp.sys,
            'variables')
    m.ev('nodes', len(nodes))
    m.sig(text)


def prune(edges, keep):
    """Nodes that remain when dead ends are removed, repeatedly."""
    keep = set(keep)
    while True:
        dead = {u for u in keep
                if not any(v in keep for v in edges.get(u, ()))}
        if not dead:
            return keep
        keep -= dead


def judge(m, mach, sp, nodes, edges, initial, pruned, ids=lambda i: i):
    """Machine = strategy, reading values as declared."""
    allv = {**sp.env, **sp.sys}
    mine = {ids(i): [ids(j) for j in edges[i]] for i in nodes}
    mine['Sinit'] = sorted({ids(i) for i in initial}, key=str)
    keep = prune(mine, mine) if pruned else set(mine)
    m.check(set(mach.nodes) == keep, 'states of the machine',
            got=sorted(map(str, mach.nodes)), want=sorted(map(str, keep)))
    m.check(set(mach.inputs) == set(sp.env) and
            set(mach.outputs) == set(sp.sys), 'ports')
    val = {ids(i): words(sp, d) for i, d in nodes.items()}

    def key(u, v, d):
        return repr((u, v, sorted((k, d[k]) for k in d)))
    got = sorted(key(u, v, d) for u, v, d in mach.edges(data=True)
                 if u != 'Sinit')
    want = sorted(key(u, v, val[v]) for u in keep if u != 'Sinit'
                  for v in mine[u] if v in keep)
    m.check(got == want, 'transitions of the machine',
            got=got, want=want, spec=gr1.describe(sp))
    # initial transitions: one for each initial valuation
    es = [(v, d) for u, v, d in mach.edges(data=True) if u == 'Sinit']
    m.check(all(v in mine['Sinit'] and dict(d) == val[v] for v, d in es),
            'initial transitions', got=es, spec=gr1.describe(sp))
    if not pruned:
        vals = sorted(repr(sorted(d.items())) for _, d in es)
        m.check(vals == sorted({repr(sorted(val[u].items()))
                                for u in mine['Sinit']}),
                'initial valuations', got=vals, spec=gr1.describe(sp))
    if 'Sinit' in keep:
        m.check(set(mach.states.initial) == {'Sinit'}, 'initial state')
    m.ev('transitions', len(got) + len(es))


@check.case(quick=100, thorough=1200, cpu=60)
def gr1c_process(rng, m):
    from tulip import synth, spec as _spec
    q = rng.choice([r'\A \E', r'\A \A', r'\E \E'])
    sp = gr1.rand_spec(rng, ['bool', 'int', 'str'], moore=False,
                       plus_one=False, qinit=q)
    mix(rng, sp)
    nodes, edges = rand_strategy(rng, sp)
    initial = set(rng.sample(sorted(nodes), rng.randint(1, len(nodes))))
    names = addresses(rng, len(nodes))
    f = gr1.to_grspec(sp, rng)
    text = as_json(rng, sp, nodes, edges, initial, names)
    rc = 1 if rng.random() < 0.25 else 0
    # one initial node for each initial valuation
    vals = [sorted(nodes[i].items()) for i in initial]
    rm = rng.random() < 0.4 and not any(
        vals.count(v) > 1 for v in vals) and bool(
        prune({**edges, 'init': initial}, [*nodes, 'init']))
    with solvers() as d:
        answer(d, text, rc=rc)
        mach = synth.synthesize(f, solver='gr1c', rm_deadends=rm)
        argv = read(d, 'argv').split()
        stdin = read(d, 'stdin')
    m.check(stdin == _spec.translate(f, 'gr1c'),
            'specification given to the solver')
    want = 'ALL_ENV_EXIST_SYS_INIT' if q == r'\A \E' else 'ONE_SIDE_INIT'
    m.check(argv[argv.index('-n') + 1] == want and
            argv[argv.index('-t') + 1] == 'json', 'options', got=argv)
    if rc:
        m.check(mach is None, 'machine for an unrealizable specification')
        m.ev('unrealizable')
        return
    judge(m, mach, sp, nodes, edges, initial, rm, lambda i: names[i])
    m.sig((gr1.describe(sp), text))
    m.sample(gr1.describe(sp))


def bits(sp):
    """Names of the bits, as slugs prints them (little-endian)."""
    out = list()
    for k, dom in {**sp.env, **sp.sys}.items():
        if dom == 'boolean':
            out.append((k, k, 0))
            continue
        for i in range(dom[1].bit_length()):
            name = f'{k}@0.{dom[0]}.{dom[1]}' if i == 0 else f'{k}@{i}'
            out.append((name, k, i))
    return out


@check.case(quick=60, thorough=800, cpu=60)
def slugs_process(rng, m):
    from tulip import synth, spec as _spec
    q = rng.choice([r'\A \E', r'\A \A', r'\E \E'])
    sp = gr1.rand_spec(rng, ['bool', 'int'], moore=False,
                       plus_one=False, qinit=q)
    allv = {**sp.env, **sp.sys}
    if any(d != 'boolean' and (d[0] != 0 or d[1] == 0)
           for d in allv.values()):
        raise Skip()
    nodes, edges = rand_strategy(rng, sp)
    # the documented initial condition is an implication
    initial = {i for i, d in nodes.items() if
               not X.conj_ev(sp.env_init, plain_val(sp, d), None) or
               X.conj_ev(sp.sys_init, plain_val(sp, d), None)}
    if not initial:
        raise Skip()
    names = bits(sp)
    rng.shuffle(names)
    text = json.dumps(dict(
        version=0, slugs='0.0.1', variables=[a for a, *_ in names],
        nodes={str(i): dict(
            rank=0, state=[(d[k] >> b) & 1 for _, k, b in names],
            trans=edges[i]) for i, d in nodes.items()}))
    f = gr1.to_grspec(sp, rng)
    ok = rng.random() < 0.75
    with solvers() as d:
        answer(d, text, verdict='RESULT: Specification is realizable.\n'
               if ok else 'RESULT: Specification is unrealizable.\n')
        mach = synth.synthesize(f, solver='slugs', rm_deadends=False)
        argv = read(d, 'argv').split()
        stdin = read(d, 'stdin')
    m.check(stdin == 'COMPILED\n' + _spec.translate(f, 'slugs'),
            'specification given to the solver', got=stdin)
    m.check('--explicitStrategy' in argv and '--jsonOutput' in argv,
            'options', got=argv)
    if not ok:
        m.check(mach is None, 'machine for an unrealizable specification')
        m.ev('unrealizable')
        return
    judge(m, mach, sp, nodes, edges, initial, False)
    m.sig((gr1.describe(sp), text))
    m.sample(gr1.describe(sp))


@check.case(quick=40, thorough=400, cpu=60)
def verdicts(rng, m):
    from tulip import synth
    q = rng.choice([r'\A \E', r'\A \A', r'\E \E'])
    solver = rng.choice(['gr1c', 'slugs'])
    sp = gr1.rand_spec(rng, ['bool', 'int'], moore=False,
                       plus_one=False, qinit=q)
    f = gr1.to_grspec(sp, rng)
    ok = rng.random() < 0.5
    with solvers() as d:
        answer(d, '', rc=0 if ok or solver == 'slugs' else 1,
               verdict='RESULT: Specification is realizable.\n'
               if ok else 'RESULT: Specification is unrealizable.\n')
        got = synth.is_realizable(f, solver=solver)
        argv = read(d, 'argv').split()
    m.check(bool(got) == ok, 'verdict', solver=solver, got=got, want=ok)
    if solver == 'gr1c':
        want = ('ALL_ENV_EXIST_SYS_INIT' if q == r'\A \E'
                else 'ONE_SIDE_INIT')
        m.check('-r' in argv and argv[argv.index('-n') + 1] == want,
                'options', got=argv)
    m.ev('true' if ok else 'false')
    m.sig((solver, gr1.describe(sp)))
    if solver != 'slugs':
        return
    # the solver fails
    with solvers() as d:
        answer(d, '{}', rc=rng.choice([1, 2]),
               verdict='Specification is realizable.\n')
        for f_ in (lambda: synth.is_realizable(
                f, solver='slugs'), lambda: synth.synthesize(
                    gr1.to_grspec(sp, rng), solver='slugs')):
            try:
                f_()
            except Exception:
                m.ev('failed')
                continue
            m.check(False, 'failure of the solver is not reported')


@check.case(quick=60, thorough=600, cpu=60)
def installed(rng, m):
    """Versions of gr1c, its syntax checks, and files it has no use for."""
    from tulip.interfaces import gr1c
    v = rng.choice([
        '0.9.0', '0.13.0', '0.10.1', '1.0.0', '0.8.12', '0.8.0',
        '0.11.12', '0.9.1', '2.0.31', '0.1.9'])
    t = tuple(map(int, v.split('.')))
    text = f'ENV: x{rng.randrange(9)};\nSYS: y;\n'
    rc = rng.choice([0, 1, 2])
    with solvers() as d:
        script(f'{d}/bin/gr1c', FAKE.format(folder=d, version=v))
        answer(d, 'message', rc=rc)
        ok = t >= (0, 9, 0)
        m.check(gr1c.check_gr1c() == ok, 'version accepted', version=v)
        m.check(tuple(gr1c.get_version()) == t, 'version', version=v)
        try:
            got = gr1c.check_syntax(text)
        except Exception as e:
            m.check(not ok, 'check of syntax refused', error=repr(e))
            m.ev('old')
        else:
            m.check(ok, 'old version is used', version=v)
            m.check(got == (rc == 0), 'verdict about syntax', rc=rc,
                    got=got)
            m.check(read(d, 'stdin') == text and
                    '-s' in read(d, 'argv').split(), 'what gr1c is given')
            m.ev('syntax')
    m.sig((v, rc, text))


@check.case(quick=60, thorough=600, cpu=60)
def refused(rng, m):
    """What these solvers cannot decide is refused."""
    from tulip import synth
    solver = rng.choice(['gr1c', 'gr1py', 'gr1c'])
    q = rng.choice([r'\A \E', r'\A \A', r'\E \E', r'\E \A'])
    sp = gr1.rand_spec(rng, ['bool', 'int'], qinit=q,
                       moore=rng.random() < .3, plus_one=rng.random() < .3)
    lit = gr1._lit(rng, {**sp.env, **sp.sys})
    if rng.random() < .3:
        sp.env_init = [lit]
    if rng.random() < .3:
        sp.sys_init = [lit]
    bad = (sp.moore or sp.plus_one or q == r'\E \A' or
           (q == r'\A \A' and sp.sys_init) or
           (q == r'\E \E' and sp.env_init))
    if not bad:
        raise Skip()
    with solvers() as d:
        answer(d, '', rc=0)
        for f in (synth.is_realizable, synth.synthesize):
            try:
                f(gr1.to_grspec(sp, rng), solver=solver)
            except Exception:
                m.ev('refused')
            else:
                m.check(False, 'accepted', solver=solver, call=f.__name__,
                        spec=gr1.describe(sp))
            m.check(not os.path.exists(f'{d}/argv') or
                    '-r' not in read(d, 'argv'), 'the solver was called')
    m.sig((solver, gr1.describe(sp)))


@check.case(quick=24, thorough=250, cpu=60)
def session(rng, m):
    """Interaction with gr1c: vectors are ordered as declared."""
    from tulip.interfaces import gr1c
    env = [f'e{i}' for i in range(rng.randint(1, 3))]
    sys_ = [f's{i}' for i in range(rng.randint(1, 3))]
    goals = rng.randint(1, 3)

    def val(names):
        d = {k: rng.randint(0, 4) for k in names}
        keys = list(d)
        rng.shuffle(keys)
        return {k: d[k] for k in keys}

    def vec(d, names):
        return ' '.join(str(d[k]) for k in names)
    table = {'numgoals': f'{goals}\n', 'var': 'e0 (0), s0 (1)\n'}
    script_ = list()
    for _ in range(8):
        s = val(env + sys_)
        v = vec(s, env + sys_)
        e = val(env)
        g = rng.randrange(goals)
        kind = rng.choice(['win', 'index', 'env', 'next', 'nexta'])
        moves = [val(env if kind == 'env' else sys_)
                 for _ in range(rng.randint(0, 3))]
        lines = ''.join(
            vec(x, env if kind == 'env' else sys_) + '\n'
            for x in moves) + '---\n'
        if kind == 'win':
            r = rng.random() < 0.5
            cmd, ans = f'winning {v}', f'{r}\n'
            call = (lambda p, s=s: p.iswinning(dict(s)))
        elif kind == 'index':
            r = rng.randint(0, 99)
            cmd, ans = f'getindex {v} {g}', f'{r}\n'
            call = (lambda p, s=s, g=g: p.getindex(dict(s), g))
        elif kind == 'env':
            r, cmd, ans = moves, f'envnext {v}', lines
            call = (lambda p, s=s: p.env_next(dict(s)))
        elif kind == 'next':
            r, cmd, ans = moves, f'sysnext {v} {vec(e, env)} {g}', lines
            call = (lambda p, s=s, e=e, g=g:
                    p.sys_nextfeas(dict(s), dict(e), g))
        else:
            r, cmd, ans = moves, f'sysnexta {v} {vec(e, env)}', lines
            call = (lambda p, s=s, e=e: p.sys_nexta(dict(s), dict(e)))
        if cmd in table:
            continue
        table[cmd] = ans
        script_.append((kind, cmd, call, r))
    with solvers() as d:
        script(f'{d}/bin/gr1c', SESSION.format(
            python=sys.executable, folder=d))
        with open(f'{d}/table', 'w') as f:
            json.dump(table, f)
        p = gr1c.GR1CSession('spec.spc', sys_vars=sys_, env_vars=env)
        try:
            m.check(p.numgoals() == goals, 'number of goals')
            for kind, cmd, call, r in script_:
                got = call(p)
                m.check(got == r, 'answer of the session', command=cmd,
                        got=got, want=r)
                m.ev('answers')
            m.check(p.getvars() == table['var'].strip(), 'variables')
            for g in (-1, goals, goals + 1):
                s, e = val(env + sys_), val(env)
                for f in (lambda: p.getindex(s, g),
                          lambda: p.sys_nextfeas(s, e, g)):
                    try:
                        f()
                    except ValueError:
                        continue
                    m.check(False, 'goal that does not exist', goal=g)
            old = p.p
            other = rng.choice([None, 'other.spc'])
            m.check(p.reset(other) is True, 'reset')
            old.stdin.close()
            old.stdout.close()
            m.check(p.numgoals() == goals, 'number of goals')
            names = read(d, 'files').split()
            m.check(names == ['spec.spc', other or 'spec.spc'],
                    'files given to gr1c', got=names)
        finally:
            q = p.p
            m.check(p.close() is True, 'close')
            if q is not None:
                q.stdin.close()
                q.stdout.close()
    m.sig(sorted(table.items()))
