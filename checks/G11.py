"""G11: graphs exported to other formats are the same graphs."""
import ast
import json
import os
import re
import shutil
import subprocess
from collections import Counter
from xml.etree import ElementTree

from rt.core import Check, Skip, Violation

check = Check(
    'G11',
    rule='a distinct case is a graph that was exported, by content and '
    'format',
    require=['dot.nodes', 'dot.edges', 'dot.accepting', 'promela.steps',
             'promela.states', 'scxml.transitions', 'html.links', 'html.labels',
             'tikz.nodes'],
    assumptions=[
        'names of states differ when written as text, and are identifiers '
        'of the exported language',
        'runs of Promela are simulated with Spin: a transition is counted '
        'as missing if its state was left 80 times without it'])
NAMES = ['s0', 's1', 's10', 'home', 'b', 'C']


def run(*args):
    p = subprocess.run(args, capture_output=True, text=True, timeout=60)
    if p.returncode and 'Assertion' in p.stderr:
        raise Skip('GraphViz fails on some layouts')
    if p.returncode:
        raise Violation('the file cannot be read', args=args,
                        error=p.stderr[:300], out=p.stdout[:300])
    return p.stdout


def squeeze(s):
    return re.sub(r'(\\n|\\l|\\r|\s)', '', s)


def rand_graph(rng):
    """Graph, nodes, edges with visible labels, initial, accepting."""
    from tulip import transys as trs
    from tulip.transys import automata, machines
    kind = rng.choice(['fts', 'ba', 'mealy', 'moore', 'ks', 'mc'])
    names = rng.choice([NAMES, [0, 1, 2, 10], NAMES])
    S = rng.sample(names, rng.randint(1, 4))
    pairs = [(u, v) for u in S for v in S if rng.random() < 0.4]
    init = [s for s in S if rng.random() < 0.4]
    acc = None
    nodes = {s: list() for s in S}
    edges = list()
    AP = ['p', 'q', 'rr', 'a_long_one', 'lot', 'home', 'kitchen',
          'corridor'][:rng.choice([1, 2, 3, 8])]
    if kind in ('fts', 'ks', 'mc'):
        g = dict(fts=trs.FTS, ks=trs.KripkeStructure,
                 mc=trs.MarkovChain)[kind]()
        g.atomic_propositions.add_from(AP)
        if kind == 'fts':
            g.sys_actions.add_from(['go', 'stop'])
        for s in S:
            nodes[s] = [x for x in AP if rng.random() < 0.5]
            g.states.add(s, ap=set(nodes[s]))
    elif kind == 'ba':
        g = rng.choice([
            automata.BuchiAutomaton,
            automata.FiniteWordAutomaton])(atomic_proposition_based=True)
        g.states.add_from(S)
        g.atomic_propositions.add_from(AP)
        acc = {s for s in S if rng.random() < 0.5}
        g.accepting.add_from(acc)
    else:
        g = (machines.MealyMachine if kind == 'mealy' else
             machines.MooreMachine)()
        g.add_inputs({'x': {0, 1}, 'in': {'u', 'w'}})
        masks = None
        if rng.random() < 0.5 and kind == 'mealy':
            masks = {'y': lambda v: v != 'no'}
        g.add_outputs({'y': {'yes', 'no'}}, masks)
        for s in S:
            if kind == 'moore':
                y = rng.choice(['yes', 'no'])
                nodes[s] = ['y', y]
                g.states.add(s, y=y)
            else:
                g.states.add(s)
    g.states.initial.add_from(init)
    for u, v in pairs:
        if kind == 'fts':
            for a in rng.sample(['go', 'stop'], rng.randint(1, 2)):
                g.transitions.add(u, v, sys_actions=a)
                edges.append((u, v, [a]))
        elif kind == 'ba':
            x = {y for y in AP if rng.random() < 0.5}
            g.transitions.add(u, v, letter=x)
            edges.append((u, v, sorted(x)))
        elif kind in ('mealy', 'moore'):
            d = {'x': rng.choice([0, 1]), 'in': rng.choice('uw')}
            if kind == 'mealy':
                d['y'] = rng.choice(['yes', 'no'])
            d = dict(rng.sample(list(d.items()), len(d)))
            g.transitions.add(u, v, **d)
            vis = [f'{k}:{z}' for k, z in d.items()
                   if not (k == 'y' and z == 'no' and masks)]
            edges.append((u, v, vis))
        elif kind == 'mc':
            g.transitions.add(u, v, probability=0.5)
            edges.append((u, v, []))
        else:
            g.transitions.add(u, v)
            edges.append((u, v, []))
    return g, kind, nodes, edges, init, acc


@check.case(quick=240, thorough=2500, cpu=60)
def dot(rng, m):
    """DOT text and images, read by GraphViz."""
    g, kind, nodes, edges, init, acc = rand_graph(rng)
    color, fill = dict(), dict()
    if rng.random() < 0.4:
        for s in nodes:
            if rng.random() < 0.5:
                color[s] = g.nodes[s]['color'] = rng.choice(
                    ['red', 'blue'])
            if rng.random() < 0.5:
                fill[s] = g.nodes[s]['fillcolor'] = rng.choice(
                    ['green', 'yellow'])
    ecolor = Counter()
    for u, v, d in g.edges(data=True):
        if rng.random() < 0.2:
            d['color'] = rng.choice(['red', 'blue'])
        ecolor[str(u), str(v), d.get('color', 'black')] += 1
    rankdir = rng.choice([None, None, 'LR', 'TB', 'BT', 'RL'])
    case = (kind, nodes, edges, init, acc)
    # the working directory is scratch
    shutil.rmtree(os.path.join(os.getcwd(), 'd'), ignore_errors=True)
    os.makedirs('d')
    ext = rng.choice(['dot', 'svg', 'str', 'str'])
    if ext == 'str':
        with open('d/g.dot', 'w') as f:
            f.write(g.dot_str())
    else:
        how = rng.randrange(3)
        if how == 2:
            g.name = 'd/g'
        args, kw = [((f'd/g.{ext}',), dict()),
                    (('d/g.png',), dict(fileformat=ext)),
                    ((), dict(fileformat=ext))][how]
        if rankdir:
            kw['rankdir'] = rankdir
        try:
            m.check(g.save(*args, **kw), 'not saved', case=case)
        except subprocess.CalledProcessError as e:
            if b'Assertion' in (e.stderr or b''):
                raise Skip('GraphViz fails on some layouts')
            raise
        g.name = ''
    files = os.listdir('d')
    m.check(files == ['g.svg' if ext == 'svg' else 'g.dot'],
            'files that were written', case=case, got=files)
    path = f'd/{files[0]}'
    m.sig((ext, case))
    if ext == 'svg':
        root = ElementTree.parse(path).getroot()
        os.remove(path)
        titles = Counter(
            x.text for x in root.iter('{http://www.w3.org/2000/svg}title'))
        for u in nodes:
            m.check(titles[str(u)] == 1, 'node in the image', case=case,
                    node=u, got=titles)
            m.ev('nodes')
        for (u, v), n in Counter((u, v) for u, v, _ in edges).items():
            m.check(titles[f'{u}->{v}'] == n, 'edges in the image',
                    case=case, edge=(u, v), got=titles)
        return
    d = json.loads(run('dot', '-Tdot_json', path))
    os.remove(path)
    objs = {x['_gvid']: x for x in d['objects']}
    if ext == 'dot':
        m.check(d.get('rankdir', 'TB') == (rankdir or 'LR'), 'direction',
                case=case, got=d.get('rankdir'), want=rankdir)
    got = Counter((objs[x['tail']]['name'], objs[x['head']]['name'],
                   x.get('color', 'black')) for x in d.get('edges', list()))
    m.check(not ecolor - got, 'colors of edges', case=case, got=got,
            want=ecolor)
    real = {x['name']: x for x in objs.values()
            if x['name'] in set(map(str, nodes))}
    m.check(set(real) == set(map(str, nodes)), 'nodes', case=case,
            got=sorted(real))
    others = {i for i, x in objs.items() if x['name'] not in real}
    starts, found = list(), list()
    for e in d.get('edges', list()):
        u, v = objs[e['tail']], objs[e['head']]
        if e['tail'] in others:
            starts.append(v['name'])
        else:
            found.append((u['name'], v['name'], squeeze(
                e.get('label', ''))))
    m.check(sorted(starts) == sorted(map(str, init)), 'initial states',
            case=case, got=starts)
    m.check(Counter((u, v) for u, v, _ in found) ==
            Counter((str(u), str(v)) for u, v, _ in edges), 'edges',
            case=case, got=found)
    for u, v, vis in edges:
        ok = [x for x in found if x[:2] == (str(u), str(v)) and
              all(y in x[2] for y in vis)]
        m.check(ok, 'label of an edge', case=case, edge=(u, v, vis),
                got=found)
    if kind == 'mealy':
        hidden = sum('y:no' in x[2] for x in found)
        want = sum('y:no' in x[2] for x in edges)
        m.check(hidden == want, 'values that are hidden', case=case,
                got=found)
    m.ev('edges', len(found))
    for u, vis in nodes.items():
        x = real[str(u)]
        lab = squeeze(x.get('label', ''))
        m.check(lab.startswith(str(u)) and all(
            y in lab[len(str(u)):] for y in vis) and '"' not in lab,
            'label of a node', case=case, node=u, got=lab)
        m.check(x.get('color', 'black') == color.get(u, 'black') and
                x.get('fillcolor', 'none') == fill.get(u, 'none'),
                'colors', case=case, node=u, got=x)
        if acc is not None:
            m.check((x['shape'] == 'doublecircle') == (u in acc),
                    'accepting states', case=case, got=x)
            m.ev('accepting')
        m.ev('nodes')
    m.sample((ext, kind, len(nodes), len(edges)))


@check.case(quick=80, thorough=800, cpu=60)
def tikz(rng, m):
    """Styles of nodes in DOT text for TikZ."""
    g, kind, nodes, edges, init, acc = rand_graph(rng)
    fill = dict()
    for s in nodes:
        if rng.random() < 0.3:
            fill[s] = g.nodes[s]['fillcolor'] = rng.choice(
                ['green', 'yellow'])
    with open('t.dot', 'w') as f:
        f.write(g.dot_str(tikz=True))
    d = json.loads(run('dot', '-Tdot_json', '-q', 't.dot'))
    os.remove('t.dot')
    case = (kind, nodes, edges, init, acc)
    m.sig(case)
    objs = {x['name']: x for x in d['objects'] if 'nodes' not in x and
            not x['name'].startswith('%')}
    m.check(set(objs) == set(map(str, nodes)), 'nodes', case=case,
            got=sorted(objs))
    for s, vis in nodes.items():
        x = objs[str(s)]
        style = [y.strip() for y in x['style'].split(',')]
        m.check(('accepting' in style) == (s in (acc or ())),
                'accepting states', case=case, got=x)
        m.check(any(y.startswith('initial') for y in style) == (s in init),
                'initial states', case=case, got=x)
        m.check(('fill = ' + fill.get(s, '')
                 in style) == (s in fill), 'colors', case=case, got=x)
        text = squeeze(x['texlbl']).replace('s_', 's')
        m.check(str(s) in text and all(y in text for y in vis), 'labels',
                case=case, got=x)
        m.ev('nodes')
    got = Counter((d['objects'][e['tail']]['name'],
                   d['objects'][e['head']]['name'])
                  for e in d.get('edges', list()))
    m.check(got == Counter((str(u), str(v)) for u, v, _ in edges), 'edges',
            case=case, got=got)


def rand_fts(rng):
    from tulip import transys as trs
    g = trs.FTS()
    S = rng.sample(['s0', 's1', 's10', 'home', 'st a', 's', 'kitchen',
                    'kitchen2'],
                   rng.randint(1, 4))
    AP = rng.sample(['p', 'q', 'lot'], rng.randint(0, 3))
    g.atomic_propositions.add_from(AP)
    acts = rng.sample(['go', 'stop', 'idle'], rng.randint(0, 2))
    g.sys_actions.add_from(acts)
    label = dict()
    for s in S:
        label[s] = {x for x in AP if rng.random() < 0.5}
        g.states.add(s, ap=set(label[s]))
    init = [s for s in S if rng.random() < 0.4] or S[:1]
    g.states.initial.add_from(init)
    edges = list()
    for u in S:
        for v in rng.sample(S, min(len(S), rng.choice([0, 1, 2, 4]))):
            if acts:
                for a in rng.sample(acts, rng.randint(1, len(acts))):
                    g.transitions.add(u, v, sys_actions=a)
                    edges.append((u, a, v))
            else:
                g.transitions.add(u, v)
                edges.append((u, None, v))
    return g, S, AP, label, init, edges


@check.case(quick=70, thorough=700, cpu=60)
def promela(rng, m):
    """Runs of the process are those of the transition system."""
    g, S, AP, label, init, edges = rand_fts(rng)
    case = (S, label, init, edges)
    g.name = rng.choice(['', 'sys', 'fts1'])
    g.save('g.pml')
    m.sig(case)
    visits, taken = Counter(), set()
    for seed in range(8):
        out = run('spin', '-p', '-g', f'-n{seed + 1}', '-u700', 'g.pml')
        value = dict.fromkeys(AP, 0)
        at, act, first = None, None, True
        for line in out.splitlines():
            line = line.strip()
            x = re.fullmatch(r'(\w+) = (\d)', line)
            if x and x.group(1) in value:
                value[x.group(1)] = int(x.group(2))
            if line.startswith('{') and line.endswith('}'):
                d = ast.literal_eval(line)
                m.check(set(d) <= {'sys_actions', 'env_actions'},
                        'actions', case=case, got=d)
                act = d.get('sys_actions')
            if line.startswith('#processes'):
                # the values at the end follow
                break
            if line.startswith('State: '):
                s = line[7:]
                if first:
                    m.check(s in init, 'initial state', case=case, got=s)
                    first = False
                else:
                    m.check((at, act, s) in edges, 'a step that is not '
                            'a transition', case=case, got=(at, act, s))
                    visits[at] += 1
                    taken.add((at, act, s))
                    m.ev('steps')
                m.check({k for k, v in value.items() if v} == label[s],
                        'propositions', case=case, state=s, got=value)
                at, act = s, None
                m.ev('states')
        m.check(not first, 'no initial state', case=case, out=out)
        m.check(f'proc  0 ({g.name or "fts"}:1)' in out,
                'name of the process', name=g.name, out=out[:300])
        if 'timeout' in out:
            m.check(all(e[0] != at for e in edges), 'the run stopped',
                    case=case, state=at)
    os.remove('g.pml')
    for e in edges:
        m.check(e in taken or visits[e[0]] < 80, 'a transition that is '
                'never taken', case=case, edge=e, visits=visits)
    m.sample(dict(states=len(S), transitions=len(edges),
                  steps=sum(visits.values())))


@check.case(quick=200, thorough=2000, cpu=30)
def scxml(rng, m):
    """Mealy machines as SCXML."""
    from tulip.transys import machines
    g = machines.MealyMachine()
    g.add_inputs({'x': {0, 1}})
    g.add_outputs({'y': {'a', 'b'}, 'z': {True, False}})
    S = rng.sample([0, 1, 's1', 's10', 'Sinit'], rng.randint(1, 4))
    g.states.add_from(S)
    init = rng.sample(S, rng.choice([1, 1, 1, 0, min(2, len(S))]))
    g.states.initial.add_from(init)
    edges = list()
    for u in S:
        for v in S:
            for x in (0, 1):
                if rng.random() < 0.3:
                    d = dict(x=x, y=rng.choice('ab'),
                             z=rng.choice([True, False]))
                    g.transitions.add(u, v, **d)
                    edges.append((str(u), str(v), d))
    case = (S, init, edges)
    m.sig(case)
    try:
        g.save('m.scxml')
    except Exception as e:
        m.check(len(init) != 1 and 'initial' in str(e), 'export raised',
                case=case, error=repr(e))
        return
    m.check(len(init) == 1, 'several initial states', case=case)
    root = ElementTree.parse('m.scxml').getroot()
    os.remove('m.scxml')
    ns = '{http://www.w3.org/2005/07/scxml}'
    m.check(root.tag == ns + 'scxml' and
            root.get('initial') == str(init[0]), 'initial', case=case)
    states = root.findall(ns + 'state')
    m.check(sorted(x.get('id') for x in states) == sorted(map(str, S)),
            'states', case=case)
    got = [(x.get('id'), t.get('target'), ast.literal_eval(t.get('cond')))
           for x in states for t in x.findall(ns + 'transition')]
    m.check(sorted(map(repr, got)) == sorted(map(repr, edges)) or
            Counter((u, v, tuple(sorted(d.items()))) for u, v, d in got) ==
            Counter((u, v, tuple(sorted(d.items()))) for u, v, d in edges),
            'transitions', case=case, got=got)
    m.ev('transitions', len(edges))


@check.case(quick=100, thorough=1000, cpu=30)
def html(rng, m):
    """The graph inside the HTML page."""
    g, kind, nodes, edges, init, acc = rand_graph(rng)
    case = (kind, nodes, edges)
    m.sig(case)
    g.save('g.html')
    with open('g.html') as f:
        text = f.read()
    os.remove('g.html')
    d, _ = json.JSONDecoder().raw_decode(
        text[text.index('var graph = ') + 12:])
    ids = [x['id'] for x in d['nodes']]
    m.check(sorted(map(str, ids)) == sorted(map(str, nodes)), 'nodes',
            case=case, got=ids)
    got = Counter((ids[x['source']], ids[x['target']])
                  for x in d['links'])
    m.check(got == Counter((u, v) for u, v, _ in edges), 'links',
            case=case, got=got)
    m.ev('links', len(edges))
    if rng.random() < 0.7:
        return
    # what pops up on edges and nodes
    texts = [x for x in re.findall(
        r'\.text\(function\(d\)\s*{\s*return (.*?);?\s*}\)', text[
            text.index('var graph = '):], re.S) if 'd.id' not in x]
    if len(texts) != 2:
        return
    with open('t.js', 'w') as f:
        f.write('var D = ' + json.dumps([d['links'], d['nodes']]) + ';\n'
                'console.log(JSON.stringify([D[0].map(function(d) {'
                'return ' + texts[0] + ';}), D[1].map(function(d) {'
                'return ' + texts[1] + ';})]))\n')
    on_edges, on_nodes = json.loads(run('node', 't.js'))
    os.remove('t.js')
    for x, link in zip(on_edges, d['links']):
        for k in ('x', 'in', 'y', 'sys_actions', 'probability', 'letter'):
            if k in link and kind != 'mc':
                m.check(values(link[k], x), 'label of an edge', case=case,
                        got=x, want=link)
                m.ev('labels')
    for x, node in zip(on_nodes, d['nodes']):
        for k in ('ap', 'y'):
            if k in node:
                m.check(values(node[k], x), 'label of a node', case=case,
                        got=x, want=node)


def values(x, text):
    return all(str(y) in text for y in (
        x if isinstance(x, list) else [x]))
