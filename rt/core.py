"""Runner shared by every check: cases, workers, verdicts, evidence.

A check is a set of *case kinds*.  Each kind is a function
`fn(rng, m)`, where `rng` is a `random.Random` that determines
the whole workload of that case, and `m` is a `Monitor` that
counts what was observed.  The function drives the real code in
`/repo` and an independent oracle judges the events; a refuted
property is reported by raising `Violation`.

Any other exception that escapes from a case is a violation too:
the workloads contain only inputs that the documentation admits.
"""
import collections
import contextlib
import hashlib
import importlib
import io
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
N_WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


class Violation(Exception):
    """The monitored execution refutes the property."""

    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.detail = detail


class Inconclusive(Exception):
    """The oracle could not decide this execution."""


class Skip(Exception):
    """The generated case is outside the property's domain."""


class CpuLimit(Exception):
    """The case used more CPU time than any sound run needs."""


def plain(x):
    """Return `x` in terms of what JSON can store."""
    if isinstance(x, dict):
        return {k if isinstance(k, str) else repr(k): plain(v)
                for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    return repr(x)


class Monitor:
    """What was observed during the cases of one worker."""

    def __init__(self):
        self.events = collections.Counter()
        self.signatures = set()
        self.samples = dict()
        self.kind = None

    def ev(self, name, n=1):
        self.events[f'{self.kind}.{name}'] += n

    def sig(self, obj):
        """Record a non-trivial observed case, by content."""
        h = hashlib.blake2b(
            repr((self.kind, obj)).encode(),
            digest_size=8).hexdigest()
        self.signatures.add(h)

    def sample(self, obj):
        s = self.samples.setdefault(self.kind, list())
        if len(s) < 1:
            s.append(plain(obj))

    def check(self, cond, msg, **detail):
        self.events[f'{self.kind}.assertions'] += 1
        if not cond:
            raise Violation(msg, **detail)


# more of the cases that cost little
SCALE = dict(
    S01=2, S02=2, S03=2, S04=2, S05=3, S06=3, S07=2, H01=2, H03=1.5,
    H05=3, H06=2, G=3, M=3, W=3)


class Kind:
    def __init__(self, name, fn, quick, thorough, cpu):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.cpu = cpu


class Check:
    """All the case kinds that decide one property."""

    def __init__(self, prop, rule, require=(), assumptions=()):
        self.prop = prop
        self.rule = rule
        self.kinds = dict()
        self.require = list(require)
        self.assumptions = list(assumptions)
        self.findings = dict()

    def case(self, quick, thorough=None, cpu=120, name=None):
        if thorough is None:
            thorough = 10 * quick
        scale = SCALE.get(self.prop, SCALE.get(self.prop[0], 1))
        quick = round(scale * quick)
        thorough = max(quick, thorough)

        def deco(fn):
            nm = name or fn.__name__
            assert nm not in self.kinds, nm
            self.kinds[nm] = Kind(nm, fn, quick, thorough, cpu)
            return fn
        return deco

    def finding(self, fid):
        """Register the probe of a known finding.

        The probe raises `Violation` when the real code
        still shows that finding, and returns otherwise.
        """
        def deco(fn):
            self.findings[fid] = fn
            return fn
        return deco


def _alarm(signum, frame):
    raise CpuLimit()


def case_rng(prop, kind, seed):
    return random.Random(f'{prop}/{kind}/{seed}')


def run_case(check, kind, seed, m):
    """Return `None`, or a dict that describes the violation."""
    k = check.kinds[kind]
    m.kind = kind
    rng = case_rng(check.prop, kind, seed)
    buf = io.StringIO()
    import warnings
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, k.cpu)
    try:
        with contextlib.redirect_stdout(buf), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            k.fn(rng, m)
        m.events[f'{kind}.cases'] += 1
        return None
    except Skip:
        m.events[f'{kind}.skipped'] += 1
        return None
    except Inconclusive as e:
        m.events[f'{kind}.inconclusive'] += 1
        return None
    except Violation as e:
        return dict(
            kind=kind, seed=seed, what=str(e),
            detail={a: repr(b)[:4000] for a, b in e.detail.items()},
            trace=traceback.format_exc()[-3000:])
    except CpuLimit:
        return dict(
            kind=kind, seed=seed,
            what=f'no result within {k.cpu} s of CPU time '
            '(the same workload needs far less on sound code)',
            detail=dict(), trace=traceback.format_exc()[-3000:])
    except MemoryError:
        raise
    except Exception as e:
        return dict(
            kind=kind, seed=seed,
            what=f'unexpected {type(e).__name__}: {e}'[:1500],
            detail=dict(), trace=traceback.format_exc()[-6000:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def load_check(prop):
    mod = importlib.import_module(f'checks.{prop}')
    return mod.check


def prepare():
    """Make the real code in `/repo` importable, and nothing else."""
    sys.path.insert(0, REPO)
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    import tulip
    path = os.path.realpath(tulip.__file__)
    root = os.path.realpath(REPO)
    if not path.startswith(root + os.sep):
        raise RuntimeError(f'imported {path}, outside {root}')


def tasks_of(check, tier, seed):
    out = list()
    for k in check.kinds.values():
        n = getattr(k, tier)
        for i in range(n):
            out.append((k.name, seed * 1_000_000 + i))
    random.Random(f'{check.prop}/{tier}/{seed}').shuffle(out)
    return out


def worker_main(prop, tier, seed, index, total, out_path):
    scratch = os.environ.get('VERIF_SCRATCH')
    if scratch:
        os.chdir(scratch)
    prepare()
    check = load_check(prop)
    m = Monitor()
    bad = list()
    todo = tasks_of(check, tier, seed)[index::total]
    stop = time.time() + float(os.environ.get(
        'VERIF_WORKER_WALL', '1e9'))
    done = 0
    times = collections.Counter()
    # the thorough tier goes on with new seeds for this long
    more = time.time() + float(os.environ.get(
        'VERIF_THOROUGH_SECONDS', '400'))

    def rounds():
        yield from todo
        k = 0
        while tier == 'thorough' and todo:
            k += 1
            for kind, s in todo:
                if time.time() > more:
                    return
                yield kind, s + k * 1_000_000_000
    for kind, s in rounds():
        with open(out_path + '.now', 'w') as f:
            f.write(json.dumps([kind, s]))
        if time.time() > stop:
            break
        t0 = time.time()
        r = run_case(check, kind, s, m)
        times[kind] += time.time() - t0
        done += 1
        if r is not None:
            r['hashseed'] = os.environ.get('PYTHONHASHSEED')
            bad.append(r)
            if len(bad) >= 3:
                break
    probes = dict()
    if index == 0:
        for fid, fn in check.findings.items():
            m.kind = f'finding:{fid}'
            buf = io.StringIO()
            try:
                with contextlib.redirect_stdout(buf):
                    fn()
                probes[fid] = None
            except Violation as e:
                probes[fid] = str(e)
            except Exception as e:
                # not what the finding describes
                probes[fid + '!'] = (
                    f'unexpected {type(e).__name__}: {e}'[:1500])
    with open(out_path, 'w') as f:
        json.dump(dict(
            events=m.events, sigs=sorted(m.signatures),
            samples=m.samples, bad=bad, done=done,
            planned=len(todo), probes=probes, times=times), f,
            default=repr)


def read_findings():
    """Return the (open) findings listed in the committed file."""
    path = os.path.join(VERIF, 'known_findings.txt')
    out = dict()
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            fields = line[len('finding:'):].strip().split(None, 2)
            prop = fields[0].split('=', 1)[1]
            fid = fields[1].split('=', 1)[1]
            out[prop, fid] = fields[2]
    return out


def _write_replay(prop, r):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(
        d, f'{prop}-{r["kind"]}-{r["seed"]}.json'.replace(':', '_'))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, **r), f, indent=1)
    return path


def main(argv):
    prop = argv[0]
    if len(argv) > 1 and argv[1] == '--replay':
        return replay(prop, argv[2])
    tier = argv[1] if len(argv) > 1 else os.environ.get(
        'VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    sys.path.insert(0, VERIF)
    import tempfile
    import shutil
    import glob
    for old in glob.glob(os.path.join(VERIF, 'replays', f'{prop}-*')):
        os.unlink(old)
    scratch = tempfile.mkdtemp(prefix=f'verif_{prop}_')
    try:
        return _main(prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def worker_env(scratch, hashseed):
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED=str(hashseed),
        PYTHONDONTWRITEBYTECODE='1',
        MPLBACKEND='Agg',
        MPLCONFIGDIR=scratch,
        OMP_NUM_THREADS='1',
        OPENBLAS_NUM_THREADS='1',
        VERIF_SCRATCH=scratch,
        PYTHONPATH=VERIF)
    return env


def _main(prop, tier, seed, t0, scratch):
    wall = 780 if tier == 'quick' else float(
        os.environ.get('VERIF_THOROUGH_WALL', '850'))
    procs = list()
    outs = list()
    n = N_WORKERS
    for i in range(n):
        wdir = os.path.join(scratch, f'w{i}')
        os.mkdir(wdir)
        out = os.path.join(scratch, f'out{i}.json')
        env = worker_env(wdir, seed * 16 + i)
        env['VERIF_WORKER_WALL'] = str(wall - 60)
        log = open(os.path.join(scratch, f'err{i}.txt'), 'w')
        p = subprocess.Popen(
            [sys.executable, '-u', os.path.join(VERIF, 'run.py'),
             '--worker', prop, tier, str(seed), str(i), str(n), out],
            env=env, stdout=log, stderr=log, cwd=wdir)
        procs.append(p)
        outs.append(out)
    deadline = t0 + wall
    results = list()
    errors = list()
    bad = list()
    for i, p in enumerate(procs):
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        now = None
        if os.path.exists(outs[i] + '.now'):
            with open(outs[i] + '.now') as f:
                txt = f.read()
            try:
                now = json.loads(txt)
            except ValueError:
                now = None
        if p.returncode == 0 and os.path.exists(outs[i]):
            with open(outs[i]) as f:
                results.append(json.load(f))
        else:
            with open(os.path.join(scratch, f'err{i}.txt')) as f:
                tail = f.read()[-3000:]
            errors.append((i, p.returncode, now, tail))
    events = collections.Counter()
    sigs = set()
    samples = list()
    done = planned = 0
    probes = dict()
    for r in results:
        events.update(r['events'])
        sigs.update(r['sigs'])
        done += r['done']
        planned += r['planned']
        bad.extend(r['bad'])
        probes.update(r['probes'])
        for k, v in r['samples'].items():
            if len(samples) < 12 and not any(
                    s['kind'] == k for s in samples):
                samples.append(dict(kind=k, case=v[0]))
    check = load_check_light(prop)
    # a worker that died (e.g., crash of native code): the case it ran
    for i, rc, now, tail in errors:
        if rc is not None and rc < 0 and rc not in (-9, -15) and now:
            bad.append(dict(
                kind=now[0], seed=now[1], detail=dict(),
                what=f'process died with signal {-rc}',
                trace=tail, hashseed=str(seed * 16 + i)))
    # an import failure in all workers: the code does not load
    known = read_findings()
    lines = list()
    for fid, res in sorted(probes.items()):
        if res is None:
            continue
        if (prop, fid) in known:
            lines.append(
                f'KNOWN-FINDING: property={prop} '
                f'{fid}: {known[prop, fid]}')
        else:
            bad.append(dict(
                kind=f'finding:{fid}', seed=0, what=res,
                detail=dict(), trace='', hashseed='0'))
    times = collections.Counter()
    for r in results:
        times.update(r['times'])
    coverage = dict(
        evaluations=done,
        distinct_nontrivial=len(sigs),
        rule=check.rule,
        samples=samples,
        events={k: v for k, v in sorted(events.items())},
        planned=planned,
        workers=len(results),
        cpu_s_by_kind={k: round(v, 1) for k, v in times.items()})
    ev = dict(
        property=prop, tier=tier, seed=seed,
        level='exploration',
        coverage=coverage,
        assumptions=check.assumptions,
        wall_s=round(time.time() - t0, 2),
        violations=len(bad))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    for line in lines:
        print(line)
    for r in bad[:5]:
        path = _write_replay(prop, r)
        print(f'VIOLATION property={prop} replay={path}')
        print(f'  {r["kind"]} seed={r["seed"]}: {r["what"][:600]}')
    print(
        f'{prop} {tier} seed={seed}: {done}/{planned} cases, '
        f'{len(sigs)} distinct non-trivial, '
        f'{sum(events.values())} events, '
        f'{len(bad)} violations, {ev["wall_s"]} s')
    if bad:
        return 1
    if errors:
        for i, rc, now, tail in errors:
            print(f'ERROR worker {i} rc={rc} at {now}\n{tail}')
        return 2
    missing = [
        r for r in check.require
        if not events.get(r)]
    if missing or done == 0:
        print(f'INCONCLUSIVE: never observed {missing}')
        return 3
    if done < planned:
        print(f'note: time bound reached, {done} of {planned} cases run')
    return 0


def load_check_light(prop):
    """Load the metadata of the check (imports the module)."""
    prepare()
    return load_check(prop)


def replay(prop, path):
    with open(path) as f:
        r = json.load(f)
    want = str(r.get('hashseed') or '0')
    if os.environ.get('PYTHONHASHSEED') != want:
        env = worker_env(os.getcwd(), want)
        env.pop('VERIF_SCRATCH')
        return subprocess.call(
            [sys.executable, os.path.join(VERIF, 'run.py'),
             prop, '--replay', path], env=env)
    sys.path.insert(0, VERIF)
    prepare()
    check = load_check(prop)
    m = Monitor()
    if r['kind'].startswith('finding:'):
        check.findings[r['kind'].split(':', 1)[1].rstrip('!')]()
        print('no violation')
        return 0
    res = run_case(check, r['kind'], r['seed'], m)
    if res is None:
        print('no violation')
        return 0
    print(f'VIOLATION property={prop} replay={path}')
    print(json.dumps(res, indent=1).replace('\\n', '\n'))
    return 1
