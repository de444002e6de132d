"""C01: functions leave what they are given as it was."""
import collections
import importlib

from rt.core import (
    Check, CpuLimit, Inconclusive, Monitor, Skip, Violation)
from rt.pure import Watch

check = Check(
    'C01',
    rule='a distinct case is a sequence of calls with their arguments',
    require=['synthesis.synthesize', 'synthesis.is_realizable',
             'synthesis.synthesize_many', 'synthesis.sys_to_spec',
             'machines.moore2mealy', 'machines.mealy2moore',
             'machines.strip_ports', 'machines.python_case',
             'machines.guided_run', 'systems.ts_ba_sync_prod',
             'systems.synchronous_parallel', 'systems.apply_policy',
             'systems.solve', 'systems.model_checking',
             'systems.simu_abstract', 'systems.again',
             'synthesis.again', 'worlds.again', 'systems.Transitions.find', 'worlds.GridWorld.spec',
             'worlds.add_trolls', 'worlds.GridWorld.scale',
             'specifications.translate', 'specifications.GRSpec.__or__',
             'dynamics.discretize', 'dynamics.get_input',
             'dynamics.solve_feasible', 'dynamics.prop2part',
             'dynamics.discretize_switched'],
    assumptions=[
        'private attributes (caches) can change',
        'methods whose purpose is to change an object are not watched'])
GROUPS = dict(
    synthesis=['S01', 'S02', 'S03', 'S04', 'S05', 'S06', 'S07'],
    specifications=['P03', 'P04', 'P06', 'P10'],
    machines=['M01', 'M02', 'M03', 'S06', 'M04'],
    systems=['G01', 'G02', 'G05', 'G06', 'G07', 'G08', 'G09', 'G10',
             'G11'],
    worlds=['W01', 'W02', 'W03', 'W04'],
    dynamics=['H01', 'H02', 'H03', 'H04', 'H06', 'E01', 'E02'])


def drive(rng, m, group, tries):
    """Run workloads of other properties, and watch calls."""
    for _ in range(tries):
        name = rng.choice(GROUPS[group])
        other = importlib.import_module(f'checks.{name}').check
        weights = [k.quick for k in other.kinds.values()]
        kind = rng.choices(list(other.kinds.values()), [
            w ** .5 for w in weights])[0]
        inner = Monitor()
        inner.kind = kind.name
        watch = Watch()
        with watch:
            try:
                kind.fn(rng, inner)
            except (CpuLimit, MemoryError):
                raise
            except Exception:
                # what the functions return is judged elsewhere
                pass
        for f, k in watch.calls.items():
            if not f.endswith('.'):
                m.ev(f, k)
        m.ev('again', watch.again)
        if watch.calls:
            m.sig(watch.sizes)
        again = watch.bad and watch.bad[0].get('again')
        m.check(not watch.bad, 'another answer to the same question'
                if again else 'an argument was changed',
                workload=f'{name}.{kind.name}', **(
                    watch.bad[0] if watch.bad else dict()))


@check.case(quick=160, thorough=3000, cpu=300)
def synthesis(rng, m):
    drive(rng, m, 'synthesis', 2)


@check.case(quick=160, thorough=3000, cpu=100)
def specifications(rng, m):
    drive(rng, m, 'specifications', 4)


@check.case(quick=200, thorough=3000, cpu=100)
def machines(rng, m):
    drive(rng, m, 'machines', 4)


@check.case(quick=300, thorough=4000, cpu=100)
def systems(rng, m):
    drive(rng, m, 'systems', 4)


@check.case(quick=200, thorough=3000, cpu=100)
def worlds(rng, m):
    drive(rng, m, 'worlds', 3)


@check.case(quick=60, thorough=600, cpu=300)
def dynamics(rng, m):
    drive(rng, m, 'dynamics', 1)
