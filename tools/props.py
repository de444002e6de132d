#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = list()
NOT_APPLICABLE = list()


def P(id, title, statement, over, text, why, files, mech, observe, note,
      technique, state=()):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))
    CHECKS.append((id, technique, note))


CHECKS = list()
exec(open(os.path.join(HERE, 'tools', 'table.py')).read())


def main():
    have = {f[:-3] for f in os.listdir(os.path.join(HERE, 'checks'))
            if f.endswith('.py') and f != '__init__.py'}
    ids = [p['id'] for p in PROPS]
    assert len(set(ids)) == len(ids)
    assert set(ids) == have, set(ids) ^ have
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        for f in p['anchors']['files']:
            assert os.path.exists(os.path.join('/repo', f)), f
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    man = dict(
        version=1, setup_cmd='true',
        checks=[dict(
            property=i,
            quick_cmd=f'python3 run.py {i} quick',
            thorough_cmd=f'python3 run.py {i} thorough',
            evidence_file=f'evidence/{i}.json',
            technique=t, level='exploration', level_note=n)
            for i, t, n in CHECKS],
        not_applicable=NOT_APPLICABLE,
        notes='Runtime monitoring of the real code under generated '
        'workloads, judged by independent oracles; see DESIGN.md. '
        'No hooks were added to /repo.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
