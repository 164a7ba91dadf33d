#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
TECH = 'TLA+ specification checked with TLC; TLC-generated scenarios executed on the real code; recorded traces validated by TLC'


def prop(id, title, statement, over, text, why, files, mech, observe, note, state=()):
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files,
                                mechanism=[dict(name=n, where=w) for n, w in mech],
                                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                observe_at=observe, hook_needed=None)), note))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

na = []
checks = []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for p, note in P:
        fh.write(json.dumps(p) + '\n')
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'checks', i + '.py')):
            checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i,
                               thorough_cmd='python3 check.py %s --tier thorough' % i,
                               technique=TECH, level='model_checking', level_note=note))
        else:
            na.append(dict(property=i, reason='no check built yet'))
man = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks')
