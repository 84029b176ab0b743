#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the PROPERTY dictionaries of vf/checks/*.py (and not_applicable.json)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vf import boot

if __name__ == '__main__':
    boot.enter(sys.argv)
    from vf import core
    import importlib
    import pkgutil
    core.prepare()
    props, checks = [], []
    for m in sorted(x.name for x in pkgutil.iter_modules([os.path.join(HERE, 'vf', 'checks')])):
        mod = importlib.import_module('vf.checks.' + m)
        p = mod.PROPERTY
        assert len(p['title']) <= 80, m
        props.append(dict(id=m, title=p['title'], statement=' '.join(p['statement'].split()),
                          quantifier=dict(over=p.get('over', ['inputs']), text=' '.join(p['text'].split())),
                          why_tests_cant=' '.join(p['why'].split()),
                          anchors=dict(files=p['files'],
                                       mechanism=[dict(name=n, where=w) for n, w in p['mechanism']],
                                       observe_at=p.get('observe', []), hook_needed=None)))
        checks.append(dict(property=m, quick_cmd='python3 run.py %s --tier quick' % m,
                           thorough_cmd='python3 run.py %s --tier thorough' % m,
                           technique=' '.join(p.get('technique', 'property-based testing (Hypothesis) against a reference '
                                                    'model').split()),
                           level='exploration', level_note=' '.join(p['note'].split())))
    na_path = os.path.join(HERE, 'not_applicable.json')
    na = json.load(open(na_path)) if os.path.exists(na_path) else []
    props += [q['full'] for q in na]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted(props, key=lambda p: p['id']):
            f.write(json.dumps(p, sort_keys=True) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='python3 run.py --list', checks=checks,
                       not_applicable=[dict(property=q['full']['id'], reason=q['reason']) for q in na]),
                  f, indent=1, sort_keys=True)
        f.write('\n')
    print(len(props), 'properties', len(checks), 'checks')
