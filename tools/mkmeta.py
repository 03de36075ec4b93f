#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties_src.py and the registry."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [VERIF, HERE]
sys.dont_write_bytecode = True

from properties_src import PROPERTIES  # noqa: E402
from vlib.registry import load_all  # noqa: E402

TECHNIQUE = (
    'TLA+ specification checked with TLC; executions of the real code (TLC-generated and random '
    'cases) are recorded and judged against the specification by TLC'
)


def main():
    registry = load_all()
    ids = [p['id'] for p in PROPERTIES]
    assert len(ids) == len(set(ids))
    assert set(registry) <= set(ids), set(registry) - set(ids)
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in PROPERTIES:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({k: v for k, v in p.items() if k != 'na'}) + '\n')
    checks = []
    for pid in ids:
        if pid not in registry:
            continue
        prop = registry[pid]
        models = sorted({m for m, _ in prop.models})
        checks.append({
            'property': pid,
            'quick_cmd': '/opt/venv/bin/python check.py %s --tier quick' % pid,
            'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': prop.technique or TECHNIQUE,
            'level': prop.level,
            'level_note': prop.level_note or (
                ('TLC explores %s completely within its bounds; ' % ', '.join(models)
                 if models else '') +
                'conformance of the code is judged on the executions listed in the evidence file '
                '(bounded enumeration and seeded random cases), clause by clause by TLC; trusted: '
                'TLC, lxml, the harness that records executions'
            )
        })
    na = [
        {'property': p['id'], 'reason': p.get('na', 'check not built yet')}
        for p in PROPERTIES if p['id'] not in registry
    ]
    manifest = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python tools/selfcheck.py',
        'checks': checks,
        'not_applicable': na,
        'notes': 'No hooks in /repo: all executions are recorded through public functions, '
                 'command lines and files. See DESIGN.md.'
    }
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


main()
