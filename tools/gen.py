#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from props.py and registry.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
from registry import PROPERTIES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the LLVM IR of the real sources, assertions decided by Z3, counterexamples replayed natively'
NOTE = ('Holds for all values of the symbolic inputs within the bounds stated in the evidence file ({}). Trusts clang 18, the '
        'executor in engine/ and Z3; the encoding is validated against natively compiled code on sampled paths. {}')
lines, checks = [], []
for pid in sorted(PROPS):
    p = PROPS[pid]
    assert len(p['title']) <= 80, pid
    lines.append(json.dumps({'id': pid, 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quantifier']},
        'why_tests_cant': p['why'], 'anchors': {'files': p['files'],
        'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}}))
    if pid in PROPERTIES:
        checks.append({'property': pid, 'quick_cmd': 'python3 tools/check.py %s --tier quick' % pid,
            'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % pid, 'technique': TECH, 'level': 'model_checking',
            'level_note': NOTE.format(PROPERTIES[pid]['bounds'] or 'small sizes', p.get('note', ''))})
    else:
        assert pid in NOT_APPLICABLE, pid
assert set(PROPERTIES) <= set(PROPS), set(PROPERTIES) - set(PROPS)
open(os.path.join(V, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
json.dump({'version': 1, 'setup_cmd': 'python3 tools/check.py --setup', 'checks': checks,
    'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the harnesses use public and library-internal headers only', 'source_commits': []},
    'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NOT_APPLICABLE.items())]},
    open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
