#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl (run by hand after changing either)."""
import json
from registry import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
titles = {json.loads(l)['id']: json.loads(l)['title'] for l in open('properties.jsonl')}
assert sorted(ids) == sorted(list(PROPS) + list(NOT_APPLICABLE)), (set(ids) ^ set(list(PROPS) + list(NOT_APPLICABLE)))
m = {
    'version': 1,
    'setup_cmd': 'python3 check.py --build',
    'checks': [{
        'property': i,
        'quick_cmd': 'python3 check.py %s quick' % i,
        'thorough_cmd': 'python3 check.py %s thorough' % i,
        'technique': 'deterministic simulation with fault injection: ' + PROPS[i]['technique'],
        'level': 'exploration',
        'level_note': PROPS[i]['note'],
    } for i in ids if i in PROPS],
    'not_applicable': [{'property': i, 'reason': NOT_APPLICABLE[i]} for i in ids if i in NOT_APPLICABLE],
    'notes': 'No guarded hooks were needed in /repo: the seams are link-time (libc, pthread, allocator, memory-access '
             'instrumentation) and the interfaces the C# side already injects. known_findings.txt lists repaired defects and open findings.',
}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
