#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and the checks' SPECs."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(V, 'lib'), os.path.join(V, 'checks')]
import props

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['title']
        q = p['over']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
            'quantifier': {'over': q, 'text': ' '.join(p['for_all'].split())},
            'why_tests_cant': ' '.join(p['why'].split()),
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                        'observe_at': p.get('observe', []), 'hook_needed': None},
        }, ensure_ascii=False) + '\n')
checks = []
for p in props.PROPS:
    if p.get('na'):
        continue
    m = __import__(p['id'].lower())
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s quick' % p['id'],
        'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': m.SPEC['technique'], 'level': m.SPEC['level'],
        'level_note': ' '.join(p['note'].split()),
    })
M = {'version': 1, 'setup_cmd': 'python3 lib/build.py asan > /dev/null',
     'hooks': {'guard': 'LTTOOLBOX_VERIF',
               'enable': 'no hooks were needed: the checks observe the real programs and library from outside '
                         '(the builds define LTTOOLBOX_VERIF, which nothing in /repo uses)', 'source_commits': []},
     'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in props.PROPS if p.get('na')],
     'notes': props.NOTES}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(M, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(props.PROPS), 'properties,', len(checks), 'checks')
