#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py and the specifications that exist."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.path.insert(0, HERE)
import props  # noqa: E402

try:
    from sa import rules
    RULED = set(rules.properties())
except Exception:
    RULED = set()

lines, checks, na = [], [], []
for p in sorted(props.P, key=lambda p: p['id']):
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
    d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
         'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
         'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}}
    if p['state']:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
    lines.append(json.dumps(d, ensure_ascii=False))
    has = os.path.exists(os.path.join(HERE, 'specs', p['id'] + '.py')) or p['id'] in RULED
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
    elif not has:
        na.append({'property': p['id'], 'reason': 'no check has been built for it yet'})
    else:
        kinds = []
        if os.path.exists(os.path.join(HERE, 'specs', p['id'] + '.py')):
            kinds.append('value-graph comparison (data-flow normal form of the source against a reference)')
        if p['id'] in RULED:
            kinds.append('syntax-tree and call-graph rules')
        checks.append({
            'property': p['id'], 'quick_cmd': 'python3-vt check.py %s' % p['id'],
            'thorough_cmd': 'python3-vt check.py %s thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': '; '.join(kinds), 'level': 'other',
            'level_note': p['note'] or (
                'For all inputs of the declared types, over the source as it stands, without running it: the values '
                'and effects of the named functions equal the reference. Trusts the documented behaviour of numpy, '
                'pint, networkx, sympy and pandas, reads floating point as exact arithmetic, and assumes no '
                'monkey-patching. An obligation the analysis cannot decide is reported as undecided, never as held.')})
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    f.write('\n'.join(lines) + '\n')
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static: they parse the Python source of /repo on every run and never import or run it.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(lines), 'properties', len(checks), 'checks', len(na), 'not applicable')
