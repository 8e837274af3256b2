#!/usr/bin/env python3
"""Write DESIGN.md: the prose of design_head.md, then what the specifications and the planted bugs say."""
import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.path.insert(0, HERE)
import props  # noqa: E402
from sa import rules  # noqa: E402

out = [open(os.path.join(HERE, 'tools', 'design_head.md'), encoding='utf-8').read().rstrip(), '']


def para(text):
    return ' '.join((text or '').split())


for p in sorted(props.P, key=lambda p: p['id']):
    if p['na']:
        out.append('- **%s** %s: %s' % (p['id'], p['title'], para(p['na'])))
out += ['', '## 5. The properties and the obligations that decide them', '',
        'Each obligation is one comparison (or rule) over the current source. Arguments are symbolic, of the types given; the '
        'text says what the reference states.', '']
for p in sorted(props.P, key=lambda p: p['id']):
    if p['na']:
        continue
    out.append('### %s %s' % (p['id'], p['title']))
    out.append('')
    out.append('Anchors: ' + '; '.join('%s (%s)' % (w, n) for n, w in p['mechanism']) + '. Quantifies over: %s.' % p['quant'])
    out.append('')
    f = os.path.join(HERE, 'specs', p['id'] + '.py')
    if os.path.exists(f):
        for x in ast.parse(open(f, encoding='utf-8').read()).body:
            if isinstance(x, ast.FunctionDef) and x.name.startswith('observed_'):
                args = ', '.join(ast.literal_eval(a.annotation) if a.annotation is not None else a.arg for a in x.args.args)
                out.append('- `%s`(%s): %s' % (x.name[9:], args, para(ast.get_docstring(x))))
    for name, fn in rules.for_property(p['id']):
        out.append('- rule `%s`: %s' % (name, para(fn.__doc__)))
    out.append('')
out += ['## 6. Planted bugs and quietness', '']
seeds = sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json')))
rewrites = sum(1 for line in open(os.path.join(HERE, 'tools', 'rewrites.py'), encoding='utf-8') if line.startswith("rw('"))
out.append('%d bugs are planted (`seeded/`), each written from the statement of a property and the code; every one is caught by '
           'the check of its own property. %d hand rewritings, the transformations of `tools/refactor.py` and the random '
           'compositions leave all checks quiet. Beyond these, mutation sweeps (operators, constants, conditions, swapped arguments, dropped '
           'statements over every function a specification reaches) were run; survivors were either equivalent or led to a new '
           'obligation.' % (len(seeds), rewrites))
out += ['', '| bug | property | needs | breaks |', '|---|---|---|---|']
for f in seeds:
    d = json.load(open(f, encoding='utf-8'))
    out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'], para(d['needs']).replace('|', '/'),
                                          para(d['what_it_breaks']).replace('|', '/')))
out.append('')
with open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf-8') as fh:
    fh.write('\n'.join(out))
print(len(out), 'lines')
