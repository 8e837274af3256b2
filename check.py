#!/usr/bin/env python3
"""check.py <property id> : decide one property of /repo's current source by static analysis."""
import json
import os
import sys
import time

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ROOT = os.environ.get('SA_REPO', '/repo')


def known_findings(pid):
    """{finding key: text} listed for this property in known-findings.txt"""
    out = {}
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=%s ' % pid):
                    rest = line.split(' ', 2)[2]
                    key, _, text = rest.partition(' ')
                    out[key.replace('key=', '')] = text
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    only = os.environ.get('SA_ONLY')
    t0 = time.time()
    from sa import loader, oblig, model
    results = []
    prog = None
    try:
        prog = loader.load(ROOT)
        spec = oblig.load_spec(prog, pid)
    except loader.AnalysisError as e:
        print('UNDECIDED property=%s %s' % (pid, e))
        return finish(pid, tier, t0, [oblig.Result('load', 'undecided', 'parse', str(e))], prog)
    budget = 60 if tier == 'quick' else 240
    if spec is not None:
        for name, fn in oblig.obligations(spec):
            if only and only != name:
                continue
            t1 = time.time()
            r = oblig.run_one(prog, spec, name, fn, budget)
            r.seconds = time.time() - t1
            results.append(r)
        seen = {f for r in results for f in r.functions}
        if not only or only.startswith('usage'):
            try:
                from sa import usage
                results += usage.check(prog, spec, seen)
            except Exception as e:
                if os.environ.get('SA_DEBUG'):
                    raise
                results.append(oblig.Result('usage', 'undecided', 'data-flow rule', '%s: %s' % (type(e).__name__, e)))
    try:
        import importlib
        rules = importlib.import_module('sa.rules')
    except ImportError:
        rules = None
    if rules is not None:
        for name, fn in rules.for_property(pid):
            if only and only != name:
                continue
            t1 = time.time()
            for r in rules.run_rule(prog, name, fn, budget):
                r.seconds = time.time() - t1
                results.append(r)
    return finish(pid, tier, t0, results, prog)


def finish(pid, tier, t0, results, prog):
    known = known_findings(pid)
    held = [r for r in results if r.status == 'held']
    bad = [r for r in results if r.status == 'violated']
    und = [r for r in results if r.status == 'undecided']
    new = []
    for r in bad:
        if r.name in known:
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, r.name, known[r.name]))
        else:
            new.append(r)
    for r in und:
        print('UNDECIDED property=%s obligation=%s: %s' % (pid, r.name, r.detail))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rep = os.path.join(HERE, 'evidence', pid + '.violation.txt')
    if os.path.exists(rep):
        os.remove(rep)
    funcs = sorted({f for r in results for f in r.functions})
    ev = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': 'static value-graph comparison of repository functions with a reference, and '
                           'syntax/call-graph rules; for all inputs of the declared types',
            'obligations': len(results), 'held': len(held), 'violated': len(bad), 'undecided': len(und),
            'functions_analysed': len(funcs), 'functions': funcs,
            'call_sites_kept_as_contracts': sum(r.calls for r in results),
            'value_graph_nodes': sum(r.nodes for r in results),
            'modules_parsed': len([m for m in prog.modules if not m.startswith('spec_')]) if prog else 0,
            'details': [{'obligation': r.name, 'rule': r.rule, 'status': r.status, 'what': r.text,
                         'functions': r.functions, 'seconds': round(r.seconds, 2)} for r in results],
            'undecided_obligations': [{'obligation': r.name, 'why': r.detail} for r in und],
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2),
        'violations': [{'obligation': r.name, 'where': r.where, 'what': r.detail} for r in new],
    }
    try:
        ev = conform(ev)
    except Exception:
        pass
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for r in held:
        print('held      %s %s (%d functions, %.1fs)' % (pid, r.name, len(r.functions), r.seconds))
    if new:
        with open(rep, 'w') as f:
            for r in new:
                f.write('obligation %s (%s)\n  %s\n  at %s\n    %s\n\n' % (r.name, r.rule, r.text, r.where, r.detail))
        for r in new:
            det = '\n'.join(x[:int(os.environ.get('SA_LINE', '260'))] for x in r.detail.split('\n')[:12])
            print('violated  %s %s: %s\n  at %s\n    %s' % (pid, r.name, r.text, r.where, det))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    if not held and not bad:
        print('no obligation of %s could be decided; nothing is claimed by this run' % pid)
    return 0


ASSUMPTIONS = [
    'names and attributes are not rebound at run time from outside the repository (no monkey-patching)',
    'external libraries (numpy, pint, networkx, scipy, sympy, pandas) behave as documented; floating point is read '
    'as exact arithmetic',
    'objects have the declared structure (a sublevel has a parent of the class above it, a level has an atom)',
]


def conform(ev):
    return ev


if __name__ == '__main__':
    sys.exit(main())
