#!/usr/bin/env python3
"""Collect the attribute names of the libraries the repository uses, from their source and stubs: data/library-names.z.

Run once by hand (python3-vt tools/library_names.py /opt/venv/lib/python3.*/site-packages); the result is committed.
Nothing is imported except the standard library's builtin types.
"""
import ast
import builtins
import glob
import os
import re
import sys
import sysconfig
import zlib

names = set()


def take(path):
    try:
        with open(path, encoding='utf-8', errors='replace') as f:
            t = ast.parse(f.read())
    except (SyntaxError, ValueError, RecursionError):
        return
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
        elif isinstance(n, ast.Attribute):
            names.add(n.attr)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
        elif isinstance(n, ast.alias):
            names.add((n.asname or n.name).split('.')[-1])


top = sys.argv[1]
for lib in ('numpy', 'pandas', 'networkx', 'pint', 'pint_pandas', 'matplotlib', 'mpl_toolkits', 'scipy', 'sympy', 'tqdm',
            'py3nj'):
    for d, ds, fs in os.walk(os.path.join(top, lib)):
        ds[:] = [x for x in ds if x not in ('tests', 'test', '__pycache__')]
        for f in fs:
            if f.endswith(('.py', '.pyi')):
                take(os.path.join(d, f))
            elif f == 'default_en.txt':
                txt = open(os.path.join(d, f), encoding='utf-8').read()
                words = set(re.findall(r'[A-Za-z_][A-Za-z0-9_]*', txt))
                pre = re.findall(r'^([a-z]+)- *=', txt, re.M) + re.findall(r'^[a-z]+- *=[^=]*= *([A-Za-zµ]+)-', txt, re.M)
                names.update(words)
                units = {w for line in txt.split('\n') for w in re.split(r'[ =]+', line.split('#')[0])[:6]
                         if re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*', w)}
                names.update(p + u for p in pre for u in units)
std = sysconfig.get_paths()['stdlib']
for f in glob.glob(os.path.join(std, '*.py')) + glob.glob(os.path.join(std, '*', '*.py')):
    if '/test' not in f and 'site-packages' not in f and 'idlelib' not in f and 'lib2to3' not in f:
        take(f)
for t in [object, type(lambda: 0), type(len), BaseException, type(iter([])), type(x for x in ())] + \
        [v for v in vars(builtins).values()]:
    names.update(dir(t))
for mod in ('re', 'math', 'itertools', 'functools', 'collections', 'operator', 'io', 'os', 'sys', 'csv', 'pickle', 'json',
            'warnings', 'copy', 'time', 'weakref', 'fractions', 'pathlib', 'logging', 'string', 'types', 'abc', 'typing',
            'random', 'cmath', 'bisect', 'heapq', 'decimal', 'dataclasses', 'enum', 'contextlib', 'textwrap', 'numbers'):
    m = __import__(mod)
    names.update(dir(m))
    for v in list(vars(m).values()):
        if isinstance(v, type):
            names.update(dir(v))
out = '\n'.join(sorted(n for n in names if n.isidentifier() and n.isascii()))
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'library-names.z'), 'wb') as f:
    f.write(zlib.compress(out.encode(), 9))
print(len(names))
