"""Applies as many of the refactorings as fit together to one tree.

python3 tools/compound.py SEED DIR
Prints the alarms of that tree; mutants of it can then be taken with
tools/mutate.py --root DIR.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactor import CODE, load, loose, whole  # noqa: E402


def defs(s):
    out = []
    for n in ast.walk(ast.parse(s)):
        if isinstance(n, (ast.ClassDef, ast.Module)):
            names = [x.name for x in n.body
                     if isinstance(x, (ast.FunctionDef, ast.ClassDef))]
            if len(set(names)) < len(names):
                out += [x for x in names if names.count(x) > 1]
    return sorted(out)


def main():
    seed, d = sys.argv[1:3]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for sub in ('egenerator', 'configs'):
        shutil.copytree(os.path.join('/repo', sub), os.path.join(d, sub),
                        ignore=shutil.ignore_patterns('__pycache__'))
    items = load([])
    random.Random(seed).shuffle(items)
    used = []
    touched = {}
    for name, edits in items:
        new = {}
        for f, a, b in edits:
            p = os.path.join(d, f)
            s = new.get(f)
            if s is None:
                s = open(p).read() if os.path.exists(p) else ''
            old = defs(s)
            if not a and s or a.startswith('@') and a in touched:
                break
            if a.startswith('@'):
                t = whole(s, a[1:], b)
                if a[1:] in touched.get(f, ()):
                    break
            elif not a:
                t = b
            else:
                if a not in s:
                    a = loose(s, a)
                if a is None:
                    break
                t = s.replace(a, b)
            try:
                if defs(t) != old:
                    break
            except SyntaxError:
                break
            new[f] = t
        else:
            for f, s in new.items():
                os.makedirs(os.path.dirname(os.path.join(d, f)),
                            exist_ok=True)
                open(os.path.join(d, f), 'w').write(s)
            for f, a, b in edits:
                if a.startswith('@'):
                    touched.setdefault(f, set()).add(a[1:])
            used.append(name)
    open(os.path.join(d, 'used.txt'), 'w').write('\n'.join(used))
    print(len(used), 'of', len(items), 'edits applied')
    r = subprocess.run([sys.executable, '-c', CODE, d],
                       capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[-2000:])
    for x in json.loads(r.stdout.strip().split('\n')[-1]):
        print('   ', x[0], x[1], x[2])
        for t in x[3]:
            print('        ', t)


if __name__ == '__main__':
    main()
