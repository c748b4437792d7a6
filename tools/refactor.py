#!/usr/bin/env python3
"""Checks that hand-written behaviour-preserving edits raise no alarm.

usage: refactor.py [--list] [id ...]
Every file in tools/refactorings defines R = [(id, [(file, old, new), ...])];
old may be '@Class.method' to replace that definition as a whole.
Each edit is applied to a scratch copy of /repo, and every operation and
every rule is decided there.
"""
import ast
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import textwrap
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CODE = '''
import sys, json
sys.path.insert(0, %r)
from sa.contract import Contract
from sa.verdict import classify, force_retry
from sa.rules import RULES
c = Contract(%r, sys.argv[1])
out = []
for q in c.subjects(['*']):
    r = c.check(q)
    v, w = classify(c, r)
    if v == 'abstain' and r.status == 'diff':
        r2 = force_retry(c, q, r)
        if r2:
            v, w = r2
    if v != 'holds':
        out.append([v, q, w, [str(d.text)[:300] for d in r.diffs[:3]]])
for n, f in RULES.items():
    for o in f(c):
        if o.status is not True:
            out.append(['violation' if o.status is False else 'abstain',
                        o.site, n, [o.text]])
print(json.dumps(out))
''' % (HERE, os.path.join(HERE, 'spec', 'ref'))


def load(ids):
    out = []
    d = os.path.join(HERE, 'tools', 'refactorings')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            ns = {}
            exec(compile(open(os.path.join(d, f)).read(), f, 'exec'), ns)
            out += [x for x in ns['R'] if not ids or any(
                x[0].startswith(i) for i in ids)]
    return out


def whole(s, name, new):
    """replace one function or method, given as Class.method"""
    body = ast.parse(s).body
    parts = name.split('.')
    for x in parts:
        n = [k for k in body if getattr(k, 'name', None) == x][-1]
        body = n.body
    first = min([n.lineno] + [d.lineno for d in n.decorator_list])
    lines = s.split('\n')
    new = textwrap.indent(textwrap.dedent(new).strip('\n'),
                          ' ' * n.col_offset)
    return '\n'.join(lines[:first - 1] + new.split('\n') +
                     lines[n.end_lineno:])


def loose(s, a):
    """the text of s which is a up to blank lines"""
    rx = r'(?:[ \t]*\n)+'.join(re.escape(x) for x in a.split('\n')
                              if x.strip())
    m = re.search(r'(?m)^' + rx if a[0] in ' \n' else rx, s)
    if not m:
        return None
    return m.group(0) + ('\n' if a.endswith('\n') else '')


def one(item):
    name, edits = item
    d = tempfile.mkdtemp(prefix='refactor_')
    try:
        for sub in ('egenerator', 'configs'):
            shutil.copytree(os.path.join('/repo', sub), os.path.join(d, sub),
                            ignore=shutil.ignore_patterns('__pycache__'))
        for f, a, b in edits:
            p = os.path.join(d, f)
            s = open(p).read() if os.path.exists(p) else ''
            if a.startswith('@'):
                s = whole(s, a[1:], b)
                compile(s, p, 'exec')
                open(p, 'w').write(s)
                continue
            if a and a not in s:
                a = loose(s, a)
                if a is None:
                    return name, 'edit does not apply: %r' % f
            s = s.replace(a, b) if a else b
            compile(s, p, 'exec')
            open(p, 'w').write(s)
        r = subprocess.run([sys.executable, '-c', CODE, d],
                           capture_output=True, text=True)
        try:
            return name, json.loads(r.stdout.strip().split('\n')[-1])
        except (ValueError, IndexError):
            return name, r.stderr[-600:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    items = load(ids)
    bad = und = 0
    r = subprocess.run([sys.executable, '-c', CODE, '/repo'],
                       capture_output=True, text=True)
    base = json.loads(r.stdout.strip().split('\n')[-1])
    with ThreadPoolExecutor(7) as ex:
        for name, r in ex.map(one, items):
            if isinstance(r, str):
                print(name, 'ERROR', r)
                bad += 1
                continue
            r = [x for x in r if x not in base]
            v = [x for x in r if x[0] == 'violation']
            bad += bool(v)
            und += bool(r) and not v
            print(name, 'ALARM' if v else 'undecided' if r else 'quiet',
                  flush=True)
            for x in r:
                print('   ', x[0], x[1], x[2])
                for t in x[3]:
                    print('        ', t)
    print('%d edits, %d with alarms, %d undecided' % (len(items), bad, und))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
