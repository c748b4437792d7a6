"""Runs the checks of one property and writes its evidence."""
import argparse
import json
import os
import signal
import sys
import time
import traceback

from . import terms as T
from .contract import Contract
from .rules import RULES
from .verdict import classify, force_retry

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = os.path.join(HERE, 'spec', 'ref')


def known_findings(path):
    """{(property, site text)} listed as known, not repaired, findings"""
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property='):
                head, _, rest = line[len('finding: property='):].partition(
                    ' ')
                site, _, text = rest.partition(' ')
                out.append((head, site, text))
    return out


def clip(s, n=600):
    s = str(s)
    return s if len(s) <= n else s[:n] + ' ...'


def describe(d):
    o = dict(kind=d.kind, line=d.line, text=clip(d.text, 1200))
    if d.ref is not None:
        o['contract'] = clip(T.show(d.ref), 1500)
    if d.cur is not None:
        o['found'] = clip(T.show(d.cur), 1500)
    if d.guard is not None and d.guard is not T.TRUE:
        o['when'] = clip(T.show(d.guard), 600)
    return o


def run(pid, tier, repo, seed, out_dir):
    sys.path.insert(0, os.path.join(HERE, 'spec'))
    from props import P
    t0 = time.time()
    spec = P[pid]
    ctx = Contract(REF, repo)
    ctx.deep = tier == 'thorough'
    subjects = ctx.subjects(spec['functions'])
    if spec['functions'] and not subjects:
        raise RuntimeError('no operation of the contract matches')
    violations, abstained, status, samples = [], [], {}, []
    compared = 0
    for q in subjects:
        r = ctx.check(q)
        verdict, why = classify(ctx, r)
        if verdict == 'abstain' and r.status == 'diff':
            r2 = force_retry(ctx, q, r)
            if r2 is not None:
                verdict, why = r2
        status[verdict] = status.get(verdict, 0) + 1
        compared += r.stats.get('obligations', 0)
        if verdict == 'violation':
            violations.append(dict(
                site=q, file=ctx.path_of(r), line=min(
                    [d.line for d in r.diffs if d.line] or [0]),
                rule='contract', differences=[describe(d) for d in r.diffs]))
        elif verdict == 'abstain':
            abstained.append(dict(site=q, reason=clip(why)))
        if len(samples) < 3 and verdict == 'holds' and r.stats:
            samples.append(dict(function=q, obligations=r.stats.get(
                'obligations'), status=r.status))
    rule_counts = {}
    names = [n for n in spec['rules'] if n in RULES]
    for n in names:
        obs = RULES[n](ctx)
        ok = [o for o in obs if o.status is True]
        bad = [o for o in obs if o.status is False]
        und = [o for o in obs if o.status is None]
        rule_counts[n] = dict(obligations=len(obs), discharged=len(ok),
                              undecided=len(und), violated=len(bad),
                              text=(RULES[n].__doc__ or '').strip())
        if len(obs) < RULES[n].minimum:
            raise RuntimeError(
                'rule %s found only %d obligations (at least %d expected): '
                'its anchor has vanished' % (n, len(obs), RULES[n].minimum))
        for o in bad:
            violations.append(dict(site=o.site, file=o.path, line=o.line,
                                   rule=n, differences=[dict(
                                       kind='obligation', line=o.line,
                                       text=o.text)]))
        for o in und:
            abstained.append(dict(site=o.site, reason=clip(
                '%s: %s' % (n, o.text))))
        if ok:
            samples.append(dict(rule=n, site=ok[0].site, text=ok[0].text))
    known = known_findings(os.path.join(HERE, 'known-findings.txt'))
    listed, fresh = [], []
    for v in violations:
        k = [x for x in known if x[0] == pid and x[1] == v['site']]
        (listed if k else fresh).append((v, k[0] if k else None))
    for v, k in listed:
        print('KNOWN-FINDING: property=%s %s %s' % (pid, v['site'], k[2]))
    n_obl = sum(c['obligations'] for c in rule_counts.values())
    n_dis = sum(c['discharged'] for c in rule_counts.values())
    if subjects:
        level = 'translation_validation'
        cov = dict(
            programs=len(subjects), disagreements_checked=compared + n_obl,
            samples=samples, functions=subjects, verdicts=status,
            rules=rule_counts, undecided=abstained,
            rule='every listed operation of /repo is summarised from its '
                 'source (result, failure condition, stores, effects and '
                 'their order, as guarded value graphs with package helpers '
                 'inlined) and compared with the summary of the reviewed '
                 'contract; the listed rules are decided on the current '
                 'tree alone')
    else:
        level = 'other'
        cov = dict(
            explanation='%d obligations over every function of the package, '
            '%d discharged, %d left undecided' % (
                n_obl, n_dis, len(abstained)),
            obligations=n_obl, discharged=n_dis, rules=rule_counts,
            undecided=abstained, samples=samples)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              wall_s=round(time.time() - t0, 2), violations=len(fresh),
              assumptions=[
                  'calls into numpy, tensorflow, pandas, IceTray and the '
                  'standard library behave as documented; they are compared '
                  'as uninterpreted operations apart from the identities '
                  'listed in DESIGN.md',
                  'operations whose current source cannot be summarised or '
                  'is restructured beyond the normal form are listed under '
                  'undecided and raise no alarm'])
    os.makedirs(out_dir, exist_ok=True)
    with open(os.path.join(out_dir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    replay = os.path.join(out_dir, 'replay', pid + '.json')
    if fresh:
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        with open(replay, 'w') as f:
            json.dump(dict(property=pid, repo=repo, again='python3 check.py '
                           '%s --tier %s --repo %s' % (pid, tier, repo),
                           violations=[v for v, _ in fresh]), f, indent=1)
        for v, _ in fresh:
            print('%s:%s %s [%s]' % (v['file'], v['line'], v['site'],
                                     v['rule']))
            for d in v['differences'][:6]:
                print('    %s' % clip(d['text'], 300))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    elif os.path.exists(replay):
        os.remove(replay)
    print('%s: %d operations (%s), %d obligations, %d undecided, %.1f s' % (
        pid, len(subjects), ', '.join('%s %d' % x for x in sorted(
            status.items())) or 'none', n_obl, len(abstained),
        time.time() - t0))
    return 0


def self_check():
    sys.path.insert(0, os.path.join(HERE, 'spec'))
    from props import P
    ctx = Contract(REF, REF)
    for pid, spec in sorted(P.items()):
        for p in spec['functions']:
            if not ctx.subjects([p]):
                print('%s: no operation matches %s' % (pid, p))
                return 3
    print('%d properties, %d operations in the contract' % (
        len(P), len(ctx.subjects(['*']))))
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--self', action='store_true',
                    help='check that the checker itself is complete')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--out', default=os.path.join(HERE, 'evidence'))
    a = ap.parse_args(argv)
    if a.self:
        return self_check()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        return run(a.property, a.tier, a.repo, seed, a.out)
    except Exception:
        traceback.print_exc()
        return 3
