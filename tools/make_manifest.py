"""Writes MANIFEST.json from spec/props.py and properties.jsonl."""
import json
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, os.path.join(H, 'spec')]
from props import P  # noqa: E402
from sa.rules import RULES  # noqa: E402

VG = ('guarded value-graph summaries of the operations, compared with a '
      'reviewed contract')
NA = {
    'C40': 'convergence of a numerical minimiser to the global optimum is a '
           'statement about runtime values of trained networks; no static '
           'argument over the source bounds them',
    'C41': 'statistical coverage is a property of distributions of runtime '
           'values, not of the program text',
    'C42': 'agreement of a trained model with its training data depends on '
           'the data and the weights, which are not part of the source',
    'C43': 'progress of the multiprocessing pipeline depends on queue '
           'timing, worker life times and python\'s queue feeder threads; '
           'deciding it needs exploration of interleavings, not a static '
           'analysis of the source',
    'C44': 'bitwise equality of restored predictions depends on tensorflow '
           'checkpoint contents and floating point kernels at run time',
}


def main():
    checks = []
    for pid in sorted(P):
        spec = P[pid]
        rules = [r for r in spec['rules'] if r in RULES]
        tech = []
        if spec['functions']:
            tech.append(VG)
        if rules:
            tech.append('source rules: ' + ', '.join(rules))
        vg = bool(spec['functions'])
        checks.append(dict(
            property=pid,
            quick_cmd='python3 check.py %s --tier quick' % pid,
            thorough_cmd='python3 check.py %s --tier thorough' % pid,
            technique='; '.join(tech),
            level='translation_validation' if vg else 'other',
            level_note=(
                'Every operation anchoring the property is summarised from '
                'its current source (all paths, no bound on inputs; loops '
                'as binders) and shown to have the result, failure '
                'condition, stores and effect order of the contract that '
                'was reviewed against the property. Library calls are '
                'uninterpreted; restructurings outside the normal form are '
                'left undecided and reported as such.' if vg else
                'Every function of the package is decided by the listed '
                'rules on its syntax tree and the package symbol tables; '
                'correlated conditions beyond re-tests of the same text '
                'are left undecided.')))
    man = dict(version=1, setup_cmd='python3 check.py --self',
               checks=checks,
               not_applicable=[dict(property=k, reason=v)
                               for k, v in sorted(NA.items())],
               notes='Static analysis only: /repo is parsed, never imported '
                     'or run. See DESIGN.md.')
    with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
