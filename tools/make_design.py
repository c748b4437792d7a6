"""Writes DESIGN.md from its template, spec/props.py, the rules and seeded/."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'spec'))
sys.path.insert(0, HERE)
from props import P                                        # noqa: E402
from sa.contract import Contract                           # noqa: E402
from sa.rules import RULES                                 # noqa: E402

REF = os.path.join(HERE, 'spec', 'ref')

TEXT = {
    'C01': ('State machine of configure/load: order of checks, calls and the '
            'flag store; guard conditions at every operation which needs a '
            'configured component.',
            'a failure at any step of configure or load, for every subclass; '
            'tests only see completed calls.'),
    'C02': ('is_compatible as one boolean function of all recorded fields, '
            'recursively over sub components.',
            'every combination of differing fields, nesting and mutability.'),
    'C03': ('Heap model: which object each field holds (copy or alias), key '
            'checks, refresh of the combined dictionary.',
            'aliasing that only shows when a caller mutates an object later.'),
    'C04': ('Failure condition of save and position of every file write '
            'relative to the checks; overwrite handed on to all parts.',
            'existing files in any combination, for all component classes.'),
    'C05': ('File names and directories written and read (as string terms), '
            'stored and restored fields, replacement checks.',
            'every sub component layout and replacement set.'),
    'C06': ('Numbering, meta data and deletion effects as guarded effect '
            'sequences over the stored yaml trees.',
            'long save histories, protected checkpoints, missing files.'),
    'C07': ('Field lists of constructor, equality and serialisation; ordering '
            'and lookup as terms.', 'every field, order and list length.'),
    'C08': ('Merge condition at any depth, filled-in keys, copies.',
            'conflicts at nested depths and between any two files.'),
    'C09': ('Step sequence of transform and inverse_transform in both paths, '
            'heap effects on the argument, accumulation terms of the '
            'statistics.', 'all parameter/log/bias combinations, aliasing.'),
    'C10': ('Column terms, order and transformations of the hdf5 and the '
            'frame reader of each module.',
            'modules need IceTray and data files; no test reaches them.'),
    'C11': ('Order and dtype of returned arrays, index arithmetic of pulses '
            'and windows, file handling on all paths.',
            'sensor exclusions, skipped pulses, empty events, failures.'),
    'C12': ('Mask terms per operator, application to every tensor, '
            'renumbering of vector entries.',
            'all mask patterns including empty ones.'),
    'C13': ('Queue and batch bookkeeping by regions: what is put, sliced, kept '
            'for the next batch, and how indices are shifted. Interleavings '
            'are not explored (C43).', 'any file count, batch and file size.'),
    'C14': ('Loss sum, gradient/variable pairing, training flags, step and '
            'save conditions of the training loop.',
            'needs tensorflow graph execution over many steps.'),
    'C15': ('Stacking/unstacking of fitted parameters, transformation '
            'conditions, arguments handed to loss, gradient, Hessian, MCMC.',
            'any fit list, with and without transformed space.'),
    'C16': ('Tray execution order, name checks, result dictionary keys and '
            'the minimum selection.', 'any chain; ties and negative losses.'),
    'C17': ('Cache key terms against the settings each function is built '
            'with.', 'every pair of settings.'),
    'C18': ('Superposition sums as Sum terms over sources with weights; '
            'source construction and parameter indexing.',
            'any number of sources with shared base models.'),
    'C19': ('Every likelihood as a formula; its list and sorted forms; masks '
            'under every combination of exclusions.',
            'formulas for all inputs, not sampled values.'),
    'C20': ('Every basis function as a formula in the arithmetic normal '
            'form.', 'all arguments including singular ones as far as the '
            'formula guards them.'),
    'C21': ('Charge and pdf terms of each source model, exclusion scaling, '
            'indices of gathers.', 'models need tensorflow and data.'),
    'C22': ('Definite assignment, attribute, call and import rules over the '
            'whole package.', 'paths no test executes.'),
    'C23': ('Abstract interpretation of programs and readers over each '
            'shipped configuration.', 'every shipped configuration.'),
    'C24': ('Provenance of each random draw in seeded operations.',
            'any order of combined operations.'),
    'C25': ('Frame keys and values written by the IceTray modules and '
            'segments.', 'IceTray is not installed; nothing is tested.'),
    'C26': ('Interval condition and step offset per scheduler, binding time '
            'of closures.', 'every boundary list and step.'),
    'C27': ('Update of points, values and counters in each branch of the '
            'minimiser.', 'ties, shrinks, wrap-around of angles.'),
    'C28': ('Tables as literal terms, lookup functions, refusal conditions.',
            'every entry of 86 x 60 sensors.'),
}


def main():
    tpl = open(os.path.join(HERE, 'tools', 'design_template.md')).read()
    ctx = Contract(REF, REF)
    titles = {}
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        d = json.loads(line)
        titles[d['id']] = d['title']
    rows = []
    shown = {'guards', 'names', 'self_attributes', 'calls', 'imports',
             'randomness', 'configs'}
    for pid in sorted(P):
        for r in P[pid]['rules']:
            if r in RULES and r not in shown:
                shown.add(r)
                rows.append('| `%s` | %s | %s |' % (r, pid, ' '.join(
                    (RULES[r].__doc__ or '').split())))
    tpl = tpl.replace('RULETABLE', '\n'.join(rows) + '\n' if rows else '')
    out = []
    for pid in sorted(P):
        n = len(ctx.subjects(P[pid]['functions']))
        rules = [r for r in P[pid]['rules'] if r in RULES]
        what, why = TEXT[pid]
        how = []
        if n:
            how.append('R1 over %d operations' % n)
        if rules:
            how.append('R2 ' + ', '.join('`%s`' % r for r in rules))
        out.append('* **%s %s** — %s. %s *Beyond tests:* %s' % (
            pid, titles[pid], '; '.join(how), what, why))
    tpl = tpl.replace('PROPERTIES', '\n'.join(out) + '\n\nCost: each property '
                      'takes 2 to 20 s on one core.\n')
    seeds = {}
    for s in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        f = os.path.join(HERE, 'seeded', s, 'meta.json')
        if os.path.exists(f):
            m = json.load(open(f))
            seeds.setdefault(m['property'], []).append(s)
    missed = set()
    f = os.path.join(HERE, 'tools', 'missed.txt')
    if os.path.exists(f):
        missed = set(open(f).read().split())
    rows = ['| property | planted changes (caught by its check unless '
            'marked) |', '|---|---|']
    for pid in sorted(seeds):
        rows.append('| %s | %s |' % (pid, ', '.join(
            s + (' (missed)' if s in missed else '') for s in seeds[pid])))
    tpl = tpl.replace('SEEDSUMMARY', '%d are valid (apply, build, pass the '
                      'tests, demonstration fails only with the change).\n\n'
                      % sum(map(len, seeds.values())) + '\n'.join(rows))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as g:
        g.write(tpl)


if __name__ == '__main__':
    main()
