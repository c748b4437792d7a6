"""Name based effect inference: purity, attributes read/written, parameters
mutated.  Used only to decide which calls are events and what they may see."""
import ast
from .repo import dotted

IMPURE_METHODS = {
    'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear',
    'update', 'setdefault', 'add', 'discard', 'sort', 'reverse', 'put',
    'put_nowait', 'get_nowait', 'start', 'terminate', 'kill', 'close',
    'write', 'flush', 'save', 'restore', 'assign', 'assign_add',
    'assign_sub', 'apply_gradients', 'send', 'recv', 'acquire', 'release',
    'set', 'load', 'configure', 'fill', 'uniform', 'normal', 'choice',
    'permutation', 'shuffle', 'poisson', 'gamma', 'randint', 'rand', 'randn',
    'random', 'negative_binomial', 'integers', 'exponential',
    'multivariate_normal', 'sample', 'seed', 'random_sample',
    'standard_normal', 'read', 'readline', 'PushFrame', 'Put', 'AddModule',
    'AddParameter', 'AddOutBox', 'AddSegment', 'Register', 'task_done',
    'write_graph', 'scalar', 'savefig', 'show', 'plot',
    'append_to_dataset', 'join_thread', 'cancel_join_thread', 'expect_partial',
    'assert_consumed', 'watch', 'minimize', 'Add', 'Execute', 'make_legend',
    'to_hdf', 'dump', 'set_lr', 'delete', 'unlink', 'mkdir', 'set_xlabel',
    'set_ylabel', 'legend', 'set_title', 'axhline', 'axvline', 'set_xlim',
    'set_ylim', 'pcolormesh', 'scatter', 'colorbar', 'contour', 'hist'}

IMPURE_EXT = (
    'open', 'os.makedirs', 'os.remove', 'os.rename', 'os.unlink', 'os.mkdir',
    'os.rmdir', 'os.replace', 'shutil.', 'pickle.dump', 'yaml.dump',
    'numpy.save', 'numpy.random.', 'random.', 'tensorflow.random.',
    'multiprocessing.', 'time.', 'timeit.', 'next', 'input', 'exec',
    'setattr', 'delattr', 'yaml_dump', 'numpy.add.at', 'pickle.load',
    'tensorflow.summary.', 'tensorflow.config.', 'numpy.copyto', 'numpy.put',
    'numpy.fill_diagonal', 'heapq.')

RNG_METHODS = {
    'uniform', 'normal', 'choice', 'permutation', 'shuffle', 'poisson',
    'gamma', 'randint', 'rand', 'randn', 'random', 'negative_binomial',
    'integers', 'exponential', 'multivariate_normal', 'random_sample',
    'standard_normal', 'seed'}

IGNORED_CALLS = {'print'}


def impure_ext(name):
    for p in IMPURE_EXT:
        if name == p or (p.endswith('.') and name.startswith(p)):
            return True
    return False


def is_logger(d):
    if d is None:
        return False
    parts = d.split('.')
    return any(p in ('_logger', 'logger', 'logging', 'log') for p in
               parts[:-1]) and parts[-1] in (
        'debug', 'info', 'warning', 'warn', 'error', 'critical',
        'exception', 'log', 'basicConfig', 'getLogger') or \
        d in ('warnings.warn', 'warnings.simplefilter')


class Effects(object):
    """per bare function/method name summaries (union over definitions)"""

    def __init__(self, repo):
        self.repo = repo
        self.impure = {}
        self.reads = {}
        self.writes = {}
        self.calls = {}
        self.generators = set()
        self.mutates = {}
        for f in repo.all_functions():
            self._scan(f)
        # class instantiation calls __init__
        for m in repo.modules.values():
            for c in m.classes.values():
                self.impure.setdefault(c.name, False)
                self.calls.setdefault(c.name, set())
                self.reads.setdefault(c.name, set())
                self.writes.setdefault(c.name, set())
        self._close()

    def _scan(self, f):
        name = f.name
        imp = self.impure.get(name, False)
        rd = self.reads.setdefault(name, set())
        wr = self.writes.setdefault(name, set())
        cl = self.calls.setdefault(name, set())
        args = f.node.args
        params = [a.arg for a in args.posonlyargs + args.args +
                  args.kwonlyargs]
        local = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                local.add(n.id)
        mut = self.mutates.setdefault(f.qual, set())
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                if isinstance(n.ctx, ast.Load):
                    rd.add(n.attr)
                else:
                    wr.add(n.attr)
                    imp = True
            elif isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                r = n.value
                while isinstance(r, (ast.Subscript, ast.Attribute)):
                    r = r.value
                if isinstance(r, ast.Name):
                    if r.id in params and r.id not in local:
                        imp = True
                        mut.add(params.index(r.id))
            elif isinstance(n, ast.AugAssign) and isinstance(
                    n.target, ast.Name) and n.target.id in params:
                pass
            elif isinstance(n, ast.Call):
                d = dotted(n.func)
                if is_logger(d) or d == 'print':
                    continue
                if isinstance(n.func, ast.Attribute):
                    a = n.func.attr
                    cl.add(a)
                    root = n.func.value
                    while isinstance(root, (ast.Attribute, ast.Subscript)):
                        root = root.value
                    if a in IMPURE_METHODS and not (
                            isinstance(root, ast.Name) and
                            root.id in local and a in (
                                'append', 'extend', 'update', 'insert',
                                'add', 'pop', 'sort', 'setdefault')):
                        imp = True
                        if isinstance(root, ast.Name) and \
                                root.id in params and root.id not in local:
                            mut.add(params.index(root.id))
                elif isinstance(n.func, ast.Name):
                    cl.add(n.func.id)
                    if impure_ext(n.func.id):
                        imp = True
                if d:
                    head, _, rest = d.partition('.')
                    q = f.module.imports.get(head)
                    if q and impure_ext(q + ('.' + rest if rest else '')):
                        imp = True
        if f.is_generator:
            self.generators.add(name)
        self.impure[name] = imp

    def _close(self):
        changed = True
        while changed:
            changed = False
            for n, cs in self.calls.items():
                for c in cs:
                    if c in IMPURE_METHODS and c not in self.impure:
                        continue
                    if c in self.impure and c != n:
                        if self.impure[c] and not self.impure.get(n):
                            # pure container methods share names with
                            # package methods: only propagate real ones
                            if c in ('get', 'items', 'keys', 'values'):
                                continue
                            self.impure[n] = True
                            changed = True
                        for s in (self.reads, self.writes):
                            a = s.setdefault(n, set())
                            b = s.get(c, set())
                            if not b <= a:
                                a |= b
                                changed = True
