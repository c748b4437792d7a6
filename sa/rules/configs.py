"""C23: the shipped configuration files against the code they configure."""
import ast
import glob
import os

from . import rule, Ob
from ..confread import Interp, Inst, FuncVal, U, clone, read_yaml

PROGRAMS = ['egenerator.create_trafo_model', 'egenerator.train_model',
            'egenerator.export_manager', 'egenerator.reconstruct_test_data']


class Shipped(Interp):
    """an interpreter whose SetupManager returns one configuration"""
    config = None

    def call_func(self, fv, args, kws, du=False, su=False, caller=None,
                  line=0):
        node = fv.node
        if getattr(node, 'name', '') == 'get_config' and isinstance(
                fv.self_, Inst) and fv.self_.cls.name == 'SetupManager':
            return clone(self.config)
        return super(Shipped, self).call_func(fv, args, kws, du, su, caller,
                                              line)


def additions(cur):
    """keys which the setup manager adds to every configuration"""
    out = {}
    m = cur.modules.get('egenerator.settings.setup_manager')
    c = m.classes.get('SetupManager') if m is not None else None
    if c is None:
        return out
    for k, v in c.assigns.items():
        if isinstance(v, ast.Dict):
            for x in v.keys:
                if isinstance(x, ast.Constant):
                    out[x.value] = U
    for f in c.methods.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, ast.Store) and isinstance(
                    n.slice, ast.Constant) and isinstance(
                    n.slice.value, str):
                out[n.slice.value] = U
    return out


@rule('configs', 100)
def configs(ctx):
    """Every shipped configuration, propagated through the programs: named
    classes exist, settings fit the signatures, and every setting read
    without a default is defined."""
    cur = ctx.cur
    paths = sorted(glob.glob(os.path.join(cur.root, 'configs', '*.yaml')))
    if not paths:
        return []
    docs = read_yaml(paths)
    add = additions(cur)
    out = []
    obs = {}
    touched = set()
    for p in paths:
        doc = docs[p]
        name = os.path.relpath(p, cur.root)
        if not isinstance(doc, dict) or '<error>' in doc:
            out.append(Ob('configs', name, None, 'not readable as YAML: %s' %
                          (doc or {}).get('<error>', ''), name, 0))
            continue
        if 'model_settings' not in doc:
            out.append(Ob('configs', name, True, 'partial configuration, '
                          'merged with others', name, 0))
            continue
        config = clone(doc)
        for k, v in add.items():
            config.setdefault(k, v)
        for prog in PROGRAMS:
            m = cur.modules.get(prog)
            f = m.functions.get('main') if m is not None else None
            if f is None:
                continue
            it = Shipped(cur, obs, name)
            it.config = config
            it.call_func(FuncVal(f.module, f.node), [], {}, True)
            touched |= it.touched
    for (site, path, line, text), (ok, certain, label) in sorted(
            obs.items(), key=lambda x: repr(x[0])):
        out.append(Ob('configs', site, True if ok else
                      False if certain else None,
                      text if ok else '%s (with %s)' % (text, label), path,
                      line))
    ctx.config_sites = touched
    return out
