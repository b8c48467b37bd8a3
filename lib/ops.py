"""Operations carried out in zygote children.  Each takes and returns JSON data."""
import sys, types, io, traceback, warnings
import dill
import vdesc
from vlib import Violation, b64, unb64
import vlib

sys.setrecursionlimit(3000)

class GenError(Exception):
    """The generated program is wrong (an error of the harness)."""

def opts_of(opts):
    return {k: v for k, v in opts.items() if v is not None}

def run_src(src, ns, what='source'):
    try:
        exec(compile(src, '<gen>', 'exec'), ns)
    except BaseException as e:
        raise GenError('%s failed: %r\n%s' % (what, e, src[:3000]))

def main_ns():
    return sys.modules['__main__'].__dict__

def short_tb():
    return traceback.format_exc()[-1500:]

def run_probe(probe, obj, gmode):
    """probe is source defining probe(obj); its result is described (so is an exception)."""
    ns = {'__name__': 'vprobe', '__builtins__': __builtins__}
    run_src(probe, ns, 'probe')
    try:
        r = ns['probe'](obj)
    except Exception as e:
        r = ('probe raised', type(e).__name__, str(e))
    return vdesc.describe(r, gmode=gmode)

class Announced(Exception):
    pass

def tolerant_dumps(obj, opts, skiprec=False):
    try:
        if skiprec:
            with warnings.catch_warnings():
                warnings.filterwarnings('error', message='.*recursive self-references', category=dill.PicklingWarning)
                return dill.dumps(obj, **opts_of(opts))
        return dill.dumps(obj, **opts_of(opts))
    except dill.PicklingWarning as e:
        if skiprec: raise Announced(str(e))
        raise Violation('dumps raised %r\n%s' % (e, short_tb()))
    except GenError:
        raise
    except BaseException as e:
        raise Violation('dumps raised %r\n%s' % (e, short_tb()))

def tolerant_loads(data, opts):
    try:
        return dill.loads(data, **opts_of(opts))
    except BaseException as e:
        raise Violation('loads raised %r\n%s' % (e, short_tb()))

def make_module(name, src, load=True):
    """An importable module: file in the scratch directory, on sys.path."""
    import os, importlib
    if vlib.SCRATCH not in sys.path: sys.path.insert(0, vlib.SCRATCH)
    parts = name.split('.')
    path = vlib.SCRATCH
    for p in parts[:-1]:
        path = os.path.join(path, p)
        os.makedirs(path, exist_ok=True)
        init = os.path.join(path, '__init__.py')
        if not os.path.exists(init): open(init, 'w').close()
    with open(os.path.join(path, parts[-1] + '.py'), 'w', encoding='utf-8', errors='surrogatepass') as f: f.write(src)
    importlib.invalidate_caches()
    if not load: return
    try:
        return importlib.import_module(name)
    except BaseException as e:
        raise GenError('module %s: %r\n%s' % (name, e, src[:3000]))

def setup(src, modules, where):
    for name, msrc in modules or []: make_module(name, msrc)
    if where == 'fake':                      # a namespace that is no module at all
        ns = {'__name__': 'nosuchmodule', '__builtins__': __builtins__}
    else:
        ns = main_ns()
    run_src(src, ns)
    return ns

def rt_dump(src, opts, probe=None, gmode='mod', modules=None, where='main', home=('__main__',), skiprec=False):
    warnings.simplefilter('ignore')
    ns = setup(src, modules, where)
    obj = ns.pop('OBJ')
    try: data = tolerant_dumps(obj, opts, skiprec)
    except Announced as e: return {'skip': 'recursion announced'}
    out = {'data': b64(data), 'desc': vdesc.describe(obj, gmode=gmode, home=home)}
    if probe: out['probe'] = run_probe(probe, obj, gmode)
    return out

def rt_load(data, pre='', opts={}, probe=None, gmode='mod', modules=None, home=('__main__',)):
    warnings.simplefilter('ignore')
    for name, msrc in modules or []: make_module(name, msrc)
    if pre: run_src(pre, main_ns(), 'pre')
    before = dict(main_ns())
    obj = tolerant_loads(unb64(data), opts)
    out = {'desc': vdesc.describe(obj, gmode=gmode, home=home)}
    if probe: out['probe'] = run_probe(probe, obj, gmode)
    return out

def rt_same(src, opts, lopts={}, probe=None, gmode='mod', modules=None, where='main', home=('__main__',), skiprec=False):
    """dump and load in one process (the originals still exist)."""
    warnings.simplefilter('ignore')
    ns = setup(src, modules, where)
    obj = ns.pop('OBJ')
    try: data = tolerant_dumps(obj, opts, skiprec)
    except Announced as e: return {'skip': 'recursion announced'}
    a = vdesc.describe(obj, gmode=gmode, home=home)
    new = tolerant_loads(data, lopts)
    b = vdesc.describe(new, gmode=gmode, home=home)
    out = {'desc': [a, b], 'data': b64(data)}
    if probe:
        out['probe'] = run_probe(probe, new, gmode)    # the original is probed in another process
    return out

def rt_probe(src, probe, gmode='mod', modules=None, where='main'):
    warnings.simplefilter('ignore')
    ns = setup(src, modules, where)
    return {'probe': run_probe(probe, ns.pop('OBJ'), gmode)}
