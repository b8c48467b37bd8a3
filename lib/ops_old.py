"""C21: pickles of the previous release.  The same functions run with either release."""
import sys, io, os, re, pickle, types, warnings, importlib, pickletools
import dill
import vdesc, vlib
from ops import setup, opts_of, run_src, main_ns, make_module, GenError, short_tb
from vlib import Violation, b64, unb64

def dump(src, opts, where='main', modules=None, gmode='names'):
    warnings.simplefilter('ignore')
    ns = setup(src, modules, where)
    obj = ns.pop('OBJ')
    try: data = dill.dumps(obj, **opts_of(opts))
    except (Exception, KeyboardInterrupt) as e: return dict(skip='the previous release cannot store it')
    try: d = vdesc.describe(obj, gmode=gmode)
    except RecursionError: return dict(skip='too deep')
    return dict(data=b64(data), desc=d, size=len(data))

def load(data, modules=None, gmode='names', files=None):
    warnings.simplefilter('ignore')
    for name, src in modules or []: make_module(name, src)
    os.chdir(vlib.SCRATCH)
    for n, t in (files or {}).items():
        with open(n, 'w') as f: f.write(t)
    out = sys.stdout
    try: obj = dill.loads(unb64(data))
    except (Exception, KeyboardInterrupt) as e: return dict(error='%s: %s' % (type(e).__name__, str(e)[:300]))
    try: return dict(desc=vdesc.describe(obj, gmode=gmode))
    except RecursionError: return dict(error='RecursionError in the description')

# --- helper calls, written as pickles by hand
class Call:
    """Pickled as a call of a helper."""
    def __init__(self, name, args, state=None): self.name, self.args, self.state = name, args, state
class Name:
    def __init__(self, module, name): self.module, self.name = module, name
class P(pickle._Pickler):
    dispatch = dict(pickle._Pickler.dispatch) if not hasattr(pickle._Pickler, 'x') else {}
    modname = 'dill._dill'
    def save(self, obj, save_persistent_id=True):
        if type(obj) is Name:
            self.write(b'c' + obj.module.encode() + b'\n' + obj.name.encode() + b'\n'); return
        if type(obj) is Call:
            n = obj.name
            self.save(Name(*(n if isinstance(n, tuple) else (self.modname, n))))
            self.save(tuple(obj.args)); self.write(b'R')
            if obj.state is not None: self.save(obj.state); self.write(b'b')
            return
        return pickle._Pickler.save(self, obj, save_persistent_id)
P.dispatch = __import__('stockreg').STOCK

def codes(src):
    c = compile(src, 'gen', 'exec')
    return [k for k in c.co_consts if type(k) is types.CodeType][0]
FIELDS = 'argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name qualname firstlineno linetable exceptiontable freevars cellvars'.split()
def code_call(src):
    c = codes(src)
    return Call('_create_code', [getattr(c, 'co_' + f) if f not in ('names', 'varnames', 'freevars', 'cellvars') else tuple(getattr(c, 'co_' + f)) for f in FIELDS])

def helper(expr, modname, protocol):
    warnings.simplefilter('ignore')
    ns = dict(Call=Call, Name=Name, code=code_call, io=io)
    try: obj = eval(expr, ns)
    except Exception as e: raise GenError('%r: %r' % (expr, e))
    b = io.BytesIO()
    p = P(b, protocol); p.modname = modname
    p.fast = True
    try: p.dump(obj)
    except Exception as e: raise GenError('%r: %r' % (expr, e))
    return dict(data=b64(b.getvalue()))

def typenames(): return sorted(dill._dill._reverse_typemap)

# --- sessions
def session_dump(src, kind, opts):
    warnings.simplefilter('ignore')
    os.chdir(vlib.SCRATCH)
    if kind == 'main': ns = main_ns(); mod = sys.modules['__main__']
    else: mod = types.ModuleType('runtime_mod'); mod.__file__ = None; ns = mod.__dict__; 
    if kind == 'main': run_src(src, ns)
    else: run_src(src, ns)
    f = io.BytesIO()
    try: dill.dump_module(f, module=mod, **opts)
    except Exception as e: return dict(skip='the previous release cannot store it: %r' % e)
    return dict(data=b64(f.getvalue()))

def session_load(data, kind, names, gmode='names'):
    warnings.simplefilter('ignore')
    try:
        m = dill.load_module(io.BytesIO(unb64(data)))
    except Exception as e: return dict(error='%s: %s' % (type(e).__name__, str(e)[:300]))
    ns = main_ns() if kind == 'main' else m.__dict__
    return dict(desc=[[n, vdesc.describe(ns[n], gmode=gmode) if n in ns else 'missing'] for n in names])
