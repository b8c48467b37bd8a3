"""C15: dill next to the standard pickle."""
import io, sys, pickle, copyreg, functools, importlib, warnings, types
import dill, vdesc
from ops import make_module, GenError, short_tb
from vlib import Violation, unb64
import vlib

HOOKS = ('__reduce__', '__reduce_ex__', '__getstate__', '__setstate__', '__getnewargs__', '__getnewargs_ex__', '__new__', '__init__', '__setitem__', 'append', 'extend', '__getattr__')
LOG = []

def wrap_hooks(mod):
    for c in list(vars(mod).values()):
        if isinstance(c, type) and c.__module__ == mod.__name__ and not getattr(c, '_NOLOG', False):
            for h in HOOKS:
                f = c.__dict__.get(h)
                static = isinstance(f, staticmethod)
                if static: f = f.__func__
                if not isinstance(f, types.FunctionType): continue
                def make(f, name):
                    @functools.wraps(f)
                    def w(*a, **k):
                        if f.__name__ != '__getattr__': LOG.append(name)
                        elif not a[1].startswith('__'): LOG.append(name + a[1])
                        return f(*a, **k)
                    return w
                w = make(f, c.__qualname__ + '.' + h)
                setattr(c, h, staticmethod(w) if h == '__new__' else w)

class Out:
    """A file which only has write."""
    def __init__(self): self.parts = []
    def write(self, b): self.parts.append(bytes(b)); return len(b)
    def getvalue(self): return b''.join(self.parts)
class In:
    """A file with only read and readline (no readinto, peek or seek)."""
    def __init__(self, b): self.f = io.BytesIO(b)
    def read(self, *n): return self.f.read(*n)
    def readline(self): return self.f.readline()

def picklers(mod):
    class PP(mod.Pickler):
        def persistent_id(self, o):
            if type(o).__name__ == 'Pers': return ('pers', o.k)
            return None
    class RP(mod.Pickler):
        def reducer_override(self, o):
            if type(o).__name__ == 'Over': return (OVERMOD.over_made, (o.k,))
            return NotImplemented
    return PP, RP

class Blocked(Exception): pass
OVERMOD = None

def dump(mod, objs, how, proto, **kw):
    """Returns (bytes, buffers)."""
    bufs = []
    if how in ('dumps', 'oob'):
        if how == 'oob': kw['buffer_callback'] = bufs.append if kw.pop('cb', 0) == 0 else (lambda b: bool(bufs.append(b)))
        kw.pop('cb', None)
        return mod.dumps(objs, proto, **kw) if proto is not None else mod.dumps(objs, **kw), [b.raw().tobytes() for b in bufs]
    kw.pop('cb', None)
    f = Out() if how in ('file', 'many') else io.BytesIO()
    if how == 'file':
        mod.dump(objs, f, protocol=proto, **kw)
        return f.getvalue(), []
    PP, RP = picklers(mod)
    if how == 'pers': PP(f, protocol=proto, **kw).dump(objs)
    elif how == 'override': RP(f, proto, **kw).dump(objs)
    elif how == 'table':
        p = mod.Pickler(f, proto, **kw); p.dispatch_table = copyreg.dispatch_table.copy()
        p.dispatch_table[OVERMOD.Over] = lambda o: (OVERMOD.over_made, (o.k,))
        p.dump(objs)
    elif how == 'fast':
        p = mod.Pickler(f, proto, **kw); p.fast = True; p.dump(objs)
    elif how in ('many', 'clear'):
        p = mod.Pickler(f, proto, **kw)
        for o in objs:
            p.dump(o)
            if how == 'clear': p.clear_memo()
    else: raise AssertionError(how)
    return f.getvalue(), []

def load(mod, data, bufs, how, n, pure=False, **kw):
    class U(mod.Unpickler):
        def persistent_load(self, pid):
            assert pid[0] == 'pers' or pid[0] == b'pers', pid
            return OVERMOD.PERS[pid[1]]
        def find_class(self, m, nm):
            if pure is True and m.split('.')[0] == 'dill': raise Blocked('%s.%s' % (m, nm))
            r = super().find_class(m, nm)
            if type(pure) is list: pure.append('typing' if hasattr(r, '_fields') or getattr(r, '__module__', None) == 'builtins' else m.split('.')[0])
            return r
    if how == 'oob': kw['buffers'] = iter(bufs)
    if how in ('dumps', 'oob') and pure is False: return mod.loads(data, **kw)
    f = In(data) if how in ('file', 'many') and mod is not dill or how == 'file' else io.BytesIO(data)
    if how == 'file' and pure is False: return mod.load(f, **kw)
    u = U(f, **kw)
    if how == 'clear': return [U(f, **kw).load() for _ in range(n)]
    if how == 'many': return [u.load() for _ in range(n)]
    return u.load()

def run_case(src, how, proto, kw, lkw, pure, recurse=None, byref=None):
    global OVERMOD
    warnings.simplefilter('ignore')
    OVERMOD = mod = make_module('hm', src)
    wrap_hooks(mod)
    obj = mod.OBJ; names = []
    def step(f, *a, **k):
        LOG.clear()
        r = f(*a, **k)
        return r, list(LOG)
    try:
        (pd, pb), plog = step(dump, pickle, obj, how, proto, **kw)
        new, plog2 = step(load, pickle, pd, pb, how, len(obj), pure=names, **lkw)
    except Exception as e:
        return dict(skip='pickle cannot: %s' % type(e).__name__)
    exp = vdesc.describe(new, gmode='none')
    dkw = dict(kw)
    if recurse is not None: dkw['recurse'] = recurse
    if byref is not None: dkw['byref'] = byref
    # named tuples, built-in types and functions, functools and operator objects and arrays are written with helpers of dill
    pure = pure and not set(names) & {'builtins', '__builtin__', 'types', 'functools', 'operator', 'numpy', 'typing'}
    def attempt(what, f, *a, **k):
        try: return step(f, *a, **k)
        except Exception as e: raise Violation('%s raised %r\n%s' % (what, e, short_tb()))
    (dd, db), dlog = attempt('dumping with dill', dump, dill, obj, how, proto, **dkw)
    if dlog != plog: raise Violation('dumping ran other hooks: pickle %s, dill %s' % (plog, dlog))
    for name, m, data, bufs in (('written and read by dill', dill, dd, db), ('written by pickle and read by dill', dill, pd, pb), ('written by dill and read by pickle', pickle, dd, db)):
        new, log = attempt(name + ': loading', load, m, data, bufs, how, len(obj), pure=pure and m is pickle, **lkw)
        got = vdesc.describe(new, gmode='none')
        if got != exp: raise Violation('%s: the result differs (pickle / dill) at %s' % (name, vdesc.first_diff(exp, got)))
        if log != plog2: raise Violation('%s: loading ran other hooks: %s, %s' % (name, plog2, log))
    return dict(ok=1, hooks=len(plog) + len(plog2), pure=pure)

def raw(data, kw):
    """a hand-made stream"""
    warnings.simplefilter('ignore')
    data = unb64(data)
    try: a = pickle.loads(data, **kw)
    except Exception as e: return dict(skip='pickle rejects')
    try: b = dill.loads(data, **kw)
    except Exception as e: raise Violation('dill raised %r where pickle loads %.200r' % (e, a))
    x, y = vdesc.describe(a, gmode='none'), vdesc.describe(b, gmode='none')
    if x != y: raise Violation('the result differs (pickle / dill) at %s' % vdesc.first_diff(x, y))
    return dict(ok=1)
