"""C09: importable objects by reference."""
import sys, types, warnings, importlib, functools
import dill, vdesc
from vlib import Violation, b64, unb64
from ops import opts_of, make_module, tolerant_dumps, tolerant_loads, run_src, main_ns, GenError

def resolve(mod, qual):
    try:
        o = sys.modules[mod]
        for p in qual.split('.'): o = getattr(o, p)
        return o
    except (KeyError, AttributeError): return None

def canonical(o):
    m, q = getattr(o, '__module__', None), getattr(o, '__qualname__', None)
    return type(m) is str and type(q) is str and m != '__main__' and resolve(m, q) is o

def load_modules(modules):
    for name, src in modules: make_module(name, src)
    return {name: sys.modules[name] for name, _ in modules}

def probe(o):
    """what the object does, as plain data"""
    out = [type(o).__name__, getattr(o, '__name__', None), getattr(o, '__qualname__', None)]
    if isinstance(o, type):
        out += [getattr(o, 'tag', None), sorted(k for k in o.__dict__ if k not in ('__dict__', '__weakref__', '__slotnames__')), [b.__name__ for b in o.__mro__]]
        for m in ('meth', 'smeth', 'cmeth'):
            if hasattr(o, m):
                try: out.append(getattr(o(), m)())
                except Exception as e: out.append(repr(e))
    elif isinstance(o, (types.FunctionType, types.MethodType, functools.partial)):
        try: out.append(repr(o()))
        except Exception as e: out.append(repr(e))
        out.append(repr(getattr(o, '__wrapped__', None) is None))
    elif isinstance(o, types.ModuleType): out.append(sorted(k for k in vars(o) if not k.startswith('__')))
    elif isinstance(o, (staticmethod, classmethod)): out.append(probe(o.__func__)[1:3])
    elif isinstance(o, property): out.append(probe(o.fget)[1:3])
    else: out.append([type(o).__module__, sorted(getattr(o, '__dict__', {}))])
    return out

def dump(modules, pre, exprs, opts):
    warnings.simplefilter('ignore')
    ns = main_ns(); ns.update({k.replace('.', '_'): v for k, v in load_modules(modules).items()})
    run_src(pre, ns)
    out = []
    for expr, marker in exprs:
        try: o = eval(expr, ns)
        except Exception as e: raise GenError('%s: %r' % (expr, e))
        ref = canonical(o) or isinstance(o, types.ModuleType)
        if opts.get('byref') and isinstance(o, type) and not ref:
            out.append(None); continue
        try: data = tolerant_dumps(o, opts)
        except Violation as e: raise Violation('%s: %s' % (expr, e))
        new = tolerant_loads(data, {})
        if ref:
            if new is not o: raise Violation('%s does not load as the same object in the same process: %r' % (expr, new))
            if marker and marker.encode() in data and not isinstance(o, types.ModuleType): raise Violation('the pickle of %s holds more than the reference' % expr)
            if not isinstance(o, types.ModuleType) and len(data) > len(o.__module__) + len(o.__qualname__.encode()) + 30 + 14 * o.__qualname__.count('.') + 60 * ('.' in o.__qualname__):
                raise Violation('the pickle of %s is %d bytes long: %r' % (expr, len(data), data))
        p = probe(o)
        if probe(new) != p: raise Violation('%s differs after loading in the same process: %r / %r' % (expr, p, probe(new)))
        if isinstance(o, types.MethodType) and canonical(o.__func__) and new.__func__ is not o.__func__: raise Violation('the function of the method %s is not the same after loading' % expr)
        out.append([b64(data), ref, p])
    return out

def load(modules, pre, items):
    warnings.simplefilter('ignore')
    ns = main_ns(); ns.update({k.replace('.', '_'): v for k, v in load_modules(modules).items()})
    before = {m: dict(vars(sys.modules[m])) for m, _ in modules}
    n = 0
    run_src(pre, ns)
    for (expr, marker), it in items:
        if it is None: continue
        data, ref, p = it
        o = eval(expr, ns)
        try: new = tolerant_loads(unb64(data), {})
        except Violation as e: raise Violation('%s: %s' % (expr, e))
        if ref and new is not o: raise Violation('%s does not load as the object of that name in another process: %r' % (expr, new))
        if probe(new) != p: raise Violation('%s differs after loading in another process: %r / %r' % (expr, p, probe(new)))
        n += ref
    return n

def absent(items):
    """the modules do not exist here"""
    warnings.simplefilter('ignore')
    for (expr, marker), it in items:
        if it is None or not it[1]: continue
        try: new = dill.loads(unb64(it[0]))
        except Exception: continue
        raise Violation('%s loads as %r although its module does not exist' % (expr, new))

def library(names, opts):
    warnings.simplefilter('ignore')
    n = 0
    for mod, path in names:
        try: o = importlib.import_module(mod)
        except Exception: continue
        for p in path:
            d = sorted(k for k in dir(o) if not (k.startswith('__') and k.endswith('__')))
            if not d: break
            try: o = getattr(o, d[p % len(d)])
            except Exception: break
        if isinstance(o, types.ModuleType):
            if sys.modules.get(o.__name__) is not o or o.__name__ == '__main__' or o.__name__.split('.')[0] in ('dill', 'vlib', 'vdesc', 'ops', 'rt', 'zygote', 'ops_ref'): continue    # not of the installation
        elif not (isinstance(o, (type, types.FunctionType, types.BuiltinFunctionType)) and canonical(o)): continue
        n += 1
        what = '%s.%s' % (getattr(o, '__module__', ''), getattr(o, '__qualname__', o.__name__))
        try: data = tolerant_dumps(o, opts); new = tolerant_loads(data, {})
        except Violation as e: raise Violation('%s: %s' % (what, e))
        if new is not o: raise Violation('%s loads as %r' % (what, new))
        if isinstance(o, type) and hasattr(o, '_fields'): continue        # named tuples are stored with their fields
        if len(data) > 130 + 2 * len(what): raise Violation('the pickle of %s has %d bytes: %r' % (what, len(data), data[:300]))
    return n
