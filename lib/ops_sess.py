"""C22: saved module states."""
import sys, io, os, types, pathlib, warnings
import dill
import vdesc, vlib
from ops import run_src, main_ns, make_module, GenError, Announced, run_probe, short_tb
from vlib import Violation, b64, unb64

def names(ns): return [n for n in ns if not (n[:2] == '__' and n[-2:] == '__') or n in ('__doc__', '__annotations__')]

def the_module(kind, name, fsrc, modules, fresh):
    for n, s in modules or []: make_module(n, s)
    if kind == 'main': return sys.modules['__main__']
    if kind == 'import': return make_module(name, fsrc)
    if kind == 'package':
        make_module(name + '.sub', ''); m = sys.modules[name]
        return m
    return None if fresh else types.ModuleType(name, *(['module doc'] if len(name) % 2 else []))

def describe(mod, home=None):
    ns = mod.__dict__
    return vdesc.describe([[n, ns[n]] for n in sorted(names(ns))], gmode='mod', home=(mod.__name__,), own=mod if mod not in sys.modules.values() else None)

def links(mod, spec, what, ref):
    """self-references, imported objects and functions' globals"""
    ns = mod.__dict__
    for n in spec['self']:
        if ns.get(n) is not mod: raise Violation('%s: %s is %r, not the module' % (what, n, ns.get(n)))
    for n in spec['dict']:
        if ns.get(n) is not ns: raise Violation('%s: %s is not the namespace of the module' % (what, n))
    for n, expr in spec['ident'] + (spec['ident_ref'] if ref else []):
        want = eval(expr, {'__import__': __import__, 'sys': sys})
        if ns.get(n) is not want: raise Violation('%s: %s is %.200r, not the live %s' % (what, n, ns.get(n), expr))
    for n, expr in spec.get('own', []):
        if ns.get(n) is eval(expr, {'__import__': __import__, 'sys': sys}): raise Violation('%s: %s has become the live %s' % (what, n, expr))
    for n in names(ns):
        f = ns[n]
        if n in spec['funcs'] and (type(f) is not types.FunctionType or f.__globals__ is not ns): raise Violation('%s: the function %s does not use the namespace of the module' % (what, n))
    for n, expr in spec['alias']:
        if n in ns and vdesc.atom(ns[n]) is None and type(ns[n]) is not tuple and ns[n] is not eval(expr, ns): raise Violation('%s: %s is not %s any more' % (what, n, expr))

def store(mod, how, via, ref, opts):
    kw = dict(opts)
    if ref is not None: kw['refimported'] = ref
    if how == 'name': kw['module'] = mod.__name__
    elif how == 'obj': kw['module'] = mod
    path = os.path.join(vlib.SCRATCH, 's.pkl')
    try:
        if via == 'path': dill.dump_module(path, **kw)
        elif via == 'pathlib': dill.dump_module(pathlib.Path(path), **kw)
        elif via == 'file':
            with open(path, 'wb') as f: dill.dump_module(f, **kw)
        elif via == 'old':
            with warnings.catch_warnings():
                warnings.filterwarnings('ignore', category=PendingDeprecationWarning)
                if 'refimported' in kw: kw['byref'] = kw.pop('refimported')
                if 'module' in kw: kw['main'] = kw.pop('module')
                dill.dump_session(path, **kw) if 'byref' in kw or 'main' in kw else dill.dump_session(path)
        else:
            f = io.BytesIO(); dill.dump_module(f, **kw); return f.getvalue()
    except dill.PicklingWarning as e: raise Announced(str(e))
    except BaseException as e: raise Violation('dump_module raised %r\n%s' % (e, short_tb()))
    with open(path, 'rb') as f: return f.read()

class Stream:
    """readable stream without seek, tell or peek"""
    def __init__(self, data, fd=None): self.f = io.BytesIO(data)
    def read(self, n=-1): return self.f.read(n)
    def readline(self): return self.f.readline()
class Seek(Stream):
    def seek(self, *a): return self.f.seek(*a)
    def tell(self): return self.f.tell()

def load(data, via, how, mod):
    path = os.path.join(vlib.SCRATCH, 'l.pkl')
    kw = {}
    if how == 'obj' and mod is not None: kw['module'] = mod
    if how == 'name' and mod is not None and mod.__name__ in sys.modules: kw['module'] = mod.__name__
    before = dict(sys.modules)
    try:
        if via in ('path', 'pathlib'):
            with open(path, 'wb') as f: f.write(data)
            r = dill.load_module(path if via == 'path' else pathlib.Path(path), **kw)
        elif via == 'file':
            with open(path, 'wb') as f: f.write(data)
            with open(path, 'rb') as f: r = dill.load_module(f, **kw)
        elif via == 'raw':
            with open(path, 'wb') as f: f.write(data)
            with open(path, 'rb', 0) as f: r = dill.load_module(f, **kw)
        elif via == 'seek': r = dill.load_module(Seek(data), **kw)
        elif via == 'stream' and kw: r = dill.load_module(Stream(data), **kw)
        elif via == 'old' and 'module' in kw and mod is not None:
            with open(path, 'wb') as f: f.write(data)
            if 'module' in kw: kw['main'] = kw.pop('module')
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                dill.load_session(path, **kw); r = None if how == 'obj' or mod.__name__ == '__main__' else mod
        else: r = dill.load_module(io.BytesIO(data), **kw)
    except BaseException as e: raise Violation('load_module raised %r\n%s' % (e, short_tb()))
    gone = [n for n in before if sys.modules.get(n) is not before[n]]
    new = [n for n in sys.modules if n not in before and n.startswith('__runtime__')]
    if gone or new: raise Violation('load_module changed sys.modules: %r' % (gone + new))
    target = kw.get('module', kw.get('main'))
    want_none = (mod is not None and mod.__name__ == '__main__') or how == 'obj' and mod is not None
    if want_none and r is not None: raise Violation('load_module returned %r' % (r,))
    if not want_none and not isinstance(r, types.ModuleType): raise Violation('load_module returned %r instead of the module' % (r,))
    if r is not None and mod is not None and mod.__name__ in sys.modules and r is not mod: raise Violation('load_module returned another module than the live one')
    return r if r is not None else mod

def save(src, kind, name, fsrc, spec, ref, how, via, opts, modules, probe=None):
    warnings.simplefilter('ignore')
    warnings.filterwarnings('error', message='.*recursive self-references', category=dill.PicklingWarning)
    mod = the_module(kind, name, fsrc, modules, False)
    ns = mod.__dict__
    run_src(src, ns)
    if kind == 'runtime': how = 'obj'
    d0 = describe(mod)
    try: data = store(mod, how, via, ref, opts)
    except Announced: return {'skip': 'recursion announced'}
    d1 = describe(mod)
    if d1 != d0: raise Violation('dump_module changed the module: ' + vdesc.first_diff(d0, d1))
    out = dict(data=b64(data), desc=d0, names=sorted(names(ns)), size=len(data))
    if probe: out['probe'] = run_probe(probe, ns['OBJ'], 'mod')
    return out

def restore(data, kind, name, fsrc, spec, ref, how, via, modules, probe=None, wanted=None):
    """In a fresh process."""
    warnings.simplefilter('ignore')
    warnings.filterwarnings('error', message='.*recursive self-references', category=dill.PicklingWarning)
    mod = the_module(kind, name, fsrc, modules, True)
    m = load(unb64(data), via, how, mod)
    if kind == 'runtime':
        if m.__name__ != name: raise Violation('the module has the name %r' % m.__name__)
        if m in sys.modules.values(): raise Violation('the run-time module is in sys.modules')
    ns = m.__dict__
    out = dict(desc=describe(m), names=sorted(names(ns)))
    links(m, spec, 'after loading in a fresh process', ref)
    if probe: out['probe'] = run_probe(probe, ns['OBJ'], 'mod')
    return out

def same(src, kind, name, fsrc, spec, ref, how, via, lhow, lvia, opts, modules, changes, rounds=1, probe=None, other=False):
    """Saved, changed and restored in one process."""
    warnings.simplefilter('ignore')
    warnings.filterwarnings('error', message='.*recursive self-references', category=dill.PicklingWarning)
    mod = the_module(kind, name, fsrc, modules, False)
    ns = mod.__dict__
    run_src(src, ns)
    if kind == 'runtime': how = 'obj'
    d0 = describe(mod); n0 = sorted(names(ns))
    try: data = store(mod, how, via, ref, opts)
    except Announced: return {'skip': 'recursion announced'}
    added = set()
    for r in range(rounds):
        run_src(changes, ns, 'changes')
        if kind == 'runtime' and other:
            mod = types.ModuleType(mod.__name__); lhow = 'obj'; ns = mod.__dict__
        m = load(data, lvia, lhow if kind != 'runtime' else 'obj' if lhow == 'name' else lhow, mod)
        if kind == 'runtime' and m is not mod and lhow == 'obj': raise Violation('another module was loaded')
        ns2 = m.__dict__
        for n in [n for n in names(ns2) if n not in n0]: del ns2[n]          # names added since are left alone
        links(m, spec, 'after loading in the same process', ref)
        d1 = describe(m)
        if d1 != d0: raise Violation('the module is not restored (saved / loaded) at %s' % vdesc.first_diff(d0, d1))
    out = dict(size=len(data))
    if probe: out['probe'] = run_probe(probe, ns2['OBJ'], 'mod')
    return out


# --- C23: histories of loading
class Own: pass
class NoPeek(Stream): pass

def opened(data, via):
    """A source and what it can do."""
    path = os.path.join(vlib.SCRATCH, 'h.pkl')
    if via in ('path', 'pathlib', 'file', 'raw', 'small'):
        pre = b''
        if via == 'small': pre = b'x' * (8192 - 40)
        with open(path, 'wb') as f: f.write(pre + data)
        if via == 'path': return path
        if via == 'pathlib': return pathlib.Path(path)
        f = open(path, 'rb', 0 if via == 'raw' else -1)
        f.read(len(pre))
        return f
    if via == 'pipe':
        r, w = os.pipe(); os.write(w, data[:60000]); os.close(w)
        return os.fdopen(r, 'rb')
    if via == 'seek': return Seek(data)
    if via == 'nopeek': return NoPeek(data)
    f = io.BytesIO(b'pre' + data); f.read(3)
    return f

def snap(mods): return {n: dict(m.__dict__) for n, m in mods.items()}

def sameness(a, b, what):
    for n in a:
        if set(a[n]) != set(b[n]): raise Violation('%s: names of %s differ: %r' % (what, n, sorted(set(a[n]) ^ set(b[n]))))
        for k in a[n]:
            if a[n][k] is not b[n][k]: raise Violation('%s: %s.%s was changed' % (what, n, k))

def loads(sessions, pool, steps):
    """sessions: saved ones with data, name, kind, desc, names, spec, ref.  pool: modules of this process, 'file' only on disk."""
    warnings.simplefilter('ignore')
    mods = {}
    for name, kind in pool:
        if kind == 'main': mods[name] = sys.modules['__main__']
        elif kind == 'file': make_module(name, 'BASE = 1\n', load=False)
        elif kind == 'import': mods[name] = make_module(name, 'BASE = 1\n')
        else: mods['rt:' + name] = types.ModuleType(name)
    for n, s in MODS23: make_module(n, s)
    for m in mods.values(): m.live = ['live', m.__name__]
    counts = dict(ok=0, refused=0, cut=0, asdict=0)
    for i, st in enumerate(steps):
        what = 'step %d %r' % (i, {k: v for k, v in st.items()})
        s = sessions[st['session']] if 'session' in st else None
        data = unb64(s['data']) if s else dict(empty=b'', garbage=b'\x80\x04garbage', other=dill.dumps([1, 2, {'_import_module': 3}]), text=b'hello world\n' * 40, missing=b'', dir=b'')[st['what']]
        cut = st.get('cut')
        if cut is not None: cut = cut % len(data); data = data[:cut]
        src = opened(data, st['via'])
        if st.get('what') == 'missing': src = os.path.join(vlib.SCRATCH, 'nothing_here.pkl')
        if st.get('what') == 'dir': src = vlib.SCRATCH
        label = str(src)
        before, mods0, keep = dict(sys.modules), snap(mods), []
        attrs0 = {n: dict(sys.modules[n].__dict__) for n in ('pk', 'filepkg', 'dot') if n in sys.modules}
        # --- what should happen
        want, kw, target = None, {}, None
        t = st.get('target', 'none')
        peek = st['via'] not in ('nopeek',)
        runtime = s and s['kind'] == 'runtime'
        here = s and (runtime or s['kind'] == 'main' or any(n == s['name'] and k in ('import', 'file') for n, k in pool))
        if st['op'] == 'load':
            if t == 'nonmodule': kw['module'] = st['value']; want = (TypeError,) if type(st['value']) is not str else (ImportError,)
            elif t == 'both': kw = dict(module=sys.modules['__main__'], main=sys.modules['__main__']); want = (TypeError,)
            elif t == 'none':
                if not here: want = (ImportError,)
            else:
                key, how = t
                target = mods.get(key)
                if target is None: sys.modules.get(key)
                if target is None: kw['module'] = key; target_name, target_rt = key, False
                else: kw['module'] = target if how == 'obj' or key.startswith('rt:') else key; target_name, target_rt = target.__name__, key.startswith('rt:')
                if peek and (target_name != s['name'] or target_rt != bool(runtime)) and want is None: want = (ValueError,)
                elif target_name != s['name'] or target_rt != bool(runtime): want = (Exception,)
            if not peek and t == 'none': want = (dill.UnpicklingError,)
        else:
            kw['update'] = st['update']
            if not here and st['update']: want = (ImportError,)
            if not peek: want = (dill.UnpicklingError,)
            if st.get('badkw'): kw['module'] = sys.modules['__main__']; want = (TypeError,)
        if s is None: want = (OSError,) if st['what'] in ('missing', 'dir') else (Exception,)
        if cut is not None: want = (Exception,)
        # --- what happens
        err = r = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r = (dill.load_module if st['op'] == 'load' else dill.load_module_asdict)(src, **kw)
        except Exception as e: err = e; tb = short_tb()
        finally:
            if hasattr(src, 'close') and not isinstance(src, io.BytesIO): src.close()
        if err is not None and want is None: raise Violation('%s raised %r\n%s' % (what, err, tb))
        if want is not None and err is None: raise Violation('%s did not fail, expected %r' % (what, want))
        if err is not None and not isinstance(err, want): raise Violation('%s raised %r, expected %r' % (what, err, want))
        gone = [n for n in before if sys.modules.get(n) is not before[n]]
        new = [n for n in sys.modules if n not in before]
        if gone or any(n.startswith('__runtime__') for n in new): raise Violation('%s changed sys.modules: %r' % (what, gone + [n for n in new if n.startswith('__runtime__')]))
        if err is not None and st['op'] == 'load' and cut is None and (peek or t == 'none'):
            sameness(mods0, snap(mods), what)
        if err is not None: counts['cut' if cut is not None else 'refused'] += 1
        if err is not None and st['op'] == 'load' and not peek and t != 'none': break      # what the target holds now is not specified
        if err is not None: continue
        # --- the result
        ref = s['ref']
        if st['op'] == 'load':
            counts['ok'] += 1
            m = target or (sys.modules['__main__'] if s['kind'] == 'main' else r)
            if kw.get('module') is not None and not isinstance(kw['module'], str) or s['kind'] == 'main':
                if r is not None: raise Violation('%s returned %r' % (what, r))
            elif not isinstance(r, types.ModuleType): raise Violation('%s returned %r' % (what, r))
            elif not runtime and r is not sys.modules.get(s['name']): raise Violation('%s returned another module than the imported one' % what)
            elif runtime and r in sys.modules.values(): raise Violation('%s: the module is in sys.modules' % what)
            if m is None: m = r
            sameness({n: v for n, v in mods0.items() if mods[n] is not m}, {n: v for n, v in snap(mods).items() if mods[n] is not m}, what)
            if s['kind'] not in ('main', 'runtime') and s['name'] not in mods: mods[s['name']] = m
            live = next((v for n, v in mods0.items() if mods[n] is m), {})
            extra = {n: v for n, v in live.items() if n not in s['names'] and n in names(live) and not n.startswith('__dill_imported')}
        else:
            counts['asdict'] += 1
            if type(r) is not dict: raise Violation('%s returned %r' % (what, type(r)))
            sameness(mods0, snap(mods), what)
            if not runtime and r is getattr(sys.modules.get(s['name']), '__dict__', None): raise Violation('%s returned the namespace of the live module' % what)
            import gc
            m = next((x for x in gc.get_referrers(r) if isinstance(x, types.ModuleType) and x.__dict__ is r), None)
            if m is None: m = Own(); m.__dict__ = r           # the module itself was dropped
            if m in sys.modules.values(): raise Violation('%s: the module of the returned namespace is in sys.modules' % what)
            if r.get('__session__') != label: raise Violation('%s: __session__ is %r' % (what, r.get('__session__')))
            if r.get('__name__') != s['name']: raise Violation('%s: __name__ is %r' % (what, r.get('__name__')))
            for n, d in attrs0.items():
                for k, v in sys.modules[n].__dict__.items():
                    if v is m: raise Violation('%s: the module of the returned namespace is the attribute %s of %s' % (what, k, n))
            if not st['update'] and not runtime and s['name'] not in before and s['name'] in sys.modules: raise Violation('%s left %s in sys.modules' % (what, s['name']))
            extra = {}
            if st['update'] and not runtime:
                live = mods0.get(s['name']) or dict(sys.modules[s['name']].__dict__)
                extra = {n: v for n, v in live.items() if n not in s['names'] and n in names(live) and not n.startswith('__dill_imported')}
                if s['name'] not in before and s['name'] in sys.modules: mods[s['name']] = sys.modules[s['name']]
        ns = dict(m.__dict__)
        if sorted(n for n in names(ns) if n not in extra) != s['names']: raise Violation('%s: names differ: %r' % (what, sorted(set(names(ns)) ^ set(s['names']))))
        for n, v in extra.items():
            if ns.get(n) is not v: raise Violation('%s: the live name %s was not kept' % (what, n))
        fake = types.ModuleType('x')
        d = describe_as(m, s)
        if d != s['desc']: raise Violation('%s: the namespace differs (saved / loaded) at %s' % (what, vdesc.first_diff(s['desc'], d)))
        links(m, s['spec'], what, ref)
    return counts

def describe_as(m, s):
    ns = m.__dict__
    own = m if not any(x is m for x in list(sys.modules.values())) else None
    refs = (['own', 'mod'], ['own', 'dict']) if s['kind'] == 'runtime' else (['mod', s['name']], ['moddict', s['name']])
    return vdesc.describe([[n, ns[n]] for n in s['names']], gmode='mod', home=(s['name'],), own=own, ownrefs=refs)

MODS23 = [('usermod', 'data = {"a": [1, 2]}\ntable = [3, 4]\ndef ufunc(x=1): return [x, data]\nclass UClass:\n    def m(self): return 1\ninst = UClass()\n'), ('userpkg.inner', 'def deep(): return 3\nval = [5]\n')]
