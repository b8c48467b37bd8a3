"""C19: registration and extension."""
import sys, io, pickle, warnings, types, copyreg
import stockreg
import dill
import vdesc, vlib
from ops import run_src, main_ns, GenError, opts_of
from vlib import Violation

class Tagged:
    def __init__(self, tag, i): self.tag, self.i = tag, i
    def __repr__(self): return 'Tagged(%r, %r)' % (self.tag, self.i)
    def __hash__(self): return 1
def mk(tag, i): return Tagged(tag, i)

def flat(o, seen=None):
    """leaves of a nest of lists, tuples and dicts, in order"""
    if type(o) in (list, tuple):
        for x in o: yield from flat(x)
    elif type(o) is dict and not '__builtins__' in o:
        for x in o.values(): yield from flat(x)
    elif type(o) is types.SimpleNamespace and hasattr(o, 'box'): yield from flat(o.box)
    else: yield o

def history(src, ops, types_src):
    warnings.simplefilter('ignore')
    ns = main_ns()
    ns['LEAF'] = {}
    run_src(src, ns, 'source')
    TYPES, MAKE, IDENT = ns['TYPES'], ns['MAKE'], ns['IDENT']
    dreg0 = dict(dill.Pickler.dispatch)
    S = pickle._Pickler
    if not {t: f for t, f in S.dispatch.items()}: raise GenError('no registry')
    user = {}            # type -> (tag, function): what was registered last
    ext = dict(dreg0)    # what the last extend(True) put in, None after extend(False)
    buf0 = io.BytesIO(); old = dill.Pickler(buf0)
    class Sub(dill.Pickler): pass
    oldsub = Sub(io.BytesIO())
    class Own(dill.Pickler):
        dispatch = dill.Pickler.dispatch.copy() if False else dill.Pickler.dispatch
    stats = dict(tagged=0, plain=0, stock=0, reg=0)
    def check_registry(what):
        want = {**dreg0, **{t: f for t, (tag, f) in user.items()}}
        for t in set(want) | set(dill.Pickler.dispatch):
            if t in want and dill.Pickler.dispatch.get(t) is not want[t] or t not in want and not lazily(t): raise Violation('after %s the registry of dill has %r for %r instead of %r' % (what, dill.Pickler.dispatch.get(t), t, want.get(t)))
        want = stockreg.STOCK if ext is None else {**stockreg.STOCK, **ext}
        for t in set(want) | set(S.dispatch):
            if S.dispatch.get(t) is not want.get(t) and not (ext is not None and lazily(t)): raise Violation('after %s the registry of pickle has %r for %r instead of %r' % (what, S.dispatch.get(t), t, want.get(t)))
    def lazily(t):
        """dill registers NumPy types when it meets them"""
        return any(c.__module__.split('.')[0] == 'numpy' for c in t.__mro__) or any(c.__module__.split('.')[0] == 'numpy' for c in type(t).__mro__)
    def expected(leaf, reg):
        t = type(leaf)
        return reg.get(t)
    def compare(what, obj, got, reg):
        a, b = list(flat(obj)), list(flat(got))
        if len(a) != len(b): raise Violation('%s: %r came back as %r' % (what, obj, got))
        for x, y in zip(a, b):
            tag = expected(x, reg)
            name = NAMES.get(type(x))
            if tag is not None:
                stats['tagged'] += 1
                if type(y) is not Tagged or y.tag != tag or y.i != IDENT[name](x): raise Violation('%s: %r came back as %r although a function with tag %r is registered for its type' % (what, x, y, tag))
            elif name is not None:
                stats['plain'] += 1
                if type(y) is Tagged: raise Violation('%s: %r came back as %r although no function is registered for its type' % (what, x, y))
                if type(y).__qualname__ != type(x).__qualname__ or IDENT[name](x) != IDENT[name](y): raise Violation('%s: %r came back as %r' % (what, x, y))
    NAMES = {t: n for n, t in TYPES.items()}
    def build(t):
        if isinstance(t, str):
            n, i, s = t.split(':')
            k = (n, i) if s == 's' else object()
            if k not in shared: shared[k] = MAKE[n](int(i))
            return shared[k]
        if isinstance(t, dict): return {k: build(v) for k, v in t.items()}
        if t[0] == 'tuple': return tuple(build(x) for x in t[1:])
        if t[0] == 'box': return types.SimpleNamespace(box=build(t[1])) if False else [build(t[1])]
        return [build(x) for x in t[1:]]
    check_registry('importing dill')
    for n, op in enumerate(ops):
        k = op[0]
        what = 'operation %d %r' % (n, op[:3])
        if k == 'extend':
            if op[1] is None: dill.extend()
            elif op[2]: dill.extend(op[1])
            else: dill.extend(use_dill=op[1])
            ext = None if op[1] is False else {**dreg0, **{t: f for t, (tag, f) in user.items()}}
        elif k == 'register':
            t = TYPES[op[1]]; tag = 't%d' % n; ident = IDENT[op[1]]
            def save(pickler, obj, tag=tag, ident=ident): pickler.save_reduce(mk, (tag, ident(obj)), obj=obj)
            if op[2] == 'register':
                if dill.register(t)(save) is not save: raise Violation('register gave another function back')
            else: dill.pickle(t, save)
            user[t] = (tag, save); stats['reg'] += 1
        elif k == 'original':           # register dill's own function again
            t = TYPES[op[1]]
            if t in dreg0: dill.register(t)(dreg0[t]); user[t] = (None, dreg0[t])
        elif k == 'dumps':
            shared = {}
            obj = build(op[1]); o = opts_of(op[3])
            api = op[2]
            if api == 'dumps': data = dill.dumps(obj, **o)
            elif api == 'copy': data = None; got = dill.copy(obj, **o)
            elif api == 'dump': b = io.BytesIO(); dill.dump(obj, b, **o); data = b.getvalue()
            elif api == 'pickler': b = io.BytesIO(); dill.Pickler(b, **o).dump(obj); data = b.getvalue()
            elif api == 'sub': b = io.BytesIO(); Sub(b, **o).dump(obj); data = b.getvalue()
            elif api == 'old':
                buf0.seek(0); buf0.truncate(); old.clear_memo(); old.dump(obj); data = buf0.getvalue()
            if data is not None: got = dill.loads(data)
            compare('%s with %s' % (what, api), obj, got, {t: tag for t, (tag, f) in user.items() if tag})
        elif k == 'stock':
            shared = {}
            obj = build(op[1])
            b = io.BytesIO(); S(b, op[2]).dump(obj)
            got = pickle.loads(b.getvalue())
            now = {} if ext is None else {t: tag for t, (tag, f) in user.items() if ext.get(t) is f and tag}
            if ext is not None:   # registered again since the extension
                for t, f in ext.items():
                    tag = next((d for d in getattr(f, '__defaults__', None) or () if isinstance(d, str) and d.startswith('t')), None)
                    if tag and f.__module__ == __name__: now[t] = tag
            compare('%s with the pickler of Python' % what, obj, got, now)
            stats['stock'] += 1
        elif k == 'added':              # what dill adds for Python's own pickler
            o = ns['ADDED'][op[1]]
            if any(t in user for t in (type(o),)): continue
            b = io.BytesIO()
            try: S(b, op[2]).dump(o); err = None
            except Exception as e: err = e
            if ext is None:
                b2 = io.BytesIO()
                try: pickle.Pickler(b2, op[2]).dump(o); err2 = None
                except Exception as e: err2 = e
                if (err is None) != (err2 is None): raise Violation('%s: without extension the Python pickler gives %r where the C pickler gives %r' % (what, err, err2))
            else:
                if err is not None: raise Violation('%s: with the extension the Python pickler raised %r for %r' % (what, err, o))
                got = pickle.loads(b.getvalue())
                d1, d2 = vdesc.describe(o), vdesc.describe(got)
                if d1 != d2: raise Violation('%s: %r came back from the extended Python pickler as %r: %s' % (what, o, got, vdesc.first_diff(d1, d2)))
            stats['stock'] += 1
        check_registry(what)
    return stats
