"""C08: what recurse=True stores, and that globals of both programs stay as they are."""
import sys, warnings, builtins, types, signal
import dill, vdesc
from vlib import Violation, b64, unb64
from ops import setup, run_src, tolerant_dumps, tolerant_loads, run_probe, main_ns, make_module

def snap(mods):
    ds = [('__main__', main_ns()), ('builtins', vars(builtins)), ('dill', vars(dill)), ('dill._dill', vars(dill._dill))]
    for m in mods:
        if m in sys.modules: ds.append((m, vars(sys.modules[m])))
    return [(n, d, dict(d)) for n, d in ds]

def unchanged(s, what):
    for n, d, old in s:
        d = {k: v for k, v in d.items() if k != '__warningregistry__'}      # kept by the interpreter
        old.pop('__warningregistry__', None)
        if d.keys() != old.keys(): raise Violation('%s changed the names of %s: %s' % (what, n, sorted(set(d) ^ set(old))))
        for k in d:
            if d[k] is not old[k]: raise Violation('%s changed %s.%s' % (what, n, k))

def dump(src, opts, probe, modules, where, gmode, limit=False):
    warnings.simplefilter('ignore')
    ns = setup(src, modules, where)
    obj = ns.pop('OBJ')
    s = snap([m for m, _ in modules])
    keep = dict(ns); deep = vdesc.describe(obj, gmode='names')
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try: data, err = tolerant_dumps(obj, opts), None
        except Violation as e: data, err = b'', str(e)
    rec = any('recursive self-references' in str(x.message) for x in w)
    unchanged(s, 'dumps')
    if rec and limit: return {'recwarn': True}
    if rec: raise Violation('dumps could not store a recursion')
    if err: raise Violation(err)
    if keep.keys() != ns.keys() or any(keep[k] is not ns[k] for k in ns): raise Violation('dumps changed the globals of the function')
    if deep != vdesc.describe(obj, gmode='names'): raise Violation('dumps changed the object or something it refers to')
    class TooLong(BaseException): pass
    def alarm(*a): signal.setitimer(signal.ITIMER_VIRTUAL, 0); raise TooLong
    signal.signal(signal.SIGVTALRM, alarm); signal.setitimer(signal.ITIMER_VIRTUAL, 8, 0.01)      # a generated program may recurse exponentially
    try: return {'data': b64(data), 'recwarn': False, 'probe': run_probe(probe, obj, gmode)}
    except TooLong: return {'toolong': True}
    finally: signal.setitimer(signal.ITIMER_VIRTUAL, 0)

def load(data, pre, opts, probe, modules, gmode):
    warnings.simplefilter('ignore')
    for name, msrc in modules or []: make_module(name, msrc)
    run_src(pre, main_ns(), 'pre')
    s = snap([m for m, _ in modules])
    obj = tolerant_loads(unb64(data), opts)
    unchanged(s, 'loads')
    r = run_probe(probe, obj, gmode)
    unchanged(s, 'calling the loaded function')
    return {'probe': r}
