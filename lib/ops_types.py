"""C31: dill.objects and dill.types."""
import sys, warnings, io
import dill
import vlib
from vlib import Violation

def public(d): return {k for k in d if not k.startswith('_')}

def history(calls, picks):
    warnings.simplefilter('ignore')
    stat = dict(loads=0, copies=0, entries=0)
    objs, mod = dill.objects, dill.types
    before = set(objs)
    import dill._objects as O
    good, bad, reg = dict(O.succeeds), dict(O.failures), dict(O.registered)
    if set(good) & set(bad): raise Violation('registered as picklable and not: %r' % sorted(set(good) & set(bad)))
    if not set(reg) <= set(good): raise Violation('registered but not picklable: %r' % sorted(set(reg) - set(good)))
    mine = {}
    last = None
    for n, op in enumerate(calls):
        w = 'step %d %s' % (n, op)
        if op[0] == 'load':
            _, p, u, how = op
            if how == 0: r = dill.load_types(p, u)
            elif how == 1: r = dill.load_types(pickleable=p, unpickleable=u)
            elif how == 2 and u: r = dill.load_types(p)
            elif how == 3 and p and u: r = dill.load_types()
            else: r = dill.load_types(unpickleable=u, pickleable=p)
            if r is not None: raise Violation('%s returned %r' % (w, r))
            last = dict(reg)
            if p: last.update(good)
            if u: last.update(bad)
            stat['loads'] += 1
        elif op[0] == 'reload':
            import importlib
            if last is None: continue
            importlib.reload(dill.types)
        elif op[0] == 'dump':
            dill.copy([1, {2: 3}, len, history])
        if last is None:
            if set(objs) != before: raise Violation('%s: objects are %r' % (w, sorted(objs)[:5]))
            continue
        if dill.objects is not objs or dill.types is not mod or sys.modules['dill.types'] is not mod if 'dill.types' in sys.modules else dill.types is not mod: raise Violation('%s: the registries are other objects' % w)
        if set(objs) != set(last): raise Violation('%s: missing from dill.objects: %r, too many: %r' % (w, sorted(set(last) - set(objs)), sorted(set(objs) - set(last))))
        for k in last:
            if objs[k] is not last[k]: raise Violation('%s: %s is another object' % (w, k))
        have = public(vars(mod))
        if have != set(last): raise Violation('%s: missing from dill.types: %r, too many: %r' % (w, sorted(set(last) - have)[:10], sorted(have - set(last))[:10]))
        for k in last:
            if getattr(mod, k) is not type(objs[k]): raise Violation('%s: %s is %r for %r' % (w, k, getattr(mod, k), type(objs[k])))
        stat['entries'] += len(last)
    names = sorted(good)
    for i, kw in picks:
        k = names[i % len(names)]; o = good[k]
        kw = {a: b for a, b in kw.items() if b is not None}
        try: c = dill.loads(dill.dumps(o, **kw))
        except Exception as e: raise Violation('%s is registered as picklable but copying it with %r raised %r' % (k, kw, e))
        if type(c) is not type(o) and not (type(c) is type(iter([])) and o.__reduce__()[0] is iter): raise Violation('the copy of %s with %r has type %r instead of %r' % (k, kw, type(c), type(o)))
        try: c = dill.copy(o, **kw)
        except Exception as e: raise Violation('%s is registered as picklable but dill.copy with %r raised %r' % (k, kw, e))
        stat['copies'] += 1
    return dict(stat, names=[names[i % len(names)] for i, kw in picks], total=len(names))
