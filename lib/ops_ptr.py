"""C30: addresses and chains of references."""
import sys, gc, types, weakref, collections
import dill, dill.detect, dill.pointers as P
import vlib
from vlib import Violation

class K0: pass
class K1: pass
class K2(K1): pass
class K3:
    def __str__(self): return 'K3 at 0x10'
    def __repr__(self): return '<K3 object at 0x20>'
    def __len__(self): return 0
class K4:
    __slots__ = ('a', 'b', 'c', '__weakref__')
    def __call__(self): return 1
    def __str__(self): return ''
class LSub(list): pass
class DSub(dict): pass
class Meta(type): pass
TYPES = dict(K0=K0, K1=K1, K2=K2, K3=K3, K4=K4, LSub=LSub, DSub=DSub, Meta=Meta)
PTYPES = dict(TYPES, list=list, dict=dict, tuple=tuple, set=set, fn=types.FunctionType, cell=types.CellType, int=int, code=types.CodeType, meth=types.MethodType, type=type, K01=(K0, K1), many=(K3, list, K4))

def make_fn(*vals):
    a = vals[0] if vals else 0
    def fn(x=vals[1:2]): return a
    return fn

def new(k, vals):
    if k in ('K0', 'K1', 'K2', 'K3', 'K4'):
        o = TYPES[k]()
        for n, v in zip('abc', vals): setattr(o, n, v)
        if k == 'K1': o.__dict__                # materialised
        return o
    if k == 'LSub': o = LSub(vals); return o
    if k == 'DSub': return DSub(enumerate(vals))
    if k == 'list': return list(vals)
    if k == 'tuple': return tuple(vals)
    if k == 'dict': return {('k', i): v for i, v in enumerate(vals)}
    if k == 'kdict': return {v: i for i, v in enumerate(vals) if hashable(v)}
    if k == 'set': return {v for v in vals if hashable(v)}
    if k == 'fn': return make_fn(*vals)
    if k == 'meth': return types.MethodType(make_fn(), vals[0] if vals else 1)
    if k == 'cls': return Meta('C', (K0,), dict(zip('abc', vals)))
    if k == 'iter': return iter(list(vals))
    if k == 'gen': return (x for x in list(vals))
    if k == 'deque': return collections.deque(vals)
    if k == 'part':
        import functools; return functools.partial(print, *vals)
def hashable(v):
    try: hash(v); return True
    except TypeError: return False

def refers(a, b): return any(x is b for x in gc.get_referents(a))

def forward(obj, depth, skip=()):
    """objects by distance"""
    dist, objs, layer = {id(obj): 0}, {id(obj): obj}, [obj]
    for d in range(1, depth + 1):
        nxt = []
        for x in layer:
            for y in gc.get_referents(x):
                if id(y) not in dist and id(y) not in skip: dist[id(y)] = d; objs[id(y)] = y; nxt.append(y)
        layer = nxt
    return dist, objs

OWN = (K0, K1, K3, K4, LSub, DSub, list, dict, tuple, set, types.FunctionType, types.MethodType, types.CellType, Meta, collections.deque)

def check_chain(w, chain, obj, first, last, typ, depth, skip):
    """chain: every object refers to the next one"""
    for a, b in zip(chain, chain[1:]):
        if not refers(a, b): raise Violation('%s: in %s, %s does not refer to %s' % (w, names(chain), tn(a), tn(b)))
    if len(chain) - 1 > depth: raise Violation('%s: %s is longer than %d' % (w, names(chain), depth))
    end = last if first is obj else first
    if len(chain) > 1:
        if not isinstance(end, typ): raise Violation('%s: %s does not lead to the type' % (w, names(chain)))
        for x in chain:
            if x is not obj and id(x) in skip: raise Violation('%s: %s holds an ignored object' % (w, names(chain)))
        for x in (chain[1:-1] if True else ()):
            if isinstance(x, typ): raise Violation('%s: %s goes on behind an object of the type' % (w, names(chain)))

def tn(o): return type(o).__name__
def names(c): return '[%s]' % ', '.join(map(tn, c))

def history(init, ops):
    env = []
    def val(v): return env[v[1] % len(env)] if v[0] == 'o' and env else v[1]
    for k, vals in init: env.append(new(k, [val(v) for v in vals]))
    for op in ops:
        if op[0] == 'link':
            o = env[op[1] % len(env)]; v = val(op[2])
            if isinstance(o, (K0, K1, K3, K4)): setattr(o, 'abc'[op[3] % 3], v)
            elif isinstance(o, list): o.append(v)
            elif isinstance(o, dict): o['l%d' % op[3]] = v
    stat = dict(found=0, none=0, at=0, refs=0, deep=0)
    for n, op in enumerate(ops):
        w = 'step %d %s' % (n, op)
        if op[0] == 'link': continue
        o = env[op[1] % len(env)]
        if op[0] == 'at':
            for x in (o, None, True, False, K0, sys, history):
                if x is not None and not isinstance(x, bool) and not gc.is_tracked(x): continue
                r = (P.at if op[2] % 2 else dill.detect.at)(id(x))
                if r is not x: raise Violation('%s: at(id(%s)) is %s' % (w, tn(x), tn(r)))
            m = types.ModuleType('m'); m.a, m.b = o, 12345678901
            for x in (m.a, m.b):
                if P.at(id(x), m) is not x: raise Violation('%s: at(id(%s), module) is something else' % (w, tn(x)))
            for bad, exc in ((1, ReferenceError), ('x', TypeError), (2.5, TypeError), (-1, ReferenceError)):
                try: r = P.at(bad)
                except exc: pass
                except Exception as e: raise Violation('%s: at(%r) raised %r' % (w, bad, e))
                else: raise Violation('%s: at(%r) is %s' % (w, bad, tn(r)))
            class Held: pass
            try: P.at(id(object()), types.ModuleType('empty'))
            except ReferenceError: pass
            else: raise Violation('%s: something was found in an empty module' % w)
            stat['at'] += 1
        elif op[0] == 'ref':
            try: p = weakref.proxy(o)
            except TypeError: continue
            q = weakref.proxy(o, lambda x: None)
            for x in (p, q):
                r = P.reference(x)
                if r != id(o): raise Violation('%s: reference(proxy of %s) is %r instead of %r' % (w, tn(o), r, id(o)))
                if gc.is_tracked(o) and P.at(r) is not o: raise Violation('%s: what the proxy refers to is not found at its address' % w)
            d = new(init[op[1] % len(init)][0], [])
            try: p = weakref.proxy(d)
            except TypeError: continue
            del d; gc.collect()
            try: bool(p); alive = True
            except ReferenceError: alive = False
            if not alive and P.reference(p) != id(None): raise Violation('%s: reference(dead proxy) is %r' % (w, P.reference(p)))
            stat['refs'] += 1
        elif op[0] in ('parents', 'parent'):
            typ, depth = PTYPES[op[2]], op[3] if op[0] == 'parents' else 1
            ign = [env[i % len(env)] for i in op[4]]; skip = {id(x) for x in ign}
            kw = {}
            if ign: kw['ignore'] = ign[0] if len(ign) == 1 and not hasattr(ign[0], '__len__') else tuple(ign)
            dist, objs = forward(o, depth, skip)
            want = min([d for i, d in dist.items() if isinstance(objs[i], typ)], default=None)
            if op[0] == 'parent':
                r = P.parent(o, typ, **kw)
                if want in (None, 0):
                    if r is not None: raise Violation('%s: parent of %s is %s' % (w, tn(o), tn(r)))
                elif r is None or not isinstance(r, typ) or not refers(o, r) or id(r) in skip: raise Violation('%s: parent of %s is %s' % (w, tn(o), tn(r)))
                stat['found' if want else 'none'] += 1
                continue
            dist = objs = None
            chain = P.parents(o, typ, depth, **kw)
            if not chain or chain[0] is not o: raise Violation('%s: the chain %s does not begin with the object' % (w, names(chain)))
            check_chain(w, chain, o, chain[0], chain[-1], typ, depth, skip)
            if len(chain) - 1 != (want or 0): raise Violation('%s: the chain of %s is %s, one of length %s exists' % (w, tn(o), names(chain), want))
            stat['found' if want else 'none'] += 1; stat['deep'] += (want or 0) > 1
        elif op[0] == 'children':
            typ, depth = TYPES[op[2] if op[2] in TYPES else 'K0'], op[3]
            if op[2] == 'K01': typ = (K0, K1)
            ign = [env[i % len(env)] for i in op[4]]; skip = {id(x) for x in ign}
            kw = {}
            if ign: kw['ignore'] = ign[0] if len(ign) == 1 and not hasattr(ign[0], '__len__') else tuple(ign)
            gc.collect()        # no longer tracks containers of atoms
            # known referrers among the objects of the case
            graph, seen, todo = {}, {}, list(env)
            while todo:
                x = todo.pop()
                if id(x) in seen: continue
                seen[id(x)] = x
                if not isinstance(x, OWN): continue
                if isinstance(x, types.FunctionType): ys = [x.__closure__] if x.__closure__ else []; ys += [x.__defaults__] if x.__defaults__ else []
                elif isinstance(x, type): ys = []
                else: ys = gc.get_referents(x)
                for y in ys:
                    if isinstance(y, OWN) and not isinstance(y, type): graph.setdefault(id(y), []).append(x); todo.append(y)
            dist, layer = {id(o): 0}, [o]
            want = 0 if isinstance(o, typ) else None
            for d in range(1, depth + 1):
                if want is not None: break
                nxt = []
                for x in layer:
                    for y in graph.get(id(x), ()):
                        if id(y) not in dist and id(y) not in skip and gc.is_tracked(y):
                            dist[id(y)] = d; nxt.append(y)
                            if isinstance(y, typ) and want is None: want = d
                layer = nxt
            graph = seen = todo = layer = nxt = dist = x = y = ys = None
            chain = P.children(o, typ, depth, **kw)
            if not chain or chain[-1] is not o: raise Violation('%s: the chain %s does not end with the object' % (w, names(chain)))
            check_chain(w, chain, o, chain[0], chain[-1], typ, depth, skip)
            if want is None:
                if len(chain) == 1: stat['none'] += 1
                continue                # through objects of the harness
            if len(chain) - 1 > want or want and len(chain) == 1: raise Violation('%s: the chain of %s is %s, one of length %s exists' % (w, tn(o), names(chain), want))
            stat['found' if want else 'none'] += 1; stat['deep'] += want > 1
    return stat
