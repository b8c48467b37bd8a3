"""C29: histories of edits, memorising and questions, against reachability over snapshots."""
import sys, gc, types, importlib, collections
import dill
import vlib
from vlib import Violation
diff = importlib.import_module('dill.__diff')

class A: pass
class A2(A): pass
class LSub(list): pass
class DSub(dict): pass
class TSub(tuple): pass
class Cont:
    def __init__(self): self.store = []
    def __len__(self): return len(self.store)
    def __iter__(self): return iter(self.store)
    def __contains__(self, x): return x in self.store
class Hash:
    """equal and hashed by number"""
    def __init__(self, n): self.n = n
    def __eq__(self, o): return isinstance(o, Hash) and self.n == o.n
    def __hash__(self): return 7
NT = collections.namedtuple('NT', 'p q')
PLAIN = (str, list, dict, set, frozenset, int)

def attrs(o):
    if type(o) in PLAIN: return None
    return getattr(o, '__dict__', None)

def items(o):
    """('map', [(k, v)]) or ('seq', [..]) or None"""
    if isinstance(o, dict): return 'map', list(o.items())
    if isinstance(o, (list, tuple, Cont, collections.deque)): return 'seq', list(o)
    if isinstance(o, set): return 'set', list(o)
    return None

def kids(o):
    out = []
    a = attrs(o)
    if a is not None: out += list(a.values())
    i = items(o)
    if i: out += [x for p in i[1] for x in p] if i[0] == 'map' else i[1]
    return out

class Model:
    def __init__(self):
        self.snap, self.touched = {}, set()
        # such as the empty tuple
        for i, o in list(diff.id_to_obj.items()):
            if isinstance(o, (str, int, float, tuple, type(None))) and not isinstance(o, NT) and len(o if isinstance(o, tuple) else ()) == 0: self.memorise(o)
    def memorise(self, o, force=False):
        todo = [(o, force)]
        while todo:
            o, force = todo.pop()
            if id(o) in self.snap and not force: continue
            a = attrs(o); i = items(o)
            self.touched.discard(id(o))
            self.snap[id(o)] = (o, None if a is None else dict(a), i)
            todo += [(k, False) for k in kids(o)]
    def attr_diff(self, o):
        a, s = attrs(o), self.snap[id(o)][1]
        if a is None: return set()
        return {n for n in set(a) | set(s) if n not in a or n not in s or a[n] is not s[n]}
    def item_diff(self, o):
        """True, False or None (added and removed again: the order of a set)"""
        i, s = items(o), self.snap[id(o)][2]
        if i is None: return False
        if len(i[1]) != len(s[1]): return True
        if i[0] == 'map': return {(id(k), id(v)) for k, v in i[1]} != {(id(k), id(v)) for k, v in s[1]}
        if i[0] == 'set':
            if {id(x) for x in i[1]} != {id(x) for x in s[1]}: return True
            return None if id(o) in self.touched else False
        return any(x is not y for x, y in zip(i[1], s[1]))
    def direct(self, o):
        if id(o) not in self.snap: return True
        if self.attr_diff(o): return True
        return self.item_diff(o)
    def reach(self, o, without=None):
        """True, False, None (depends on the order of a set); 'without' is taken as unchanged"""
        seen, todo, maybe = {}, [o], False
        while todo:
            x = todo.pop()
            if id(x) in seen or x is without: continue
            seen[id(x)] = x
            d = self.direct(x)
            if d: return True
            if d is None: maybe = True
            todo += kids(x)
        return None if maybe else False

BIG = 10 ** 12
def value(env, v):
    k = v[0]
    if k == 'n': return v[1]
    if k == 'big': return int(str(BIG + v[1]))
    if k == 's': return ''.join(['s', str(v[1])])
    if k == 'none': return None
    if k == 'flt': return float(str(v[1]))
    if k == 'o': return env[v[1] % len(env)]
    if k == 'tup': return tuple([value(env, x) for x in v[1]])

def new(env, k, vals):
    vs = [value(env, v) for v in vals]
    def hashable(x):
        try: hash(x); return True
        except TypeError: return False
    if k == 'A' or k == 'A2' or k == 'mod' or k == 'fn' or k == 'cls':
        o = {'A': A, 'A2': A2, 'mod': lambda: types.ModuleType('m'), 'fn': lambda: eval('lambda: 1'), 'cls': lambda: type('C', (), {})}[k]()
        for i, v in enumerate(vs): setattr(o, 'abc'[i % 3], v)
        return o
    if k == 'list': return vs
    if k == 'lsub': o = LSub(vs); o.a = vs[0] if vs else None; return o
    if k == 'tuple': return tuple(vs)
    if k == 'tsub': return TSub(vs)
    if k == 'nt': return NT((vs + [1])[0], (vs + [1, 2])[1])
    if k == 'deque': return collections.deque(vs)
    if k == 'cont': o = Cont(); o.store.extend(vs); return o
    if k == 'hash': return Hash(len(vs))
    if k == 'set': return {v for v in vs if hashable(v)}
    if k == 'dict' or k == 'dsub':
        o = {} if k == 'dict' else DSub()
        for i, v in enumerate(vs):
            if i % 2 and hashable(v): o[v] = vs[i - 1]
            else: o['k%d' % i] = v
        return o

def edit(env, o, e):
    """True if something may have been done"""
    k, i, v = e[0], e[1], value(env, e[2])
    if isinstance(o, (A, types.ModuleType, types.FunctionType, LSub, DSub, type, Cont, TSub, Hash)) and k in ('set', 'del', 'same', 'dict', 'equal'):
        n = 'abc'[i % 3]
        if k == 'set': setattr(o, n, v)
        elif k == 'equal' and n in vars(o) and isinstance(getattr(o, n), int): setattr(o, n, int(str(getattr(o, n))))
        elif k == 'del' and n in vars(o): delattr(o, n)
        elif k == 'same' and n in vars(o): setattr(o, n, getattr(o, n))
        elif k == 'dict' and isinstance(o, A): o.__dict__ = dict(o.__dict__)
        return
    if isinstance(o, Cont): o = o.store
    if isinstance(o, (list, collections.deque)):
        if k in ('set', 'add') or not o: o.append(v)
        elif k == 'del': del o[i % len(o)]
        elif k == 'repl': o[i % len(o)] = v
        elif k == 'swap': o[0], o[-1] = o[-1], o[0]
        elif k == 'same': o[i % len(o)] = o[i % len(o)]
        elif k == 'undo': o.append(v); o.pop()
        return
    try: hash(v)
    except TypeError: v = 'unhashable'
    if isinstance(o, dict):
        if k in ('set', 'add'): o['k%d' % (i % 4)] = v
        elif k == 'del' and o: del o[list(o)[i % len(o)]]
        elif k == 'repl' and o: o[list(o)[i % len(o)]] = v
        elif k == 'swap': o[v] = i
        elif k == 'rekey' and o: y = o.pop(list(o)[i % len(o)]); o[v] = y
        elif k == 'equal' and o:
            x = list(o)[i % len(o)]
            if isinstance(x, str): y = o.pop(x); o[''.join(list(x))] = y
        elif k == 'same' and o: x = list(o)[i % len(o)]; y = o.pop(x); o[x] = y
        elif k == 'undo': o['zz'] = v; del o['zz']
    elif isinstance(o, set):
        if k in ('set', 'add', 'swap'): o.add(v)
        elif k in ('del', 'repl') and o: o.discard(sorted(o, key=id)[i % len(o)])
        elif k == 'undo': o.add('zz'); o.discard('zz')

def history(init, ops, links=()):
    env, m = [], Model()
    keep = []
    stat = dict(questions=0, changed=0, same=0, attrs=0, reuse=0)
    for k, vals in init: env.append(new(env, k, vals) if env else A())
    for i, e in links: edit(env, env[i % len(env)], e)
    gone = set()
    for n, op in enumerate(ops):
        w = 'step %d %s' % (n, op)
        i = op[1] % len(env); o = env[i]
        if op[0] == 'new': env.append(new(env, op[2], op[3])); stat['reuse'] += id(env[-1]) in gone
        elif op[0] == 'edit':
            edit(env, o, op[2])
            if isinstance(o, set): m.touched.add(id(o))
        elif op[0] == 'drop':
            if len(env) > 1: gone.add(id(o)); o = None; env.pop(i); gc.collect()
        elif op[0] == 'mem':
            f = op[2]
            diff.memorise(o, force=f) if op[3] else diff.memorise(o, f)
            m.memorise(o, f)
        elif op[0] == 'ask':
            stat['questions'] += 1
            known = id(o) in m.snap
            try: r = bool(diff.has_changed(o))
            except Exception as e: raise Violation('%s: has_changed raised %r' % (w, e))
            want = m.reach(o)
            if want is not None and r != want: raise Violation('%s: has_changed of %r answers %r' % (w, desc(o), r))
            stat['changed' if want else 'same'] += 1
            try: c = diff.whats_changed(o)
            except RuntimeError as e:
                if known: raise Violation('%s: whats_changed raised %r' % (w, e))
                continue
            except Exception as e: raise Violation('%s: whats_changed raised %r' % (w, e))
            if not known: raise Violation('%s: whats_changed of an object that was not memorised gives %r' % (w, c))
            a = attrs(o) or {}
            least = set(m.attr_diff(o)); most = set(least)
            for nme, v in a.items():
                x = m.reach(v, o)
                if x: least.add(nme); most.add(nme)
                elif x is None: most.add(nme)
                elif m.reach(v): most.add(nme)          # only through the object itself
            if not least <= set(c[0]) <= most: raise Violation('%s: whats_changed of %s names the attributes %r instead of %r' % (w, desc(o), sorted(c[0]), sorted(least)))
            for nme, v in c[0].items():
                if v is not a.get(nme): raise Violation('%s: whats_changed gives %r as the value of %s' % (w, v, nme))
            d = m.item_diff(o); it = items(o)
            sub = [m.reach(x, o) for x in (kids(o)[len(a):] if it else [])]
            loose = [m.reach(x) for x in (kids(o)[len(a):] if it else [])]
            if it is None: want = False
            elif d or any(sub): want = True
            elif d is None or None in sub or any(loose): want = None
            else: want = False
            if want is not None and bool(c[1]) != want: raise Violation('%s: whats_changed of %s answers %r about the items' % (w, desc(o), c[1]))
            stat['attrs'] += len(c[0])
    return stat

def desc(o): return '%s %s %s' % (type(o).__name__, sorted((attrs(o) or {}))[:6], len(items(o)[1]) if items(o) else '-')
