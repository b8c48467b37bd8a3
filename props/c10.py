from hypothesis import strategies as st
from gen import B, opts
from rt import roundtrip

BUDGET = {'quick': dict(cases=2600, seconds=240), 'thorough': dict(cases=60000, seconds=800)}
RULE = ('A case is a pool of generated functions, classes (slots, properties, class and static methods, cached and partial methods, inheritance) and instances, and 2-9 wrappers stacked on them or on each other '
        '(bound methods, partial objects, cached functions, item/attribute/method getters, properties, static and class methods, super objects, descriptors, method wrappers, built-in methods), stored together at a drawn protocol; '
        'the loaded graph is compared with the original and every wrapper is then used in the same ways. Non-trivial: a wrapper of a wrapper, or three kinds of wrappers.')
ASSUMPTIONS = ['attributes set on a cached function or on a staticmethod/classmethod object itself are not kept by dill (the wrapper is made anew)']

class Wr(B):
    def arg(self):
        k = self.weighted([(4, 'atom'), (3, 'node')])
        if k == 'node' and self.pool: return self.choice(self.pool)[0]
        return self.atom()
    def add(self, expr, kind, depth=0):
        n = self.name('w'); self.emit('%s = %s' % (n, expr)); self.pool.append((n, kind, depth)); self.label('k:' + kind)
        return n
    def of(self, *kinds):
        return [p for p in self.pool if p[1] in kinds]
    def func(self):
        n = self.name('f')
        k = self.choice(['plain', 'self', 'va', 'clo', 'gl'])
        if k == 'plain': self.emit('def %s(x=1, y=%s): return ["%s", x, y]' % (n, self.small(), n))
        elif k == 'self': self.emit('def %s(self, *a, k=%s): return ["%s", type(self).__name__, a, k]' % (n, self.small(), n))
        elif k == 'va': self.emit('def %s(*a, **k): return ["%s", len(a), sorted(k)]' % (n, n))
        elif k == 'gl': self.emit('def %s(x=0): return [G, x]' % n)
        else: self.emit('def mk_%s(c):' % n); self.emit('    def %s(x=2, *a): return [c, x, a]' % n); self.emit('    return %s' % n); self.emit('%s = mk_%s(%s)' % (n, n, self.small()))
        self.pool.append((n, 'func', 0))
    def klass(self):
        n = self.name('K'); base = self.choice(self.classes)[0] if self.classes and self.chance(50) else self.choice(['', '', 'dict', 'list', 'int', 'Exception'] if not self.nobuilt else [''])
        inherited = [c for c in self.classes if c[0] == base]
        b = []
        slots = self.chance(30) and base in ('', 'dict', 'list') or False
        attrs = list(inherited[0][1]) if inherited else []
        if slots: s = self.choice([['s1'], ['s1', 's2'], ['s1', '__dict__', '__weakref__']]); b.append('__slots__ = %r' % (tuple(s),)); attrs += [x for x in s if not x.startswith('__')]; self.slots = True
        fs = self.of('func')
        for m in self.sample(['m', 'cm', 'sm', 'p', 'cp', 'lru', 'pm', 'px', 'alias', 'sup', 'abs', 'ext'], 1, 6):
            if m == 'm': b.append('def m(self, x=1): return ["%s.m", x]' % n)
            elif m == 'cm': b += ['@classmethod', 'def cm(cls, x=2): return [cls.__name__, x]']
            elif m == 'sm': b += ['@staticmethod', 'def sm(*a): return ["%s.sm", len(a)]' % n]
            elif m == 'p': b += ['@property', 'def p(self):', '    %s' % self.choice(['"docp"', 'pass']), '    return "%s.p"' % n, '@p.setter', 'def p(self, v): LOG.append(v)']
            elif m == 'px': b.append('px = property(%s)' % self.choice(['None', 'lambda self: 5, None, None, "doc"', 'lambda self: type(self).__name__, doc="d2"', 'None, lambda self, v: None', 'fdel=lambda self: None']))
            elif m == 'cp' and not slots and not inherited and base != 'int': b += ['@functools.cached_property', 'def cp(self): return ["cp"]']
            elif m == 'lru' and not slots and base not in ('dict', 'list'): b += ['@functools.lru_cache(%s)' % self.choice(['None', '3', '128, typed=True', '0']), 'def lru(self, x=0): return ["lru", x]']
            elif m == 'pm' : b.append('pm = functools.partialmethod(%s)' % self.choice([f[0] for f in fs] + ['print, end=""'])) if fs else None
            elif m == 'alias' and fs: b.append('alias = %s' % self.choice(fs)[0])
            elif m == 'sup': b += ['def __init__(self, *a):', '    super().__init__(*a)', '    self.__class__']
            elif m == 'ext' and self.wrapped(): b.append('ext = %s' % self.choice(self.wrapped())[0])
        self.emit('class %s%s:' % (n, '(%s)' % base if base else ''))
        for l in b or ['pass']: self.emit('    ' + l)
        self.classes.append((n, attrs)); self.pool.append((n, 'class', 0))
    def wrapped(self): return self.of('static', 'classm', 'property', 'partial')
    def inst(self):
        c, attrs = self.choice(self.classes)
        n = self.add('%s()' % c, 'inst')
        for a in attrs:
            if self.bool(): self.emit('%s.%s = %s' % (n, a, self.atom()))
        if self.chance(30): self.emit('if hasattr(%s, "__dict__"): %s.data = %s' % (n, n, self.arg()))
    CALL = ('func', 'partial', 'lru', 'lrut', 'method', 'class', 'getter', 'bmeth', 'builtin')
    def wrap(self):
        k = self.weighted([(4, 'method'), (4, 'partial'), (4, 'lru'), (3, 'getter'), (3, 'property'), (2, 'static'), (2, 'classm'), (3, 'super'), (3, 'descr'), (2, 'bmeth'), (2, 'mwrap'), (1, 'sdisp'), (1, 'ctx'), (2, 'clsattr'), (1, 'container'), (1, 'wraps'), (1, 'builtin'), (1, 'attrs')])
        calls = self.of(*self.CALL); insts = self.of('inst'); classes = self.classes
        c = self.choice(calls); d = c[2] + 1
        if k == 'method':
            i = self.choice(insts); cl = self.choice(classes)[0]
            e = self.choice(['types.MethodType(%s, %s)' % (c[0], self.choice([i[0], self.arg(), cl])), 'getattr(%s, "m", %s)' % (i[0], i[0]), 'getattr(%s, "cm", None)' % cl, 'getattr(%s, "cm", None)' % i[0], '%s.mro' % cl, 'getattr(%s, "lru", 0)' % i[0], 'getattr(%s, "pm", 0)' % i[0], 'types.MethodType(%s, None)' % c[0] if False else 'getattr(%s, "alias", 0)' % i[0]])
            if 'None)' in e and e.startswith('types'): e = e
            self.add(e, 'method', d if e.startswith('types') else 0)
        elif k == 'partial':
            args = [self.arg() for _ in range(self.int(0, 3))]; kw = ['k%d=%s' % (i, self.arg()) for i in range(self.int(0, 2))]
            n = self.add('%s(%s)' % (self.choice(['functools.partial', 'functools.partial', 'MyPartial']), ', '.join([c[0]] + args + kw)), 'partial', d)
            if self.chance(30): self.emit('%s.note = %s' % (n, self.arg()))
        elif k == 'lru':
            cs = [x for x in calls if x[1] in ('func', 'partial', 'method', 'builtin', 'lru')]
            x = self.choice(cs); typed = self.choice(['True', 'False'])
            if x[1] in ('lru', 'method'): typed = 'False'       # functools itself forgets the flag of the outer one
            if typed == 'False' or x[1] not in ('lru', 'method'):
                n = self.add('%s(%s)' % (self.choice(['functools.lru_cache', 'functools.cache', 'functools.lru_cache(maxsize=%s, typed=%s)' % (self.choice(['None', '0', '1', '2', '7', '128']), typed)]), x[0]), 'lru' if typed == 'False' else 'lrut', x[2] + 1)
        elif k == 'getter':
            self.add(self.choice(['operator.itemgetter(%s)' % ', '.join(self.choice(['0', '1', '-1', '"a"', 'slice(1, None)', '(0, 1)', self.atom(), self.arg()]) for _ in range(self.int(1, 3))),
                                  'operator.attrgetter(%s)' % ', '.join(repr(self.choice(['m', 'p', '__class__.__name__', 'data', 'a.b.c', '__class__'])) for _ in range(self.int(1, 3))),
                                  'operator.methodcaller(%s)' % ', '.join([repr(self.choice(['m', 'cm', 'sm', '__repr__', 'p']))] + [self.arg() for _ in range(self.int(0, 2))] + ['x=%s' % self.arg()] * self.int(0, 1))]), 'getter')
        elif k == 'property':
            f, g = self.choice(calls + [('None', '', 0)]), self.choice(calls + [('None', '', 0)])
            self.add(self.choice(['property', 'property', 'abc.abstractproperty']) + '(%s, %s, None%s)' % (f[0], g[0], self.choice(['', ', "a doc"', ', ""'])), 'property', max(f[2], g[2]) + 1)
        elif k in ('static', 'classm'):
            x = self.choice(calls + self.wrapped())
            if self.chance(30): self.add(self.choice({'static': ['abc.abstractstaticmethod(%s)'], 'classm': ['abc.abstractclassmethod(%s)']}[k]) % ('lambda *a: %s' % self.small()), k, 1)    # changes what it wraps
            else: self.add('%s(%s)' % ({'static': 'staticmethod', 'classm': 'classmethod'}[k], x[0]), k, x[2] + 1)
        elif k == 'super':
            i = self.choice(insts); self.add(self.choice(['super(type(%s), %s)' % (i[0], i[0]), 'super(type(%s).__mro__[-2], %s)' % (i[0], i[0]), 'super(%s, %s)' % ((self.choice(classes)[0],) * 2) if False else 'super(type(%s), type(%s))' % (i[0], i[0]), 'super(type(%s))' % i[0]]), 'super')
        elif k == 'descr':
            cl, attrs = self.choice(classes)
            opt = ['str.join', 'int.__add__', 'dict.__dict__["fromkeys"]', 'types.FunctionType.__dict__["__code__"]', 'type.__dict__["__mro__"]', 'list.append', 'object.__init__', 'collections.OrderedDict.move_to_end', 'datetime.date.year', 'float.__dict__["real"]', 'type.__dict__["mro"]', 'BaseException.__dict__["args"]', 'bytes.__dict__["fromhex"]', 'collections.deque.maxlen', 'types.CodeType.co_name', 'slice.start', 'types.ModuleType.__dict__["__dict__"]', 'functools.partial.func', 'decimal.Decimal.real', 'property.fget', 'struct.Struct.pack', 'range.__dict__["__reduce__"]']
            opt += ['%s.__dict__[%r]' % ([k for k in self.classes if a in k[1]][0][0], a) for a in attrs[:1]] * 4
            opt += ['%s.__dict__.get("__dict__", %s.__dict__.get("__weakref__", 0))' % (cl, cl), '%s.__dict__.get("__weakref__", 0)' % cl]
            self.add(self.choice(opt), 'descr')
        elif k == 'bmeth': self.add(self.choice(['[1, %s].append' % self.arg(), '{"a": %s}.get' % self.arg(), '"abc".join', 'dict.fromkeys', '%s.__reduce_ex__' % self.choice(insts)[0], '"-".join', '(1, 2).count', 'b"x".hex', 'collections.deque([1]).append', '%s.__sizeof__' % self.choice(insts)[0], '{1, 2}.add', 'int.from_bytes', '[3, 1].__getitem__', 'datetime.date(2020, 1, 2).isoformat', '%s.__instancecheck__' % self.choice(classes)[0]]), 'bmeth')
        elif k == 'mwrap': self.add(self.choice(['(5).__add__', '"x".__len__', '[1, 2].__len__', '%s.__eq__' % self.choice(insts)[0], '%s.__repr__' % self.choice(insts)[0], '(lambda: 5).__call__' if False else '%s.__getattribute__' % self.choice(insts)[0], '{1: 2}.__len__', 'len.__call__', '%s.__call__' % self.choice(self.of('func'))[0]]), 'mwrap')
        elif k == 'sdisp':
            n = self.add('functools.singledispatch(%s)' % self.choice(self.of('func'))[0], 'sdisp', 1); self.emit('%s.register(int, %s)' % (n, self.choice(self.of('func'))[0]))
        elif k == 'ctx': 
            n = self.name('f'); self.emit('@contextlib.contextmanager'); self.emit('def %s(x=1):' % n); self.emit('    LOG.append(x); yield x; LOG.append("out")'); self.pool.append((n, 'ctx', 1))
        elif k == 'clsattr':
            cl = self.choice(classes)[0]; self.add('%s.__dict__.get(%r, 0)' % (cl, self.choice(['m', 'cm', 'sm', 'p', 'px', 'cp', 'lru', 'pm', 'alias', 'ext', '__init__'])), 'attr')
        elif k == 'container': self.add('[%s]' % ', '.join(self.choice(self.pool)[0] for _ in range(self.int(1, 4))), 'list')
        elif k == 'wraps':
            n = self.name('f'); self.emit('@functools.wraps(%s)' % c[0]); self.emit('def %s(*a): return ["w", %s(*a)]' % (n, c[0])); self.pool.append((n, 'func', d))
        elif k == 'builtin': self.add(self.choice(['len', 'sum', 'operator.add', 'math.sqrt', 'print', 'functools.reduce', 'sorted', 'isinstance', 'id.__class__', 'str', 'max']), 'builtin')
        elif k == 'attrs':
            f = self.choice(self.of('func')); self.emit('%s.link = %s' % (f[0], self.choice(self.pool)[0]))

PRE = '''import types, functools, operator, abc, contextlib, collections, datetime, decimal, struct, math
LOG = []
G = 7
class MyPartial(functools.partial): pass
'''
PROBE = '''
import re, types, functools, operator, inspect
def noaddr(s): return re.sub('0x[0-9a-f]+', '0x', str(s))
class Thing:
    a = 1; data = [1]; p = 6
    def m(self, x=0): return ['Thing.m', x]
    def cm(self, *a): return len(a)
def flat(r):
    t = type(r)
    if t in (list, tuple): return [t.__name__] + [flat(x) for x in r]
    if t is str: return noaddr(r)
    if r is None or t in (int, float, bool, bytes): return r
    if isinstance(r, type): return ['type', r.__name__]
    if isinstance(r, dict): return ['dict', len(r)]
    return [t.__name__, getattr(r, '__name__', None) if not isinstance(r, super) else 0]
def attempt(f, *a, **k):
    try: return flat(f(*a, **k))
    except RecursionError: return 'recursion'
    except Exception as e: return [type(e).__name__, noaddr(e)]
def use(o):
    t = type(o); out = [t.__name__]
    if t.__name__ == '_lru_cache_wrapper':
        o.cache_clear()
        out += [attempt(o, 1), attempt(o, 1), attempt(o, 1.0), attempt(o, 2), attempt(o), list(o.cache_info()), sorted(o.cache_parameters().items(), key=str), o.__name__ if hasattr(o, '__name__') else None, getattr(o, '__doc__', None)]
        return out
    if isinstance(o, property):
        class C(Thing): q = o
        c = C()
        return out + [attempt(lambda: c.q), attempt(lambda: setattr(c, 'q', 4)), attempt(lambda: delattr(c, 'q')), o.__doc__, bool(getattr(o, '__isabstractmethod__', 0))]
    if isinstance(o, (staticmethod, classmethod, types.FunctionType, functools.partialmethod)):
        class C(Thing): q = o
        out += [attempt(lambda: C.q()), attempt(lambda: C().q(5)), bool(getattr(o, '__isabstractmethod__', 0))]
    if t is super:
        return out + [attempt(lambda: o.m()), attempt(lambda: o.cm(1)), attempt(lambda: o.__init__()), attempt(lambda: o.p), attempt(lambda: o.sm())]
    if t.__name__ in ('member_descriptor', 'getset_descriptor'):
        return out + [attempt(lambda: o.__get__(x)) for x in (5, 2.5, Thing(), use, use.__code__, ValueError(3), slice(4), functools.partial(len), Thing)] + [noaddr(repr(o)), o.__objclass__.__name__]
    if callable(o) and o is not print:
        for a in ((), (1,), (3, 4), ([2, 1],), ({'a': 1, 0: 2},), (Thing(),), ("ab", "c"), (Thing,), (len, [1])): out.append(attempt(o, *a))
        out.append(attempt(o, x=3)); out.append(attempt(o, 1, k0=8))
    if hasattr(o, '_clear_cache') and type(o) is types.FunctionType: o._clear_cache()
    return out
def probe(o): return [[use(x) for x in o], o]
'''
@st.composite
def strat(draw):
    b = Wr(draw); b.pool = []; b.classes = []; b.slots = False; b.nobuilt = b.chance(60)
    for l in PRE.rstrip().split('\n'): b.emit(l)
    for _ in range(b.int(1, 3)): b.func()
    for _ in range(b.int(1, 3)): b.klass()
    for _ in range(b.int(1, 2)): b.inst()
    n0 = len(b.pool)
    for _ in range(b.int(2, 9)): b.wrap()
    if b.chance(25): b.klass(); b.inst()
    o = opts(b, byref=(None, None, False))
    if b.slots and o.get('protocol', 4) < 2: o['protocol'] = b.int(2, 5)
    new = b.pool[n0:]
    roots = [p[0] for p in new]
    if b.chance(40): roots = b.sample(roots, 1, len(roots))
    if b.chance(30): roots.insert(b.int(0, len(roots)), b.choice(b.pool)[0])
    if not roots: roots = [b.pool[0][0]]
    deep = max([p[2] for p in new] or [0]) > 1
    where = b.choice(['fresh', 'fresh', 'same'])
    pre = '' if o.get('recurse') else b.src()
    return dict(src=b.src() + 'OBJ = [%s]\n' % ', '.join(roots), opts=o, where=where, pre=pre, probe=PROBE, gmode='none', skiprec=True, deep=deep, labels=sorted(b.labels))

def cases(tier): return strat()

def run(case, ctx):
    ctx.label(*case['labels'], 'proto%s' % case['opts'].get('protocol'), case['where'], 'recurse%s' % case['opts'].get('recurse'))
    ctx.nontrivial(case['deep'] or len([l for l in case['labels'] if l.startswith('k:')]) > 2)
    roundtrip(case, ctx)
