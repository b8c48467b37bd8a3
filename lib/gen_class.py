"""Generator of class hierarchies (source text), for C05, C06, C20, C21, C22."""
from gen import B, opts
from gen_code import Code, Scope

from gen_data import PRELUDE
CPRE = PRELUDE + '''import abc, typing, enum
class Desc:
    def __init__(self, v): self.v = v
    def __get__(self, i, o): return ['desc', self.v, i is None]
    def __set__(self, i, v): i.__dict__['_d'] = v
class NData:
    def __init__(self, v): self.v = v
    def __get__(self, i, o): return ['nd', self.v, i is None]
'''
BUILTINS = ['list', 'dict', 'int', 'str', 'tuple', 'set', 'frozenset', 'float', 'bytes', 'Exception', 'collections.OrderedDict', 'collections.deque', 'collections.UserDict']

class C:
    """What the generator knows about an emitted class."""
    def __init__(self, name, skel, bases, meta, attrs, slots, abstract, builtin):
        self.__dict__.update(locals())

class Cls(Code):
    def setup_class(self, local=False):
        self.setup_code()
        self.cls = []
        self.metas = []
        self.gfn = []
        self.must = set()      # kept alive only by weak references otherwise
    def meta(self):
        n = self.u('M')
        base = self.choice(['type', 'type', 'abc.ABCMeta'] + [m for m, _ in self.metas])
        self.emit('class %s(%s):' % (n, base))
        body = []
        for k in self.sample(['attr', 'meth', 'prop', 'new', 'prep', 'call', 'cm', 'instcheck', 'eq', 'len', 'mro', 'setattr'], 0, 3):
            if k == 'attr': body += ['ma = %s' % self.atom()]
            elif k == 'meth': body += ['def mm(cls): return ["mm", cls.__name__]']
            elif k == 'prop': body += ['@property', 'def mp(cls): return ["mp", cls.__name__]']
            elif k == 'new': body += ['def __new__(m, n, b, d):', '    d = dict(d); d.setdefault("stamp", n)', '    return super().__new__(m, n, b, d)']
            elif k == 'prep': body += ['@classmethod', 'def __prepare__(m, n, b): return {"prep": 1}']
            elif k == 'call': body += ['def __call__(cls, *a):', '    r = super().__call__(*a)', '    return r']
            elif k == 'cm': body += ['@classmethod', 'def mcm(m): return m.__name__']
            elif k == 'instcheck': body += ['def __instancecheck__(cls, o): return hasattr(o, "duck") or super().__instancecheck__(o)']
            elif k == 'eq': body += ['def __eq__(cls, o): return cls is o', 'def __hash__(cls): return 7']
            elif k == 'len': body += ['def __len__(cls): return 3']
            elif k == 'setattr': body += ['def __setattr__(cls, n, v): super().__setattr__(n, v)']
            elif k == 'mro': body += ['def mro(cls): return super().mro()']
            self.label('meta:' + k)
        for l in body or ['pass']: self.emit('    ' + l)
        self.metas.append((n, self.is_abc(base)))
        self.label('metaclass')
        return n
    def is_abc(self, base): return base == 'abc.ABCMeta' or any(m == base and a for m, a in self.metas)
    def pick_bases(self):
        """Bases that make a class: tried out on skeleton classes of the generator's own."""
        import types, collections
        for _ in range(6):
            k = self.weighted([(5, 'none'), (5, 'one'), (4, 'two'), (2, 'builtin'), (1, 'abc'), (1, 'generic'), (1, 'both'), (1, 'three')])
            bs = []
            if k in ('one', 'two', 'both', 'three'):
                bs = [c for c in self.sample(self.cls, 1, {'one': 1, 'two': 2, 'both': 1, 'three': 3}[k])] if self.cls else []
            names = [c.name for c in bs]; sk = [c.skel for c in bs]
            if k in ('builtin', 'both'):
                n = self.choice(BUILTINS); names.append(n); sk.append(eval(n, {'collections': collections, '__builtins__': __builtins__}))
            yield k, bs, names, sk
        yield 'none', [], [], []
    def klass(self, indent=''):
        import types
        n = self.u('C')
        slots = None
        if self.chance(25):
            slots = self.choice(["('s1',)", "'s1'", "('s1', 's2')", "()", "('s1', '__dict__')", "('__weakref__', 's3')", "{'s4': 'doc of s4'}", "['s5', '__p']", "('__p',)"])
        meta = ''
        if self.chance(18): meta = self.meta() if not self.metas or self.bool() else self.choice([m for m, _ in self.metas])
        for k, bs, names, sk in self.pick_bases():
            generic = k == 'generic'
            isabc = k == 'abc'
            ns = {}
            if slots is not None: ns['__slots__'] = eval(slots)
            try: types.new_class(n, tuple(sk), {}, lambda d: d.update(ns))
            except TypeError:
                if k == 'none': raise
                continue
            skel = types.new_class(n, tuple(sk), {}, lambda d: d.update(ns))
            inh = {c.meta for c in bs if c.meta}
            if 'collections.UserDict' in names: inh.add('abc.ABCMeta')
            if len(inh) > 1: continue
            break
        m = next(iter(inh), '')
        if m:
            if meta != m: meta = ''
            if isabc and m != 'abc.ABCMeta': isabc = False
        elif meta: m = meta; isabc = generic = False
        bexpr = list(names)
        if isabc: bexpr.append('abc.ABC'); m = 'abc.ABCMeta'; self.label('abc')
        if generic: bexpr.append('typing.Generic[%s]' % self.choice(['typing.AnyStr', 'typing.T', 'typing.KT, typing.VT'])); self.label('generic')
        if names and bs and bs[0].generic and self.bool(): bexpr[0] += '[%s]' % ', '.join(['int'] * bs[0].generic); self.label('paramgeneric')
        if meta and m == meta: bexpr.append('metaclass=%s' % meta)
        if len(names) > 1: self.label('multibase')
        elif names: self.label('derived')
        builtin = next((x for x in names if x in BUILTINS), None) or next((c.builtin for c in bs if c.builtin), None)
        self.emit('class %s%s:' % (n, '(%s)' % ', '.join(bexpr) if bexpr else ''))
        body = []
        attrs = {}
        if self.chance(25): body.append(repr(self.draw_text())); self.label('classdoc')
        if slots is not None: body.append('__slots__ = ' + slots); self.label('slots')
        inherited = {}
        for c in reversed(bs): inherited.update(c.attrs)
        if builtin == 'tuple' and self.chance(40): body += ['_fields = ("a", "b")'] + self.sample(['_field_defaults = {}', 'def _asdict(self): return {}'], 0, 2); self.label('like a namedtuple')
        for _ in range(self.int(0, 5)): self.member(n, body, attrs, inherited, bs, names, builtin, isabc or self.is_abc(m), slots)
        if not body: body = ['pass']
        for l in body: self.emit('    ' + l)
        c = C(n, skel, names, m, dict(inherited, **attrs), slots, set(), builtin)
        c.generic = {'typing.AnyStr': 1, 'typing.T': 1}.get(bexpr[-1][15:-1] if generic else '', 2) if generic else 0
        c.isabc = isabc or any(getattr(b, 'isabc', False) for b in bs) or self.is_abc(m)
        c.own = attrs
        self.cls.append(c)
        return c
    def member(self, cname, body, attrs, inherited, bs, names, builtin, isabc, slots):
        k = self.weighted([(6, 'meth'), (3, 'const'), (2, 'cm'), (2, 'sm'), (2, 'prop'), (2, 'super'), (1, 'ann'), (1, 'nested'), (1, 'alias'), (1, 'hash'), (1, 'eq'), (1, 'cached'), (1, 'pm'), (1, 'sd'),
                           (1, 'desc'), (1, 'initsub'), (1, 'cgi'), (1, 'dunder'), (1, 'lam'), (1, 'async'), (2, 'over'), (2 if isabc else 0, 'abs'), (1, 'clsref'), (1, 'mut'), (1, 'decor'), (1, 'private'),
                           (1, 'new'), (1, 'classcell'), (1, 'shared'), (1, 'getattr'), (1, 'oddname'), (1, 'setname')])
        self.label('m:' + k)
        E = lambda v=(): self.expr(Scope(list(v)), 2)
        if k in ('meth', 'over', 'super'):
            if k == 'over' or k == 'super':
                cands = [a for a, kk in inherited.items() if kk == 'meth']
                name = self.choice(cands) if cands else self.u('m')
            else: name = self.u('m')
            body += ['def %s(self, x=%s):' % (name, self.small())]
            if self.chance(20): body += ['    %r' % self.draw_text()]
            if k == 'super' or self.chance(15): body += ['    try: s = super().%s()' % name, '    except AttributeError: s = 0']
            else: body += ['    s = 1']
            body += ['    return [%r, s, %s]' % (cname, E(['x']))]
            attrs[name] = 'meth'
        elif k == 'const':
            n = self.choice(['k1', 'k2', self.u('k')]); body += ['%s = %s' % (n, self.choice([self.atom(), self.val() if self.nodes and not isabc else self.atom()]))]; attrs[n] = 'const'
        elif k == 'cm': n = self.u('cm'); body += ['@classmethod', 'def %s(cls, x=1): return [cls.__name__, %s]' % (n, E(['x']))]; attrs[n] = 'cm'
        elif k == 'sm': n = self.u('sm'); body += ['@staticmethod', 'def %s(x=1): return %s' % (n, E(['x']))]; attrs[n] = 'sm'
        elif k == 'prop':
            n = self.u('p'); w = self.choice(['full', 'ro', 'doc', 'wo'])
            if w == 'wo': body += ['%s = property(None, lambda self, v: None)' % n]
            else:
                body += ['@property', 'def %s(self):' % n, '    %r' % self.draw_text(), '    return [%s]' % E()]
                if w == 'full': body += ['@%s.setter' % n, 'def %s(self, v): pass' % n] + (['@%s.deleter' % n, 'def %s(self): pass' % n] if self.bool() else [])
                if w == 'doc': body += ['%s = property(%s.fget, None, None, %s)' % (n, n, self.atom())]
            attrs[n] = 'prop'
        elif k == 'ann': n = self.u('a'); body += ['%s: %s' % (n, self.choice(['int', "'str'", 'typing.Optional[int]', 'list[int]', 'typing.ClassVar[int] = 3', 'int | None = None']))]
        elif k == 'nested':
            n = self.u('N'); body += ['class %s%s:' % (n, self.choice(['', '(int)', '(Exception)'] + ['(%s)' % c.name for c in self.cls[-1:] if not c.meta])), '    z = %s' % self.atom(), '    def f(self): return [1, %s]' % E()]; attrs[n] = 'nested'
        elif k == 'alias':
            if bs and self.bool():
                cands = [a for a, kk in bs[0].attrs.items() if kk in ('meth', 'const', 'prop', 'sm')]
                if cands: a = self.choice(cands); body += ['%s = %s.%s' % (self.choice([a, self.u('al')]), bs[0].name, a)]; return
            own = [a for a, kk in attrs.items() if not a.startswith('cp') and not a.startswith('__')]
            if own: body += ['%s = %s' % (self.u('al'), self.choice(own))]
        elif k == 'hash': body += [self.choice(['__hash__ = None', '__hash__ = object.__hash__', 'def __hash__(self): return %s' % self.small()])]; attrs['__hash__'] = 'd'
        elif k == 'eq': body += ['def __eq__(self, o): return type(o) is type(self)'] + (['__hash__ = %s.__hash__' % self.choice(['object'] + [c.name for c in bs])] if self.bool() else [])
        elif k == 'cached' : n = self.u('cp'); body += ['@functools.cached_property', 'def %s(self): return [%s]' % (n, E())]; attrs[n] = 'cp'
        elif k == 'pm':
            ms = [a for a, kk in attrs.items() if kk == 'meth' and not a.startswith('__')]
            if ms: n = self.u('pm'); body += ['%s = functools.partialmethod(%s, %s)' % (n, self.choice(ms), self.small())]; attrs[n] = 'meth'
        elif k == 'sd':
            n = self.u('sd'); body += ['@functools.singledispatchmethod', 'def %s(self, x=0): return ["default", %s]' % (n, E()), '@%s.register' % n, 'def _%s(self, x: %s): return ["reg", x]' % (n, self.choice(['int', 'str']))]; attrs[n] = 'meth'
        elif k == 'desc': n = self.u('de'); body += ['%s = %s(%s)' % (n, self.choice(['Desc', 'NData']), self.atom())]; attrs[n] = 'prop'
        elif k == 'initsub': body += ['def __init_subclass__(cls): cls.tag = cls.__dict__.get("tag", cls.__name__)']
        elif k == 'cgi' and 'Generic' not in self.lines[-1] and not any(getattr(c, 'generic', 0) for c in self.cls): body += ['def __class_getitem__(cls, k): return [cls.__name__, k]']
        elif k == 'dunder':
            for d in self.sample(['__repr__', '__str__', '__bool__', '__call__', '__lt__', '__contains__', '__len__', '__iter__', '__format__', '__enter__'], 1, 2):
                if builtin and d in ('__len__', '__iter__', '__contains__'): continue
                if d == '__bool__': body += ['def __bool__(self): return False']
                elif d == '__len__': body += ['def __len__(self): return 2']
                elif d == '__iter__': body += ['def __iter__(self): return iter([1, 2])']
                elif d in ('__repr__', '__str__'): body += ['def %s(self): return "R" + type(self).__name__' % d]
                elif d == '__format__': body += ['def __format__(self, s): return "F" + s']
                else: body += ['def %s(self, *a): return [%r, len(a)]' % (d, d)]
        elif k == 'lam': n = self.u('l'); body += ['%s = lambda self, x=2: [%s]' % (n, E(['x']))]; attrs[n] = 'meth'
        elif k == 'async': n = self.u('as'); body += ['async def %s(self): return %s' % (n, E())]; attrs[n] = 'async'
        elif k == 'abs':
            n = self.u('ab'); w = self.choice(['meth', 'prop', 'cm', 'sm'])
            if w == 'prop': body += ['@property']
            if w in ('cm', 'sm'): body += ['@' + {'cm': 'classmethod', 'sm': 'staticmethod'}[w]]
            body += ['@abc.abstractmethod', 'def %s(self): return 0' % n]
            attrs[n] = 'meth' if w == 'meth' else 'x'
        elif k == 'clsref': n = self.u('cr'); body += ['def %s(self): return [__class__.__name__, type(self).__name__]' % n]; attrs[n] = 'meth'
        elif k == 'mut': n = self.u('mu'); body += ['%s = %s' % (n, self.choice(['[]', '{}', '[1, [2]]', 'set()', '{"a": [1]}']))]; attrs[n] = 'const'
        elif k == 'decor':
            n = self.u('dm'); body += ['@functools.lru_cache(maxsize=%s)' % self.choice(['None', '4']), 'def %s(self): return %s' % (n, E())]; attrs[n] = 'x'
        elif k == 'private': n = '__pv%d' % self.int(0, 2); body += ['def %s(self): return [%s]' % (n, E()), 'def g%s(self): return self.%s()' % (n.strip('_'), n)]; attrs['g' + n.strip('_')] = 'meth'
        elif k == 'new':
            if not builtin: body += ['def __new__(cls, *a):', '    o = super().__new__(cls)', '    return o']
        elif k == 'classcell':
            n = self.u('cc'); body += ['def %s(self):' % n, '    def inner(): return [__class__.__name__, super(__class__, self).__hash__ is not None]', '    return inner()']; attrs[n] = 'meth'
        elif k == 'shared' and self.gfn: n = self.u('sh'); body += ['%s = %s' % (n, self.choice(self.gfn))]; attrs[n] = 'meth'
        elif k == 'getattr' and slots is None: body += ['def __getattr__(self, n):', '    if n.startswith("ga_"): return n', '    raise AttributeError(n)']
        elif k == 'oddname': body += ['locals()[%r] = %s' % (self.choice(['a b', '\u00e9', '1']), self.atom())]
        elif k == 'setname': body += ['%s = functools.cached_property(lambda self: 5)' % self.u('sn')]
    def after(self):
        """Changes to classes after their creation."""
        for _ in range(self.int(0, 3)):
            if not self.cls: return
            c = self.choice(self.cls)
            k = self.weighted([(3, 'attr'), (2, 'meth'), (1, 'name'), (1, 'qual'), (1, 'module'), (1, 'doc'), (2, 'reg'), (1, 'del'), (1, 'docnone'), (1, 'selfin')])
            self.label('after:' + k)
            if k == 'attr': self.emit('%s.%s = %s' % (c.name, self.u('x'), self.atom() if c.isabc else self.val()))
            elif k == 'meth': n = self.u('xm'); self.emit('%s.%s = lambda self: ["patched", %s]' % (c.name, n, self.expr(Scope([]), 1))); c.attrs[n] = c.own[n] = 'meth'
            elif k == 'name':
                if '__p' not in (c.slots or ''): self.emit('%s.__name__ = %r' % (c.name, self.choice(['Zed', 'caf\u00e9', c.name + 'x'])))
            elif k == 'qual': self.emit('%s.__qualname__ = %r' % (c.name, self.choice(['A.B', 'f.<locals>.Q'])))
            elif k == 'module': self.emit('%s.__module__ = %r' % (c.name, self.choice(['nosuch.mod', 'json', '__main__'])))
            elif k == 'doc': self.emit('%s.__doc__ = %s' % (c.name, self.atom().replace(r'\ud800', 'q')))
            elif k == 'docnone': self.emit('%s.__doc__ = None' % c.name)
            elif k == 'reg' and c.isabc and not self.must & {o.name for o in self.cls}:
                others = [o.name for o in self.cls[:self.cls.index(c)] if not issubclass(c.skel, o.skel)] + ([] if c.builtin else ['int', 'collections.OrderedDict', 'decimal.Decimal'])
                for o in self.sample(others, 1, 2): self.emit('%s.register(%s)' % (c.name, o)); self.must.update((o, c.name))
                self.label('registered')
            elif k == 'del' and c.own:
                a = self.choice(sorted(c.own))
                if not a.startswith('__') and c.own[a] != 'x': self.emit('if %r in %s.__dict__ and %r not in getattr(%s, "__abstractmethods__", ()): del %s.%s' % (a, c.name, a, c.name, c.name, a))

CPROBE = '''
def classes_of(o):
    out = []
    def add(x):
        if isinstance(x, type):
            if not any(x is y for y in out): out.append(x)
        elif isinstance(x, (list, tuple)):
            for y in x: add(y)
    add(o)
    return out
def tryit(f, *a):
    try: return use(f(*a))
    except Exception as e: return ['raised', type(e).__name__, noaddr(str(e))]
def report(cs, picks):
    out = []
    for c in cs:
        out.append([c.__name__, [b.__name__ for b in type.__dict__['__mro__'].__get__(c)], type(c).__name__, c.__doc__])
        out.append([tryit(issubclass, c, d) for d in cs] + [tryit(issubclass, int, c), tryit(issubclass, __import__('collections').OrderedDict, c)])
        out.append(tryit(lambda: sorted(getattr(c, '__abstractmethods__', ()))))
        out.append(sorted(n for n in dir(c) if not n.startswith('__')))
        out.append([tryit(f) for f in (lambda: c.ma, lambda: c.mm(), lambda: c.mp, lambda: type(c).mcm(), lambda: len(c), lambda: c[3] if '__class_getitem__' in c.__dict__ else 0, lambda: c.tag, lambda: c.__annotations__)])
        try: i = c()
        except Exception as e: out.append(['no instance', type(e).__name__, noaddr(str(e))]); continue
        out.append([tryit(isinstance, i, d) for d in cs])
        out.append([tryit(f) for f in (lambda: hash(i) if type(c).__hash__ and c.__hash__ is not object.__hash__ and not isinstance(i, BaseException) and 'R' else hash(i) * 0, lambda: i == i, lambda: bool(i), lambda: i() if callable(i) else None, lambda: i.ga_x, lambda: i < i, lambda: format(i, 'q') if c.__format__ is not object.__format__ else 0,
                    lambda: str(i) if '0x' not in str(i) else 0)])
        for n in sorted(n for n in dir(c) if not n.startswith('__') and n[:2] in ('m1', 'cm', 'sm', 'p1', 'de') or n[:1] in 'mpcslagxk' and n[-1:].isdigit())[:30]:
            try: v = getattr(i, n)
            except Exception as e: out.append([n, type(e).__name__, noaddr(str(e))]); continue
            if callable(v) and not isinstance(v, type):
                out.append([n, tryit(v)] + [tryit(v, p) for p in picks])
            else: out.append([n, v])
        for s in ('s1', 's2', 's3', 'newattr'):
            out.append([s, tryit(setattr, i, s, 5), tryit(getattr, i, s)])
    return out
def probe(o): return report(classes_of(o), PICKS)
'''
