from hypothesis import strategies as st
from gen import opts
from gen_data import Data, PRELUDE
from gen_fn import PROBE
from rt import roundtrip

BUDGET = {'quick': dict(cases=4000, seconds=240), 'thorough': dict(cases=50000, seconds=800)}
RULE = ('A case is 1-3 generated definitions (collections.namedtuple with defaults/rename/qualified names, subclasses, typing.NamedTuple with methods; dataclasses with every decorator option, every kind of field, '
        'inheritance and make_dataclass; generic classes and protocols; typing and built-in parametrisations of generated and imported types), instances of them and the objects in containers; structure and generated '
        'uses (construction, comparison, order, hash, repr, replace, asdict, errors, get_args, subclassing) are compared. Non-trivial: any case with a default, option, inheritance, method or parametrised generated class.')
ASSUMPTIONS = ['TypeVars are importable ones (dill stores them by name); PEP 695 syntax is outside of the domain', 'annotations of the generated __new__ of a typing.NamedTuple and changed docstrings of namedtuple fields are outside of the domain']

P = PROBE + '''
import dataclasses, typing, collections
def t(f, *a, **k):
    try: return f(*a, **k)
    except Exception as e: return ['raised', type(e).__name__, noaddr(str(e))]
def nt(c, args):
    out = [c._fields, c._field_defaults, t(lambda: c._make(args)), t(lambda: c(*args)), c.__match_args__, c.__doc__, list(c.__annotations__) if hasattr(c, '__annotations__') else 0, c.__qualname__, c.__module__]
    x = t(lambda: c(*args))
    if isinstance(x, tuple):
        out += [repr(x) , x == tuple(x), t(x._asdict), t(lambda: x._replace(**{c._fields[0]: 99})), [getattr(x, f) for f in c._fields], t(lambda: x.m()), t(lambda: x.prop), t(lambda: type(x).cm()), str(t(lambda: x < tuple(x)))]
    return out
def dc(c, args):
    fs = dataclasses.fields(c)
    out = [[f.name, f.init, f.repr, f.compare, f.hash, f.kw_only, f.default is dataclasses.MISSING, f.default_factory is dataclasses.MISSING, str(f.type), dict(f.metadata), str(f._field_type)] for f in fs]
    out += [noaddr(str(c.__dataclass_params__)), dataclasses.is_dataclass(c), getattr(c, '__match_args__', 0), sig(c.__init__), str(t(lambda: c.__slots__))]
    try: x = c(**{f.name: a for f, a in zip([f for f in fs if f.init], args)}, **{n: 3 for n in IV if n in c.__init__.__code__.co_varnames})
    except Exception as e: return out + [type(e).__name__, noaddr(str(e))]
    out += [noaddr(repr(x)), t(dataclasses.asdict, x), t(dataclasses.astuple, x), x == x, t(lambda: x == dataclasses.replace(x)), t(lambda: x < x), t(lambda: x <= x), t(lambda: hash(x) if c.__hash__ is not object.__hash__ else 0),
            t(setattr, x, fs[0].name if fs else 'zz', 5), t(setattr, x, 'newattr', 1), t(lambda: x.m()), t(c), t(c, *args), t(lambda: dataclasses.replace(x, zz=1))]
    out.append(noaddr(repr(x)))
    return out
def sub(c):
    ns = {}
    @dataclasses.dataclass(frozen=c.__dataclass_params__.frozen, kw_only=True)
    class Sub(c):
        zz: int = 7
    return [[f.name for f in dataclasses.fields(Sub)], sig(Sub.__init__)]
def gen(c):
    out = [t(lambda: c.__parameters__), t(lambda: typing.get_args(c)), t(lambda: typing.get_origin(c)), noaddr(repr(c)) , t(lambda: c == c), t(lambda: hash(c) is not None), str(t(lambda: isinstance(3, c))), t(lambda: typing.get_type_hints(c)), type(t(lambda: c())).__name__,
           [typing.get_args(x) for x in getattr(c, '__orig_bases__', ())], t(lambda: c[int]), t(lambda: c | None)]
    return out
def one(x):
    if isinstance(x, type) and hasattr(x, '_fields') and issubclass(x, tuple): return nt(x, ARGS[:len(x._fields)])
    if isinstance(x, type) and hasattr(x, '__dataclass_fields__'): return dc(x, ARGS) + [t(sub, x)]
    if isinstance(x, tuple) and hasattr(x, '_fields'): return [repr(x), x._asdict(), [getattr(x, f) for f in x._fields]]
    if hasattr(x, '__dataclass_fields__'): return [noaddr(repr(x)), t(dataclasses.asdict, x), t(lambda: hash(x) if type(x).__hash__ is not object.__hash__ else 0), t(lambda: x.m())]
    return gen(x)
def probe(o): return [one(x) for x in o]
'''

class Spec(Data):
    def simple(self): return self.choice(['1', '"d"', 'None', '(1, 2)', '2.5', 'True'])
    def setup(self):
        self.dcs = []; self.objs = []; self.gens = []; self.iv = []; self.n = 0
    def u(self, p):
        self.n += 1; return '%s%d' % (p, self.n)
    def namedtuple(self):
        n = self.u('P'); k = self.int(0, 4)
        fields = [self.choice(['a', 'b', 'c', 'x_y', 'Z', 'caf\u00e9']) + str(i) for i in range(k)]
        kw = []
        if self.chance(40) and k: kw.append('defaults=(%s)' % ''.join(self.choice(['1, ', '[], ', 'None, ', '"q", ']) for _ in range(self.int(1, k)))); self.label('defaults')
        if self.chance(20) and k: fields[self.int(0, k-1)] = self.choice(['def', '_x', 'class', '1a']); kw.append('rename=True'); self.label('rename')
        if self.chance(15): kw.append('module=%r' % self.choice(['nosuch.mod', '__main__']))
        self.emit('%s = collections.namedtuple(%r, %s%s)' % (n, n, self.choice([repr(fields), repr(' '.join(fields))]), ''.join(', ' + x for x in kw)))
        self.label('namedtuple')
        w = self.weighted([(4, ''), (2, 'sub'), (1, 'qual'), (1, 'doc'), (1, 'attr'), (1, 'nested')])
        base = n
        if w == 'sub':
            n = self.u('P')
            self.emit('class %s(%s):' % (n, base))
            for l in self.choice([['__slots__ = ()'], ['extra = 1'], ['"sub doc"']]) + ['def m(self): return ["m", len(self), super().__repr__()]'] + self.choice([[], ['def __new__(cls, *a): return super().__new__(cls, *a)'], ['@property', 'def prop(self): return len(self)', '@classmethod', 'def cm(cls): return cls.__name__'], ['def __eq__(self, o): return True', '__hash__ = %s.__hash__' % base]]): self.emit('    ' + l)
            self.label('ntsub')
        elif w == 'qual': self.emit('%s.__qualname__ = "Outer.%s"' % (n, n))
        elif w == 'doc': self.emit('%s.__doc__ = "other"' % n)
        elif w == 'attr': self.emit('%s.later = [1]' % n); self.emit('%s.m = lambda self: ["later", len(self)]' % n)
        elif w == 'nested':
            o = self.u('O'); self.emit('class %s:' % o); self.emit('    inner = %s' % n); self.emit('%s.__qualname__ = "%s.inner"' % (n, o))
        self.objs.append(n)
        if self.bool(): self.objs.append('%s._make([%s])' % (n, ', '.join(self.val() for _ in range(k))))
    def ntclass(self):
        n = self.u('T')
        self.emit('class %s(typing.NamedTuple):' % n)
        k = self.int(1, 3); body = []; d = False
        if self.chance(40): body.append('"doc of %s"' % n)
        for i in range(k):
            d = d or self.chance(30)
            body.append('f%d: %s%s' % (i, self.choice(['int', 'str', '"list[int]"', 'typing.Optional[int]']), ' = %s' % self.simple() if d else ''))
        for x in self.sample(['meth', 'prop', 'cm', 'repr', 'const'], 0, 3):
            body += {'meth': ['def m(self, x=1): return [self[0], x]'], 'prop': ['@property', 'def prop(self): return [self.f0]'], 'cm': ['@classmethod', 'def cm(cls): return cls.__name__'], 'repr': ['def __repr__(self): return "R"'], 'const': ['def __str__(self): return "S"']}[x]
        for l in body: self.emit('    ' + l)
        self.label('NamedTuple'); self.objs.append(n)
        if self.bool(): self.objs.append('%s(%s)' % (n, ', '.join(self.simple() for _ in range(k))))
    def dataclass(self):
        n = self.u('D')
        base = self.choice(self.dcs) if self.dcs and self.chance(45) else None
        frozen = base[1] if base else self.chance(25)
        o = []
        if frozen: o.append('frozen=True')
        eq = True
        for x in self.sample(['init=False', 'repr=False', 'eq=False', 'order=True', 'unsafe_hash=True', 'match_args=False', 'kw_only=True', 'slots=True', 'weakref_slot=True'], 0, 3): o.append(x)
        if 'eq=False' in o and 'order=True' in o: o.remove('order=True')
        if 'weakref_slot=True' in o and ('slots=True' not in o or base): o.remove('weakref_slot=True')
        if base and 'slots=True' in o and base[2] is False and False: pass
        kwonly = 'kw_only=True' in o
        body = []; anydef = bool(base and base[3])
        for i in range(self.int(0, 4)):
            f = self.u('f'); k = self.weighted([(4, 'plain'), (4, 'default'), (2, 'factory'), (2, 'field'), (1, 'initvar'), (1, 'classvar'), (1, 'kwonly')])
            t = self.choice(['int', '"str"', 'typing.Any', 'list', 'typing.Optional[int]'])
            need = anydef and not kwonly
            if k == 'plain' and not need: body.append('%s: %s' % (f, t))
            elif k in ('default', 'plain'): body.append('%s: %s = %s' % (f, t, self.simple())); anydef = True
            elif k == 'factory': body.append('%s: %s = dataclasses.field(default_factory=%s)' % (f, t, self.choice(['list', 'dict', 'lambda: [1]', 'int']))); anydef = True
            elif k == 'field':
                a = ['default=%s' % self.simple()] + self.sample(['repr=False', 'compare=False', 'hash=False', 'kw_only=True', 'metadata={"a": [1]}', 'init=False'], 0, 2)
                body.append('%s: %s = dataclasses.field(%s)' % (f, t, ', '.join(a))); anydef = True
            elif k == 'initvar': body.append('%s: dataclasses.InitVar[int] = 4' % f); anydef = True; self.iv.append(f); self.label('initvar')
            elif k == 'classvar': body.append('%s: typing.ClassVar[int] = %s' % (f, self.simple())); self.label('classvar')
            elif k == 'kwonly' and not kwonly and '_: dataclasses.KW_ONLY' not in body: body.append('_: dataclasses.KW_ONLY'); kwonly = True; self.label('KW_ONLY')
        if self.chance(25): body.append('def m(self): return [type(self).__name__, %s]' % ('repr(super().__repr__() is not None)' if 'slots=True' not in o else '1'))
        if self.chance(15) and not self.iv and not frozen: body.append('def __post_init__(self, *a): self.__class__.__doc__')
        if self.chance(15) and 'order=True' not in o: body.append('def __lt__(self, x): return "lt"')
        if self.chance(15): body.append('def __repr__(self): return "custom"')
        if self.chance(20): body.insert(0, '"doc"')
        how = self.weighted([(5, 'deco'), (1, 'make')])
        if how == 'make' and not base:
            fs = ', '.join(self.choice(['("%s", int)', '("%s", str, dataclasses.field(default_factory=list))', '("%s", "int", 5)']) % self.u('f') for _ in range(self.int(0, 2))) if not True else ', '.join('("%s", int, %s)' % (self.u('f'), self.simple()) for _ in range(self.int(0, 3)))
            self.emit('%s = dataclasses.make_dataclass(%r, [%s], %s)' % (n, n, fs, ', '.join(o + ['namespace={"m": lambda self: ["made"]}']))); anydef = True; self.label('make_dataclass')
        else:
            self.emit('@dataclasses.dataclass(%s)' % ', '.join(o))
            self.emit('class %s%s:' % (n, '(%s)' % base[0] if base else ''))
            for l in body or ['pass']: self.emit('    ' + l)
        self.dcs.append((n, frozen, 'slots=True' in o, anydef))
        self.label('dataclass', *['opt:' + x for x in o])
        if base: self.label('dcsub')
        self.objs.append(n)
        if self.bool() and not ('opt:slots=True' in self.labels and 'init=False' in self.src()): self.emit('try: i%s = %s()' % (n, n)); self.emit('except TypeError: i%s = %s' % (n, n)); self.objs.append('i' + n)
    def generic(self):
        n = self.u('G')
        tv = self.choice(['typing.AnyStr', 'typing.T', 'typing.KT, typing.VT'])
        b = self.weighted([(3, 'typing.Generic[%s]' % tv), (1, 'typing.Protocol[%s]' % tv), (1, 'typing.Protocol'), (1, 'list[int]'), (1, 'dict[str, typing.T]'), (1, 'typing.List[int]'), (1, 'typing.Dict[str, int]'), (2, 'prev' if self.gens else 'typing.Generic[typing.T]'), (1, 'collections.abc.Mapping[str, int]')])
        if b == 'prev':
            g, k = self.choice(self.gens)
            b = g + ('[%s]' % ', '.join(['int'] * k) if k and self.bool() else '')
            k2 = 0
        else: k2 = b.count('typing.KT') + b.count('typing.T]') + b.count('AnyStr') + b.count('VT') if 'Generic' in b or 'Protocol[' in b else 0
        if b.startswith('typing.Protocol') and self.bool(): self.emit('@typing.runtime_checkable')
        self.emit('class %s(%s):' % (n, b))
        body = []
        for x in self.sample(['ann', 'meth', 'const'], 0, 2): body += {'ann': ['x: int'], 'meth': ['def m(self): return [1, type(self).__name__]'], 'const': ['k = 3']}[x]
        for l in body or ['pass']: self.emit('    ' + l)
        self.gens.append((n, {2: 2, 1: 1}.get(k2, 0)))
        if b.startswith('typing.Protocol'): self.gens.pop()
        self.label('genericclass'); self.objs.append(n)
    def texpr(self, d=2):
        own = [g for g, k in self.gens] + [x[0] for x in self.dcs]
        leaf = ['int', 'str', 'None', 'typing.Any', 'typing.T', 'collections.OrderedDict', 'bytes', 'type(None)'] + own
        if d == 0: return self.choice(leaf)
        E = lambda: self.texpr(d - 1)
        k = self.weighted([(3, 'leaf'), (2, 'list[%s]'), (2, 'dict[%s, %s]'), (2, 'typing.Optional[%s]'), (1, 'typing.Union[%s, str, %s]'), (1, 'typing.List[%s]'), (1, 'typing.Dict[str, %s]'), (1, 'tuple[%s, ...]'), (1, 'typing.Tuple[%s, %s]'), (1, 'typing.Callable[[%s], %s]'), (1, 'typing.Callable[..., %s]'),
                           (1, 'collections.abc.Callable[[%s, int], %s]'), (1, 'typing.Literal[1, "a", None]'), (1, 'typing.Annotated[%s, "meta", 3]'), (1, 'typing.Type[%s]'), (1, 'type[%s]'), (1, 'typing.ClassVar[%s]'), (1, 'typing.Final[%s]'), (1, 'un'), (3 if self.gens else 0, 'own'),
                           (1, 'typing.Iterable[%s]'), (1, 'collections.deque[%s]'), (1, 'typing.ForwardRef("X")'), (1, 'typing.Generator[%s, None, %s]'), (1, 'typing.Concatenate[int, ...]'), (1, 'typing.List'), (1, 'typing.Tuple[()]'), (1, 'tuple[()]')])
        if k == 'leaf': return self.choice(leaf)
        if k == 'un': return '(int | %s)' % self.choice(['str', 'None'] + [x[0] for x in self.dcs] + [g for g, _ in self.gens])
        if k == 'own':
            g, n = self.choice(self.gens)
            self.label('param own')
            return g if not n else '%s[%s]' % (g, ', '.join(E0 for E0 in [self.choice(['int', 'str', 'typing.T', 'list[int]']) for _ in range(n)]))
        while '%s' in k: k = k.replace('%s', E() if 'ClassVar' not in k and 'Final' not in k else 'int', 1)
        return k
    def alias(self):
        n = self.u('A'); self.emit('try: %s = %s' % (n, self.texpr())); self.emit('except TypeError: %s = list[int]' % n); self.objs.append(n); self.label('alias')

@st.composite
def strat(draw):
    b = Spec(draw); b.setup()
    b.emit(PRELUDE.rstrip()); b.emit('import typing, dataclasses, collections.abc')
    b.ext = False
    start = len(b.lines)
    for _ in range(b.int(1, 4)): b.choice([b.namedtuple, b.ntclass, b.dataclass, b.dataclass, b.dataclass, b.generic, b.alias, b.alias])()
    if b.chance(30): b.objs.reverse()
    local = b.chance(50)
    if local:
        b.lines[start:] = ['def factory():'] + ['    ' + l for l in b.lines[start:]] + ['    return [%s]' % ', '.join(b.objs), 'OBJ = factory()']
        b.label('local')
    else: b.emit('OBJ = [%s]' % ', '.join(b.objs))
    o = opts(b, byref=(None, None, False))
    args = [b.choice([1, 'a', [2], None, 3]) for _ in range(8)]
    if (b.labels & {'dataclass', 'NamedTuple'} or 'ForwardRef' in b.src()) and o.get('protocol', 4) < 2: o['protocol'] = 2       # dataclasses.Field and typing.ForwardRef have slots and no __getstate__: pickle refuses it, too
    return dict(src=b.src(), opts=o, where=b.choice(['fresh', 'same']), ns='main', pre='', probe='ARGS = %r\nIV = %r\n' % (args, b.iv) + P, gmode='none', labels=sorted(b.labels))

def cases(tier): return strat()

def run(case, ctx):
    ctx.label(*case['labels'], 'proto%s' % case['opts'].get('protocol'), case['where'], 'recurse%s' % case['opts'].get('recurse'))
    ctx.nontrivial(bool(set(case['labels']) - {'local', 'alias', 'namedtuple'}))
    roundtrip(case, ctx)
