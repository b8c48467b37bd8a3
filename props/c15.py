import base64, struct
from hypothesis import strategies as st
from gen import B
from gen_data import Data, PRELUDE
from gen_inst import Inst, IPRE
from driver import Skip

BUDGET = {'quick': dict(cases=5000, seconds=240), 'thorough': dict(cases=80000, seconds=800)}
RULE = ('A case is either a generated importable module with classes (20 kinds of pickling hooks, built-in bases, slots, enumerations, named tuples, dataclasses, registered reducers, metaclasses with reducers, out-of-band buffers, objects with persistent ids) and a graph of their instances, data, functions and methods, '
        'written and read through a drawn interface (dumps, file, Pickler kept over several dumps, persistent ids, reducer_override, dispatch_table, fast mode, out-of-band buffers) by pickle and by dill in all four combinations, comparing results and the hooks run; '
        'or a hand-made pickle stream of protocols 0-5 with old names and encodings. Non-trivial: pickle itself can do it, and hooks run or a special interface is used.')
ASSUMPTIONS = ['objects which need the extensions of dill (ranges, methods, singletons, arrays, functools and operator objects) may be written with helpers of dill']

EXTRA = '''
import functools, operator, pickle, dataclasses, typing
class Color(enum.Enum):
    RED = 1
    GREEN = 'g'
class Perm(enum.IntFlag):
    R = 4
    W = 2
NT = collections.namedtuple('NT', 'x y', defaults=[3])
class TNT(typing.NamedTuple):
    a: int
    b: str = 'q'
@dataclasses.dataclass
class DC:
    x: int = 1
    y: list = dataclasses.field(default_factory=list)
@dataclasses.dataclass(frozen=True, slots=True)
class FDC:
    x: int = 1
class Exc(Exception):
    def __init__(self, a, b=2): super().__init__(a); self.b = b
class Outer:
    class Inner:
        def meth(self, x=1): return x
        @classmethod
        def cm(cls): return cls
        @staticmethod
        def sm(): return 5
    def f(self): return 6
def func(x=1): return x
def other(x=1): return x
class Six:
    def __reduce__(self): return (Six, (), {'s': 1}, None, None, set_six)
def set_six(o, s): o.six = s
class Seven(list):
    def __reduce__(self): return (Seven, (), {'a': 1}, iter([1, 2]), None)
class ByName:
    def __reduce__(self): return 'BYNAME'
BYNAME = ByName()
class Meta(type): pass
def make_dyn(n): return Meta(n, (), {'made': 1})
copyreg.pickle(Meta, lambda c: (make_dyn, (c.__name__,)) if '<' in c.__qualname__ or c.__dict__.get('dyn') else c.__qualname__)
class MetaC(metaclass=Meta): pass
DYN = Meta('DYN', (), {'dyn': 1})
class Over:
    def __init__(self, k=0): self.k = k
def over_made(k): o = Over.__new__(Over); o.k = ('over', k); return o
class Pers:
    def __init__(self, k): self.k = k
PERS = {k: Pers(k) for k in (1, 'a', (2, 3))}
class Buf:
    _NOLOG = True
    def __init__(self, b): self.b = bytearray(b)
    def __reduce_ex__(self, p):
        if p >= 5: return (Buf, (pickle.PickleBuffer(self.b),))
        return (Buf, (bytes(self.b),))
class Ext: pass
class BadGet:
    def __getattr__(self, n): 
        if n.startswith('_') : raise AttributeError(n)
        return n
class Slot:
    __slots__ = ('a', '__weakref__')
class Prop:
    @property
    def __dict__(self): return {'x': 1}
'''
SPECIAL = ['Color.RED', 'Perm.R | Perm.W', 'NT(1)', 'TNT(2)', 'DC(3, [NT(1, [])])', 'FDC(4)', 'Exc(1)', 'Outer.Inner', 'Outer.Inner()', 'Six()', 'Seven()', 'BYNAME', 'MetaC', 'MetaC()', 'DYN', 'Over(4)', 'Over()', 'Ext', 'Ext()', 'BadGet()', 'func', 'other', 'Color', 'NT', 'DC', 'len',
           'collections.OrderedDict', 'datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc)', 'decimal.Decimal("1.1")', 'uuid.UUID(int=5)', 'pathlib.PurePosixPath("a/b")', 're.compile("a+")', 'fractions.Fraction(1, 2)', 'typing.List[int]', 'typing.Optional[str]', 'list[int]', 'type(NT(1))', 'Exc', 'bytearray(b"xyz")', 'array.array("i", [1])', 'typing.Any', 'io.BytesIO(b"ab")', 'pickle.PickleBuffer' ,'io.StringIO("abc")', 'int | None', 'Slot']
NEEDEXT = ['range(3)', 'slice(1, 2)', 'Ellipsis', 'NotImplemented', 'type(None)', 'Outer.Inner().meth', 'Outer.Inner.cm', 'Outer.Inner.sm', 'functools.partial(func, 3)', 'operator.itemgetter(1)', 'operator.attrgetter("a")', '[1, 2].append', '(5).__add__', 'type(Ellipsis)', 'Outer.f', 'str.join', 'object.__init__', 'dict.fromkeys', 'functools.lru_cache(None)', 'int', 'type', 'iter([1, 2])', 'operator.methodcaller("m", 2)', 'zip([1], [2])', 'map(func, [1])', '{}.get', 'types.MethodType(func, 3)', 'list', 'enumerate([1])', 'object()', 'object', 'property', 'types.SimpleNamespace(a=1)', 'dict', 'types.FunctionType', 'Prop()']

class G(Inst):
    ext = False
    LEAFS = ['datetime.date(2020, 1, 2)', 'decimal.Decimal("1.5")', 'fractions.Fraction(1, 3)', 'collections.OrderedDict', 'datetime.timedelta(3)', 'uuid.UUID(int=7)']
    def val(self):
        k = self.weighted([(6, 'old'), (3, 'special'), (1, 'ext')])
        if k == 'special': self.label('special'); return self.choice(SPECIAL)
        if k == 'ext' and self.allow: self.label('ext'); self.pure = False; return self.choice(NEEDEXT)
        return super().val()
    def atom(self, hashable=True):
        a = super().atom()
        if a in ('Ellipsis', 'NotImplemented'): a = 'None'
        return a

# hand-made streams
def raw_value(b, depth, proto, enc):
    k = b.weighted([(3, 'int'), (3, 'str'), (2, 'none'), (2, 'list' if depth else 'none'), (2, 'tuple' if depth else 'int'), (2, 'dict' if depth else 'str'), (1, 'get'), (1, 'glob'), (1, 'float'), (1, 'call' if depth else 'glob'), (1, 'setop' if depth else 'none'), (1, 'bytes')])
    def sub(): return raw_value(b, depth - 1, proto, enc)
    if k == 'int':
        i = b.choice([0, 1, -1, 255, 256, 65535, 65536, 2**31-1, -2**31, 2**40, -2**70])
        return b.choice([b'I%d\n' % i, b'L%dL\n' % i, b'I01\n', b'I00\n', b'K' + bytes([i & 255]), b'M' + struct.pack('<H', i & 65535), b'J' + struct.pack('<i', i % 2**31), b'\x8a\x02\xff\x00', b'\x8a\x00', b'\x8b\x01\x00\x00\x00\x80'])
    if k == 'str':
        t = b.choice([b'', b'abc', b'a\xe9\xff', b"it's", b'x\n'])
        return b.choice([b'S' + repr(t).encode()[1:] + b'\n', b'U' + bytes([len(t)]) + t, b'T' + struct.pack('<i', len(t)) + t, b'X\x03\x00\x00\x00\xe2\x82\xac', b'V\\u20ac\\u005c\n', b'\x8c\x02ab', b'\x8d' + struct.pack('<Q', 1) + b'z', b'X\x03\x00\x00\x00\xed\xa0\x80'])
    if k == 'bytes': return b.choice([b'C\x02\xff\x00', b'B\x01\x00\x00\x00a', b'\x8e' + struct.pack('<Q', 1) + b'z', b'\x96' + struct.pack('<Q', 2) + b'zz'])
    if k == 'none': return b.choice([b'N', b'\x88', b'\x89'])
    if k == 'float': return b.choice([b'F1.5\n', b'G' + struct.pack('>d', 2.25), b'Finf\n', b'F-0.0\n'])
    memo = b.choice([b'', b'p%d\n' % b.mi, b'q' + bytes([b.mi]), b'r' + struct.pack('<I', b.mi), b''])
    if memo: b.memo.append(b.mi); b.mi += 1
    if k == 'list':
        items = [sub() for _ in range(b.int(0, 3))]
        return b.choice([b']' + memo + b''.join(i + b'a' for i in items), b'(l' + memo + b''.join(i + b'a' for i in items), b']' + memo + b'(' + b''.join(items) + b'e', b'(' + b''.join(items) + b'l' + memo])
    if k == 'tuple':
        items = [sub() for _ in range(b.int(0, 4))]
        if len(items) in (1, 2, 3) and b.bool(): return b''.join(items) + b'\x84\x85\x86\x87'[len(items):len(items)+1] + memo
        return b'(' + b''.join(items) + b't' + memo if items or b.bool() else b')'
    if k == 'dict':
        items = [b.choice([b'K\x01', b'S\'k\'\n', b'U\x01a', b'N', b'\x8c\x01u']) + sub() for _ in range(b.int(0, 3))]
        return b.choice([b'}' + memo + b''.join(i + b's' for i in items), b'(' + b''.join(items) + b'd' + memo, b'}' + memo + b'(' + b''.join(items) + b'u'])
    if k == 'setop': return b.choice([b'\x8f' + memo + b'(K\x01K\x02\x90', b'(K\x01K\x02\x91' + memo])
    if k == 'get' and b.memo:
        i = b.choice(b.memo); return b.choice([b'g%d\n' % i, b'h' + bytes([i]), b'j' + struct.pack('<I', i)])
    if k == 'call':
        return b.choice([b'c__builtin__\nset\n(]' + sub() + b'atR', b'ccopy_reg\n_reconstructor\n(ccollections\nUserDict\nc__builtin__\nobject\nNtR}S\'data\'\n}sb', b'c__builtin__\nxrange\n(K\x00K\x05K\x01tR', b'(icollections\nOrderedDict\n', b'ccollections\nOrderedDict\n)\x81', b'cUserDict\nUserDict\n)R', b'c_codecs\nencode\n(X\x02\x00\x00\x00\xc3\xbfX\x06\x00\x00\x00latin1tR',
                         b'cdatetime\ndate\n(U\x04\x07\xe4\x01\x02tR', b'ccollections\ndeque\n(]' + sub() + b'atR', b'cexceptions\nValueError\n(' + sub() + b'tR', b'c__builtin__\nlong\n(K\x05tR', b'c__builtin__\nunicode\n(tR', b'c__builtin__\nbytearray\n(C\x02abtR', b'c__builtin__\nslice\n(K\x00K\x05NtR', b'cbuiltins\ngetattr\n(cbuiltins\nstr\nX\x04\x00\x00\x00jointR', b'\x8c\x0bcollections\x8c\x07Counter\x93)R', b'cfractions\nFraction\n(S\'1/2\'\ntR',
                         b'cdatetime\ntimedelta\n(K\x01K\x02K\x03tR', b'cbuiltins\ncomplex\n(K\x01K\x02tR', b'c__builtin__\nobject\n)R', b'ctypes\nSimpleNamespace\n)R}S\'a\'\nK\x01sb'])
    return b.choice([b'c__builtin__\nrange\n', b'c__builtin__\nint\n', b'cos.path\njoin\n', b'c__builtin__\nunicode\n', b'c__builtin__\nxrange\n', b'cexceptions\nKeyError\n', b'cStringIO\nStringIO\n', b'cbuiltins\nlen\n', b'\x8c\x08builtins\x8c\x03len\x93', b'citertools\nizip\n', b'curllib\nquote\n', b'\x8c\x0bcollections\x8c\x10OrderedDict.keys\x93', b'c__builtin__\nintern\n', b'cfunctools\npartial\n', b'ctypes\nFunctionType\n'])

@st.composite
def strat(draw):
    b = G(draw)
    if b.chance(25):
        b.memo = []; b.mi = 0
        proto = b.choice([0, 1, 2, 3, 4, 5])
        enc = b.choice([None, 'latin1', 'bytes', 'ASCII', 'utf-8'])
        kw = {}
        if enc: kw['encoding'] = enc
        if b.chance(30): kw['errors'] = b.choice(['strict', 'replace', 'ignore', 'surrogateescape'])
        if b.chance(30): kw['fix_imports'] = b.bool()
        data = (b'\x80' + bytes([proto]) if proto >= 2 or b.bool() else b'') + raw_value(b, 3, proto, enc) + b.choice([b'', b'0N', b'2\x86', b'(N1'] if False else [b'', b'', b'2\x86']) + b'.' + b.choice([b'', b'', b'junk'])
        return dict(raw=base64.b64encode(data).decode(), kw=kw, labels=['raw'])
    b.setup_inst(); b.pure = True; b.allow = b.chance(50)
    b.emit(IPRE.rstrip())
    for l in EXTRA.strip().split('\n'): b.emit(l)
    how = b.weighted([(5, 'dumps'), (2, 'file'), (2, 'many'), (1, 'clear'), (2, 'pers'), (2, 'override'), (2, 'table'), (1, 'fast'), (2, 'oob')])
    for _ in range(b.int(1, 3)): b.klass()
    for _ in range(b.int(1, 6)):
        if b.chance(40): Data.node(b) if b.bool() and how != 'fast' else b.node()
        else: b.inst()
    if not b.insts: b.inst()
    for _ in range(b.int(0, 5)): b.state()
    if how != 'fast':
        for _ in range(b.int(0, 3)): b.edge()
    proto = b.choice([None, 5, 4, 3, 2, 1, 0])
    if b.need2 and proto in (0, 1): proto = b.int(2, 5)
    kw, lkw = {}, {}
    extra = []
    if how == 'pers': extra = ['PERS[1]', 'PERS["a"]', '[PERS[(2, 3)]]']
    if how in ('override', 'table'): extra = ['Over(%s)' % b.small(), '[Over()]']
    if how == 'oob':
        proto = 5; extra = ['Buf(b"abc")', '[Buf(b"")]', 'Buf(bytes(300))']; kw['cb'] = b.int(0, 1)
        if b.chance(30): extra.append('np.arange(5)'); b.emit('import numpy as np'); b.pure = False
    elif b.chance(15): extra = ['Buf(b"abc")']
    if b.chance(30): kw['fix_imports'] = b.bool(); lkw['fix_imports'] = kw['fix_imports'] if b.bool() else True
    if b.chance(20): lkw['encoding'] = b.choice(['latin1', 'bytes', 'ASCII'])
    if b.chance(10): lkw['errors'] = 'strict'
    if lkw.get('fix_imports') is False and kw.get('fix_imports') is not False and (proto is not None and proto < 3): lkw.pop('fix_imports')
    names = [n for n, _ in b.nodes]
    if b.chance(10): extra.append('pickle.PickleBuffer(bytearray(b"direct"))' if proto == 5 else '0')
    roots = (b.sample(names, 1, 6) if b.bool() else names) + b.sample(extra, 1 if how in ('pers', 'override', 'table', 'oob') else 0)
    if b.chance(60): roots.insert(b.int(0, len(roots)), b.choice(SPECIAL)); b.label('special')
    if b.allow and b.chance(50): roots.insert(b.int(0, len(roots)), b.choice(NEEDEXT)); b.label('ext'); b.pure = False
    if b.chance(20): roots.append(b.choice(names))
    lines = b.lines + ['OBJ = [%s]' % ', '.join(roots)]
    if b.chance(15): lines.append('copyreg.add_extension("hm", %r, %d)' % (b.choice(['Ext', 'Outer.Inner', 'func', 'Over', 'Color', 'BYNAME', b.cls[0]['name']]), b.choice([1, 200, 300, 70000]))); b.label('extension registry')
    labels = [l for l in b.labels if not l.startswith('base:')]
    # bytes are written with helpers of _codecs at protocols below 3; all of this is plain pickle
    pure = b.pure and not b.labels & {'biglist', 'ns', 'iter', 'view'}
    return dict(src='\n'.join(lines) + '\n', how=how, proto=proto, kw=kw, lkw=lkw, pure=pure, recurse=b.choice([None, None, True]), byref=b.choice([None, None, True]), labels=sorted(labels))

def cases(tier): return strat()

def run(case, ctx):
    z = ctx.zygote(mods=('vlib', 'vdesc', 'ops_drop'))
    ctx.label(*case['labels'])
    if 'raw' in case:
        r = z.call('ops_drop', 'raw', data=case['raw'], kw=case['kw'])
        if 'skip' in r: ctx.label('raw rejected'); return
        ctx.nontrivial(); return
    ctx.label('how:' + case['how'], 'proto%s' % case['proto'], 'recurse%s' % case['recurse'])
    r = z.call('ops_drop', 'run_case', src=case['src'], how=case['how'], proto=case['proto'], kw=case['kw'], lkw=case['lkw'], pure=case['pure'], recurse=case['recurse'], byref=case['byref'])
    if 'skip' in r: raise Skip(r['skip'])
    if r['pure']: ctx.label('pure')
    ctx.nontrivial(r['hooks'] > 0 or case['how'] not in ('dumps', 'file'))
