from hypothesis import strategies as st
from gen import B

BUDGET = {'quick': dict(cases=2000, seconds=240), 'thorough': dict(cases=40000, seconds=800)}
RULE = ('A history of 3 to 14 operations over 24 types (classes deriving from each other, classes with a metaclass, slots, __reduce__ or a copyreg reducer, an importable class, subclasses of built-ins and of ndarray, built-in and library types, types dill itself handles): '
        'register or dill.pickle a save function for a type (also again), register dill\'s own function again, extend(True / False / default), store nested containers of instances through five dill entry points incl. a pickler made before the history, or with Python\'s own Python-coded pickler. '
        'After every operation both registries are compared, entry by entry, with the model (that of Python as captured before dill was imported), and what comes back must show exactly the function registered for the exact type. Non-trivial: at least one registration and a dump with both registered and unregistered types.')
ASSUMPTIONS = ['pickle._Pickler is the standard Python pickler that extend means', 'dill itself may register NumPy types when it first meets them']
PRE = '''
import types, collections, decimal, fractions, datetime, array, copyreg, functools, operator, threading, weakref, json, re
import numpy as np
class A:
    def __init__(self, i): self.i = i
class Zz:
    def __init__(self, i): self.i = i
    def meth(self): return 1
class B(A): pass
class C(B):
    pass
class S:
    __slots__ = ('i',)
    def __init__(self, i): self.i = i
    def __getstate__(self): return (self.i,)
    def __setstate__(self, s): self.i, = s
class Meta(type): pass
class M(metaclass=Meta):
    def __init__(self, i): self.i = i
class M2(M): pass
class R(A):
    def __reduce__(self): return R, (self.i,)
class Cr(A): pass
copyreg.pickle(Cr, lambda o: (Cr, (o.i,)))
class L(list): pass
class D(dict): pass
class I(int): pass
class T(tuple): pass
class E(Exception): pass
class Nd(np.ndarray): pass
class P(functools.partial): pass
TYPES = dict(A=A, B=B, C=C, S=S, M=M, M2=M2, R=R, Cr=Cr, L=L, D=D, I=I, T=T, E=E, Nd=Nd, P=P, dec=decimal.Decimal, frac=fractions.Fraction, date=datetime.date, arr=array.array, ns=types.SimpleNamespace, par=functools.partial, cplx=complex, slc=slice, rng=range, deq=collections.deque, od=collections.OrderedDict, nda=np.ndarray, ig=operator.itemgetter, mp=types.MappingProxyType, ba=bytearray, fs=frozenset)
def setin(c, i):
    o = c(); o.i = i
    return o
MAKE = {k: TYPES[k] for k in ('A', 'B', 'C', 'S', 'M', 'M2', 'R', 'Cr', 'I', 'E', 'dec', 'frac', 'cplx', 'rng', 'ig')}
MAKE.update(L=lambda i: L([i]), D=lambda i: D(i=i), T=lambda i: T([i]), Nd=lambda i: np.array([i]).view(Nd), P=lambda i: P(print, i), date=lambda i: datetime.date(2000 + i, 1, 1), arr=lambda i: array.array('i', [i]), ns=lambda i: types.SimpleNamespace(i=i), par=lambda i: functools.partial(print, i), slc=lambda i: slice(i, 4),
    deq=lambda i: collections.deque([i]), od=lambda i: collections.OrderedDict(i=i), nda=lambda i: np.array([i]), mp=lambda i: types.MappingProxyType({'i': i}), ba=lambda i: bytearray([i]), fs=lambda i: frozenset([i]))
first = lambda o: int(o[0])
attr = lambda o: o.i
IDENT = dict(A=attr, B=attr, C=attr, S=attr, M=attr, M2=attr, R=attr, Cr=attr, ns=attr, L=first, T=first, Nd=first, arr=first, deq=first, nda=first, ba=first, I=int, dec=int, frac=int, E=lambda o: o.args[0], D=lambda o: o['i'], od=lambda o: o['i'], mp=lambda o: o['i'], P=lambda o: o.args[0], par=lambda o: o.args[0],
    date=lambda o: o.year - 2000, cplx=lambda o: int(o.real), slc=lambda o: o.start, rng=len, ig=lambda o: o.__reduce__()[1][0], fs=lambda o: min(o))
def outer(a):
    def inner(): return a
    return inner
ADDED = {'lambda': lambda x: x + 1, 'clos': outer(3), 'cell': outer(3).__closure__[0], 'code': outer.__code__, 'meth': Zz(3).meth, 'prop': property(outer), 'sm': staticmethod(outer), 'cm': classmethod(outer), 'module': json, 'partial': functools.partial(outer, 2), 'lock': threading.Lock(), 'rlock': threading.RLock(),
  'mp': types.MappingProxyType({1: 2}), 'ell': Ellipsis, 'ni': NotImplemented, 'noneT': type(None), 'slice': slice(1, 2), 'ag': operator.attrgetter('a'), 'ig': operator.itemgetter(2), 'wrap': ''.join, 'md': dict.__dict__['fromkeys'], 'sw': int.__add__, 'nt': collections.namedtuple('n', 'a b'), 'local': (lambda: type('Loc', (), {'a': 1}))(), 'lru': functools.lru_cache(outer), 'gs': type(outer).__code__, 'glob': [Zz], 'pat': re.compile('a'), 'list': [1, {2: (3,)}], 'inst': Zz(4)}
'''
NAMES = 'A B C S M M2 R Cr L D I T E Nd P dec frac date arr ns par cplx slc rng deq od nda ig mp ba fs'.split()
ADDED = 'lambda clos cell code meth prop sm cm module partial lock rlock mp ell ni noneT slice ag ig wrap md sw nt local lru gs glob pat list inst'.split()
# what the standard pickler can store only through dill's registry, or what C and Python treat alike
@st.composite
def strat(draw):
    b = B(draw)
    pool = b.sample(NAMES, 2, 6)
    fam = b.choice([[], ['A', 'B', 'C'], ['M', 'M2'], ['nda', 'Nd'], ['par', 'P'], ['A', 'R', 'Cr']])
    pool += [x for x in fam if x not in pool]
    used = []
    def tree(d=0, names=None):
        k = b.int(0, 5)
        if d >= 3 or k <= 2:
            n = b.choice(names or pool)
            return '%s:%d:%s' % (n, b.int(0, 9), b.choice('us'))
        if k == 3: return {'k%d' % i: tree(d + 1, names) for i in range(b.int(1, 3))}
        return [b.choice(['list', 'tuple'])] + [tree(d + 1, names) for _ in range(b.int(1, 4))]
    ops = []
    for _ in range(b.int(3, 14)):
        k = b.weighted([(5, 'register'), (5, 'dumps'), (4, 'extend'), (2, 'stock'), (2, 'added'), (1, 'original')])
        if k == 'register': ops.append([k, b.choice(pool), b.choice(['register', 'pickle'])])
        elif k == 'original': ops.append([k, b.choice(pool)])
        elif k == 'extend': ops.append([k, b.choice([True, False, False, None]), b.bool()])
        elif k == 'dumps':
            o = {}
            if b.bool(): o['protocol'] = b.int(0, 5)
            if b.chance(30): o['recurse'] = b.bool()
            if b.chance(30): o['byref'] = b.bool()
            ops.append([k, tree(), b.choice(['dumps', 'copy', 'dump', 'pickler', 'sub', 'old']), o])
        elif k == 'stock': ops.append([k, tree(names=[p for p in pool if p not in ('mp', 'slc')] or ['dec']), b.int(2, 5)])
        else: ops.append([k, b.choice(ADDED), b.int(0, 5)])
    return dict(ops=ops)

def cases(tier): return strat()

def run(case, ctx):
    z = ctx.zygote(mods=('stockreg', 'vlib', 'vdesc', 'ops_reg', 'numpy'))
    r = z.call('ops_reg', 'history', src=PRE, ops=case['ops'], types_src='')
    ctx.label(*['op:' + o[0] for o in case['ops']])
    ctx.nontrivial(r['reg'] and r['tagged'] and r['plain'])
