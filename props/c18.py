from hypothesis import strategies as st
from gen import B
from props import c01, c02, c03, c05, c06, c07, c10, c11, c13
from props.c17 import BADPRE, SRCS

BUDGET = {'quick': dict(cases=2400, seconds=240), 'thorough': dict(cases=40000, seconds=800)}
RULE = ('Three kinds of case. cut: a graph from the generators of C01, C02, C03, C05, C06, C07, C10, C11 or C13 is stored and every prefix (pickles up to 160 bytes), or up to 400 prefixes at opcode boundaries and drawn places, is loaded in one of five ways: each must raise. '
        'unstorable: a part that cannot be stored (more than 50 kinds), or raises from one of its hooks, is put in a graph below 1 to 4 levels of containers, closures, attributes, globals and class bodies; dumps must raise (exactly the hook\'s exception where there is one), or loads must raise, or the part must come back as the same type. '
        'helpers: pickles, errors, badobjects, badtypes, baditems, with exact, safe and depth, on graphs and lists with good and bad items, compared to what dill.copy does. Non-trivial: at least 30 prefixes; an unstorable part below two levels; a helper case with a good and a bad item.')
ASSUMPTIONS = ['errors raised while loading count as reported']

# expression, and the exception that must come out of dumps (None: any, or the same type back)
UNST = [('(x for x in [1])', None), ('__import__("sys")._getframe()', None), ('mk_tb()', None), ('_coro()', None), ('_ag()', None), ('__import__("threading").Thread()', None), ('__import__("socket").socket()', None), ('memoryview(b"ab")', None),
        ('__import__("mmap").mmap(-1, 10)', None), ('re.match("a", "a")', None), ('re.finditer("a", "aa")', None), ('iter([1, 2])', None), ('map(abs, [1])', None), ('{}.keys()', None), ('{1: 2}.items()', None), ('__import__("hashlib").md5()', None),
        ('__import__("contextvars").ContextVar("v")', None), ('__import__("contextvars").copy_context()', None), ('threading.local()', None), ('__import__("select").poll()', None), ('__import__("zlib").compressobj()', None), ('__import__("struct").Struct("i")', None),
        ('__import__("csv").writer(io.StringIO())', None), ('__import__("sqlite3").connect(":memory:")', None), ('__import__("itertools").count(3)', None), ('__import__("itertools").tee([1])[0]', None), ('threading.Event()', None), ('__import__("queue").Queue()', None), ('__import__("queue").SimpleQueue()', None),
        ('os_scan()', None), ('weakref.finalize(Box, print)', None), ('__import__("subprocess").Popen', None), ('__import__("concurrent.futures").futures.ThreadPoolExecutor(1)', None), ('__import__("random").SystemRandom()', None), ('io.TextIOWrapper(io.BytesIO())', None), ('__import__("ctypes").c_void_p(5)', None), ('__import__("ctypes").pointer(__import__("ctypes").c_int(3))', None), ('__import__("decimal").getcontext()', None), ('__import__("tempfile").TemporaryFile()', None),
        ('type("x", (), {"__reduce_ex__": lambda s, p: 5})()', 'PicklingError'), ('BadReduce(ValueError)', 'ValueError'), ('BadReduce(TypeError)', 'TypeError'), ('BadReduce(KeyError)', 'KeyError'), ('BadReduce(StopIteration)', 'StopIteration'), ('BadReduce(AttributeError)', 'AttributeError'), ('BadReduce(EOFError)', 'EOFError'), ('BadReduce(ImportError)', 'ImportError'), ('BadReduce(RecursionError)', 'RecursionError'), ('BadReduce(RuntimeError)', 'RuntimeError'),
        ('BadReduce(NameError)', 'NameError'), ('BadReduce(NotImplementedError)', 'NotImplementedError'), ('BadReduce(AssertionError)', 'AssertionError'), ('BadReduce(OSError)', 'OSError'), ('BadReduce(KeyboardInterrupt)', 'KeyboardInterrupt'), ('BadReduce(__import__("pickle").PicklingError)', 'PicklingError'), ('WrongReduce()', 'PicklingError'), ('BadState()', 'ZeroDivisionError'), ('BadItems()', 'ZeroDivisionError'), ('BadSlots()', 'RuntimeError')]
BADLOAD = [('LoadFails()', 'LookupError'), ('SetFails()', 'LookupError'), ('NewFails()', 'ArithmeticError')]
PRE = '''import types, collections, re, array, io, weakref, threading, operator, functools, os
''' + BADPRE.replace('Coro = _coro()', '') + '''
class NewFails:
    def __new__(cls, *a):
        if a: raise ArithmeticError('new')
        return object.__new__(cls)
    def __getnewargs__(self): return (1,)
async def _ag():
    yield 1
def mk_tb():
    try: 1 / 0
    except ZeroDivisionError as e: return e.__traceback__
def os_scan():
    with os.scandir(os.path.dirname(io.__file__)) as it: return next(it)
class Box: pass
def box(o):
    b = Box(); b.o = o
    return b
class SBox:
    __slots__ = ('o',)
    def __init__(self, o): self.o = o
def unsm(s): return getattr(s, '__func__', s)
def clos(o): return lambda: o
def dflt(o):
    def f(a=o): return a
    return f
def kwdflt(o):
    def f(*, a=o): return a
    return f
def fattr(o):
    def f(): pass
    f.o = o
    return f
def cls(o):
    class C: a = o
    return C
def glob(n, o):
    g = {'__name__': n, '__builtins__': __builtins__, 'g': o}
    exec('def f(): return g', g)
    return g['f']
def hold(x, o): return o
def prop(o):
    class C:
        @property
        def p(self): return o
    return C
def shared(o):
    l = []; l.append([l, o])
    return l
'''
WRAP = {'list': ('[1, %s]', '%s[1]'), 'tuple': ('(%s, "q")', '%s[0]'), 'dict': ('{"k": %s}', '%s["k"]'), 'box': ('box(%s)', '%s.o'), 'sbox': ('SBox(%s)', '%s.o'), 'clos': ('clos(%s)', '%s()'), 'dflt': ('dflt(%s)', '%s()'), 'kwdflt': ('kwdflt(%s)', '%s()'), 'fattr': ('fattr(%s)', '%s.o'),
        'cls': ('cls(%s)', '%s.a'), 'glob': ('glob("gm", %s)', '%s()'), 'partial': ('functools.partial(hold, 1, %s)', '%s.args[1]'), 'prop': ('prop(%s)', '%s().p'), 'shared': ('shared(%s)', '%s[0][1]'), 'odict': ('collections.OrderedDict([(1, 2), (3, %s)])', '%s[3]'),
        'deque': ('collections.deque([%s])', '%s[0]'), 'ns': ('types.SimpleNamespace(a=%s)', '%s.a'), 'meth': ('types.MethodType(hold, %s)', '%s.__self__'), 'cell': ('types.CellType(%s)', '%s.cell_contents'), 'proxy': ('types.MappingProxyType({1: %s})', '%s[1]'), 'smeth': ('staticmethod(clos(%s))', 'unsm(%s)()')}
WEIGHT = ['list', 'tuple', 'dict', 'box', 'clos', 'cls', 'glob', 'dflt']

GOOD = ['1', '"s"', '[1, 2]', 'float("nan")', 'Box()', 'box([1])', 'AllEq()', 'None', 'print', 'Box', '(lambda: 3)', 'clos(4)', 'cls(5)', 'cls(5)()', '[NP.array([1, 2])]', 'NP.array([1, 2])', 'NP.zeros(0)', 'Unc()', 'NE()', '{"a": (1,)}', 're.compile("a")', 'range(3)', 'False', '""', 'SBox(2)', 'AllEq', 'functools.partial(print)', 'threading.Lock()', 'float("inf")']
BADS = ['(x for x in [1])', '[(x for x in [1])]', 'BadReduce(TypeError)', 'BadReduce(ValueError)', 'BadReduce(AssertionError)', 'BadReduce(NotImplementedError)', 'BadReduce(RuntimeError)', 'mk_tb()', 'LoadFails()', 'SetFails()', 'box(mk_tb())', 'clos(mk_tb())', 'WrongReduce()', 'BadState()', 'cls(mk_tb())', 'SHARED', 'SHARED', 'BadEq()', 'glob("gm", _coro())', 'BadReduce(AttributeError)', 'BadReduce(KeyError)', 'NewFails()', 'NotSame()']
HPRE = PRE + '''
import numpy as NP
class AllEq:
    def __eq__(self, o): return True
    __hash__ = None
class Unc:
    def __eq__(self, o): raise TypeError('no comparison')
class NE:
    def __eq__(self, o): return NotImplemented
    def all(self): return 0
SHARED = (x for x in [2])
class BadEq:
    def __eq__(self, o): return True
    def __reduce__(self): raise TypeError('no')
def toint(): return 7
class NotSame:
    def __reduce__(self): return toint, ()
'''
@st.composite
def strat(draw):
    b = B(draw)
    kind = b.weighted([(4, 'unstorable'), (3, 'helpers'), (2, 'cut')])
    if kind == 'cut':
        src = b.choice(sorted(SRCS))
        case = draw(SRCS[src]())
        return dict(kind=kind, gen=src, src=case['src'], opts=case['opts'], modules=case.get('modules'), where=case.get('ns', 'main') if case.get('ns') in ('main', 'fake') else 'main', cuts=sorted({b.int(0, 999) for _ in range(40)}), via=b.choice(['loads', 'ignore', 'load', 'unpickler', 'file']))
    if kind == 'unstorable':
        load = b.chance(15)
        expr, exp = b.choice(BADLOAD if load else UNST)
        n = b.int(1, 4)
        src, path = expr, 'c'
        ws = []
        for _ in range(n):
            w = b.choice(WEIGHT) if b.bool() else b.choice(sorted(WRAP))
            ws.append(w); src = WRAP[w][0] % src
        for w in reversed(ws): path = WRAP[w][1] % path
        o = {}
        if b.bool(): o['protocol'] = b.int(2 if expr == 'NewFails()' or 'sbox' in ws else 0, 5)     # __getnewargs__ is for protocol 2 and higher
        if b.chance(30): o['recurse'] = b.bool()
        if b.chance(20): o['byref'] = False
        where = b.choice(['main', 'fake'])
        if where == 'fake': o['recurse'] = True     # otherwise the namespace, and with it OBJ, is stored inside OBJ
        return dict(kind=kind, src=PRE + 'OBJ = %s\ndef part(c): return %s\n' % (src, path), opts=o, where=where, expect=None if load else exp, expect_load=exp if load else None, wraps=ws)
    exact = b.chance(30)
    good = [g for g in GOOD if not (exact and ('NP' in g or 'Unc' in g or g == 'NE()'))]
    items = [b.choice(good) if b.chance(60) else b.choice(BADS) for _ in range(b.int(1, 5))]
    form = b.choice(['[%s]', '(%s,)', '{%s}'])
    if form == '{%s}': src = '{' + ', '.join('%d: %s' % (i, x) for i, x in enumerate(items)) + '}'
    else: src = form % ', '.join(items)
    graph = b.choice(items)
    for _ in range(b.int(0, 2)):
        w = b.choice(sorted(set(WRAP) - ({'shared'} if exact else set()))); graph = WRAP[w][0] % graph
    src = HPRE + 'OBJ = %s\nITEMS = %s\n' % (graph, src)
    if b.chance(25):
        src += 'class Dp:\n' + ''.join('    a%d = %s\n' % (i, x) for i, x in enumerate(items)) + '    def m(self): return 1\nDEPTH = Dp()\nDEPTH.z = %s\n' % b.choice(items)
    return dict(kind=kind, src=src, where='main', exact=exact, safe=b.bool(), n=len(items))

def cases(tier): return strat()

def run(case, ctx):
    z = ctx.zygote(mods=('vlib', 'vdesc', 'ops_fail', 'numpy', 'numpy.rec', 'numpy.ma', 'numpy.random', 'ctypes', 'sqlite3', 'asyncio', 'concurrent.futures.thread', 'tempfile', 'subprocess', 'queue', 'mmap', 'csv', 'socket', 'random', 'hashlib'))
    k = case['kind']
    ctx.label(k)
    if k == 'cut':
        r = z.call('ops_fail', 'truncated', src=case['src'], opts=case['opts'], where=case['where'], modules=case['modules'], cuts=case['cuts'], via=case['via'])
        ctx.label('via:' + case['via'], 'gen:' + case['gen'])
        ctx.nontrivial(r['n'] >= 30)
    elif k == 'unstorable':
        r = z.call('ops_fail', 'unstorable', src=case['src'], opts=case['opts'], where=case['where'], expect=case['expect'], expect_load=case['expect_load'])
        ctx.label(r, *['in:' + w for w in case['wraps']])
        ctx.nontrivial(len(case['wraps']) >= 2)
    else:
        r = z.call('ops_fail', 'helpers', src=case['src'], where=case['where'], exact=case['exact'], safe=case['safe'])
        ctx.label('exact' if case['exact'] else 'inexact', 'safe' if case['safe'] else 'unsafe')
        ctx.nontrivial(r['bad'] and r['good'])
