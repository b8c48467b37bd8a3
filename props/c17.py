from hypothesis import strategies as st
from gen import B
from props import c01, c02, c03, c05, c06, c07, c10, c11, c13

BUDGET = {'quick': dict(cases=2600, seconds=240), 'thorough': dict(cases=40000, seconds=800)}
RULE = ('A case is an object graph from the generators of C01, C02, C03, C05, C06, C07, C10, C11 or C13, in half of the cases with a part added at a drawn place that cannot be stored (18 kinds, also raising in the middle of its hooks) or cannot be loaded; it is stored twice, loaded, loaded from a truncated pickle and given to a checking helper. '
        'Before and after each call the graph is described, and the names of every module, sys.modules, the pickle and copyreg registries, streams, warning filters, settings, loggers, descriptors, files, environment and interpreter settings are compared; both dumps must give the same bytes or the same error. Non-trivial: a call fails, or the graph holds classes, functions or cycles.')
ASSUMPTIONS = ['dill.Pickler.dispatch may gain entries for NumPy types', 'loading may import modules']
SRCS = dict(c01=c01.strat, c02=c02.strat, c03=c03.strat, c05=c05.strat, c06=c06.strat, c07=c07.strat, c10=c10.strat, c11=c11.strat, c13=c13.strat)

BAD = {'gen': '(x for x in [1])', 'frame': '__import__("sys")._getframe()', 'raise': 'BadReduce(ValueError)', 'raise2': 'BadReduce(TypeError)', 'kbd': 'BadReduce(KeyboardInterrupt)', 'rec': 'BadReduce(RecursionError)',
       'wrong': 'WrongReduce()', 'state': 'BadState()', 'deep': 'deep(3000)', 'sock': '__import__("socket").socket()', 'coro': 'Coro', 'mv': 'memoryview(b"ab")', 'load': 'LoadFails()', 'load2': 'SetFails()', 'thread': '__import__("threading").Thread()', 'listitems': 'BadItems()', 'getattr': 'BadGetattr()', 'slot': 'BadSlots()'}
BADPRE = '''
class BadReduce:
    def __init__(self, e): self.e = e
    def __reduce__(self): raise self.e('bad')
class WrongReduce:
    def __reduce__(self): return (1, 2)
class BadState:
    def __getstate__(self): raise ZeroDivisionError('state')
def deep(n):
    l = []
    for _ in range(n): l = [l]
    return l
def raiser(*a): raise LookupError('on load')
class LoadFails:
    def __reduce__(self): return (raiser, (1,))
class SetFails:
    def __setstate__(self, s): raise LookupError('on setstate')
    def __getstate__(self): return 1
class BadItems:
    def __reduce__(self): return (list, (), None, (1 // (x - 2) for x in range(5)))
class BadGetattr:
    def __getattribute__(self, n): raise AttributeError(n) if n != '__class__' else AttributeError(n)
class BadSlots:
    __slots__ = ('a',)
    def __getstate__(self): raise RuntimeError('no')
async def _coro(): pass
Coro = _coro()
'''
@st.composite
def strat(draw):
    b = B(draw)
    kind = b.choice(sorted(SRCS))
    case = draw(SRCS[kind]())
    src = case['src']
    bad = None; mods = case.get('modules')
    if b.chance(12):
        mods = list(mods or []) + [['quietmod', 'import os.path as osp\nV = [1, {2: 3}]\ndef f(x=V): return x\nclass C:\n    def m(self): return V\nI = C()\n']]
        src += 'import quietmod as qm_\nOBJ = [OBJ, %s]\n' % b.choice(['qm_', 'qm_, qm_', '{1: (qm_,)}', 'lambda: qm_', '(lambda q: lambda: q)(qm_)'])
    if b.chance(50):
        bad = b.choice(sorted(BAD)); e = BAD[bad]
        src += BADPRE
        how = b.choice(['after', 'before', 'dict', 'closure', 'attr', 'default', 'clsattr', 'partial', 'global'])
        src += {'after': 'OBJ = [OBJ, %s]\n', 'before': 'OBJ = [%s, OBJ]\n', 'dict': 'OBJ = {"a": OBJ, "b": [%s], "c": OBJ}\n', 'closure': 'OBJ = (lambda o, p: lambda: (o, p))(OBJ, %s)\n', 'attr': 'class Holder: pass\nH_ = Holder(); H_.o = OBJ; H_.b = %s; OBJ = H_\n',
                'default': 'def dflt(a=OBJ, b=%s): return a, b\nOBJ = dflt\n', 'clsattr': 'class Holder:\n    o = OBJ\n    b = %s\n    def m(self): return super().m()\nOBJ = Holder\n', 'partial': 'import functools\nOBJ = functools.partial(print, OBJ, %s)\n',
                'global': 'GLB = %s\nGO = OBJ\ndef gf(): return GLB, GO\nOBJ = [gf, OBJ]\n'}[how] % e
    return dict(src=src, opts=case['opts'], where=case.get('ns', 'main') if case.get('where') in ('same', 'fresh') or True else 'main', modules=mods, kind=kind, bad=bad, cut=b.choice([None, 0.3, 0.6, 0.9, 0.99]), filt=b.bool(),
                helper=b.choice([None, None, None, 'pickles', 'pickles_exact' if kind != 'c13' else 'pickles', 'errors', 'baditems', 'copy'] + (['errors1', 'badobjects'] if kind != 'c13' else []))    # NumPy aborts when attributes such as ctypes of an array are loaded
                )

def cases(tier): return strat()

def run(case, ctx):
    z = ctx.zygote(mods=('vlib', 'vdesc', 'ops_quiet', 'numpy', 'numpy.ma', 'numpy.random'), env={'VERIF_UNFREEZE': '1'})
    r = z.call('ops_quiet', 'quiet', src=case['src'], opts=case['opts'], where=case['where'] if case['where'] in ('main', 'fake') else 'main', modules=case['modules'], cut=case['cut'], helper=case['helper'], filt=case['filt'])
    ctx.label(case['kind'], 'bad:%s' % case['bad'], 'helper:%s' % case['helper'], 'load:%s' % r['loaded'])
    if r['failed']: ctx.label('dumps:' + r['kind'])
    ctx.nontrivial(r['failed'] or r['loaded'] == 'error' or case['kind'] != 'c01')
