from hypothesis import strategies as st
from gen import B, opts
from driver import Violation

BUDGET = {'quick': dict(cases=2400, seconds=240), 'thorough': dict(cases=40000, seconds=800)}
RULE = ('A case is either a generated package (1-3 modules; functions, nested classes and their methods, class and static methods, properties, aliases, re-exports, shadowed, renamed, deleted and local objects, objects that claim '
        'another module or the name of another object) with 1-12 expressions for objects of it, stored one by one, loaded in the same process, in a fresh one, and (those found by name) in one without the modules; or 40 random objects of the standard library and numpy. '
        'Non-trivial: a package case with an object that is not found under its own name, or a library case.')
ASSUMPTIONS = ['importable named tuples are stored with their fields by design, so that they can be made anew where their module is missing', 'modules outside of the installation are stored with their state by design (only identity and names are checked for these)', 'byref=True is only claimed for classes that are found by name']

LIBS = ['builtins', 'os', 'os.path', 'json', 'json.encoder', 'collections', 'collections.abc', 'functools', 'itertools', 'operator', 'math', 'random', 're', 'types', 'typing', 'datetime', 'decimal', 'fractions', 'io', 'pathlib', 'inspect',
        'email.message', 'xml.etree.ElementTree', 'urllib.parse', 'http.client', 'logging', 'logging.handlers', 'threading', 'queue', 'socket', 'subprocess', 'tempfile', 'shutil', 'struct', 'time', 'string', 'textwrap', 'unittest', 'unittest.mock', 'ast', 'dis',
        'contextlib', 'copy', 'copyreg', 'pickle', 'weakref', 'abc', 'enum', 'dataclasses', 'asyncio', 'concurrent.futures', 'multiprocessing', 'statistics', 'heapq', 'bisect', 'array', 'zlib', 'hashlib', 'hmac', 'secrets', 'uuid', 'csv', 'configparser', 'argparse',
        'calendar', 'gettext', 'locale', 'codecs', 'unicodedata', 'difflib', 'numpy', 'numpy.linalg', 'numpy.random', 'numpy.ma', 'sympy', 'attr', 'dill', 'dill.source', 'dill.detect', 'dill.session', 'dill._dill', 'sys', 'gc', '_thread', 'errno', 'signal', 'select', 'marshal', 'warnings', 'traceback', 'tokenize', 'zipfile', 'sqlite3', 'ctypes']

class Pkg(B):
    def start(self):
        self.names = []; self.n = 0; self.x = []; self.k = 0
    def mk(self):
        self.k += 1; return '<<r%d>>' % self.k
    def cls(self, name, ind, mod, path, out, depth=0):
        m = self.mk()
        base = ''
        if depth == 0 and self.cl and self.chance(40): base = '(%s)' % self.choice(self.cl)
        out.append('%sclass %s%s:' % (ind, name, base)); i2 = ind + '    '
        out.append('%stag = %r' % (i2, m))
        q = '%s.%s' % (path, name)
        self.x.append((q, m))
        for k in self.sample(['meth', 'smeth', 'cmeth', 'prop', 'lam', 'alias', 'slot'], 0, 5):
            mm = self.mk()
            if k == 'meth': out.append('%sdef meth(self): return %r' % (i2, mm)); self.x += [(q + '.meth', mm), (q + '().meth', None)]
            elif k == 'smeth': out += ['%s@staticmethod' % i2, '%sdef smeth(): return %r' % (i2, mm)]; self.x += [(q + '.smeth', mm), (q + '.__dict__["smeth"]', None)]
            elif k == 'cmeth': out += ['%s@classmethod' % i2, '%sdef cmeth(cls): return [cls.__name__, %r]' % (i2, mm)]; self.x += [(q + '.cmeth', mm), (q + '.__dict__["cmeth"]', None)]
            elif k == 'prop': out += ['%s@property' % i2, '%sdef prop(self): return %r' % (i2, mm)]; self.x += [(q + '.prop', None), (q + '.prop.fget', None)]
            elif k == 'lam': out.append('%slam = lambda self=0: %r' % (i2, mm)); self.x.append((q + '.lam', None)); self.label('lambda')
            elif k == 'alias' and 'def meth' in ''.join(out[-6:]) and any(l == '%sdef meth(self): return %r' % (i2, mm) for l in out): pass
            elif k == 'slot': out.append('%s__slots__ = ()' % i2)
            self.label('c:' + k)
        if depth < 2 and self.chance(35): self.cls(self.choice(['In', 'Deep', 'meth2']), i2, mod, q, out, depth + 1); self.label('nestedclass')
        if depth == 0: self.cl.append(name)
    def module(self, mod, earlier):
        out = ['import functools']; v = mod.replace('.', '_')
        self.cl = []; fns = []
        for e in earlier:
            if self.chance(50): out.append('import %s' % e)
        for _ in range(self.int(1, 6)):
            k = self.weighted([(4, 'func'), (3, 'class'), (1, 'alias'), (2, 'shadow'), (1, 'deleted'), (1, 'local'), (2, 'wraps'), (1, 'reexport'), (1, 'rename'), (1, 'lambda'), (1, 'inst'), (1, 'locclass'), (1, 'stolen'), (1, 'dotted'), (1, 'partial'), (1, 'claim'), (1, 'metaeq')])
            self.n += 1; n = self.choice(['f', 'g', 'K', 'h_']) + str(self.n); m = self.mk()
            self.label(k)
            if k == 'func': out.append('def %s(): return %r' % (n, m)); fns.append(n); self.x.append(('%s.%s' % (v, n), m))
            elif k == 'class': self.cls(n, '', mod, v, out)
            elif k == 'alias' and fns: out.append('%s = %s' % (n, self.choice(fns))); self.x.append(('%s.%s' % (v, n), None))
            elif k == 'shadow':
                if self.bool(): out += ['def %s(): return %r' % (n, m), 'old_%s = %s' % (n, n), 'def %s(): return %r' % (n, m + 'new')]
                else: out += ['class %s: tag = %r' % (n, m), 'old_%s = %s' % (n, n), self.choice(['class %s: tag = %r' % (n, m + 'new'), '%s = 5' % n, 'def %s(): pass' % n])]
                self.x += [('%s.old_%s' % (v, n), None)]
                if 'def %s' % n in out[-1] or 'class' in out[-1]: self.x.append(('%s.%s' % (v, n), None))
            elif k == 'deleted': out += [self.choice(['def %s(): return %r', 'class %s: tag = %r']) % (n, m), 'hold_%s = [%s]' % (n, n), 'del %s' % n]; self.x.append(('%s.hold_%s[0]' % (v, n), None))
            elif k == 'local': out += ['def mk_%s():' % n, '    def %s(): return %r' % (n, m), '    return %s' % n, '%s = mk_%s()' % (n, n)]; self.x.append(('%s.%s' % (v, n), None))
            elif k == 'locclass': out += ['def mk_%s():' % n, '    class %s: tag = %r' % (n, m), '    return %s' % n, '%s = mk_%s()' % (n, n)]; self.x.append(('%s.%s' % (v, n), None))
            elif k == 'wraps' and fns: f = self.choice(fns); out += ['@functools.wraps(%s)' % f, 'def %s(): return [%r, %s()]' % (n, m, f)]; self.x.append(('%s.%s' % (v, n), None))
            elif k == 'reexport' and earlier:
                e = self.choice(earlier); src = [t for t in self.x if t[0].startswith(e.replace('.', '_') + '.') and t[0].count('.') == 1 and '[' not in t[0]]
                if src: t = self.choice(src); out.append('from %s import %s as %s' % (e, t[0].split('.')[1], n)); self.x.append(('%s.%s' % (v, n), t[1]))
            elif k == 'rename' and fns: out += ['def %s(): return %r' % (n, m), '%s.__name__ = %s.__qualname__ = %r' % (n, n, self.choice(fns + ['nowhere', 'functools']))]; self.x.append(('%s.%s' % (v, n), None))
            elif k == 'lambda': out.append('%s = lambda: %r' % (n, m)); self.x.append(('%s.%s' % (v, n), None))
            elif k == 'inst' and self.cl: out.append('%s = %s()' % (n, self.choice(self.cl))); self.x.append(('%s.%s' % (v, n), None))
            elif k == 'stolen' and self.cl: out += ['class %s: tag = %r' % (n, m), '%s.__qualname__ = %s.__name__ = %r' % (n, n, self.choice(self.cl))]; self.x.append(('%s.%s' % (v, n), None))
            elif k == 'metaeq': out += ['class Eq%s(type):' % n, '    def __eq__(a, b): return a.__qualname__ == getattr(b, "__qualname__", None)', '    def __hash__(a): return 5', 'class %s(metaclass=Eq%s): tag = %r' % (n, n, m), 'old_%s = %s' % (n, n), 'class %s(metaclass=Eq%s): tag = %r' % (n, n, m + 'new')]; self.x += [('%s.old_%s' % (v, n), None), ('%s.%s' % (v, n), None)]
            elif k == 'dotted': out += ['class %s: pass' % n, 'def h%s(): return %r' % (n, m), 'h%s.__qualname__ = "%s.h"' % (n, n)] + (['%s.h = h%s' % (n, n)] if self.bool() else []); self.x.append(('%s.h%s' % (v, n), None))
            elif k == 'partial' and fns: out.append('%s = functools.partial(%s)' % (n, self.choice(fns))); self.x.append(('%s.%s' % (v, n), None))
            elif k == 'claim':
                out += ['def %s(): return %r' % (n, m), '%s.__module__ = %r' % (n, self.choice(earlier + ['nosuchmod', 'json', '__main__', 'os.path']))]
                if self.bool(): out.append('%s.__name__ = %s.__qualname__ = %r' % (n, n, self.choice(['dumps', 'join', 'f1', 'K1', 'f2'])))
                self.x.append(('%s.%s' % (v, n), None))
        return '\n'.join(out) + '\n'

@st.composite
def strat(draw):
    b = Pkg(draw); b.start()
    o = opts(b)
    if b.chance(12):
        return dict(kind='lib', names=[[b.choice(LIBS), [b.int(0, 2000) for _ in range(b.choice([1, 1, 2]))]] for _ in range(40)], opts=o, labels=['library'])
    mods = []
    names = b.choice([['vpa'], ['vpa', 'vpb'], ['vpk.one', 'vpk.two'], ['vpk.sub.one', 'vpa', 'vpk.two']])
    for m in names: mods.append([m, b.module(m, [x[0] for x in mods])])
    for m in names:
        if b.chance(30): b.x.append((m.replace('.', '_'), None)); b.label('module')
    pre = []
    if b.chance(40):
        cand = [t for t in b.x if t[0].count('.') == 1 and '[' not in t[0] and t[1]]
        if cand:
            t = b.choice(cand); mod, n = t[0].split('.'); m = b.mk()
            pre += ['def stolen(): return %r' % m, 'stolen.__module__ = %r' % [x for x in names if x.replace('.', '_') == mod][0], 'stolen.__name__ = stolen.__qualname__ = %r' % n]
            b.x.append(('stolen', None)); b.label('main object claims a name')
    if '.' in names[0] and b.chance(40):
        cls = [t for t in b.x if t[0].startswith(names[0].replace('.', '_') + '.') and t[0].count('.') == 1 and t[1]]
        pkg, sub = names[0].rsplit('.', 1)
        what = b.choice(['5', 'lambda: 0'] + [t[0] for t in cls] * 3)
        pre += ['import sys', 'sys.modules[%r].%s = %s' % (pkg, sub, what)]
        b.x.append((names[0].replace('.', '_'), None)); b.label('hidden module')
    if not b.x: b.x.append((names[0].replace('.', '_'), None))
    if b.labels & {'metaeq', 'shadow', 'deleted', 'locclass', 'stolen'} and o.get('byref'): del o['byref']
    xs = [b.choice(b.x[::-1]) for _ in range(b.int(1, 12))]
    return dict(kind='pkg', modules=mods, pre='\n'.join(pre), exprs=[list(x) for x in dict.fromkeys(xs)], opts=o, labels=sorted(b.labels))

def cases(tier): return strat()

ODD = {'metaeq', 'shadow', 'deleted', 'local', 'wraps', 'rename', 'lambda', 'stolen', 'dotted', 'claim', 'main object claims a name', 'locclass'}
def run(case, ctx):
    ctx.label(*case['labels'], 'proto%s' % case['opts'].get('protocol'), 'byref%s' % case['opts'].get('byref'))
    z = ctx.zygote(mods=('vlib', 'vdesc', 'ops_ref'))
    if case['kind'] == 'lib':
        n = z.call('ops_ref', 'library', names=case['names'], opts=case['opts'])
        ctx.nontrivial(n > 0)
        return
    ctx.nontrivial(bool(set(case['labels']) & ODD))
    a = z.call('ops_ref', 'dump', modules=case['modules'], pre=case['pre'], exprs=case['exprs'], opts=case['opts'])
    items = [[e, i] for e, i in zip(case['exprs'], a)]
    z.call('ops_ref', 'load', modules=case['modules'], pre=case['pre'], items=items)
    z.call('ops_ref', 'absent', items=items)
