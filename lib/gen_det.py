"""Programs of functions with every way of using a name."""
from hypothesis import strategies as st
from gen import B

GL = ['G0', 'G1', 'G2', 'G3', 'G4', 'G5']
UNDEF = ['U0', 'U1']
BUILT = ['len', 'sum', 'print', 'sorted', 'type', 'ValueError']

class F:
    def __init__(self, name, path, parent):
        self.name, self.path, self.parent = name, path, parent
        self.locals, self.params, self.globals, self.values, self.empty = [], [], [], {}, []
        self.inner = []         # names of inner functions
        self.gen = False

class Maker(B):
    def __init__(self, draw, nfun):
        super().__init__(draw)
        self.nfun = nfun
        self.targets = []
        self.ind = 0
    def put(self, s):
        for l in s.split('\n'): self.lines.append('    ' * self.ind + l)
    def here(self): return len(self.lines) + 1
    def funcs(self): return ['f%d' % i for i in range(self.nfun)]
    def name(self, f, kinds=None):
        k = self.weighted([(6, 'g'), (2, 'f'), (2, 'b'), (1, 'u'), (3, 'loc'), (3, 'enc'), (1, 'mod')])
        if k == 'f': return self.choice(self.funcs())
        if k == 'b': return self.choice(BUILT)
        if k == 'u': return self.choice(UNDEF)
        if k == 'mod': return self.choice(['math', 'cosine', 'KM', 'inst', 'of1', 'of2', 'of1'])
        if k == 'loc' and f.params + f.locals: return self.choice(f.params + f.locals)
        if k == 'enc':
            e, names = f.parent, []
            while e is not None: names += [n for n in e.locals + e.params]; e = e.parent
            if names: return self.choice(names)
        return self.choice(GL)
    def comp_var(self): return self.choice(['i', 'k'])
    def expr(self, f, d=2):
        k = self.weighted([(5, 'n'), (1, 'attr'), (1, 'kw'), (1, 'str'), (2, 'op'), (1, 'comp'), (1, 'lam'), (1, 'gen'), (1, 'fstr'), (1, 'dict'), (1, 'cond'), (1, 'sub'), (1, 'walrus'), (1, 'dcomp'), (1, 'cell')])
        n = lambda: self.name(f)
        e = lambda: self.expr(f, d - 1)
        if d <= 0 or k == 'n': return n()
        if k == 'attr': return '%s.%s' % (n(), self.choice(GL + BUILT + ['f0', 'real']))
        if k == 'kw': return '%s(%s=%s)' % (n(), self.choice(GL), e())
        if k == 'str': return '%s(%r)' % (n(), self.choice(GL))
        if k == 'op': return '(%s %s %s)' % (e(), self.choice(['+', 'and', 'or', '<', 'in', 'is']), e())
        if k == 'comp': v = self.comp_var(); return '[%s for %s in %s%s]' % (self.choice([v, e()]) if 0 else '(%s, %s)' % (v, n()), v, n(), self.choice(['', ' if %s' % n()]))
        if k == 'dcomp': v = self.comp_var(); return '{%s: %s for %s in %s for j in %s}' % (v, n(), v, n(), n())
        if k == 'gen': v = self.choice(GL + ['i']); return 'list(%s + %s for %s in %s)' % (v, n(), v, n())
        if k == 'lam': v = self.choice(GL + ['i']); return '(lambda %s, y=%s: (%s, y, %s))' % (v, n(), v, n())
        if k == 'fstr': return 'f"{%s!r:{%s}} G5"' % (n(), n())
        if k == 'dict': return '{"G1": %s, **%s}' % (e(), n())
        if k == 'cond': return '(%s if %s else %s)' % (e(), n(), e())
        if k == 'sub': return '%s[%s:%s]' % (n(), n(), e())
        if k == 'cell' and f.locals: return '(lambda: %s)' % self.choice(f.locals)
        if k == 'walrus' and f.locals: return '(%s := %s)' % (self.choice(f.locals), e())
        return n()
    def guarded(self, f):
        """one statement that is never executed"""
        k = self.choice(['expr', 'expr', 'assign', 'aug', 'del', 'for', 'with', 'try', 'imp', 'assert', 'match', 'class', 'ret', 'while', 'ifelse', 'star', 'raise', 'gdef', 'nonlocal'])
        e = lambda: self.expr(f)
        target = lambda: self.choice(f.locals + f.globals + ['tmp'])
        if k == 'assign': self.put('%s = %s' % (target(), e()))
        elif k == 'aug': self.put('%s += %s' % (target(), e()))
        elif k == 'del' and f.locals + f.globals: t = target(); self.put('%s = 0; del %s' % (t, t))
        elif k == 'for': self.put('for %s in %s:\n    %s\nelse:\n    %s' % (target(), e(), e(), e()))
        elif k == 'with': self.put('with %s as %s: %s' % (e(), target(), e()))
        elif k == 'try': self.put('try: %s\nexcept %s as %s: %s\nfinally: %s' % (e(), self.name(f), target(), e(), e()))
        elif k == 'imp': self.put(self.choice(['import os.path as %s', 'from json import loads as %s']) % target())
        elif k == 'assert': self.put('assert %s, %s' % (e(), e()))
        elif k == 'match': self.put('match %s:\n    case {"G0": %s, **rest}: %s\n    case [1, *more] if %s: pass\n    case KM(a=3): pass' % (e(), self.choice(f.locals + ['cap']), e(), e()))
        elif k == 'class' and self.chance(60):
            c = self.name_of('K')
            self.put('class %s(%s):' % (c, self.name(f)))
            self.ind += 1
            for _ in range(self.int(1, 3)):
                q = self.choice(['a', 'use', 'def', 'same', 'doc'])
                if q == 'a': self.put('a%d = %s' % (self.int(0, 2), self.name(f)))
                elif q == 'use': self.put('%s' % self.name(f))
                elif q == 'same': g = self.choice(GL); self.put('%s = %s' % (g, g)) if g not in f.locals + f.params else self.put('pass')
                elif q == 'def': self.put('def m%d(self): return %s, self.%s' % (len(self.lines), self.name(f), self.choice(GL)))
                else: self.put('"doc G1"')
            self.ind -= 1
        elif k == 'ret': self.put('if %s: return %s' % (e(), e()))
        elif k == 'while': self.put('while %s: %s; break' % (e(), e()))
        elif k == 'ifelse': self.put('if %s: %s\nelif %s: %s\nelse: %s' % (e(), e(), e(), e(), e()))
        elif k == 'star': self.put('%s, *others = %s' % (target(), e()))
        elif k == 'raise': self.put('if %s: raise %s from %s' % (e(), e(), e()))
        elif k == 'gdef' and f.globals: self.put('def %s(q=%s): return q, %s' % (self.choice(f.globals), self.name(f), self.choice(GL)))
        else: self.put('print(%s)' % e())
    def name_of(self, p): self.count += 1; return '%s%d' % (p, self.count)
    def func(self, name, parent, depth, expr, outer, method=False, deco=None):
        f = F(name, None, parent)
        f.params = ['run'] + self.sample(GL + ['p', 'q'], 0, 2)
        f.globals = self.sample([g for g in GL if g not in f.params], 0, 2) if self.chance(30) else []
        pool = [g for g in GL + ['c0', 'c1', 'c2', 'v'] if g not in f.params and g not in f.globals]
        f.locals = self.sample(pool, 0, 3)
        enc, e = {}, parent
        while e is not None:
            for n in e.locals + e.params + ['_fns']:
                if n not in enc: enc[n] = e
            e = e.parent
        nl = []
        if parent is not None and self.chance(25):
            cand = [n for n in enc if n in enc[n].locals and n not in f.params + f.globals + f.locals]
            nl = self.sample(cand, 0, 1)
        sig = ', '.join((['self'] if method else []) + ['run=None'] + ['%s=%r' % (p, 'arg_%s_%s' % (name, p)) for p in f.params[1:]])
        if self.chance(20): sig += ', *%s' % self.choice(['va', 'vb'])
        if self.chance(20): sig += ', kw%s=%s' % (self.choice(['', ': T0', ': T1']), self.choice(['T0', 'T1', '1']))
        if deco: self.put('@%s' % deco)
        line = self.here()
        self.put('def %s(%s)%s:' % (name, sig, ' -> T0' if self.chance(10) else ''))
        f.path = (parent.path if parent is not None else []) + [[name, line]] if not method else method + [[name, line]]
        self.ind += 1
        if self.chance(20): self.put('"""doc G3 of %s"""' % name)
        if f.globals: self.put('global ' + ', '.join(f.globals))
        if nl: self.put('nonlocal ' + ', '.join(nl))
        if method: f.params = ['self'] + f.params
        for v in f.locals:
            if self.chance(85): f.values[v] = 'val_%s_%s' % (name, v); self.put('%s = %r' % (v, f.values[v]))
            else: f.empty.append(v)
        for p in f.params:
            if p not in ('run', 'self'): f.values[p] = 'arg_%s_%s' % (name, p)
        ninner = self.int(0, 2) if depth > 0 else 0
        inners = []
        for i in range(ninner):
            n = self.name_of('n')
            if self.chance(20):
                line2 = self.here(); v = self.choice(f.locals + f.params[-1:] + ['G1']) if not method else 'G1'
                self.put('%s = lambda z=1: (%s, %s, z)' % (n, v, self.choice(GL)))
                inners.append((n, 'lambda', f.path + [['lambda', line2]], F(n, f.path + [['lambda', line2]], f)))
            else:
                g = self.func(n, f, depth - 1, '%s()[%d]' % (expr, i), outer)
                inners.append((n, 'def', g.path, g))
        self.put('if run:')
        self.ind += 1
        for _ in range(self.int(1, 4)): self.guarded(f)
        for v in f.empty: self.put('%s = 1' % v)
        for v in nl: self.put('%s = 2' % v)
        self.ind -= 1
        self.put('return [%s]' % ', '.join(n for n, k, p, g in inners))
        self.ind -= 1
        for i, (n, k, p, g) in enumerate(inners):
            fr, emp, e = {}, [], f
            while e is not None:
                for v in e.locals + e.params:
                    if v in fr or v in emp: continue
                    if v in e.values: fr[v] = e.values[v]
                    elif v in e.empty: emp.append(v)
                    else: fr[v] = None if v == 'run' else fr.get(v)
                e = e.parent
            inn = {n for n in fr if fr[n] is None and n != 'run'}
            self.targets.append(dict(expr='%s()[%d]' % (expr, i), path=p, frees={v: x for v, x in fr.items() if v not in inn}, empty=emp, outer=outer if k == 'def' else None))
        return f

OTHER = [('detother', 'import functools\nG0 = "other 0"\nG1 = "other 1"\nG4 = "other 4"\nG2 = ["other 2"]\nX = 1\ndef of1(a=1): return G0, G1, G4, X, of2\ndef of2(): return G2, of1, len, sum\ndef odeco(fn):\n    @functools.wraps(fn)\n    def wrapper(*a, **k): return fn(*a, **k), G1, X\n    return wrapper\n')]

@st.composite
def program(draw):
    m = Maker(draw, draw(st.integers(1, 4)))
    m.put('import math, functools\nfrom math import cos as cosine\nT0 = T1 = int\nG0 = int\nG1 = "one"\nG2 = [2]\nG3 = {3: 4}')
    other = m.chance(60)
    if other: m.put('from detother import of1, of2, odeco')
    if m.chance(50): m.put('G4 = 4.5')
    if m.chance(30): m.put('len = "my len"') 
    m.put('def deco(fn):\n    @functools.wraps(fn)\n    def wrapper(*a, **k): return fn(*a, **k), G1\n    return wrapper')
    wl = m.here() - 2
    line = m.here(); m.put('class KM:\n    a = G2\n    __match_args__ = ("a",)')
    m.ind = 1
    kind = m.choice(['plain', 'cm', 'sm'])
    f = m.func('m1', None, 1, 'KM().m1', None, method=[['KM', line]])
    m.targets.append(dict(expr='KM().m1', path=f.path, frees=None, empty=[], outer=None))
    m.targets.append(dict(expr='KM.m1', path=f.path, frees=None, empty=[], outer=None))
    m.ind = 0
    m.put('inst = KM()')
    for i in range(m.nfun):
        n = 'f%d' % i
        d = m.weighted([(8, None), (1, 'deco')] + ([(1, 'odeco')] if other else []))
        if d:
            f = m.func(n, None, 0, n, None, deco=d)
            if d == 'deco': m.targets.append(dict(expr=n, path=[['deco', wl - 2], ['wrapper', wl]], frees=None, empty=[], outer=None))
            else: m.targets.append(dict(expr=n, path=None, frees=None, empty=[], outer=None))
            m.targets.append(dict(expr=n + '.__wrapped__', path=f.path, frees=None, empty=[], outer=None))
        else:
            f = m.func(n, None, m.int(0, 3), n, n)
            m.targets.append(dict(expr=n, path=f.path, frees={}, empty=[], outer=n))
    if m.chance(50): m.put('G5 = f0')
    if m.chance(30): m.put('meth = inst.m1')
    m.put('for _f in list(globals().values()):\n    pass')
    return dict(src=m.src(), targets=m.targets)
