from hypothesis import strategies as st
from gen import opts, B
from rt import roundtrip

BUDGET = {'quick': dict(cases=5000, seconds=240), 'thorough': dict(cases=60000, seconds=800)}
RULE = ('A case is a generated factory function whose 3-9 variables (numbers, containers, functions, classes, instances, methods, partials, cells) refer to each other through closures, '
        'items, attributes and function attributes, some left empty; 1-5 of them are stored as one object and the described graph and the result of generated setter/getter '
        'calls are compared. Non-trivial: at least two functions or methods with closures and a variable shared by two of them, an empty cell, or a cycle.')
ASSUMPTIONS = ['cycles that pass only through default values, class attributes or base classes are outside of the domain (dill documents that it cannot store them)']

class Clo(B):
    def build(self):
        names = ['v%d' % i for i in range(self.int(3, 9))]
        kinds = {}
        self.uses = {n: 0 for n in names}
        self.ncl = 0
        body = []
        empties = set()
        def refs(n, always=()):
            out = list(always)
            for x in self.sample(names, 0, 3):
                if x not in out: out.append(x)
            for x in out: self.uses[x] += 1
            if n in out: self.label('selfref')
            self.ncl += 1
            return out
        def fbody(rs, extra=()):
            lines = ['r = []']
            for x in rs: lines += ['try: r.append(%s)' % x, 'except NameError: r.append("EMPTY")']
            return lines + list(extra) + ['return r']
        params = []
        for i, n in enumerate(names):
            k = self.weighted([(4, 'func'), (2, 'int'), (2, 'list'), (1, 'dict'), (2, 'class'), (2, 'inst'), (2, 'setter'), (1, 'lam'), (1, 'nested'), (1, 'partial'), (1, 'method'),
                               (1, 'tuple'), (1, 'empty'), (1, 'subclass'), (1, 'cell'), (1, 'param'), (1, 'gen'), (1, 'frozen'), (1, 'nonew')])
            prev = {kk: [m for m in names[:i] if kinds[m] == kk] for kk in set(kinds.values())}
            if k == 'inst' and not prev.get('class'): k = 'class'
            if k == 'method' and not prev.get('inst'): k = 'list'
            if k == 'subclass' and not prev.get('class'): k = 'class'
            kinds[n] = k
            self.label(k)
            if k == 'func':
                body += ['def %s(x=%d):' % (n, self.int(0, 9))] + ['    ' + l for l in fbody(refs(n))]
            elif k == 'gen':
                body += ['def %s():' % n] + ['    for y in (1, 2): yield y'] + ['    ' + l for l in fbody(refs(n))]
            elif k == 'setter':
                t = self.choice(names)
                self.uses[t] += 1; self.ncl += 1
                body += ['def %s(x):' % n, '    nonlocal %s' % t, '    %s = x' % t, '    return x']
                kinds[n] = 'setter'
            elif k == 'lam':
                rs = refs(n); body += ['%s = lambda: [%s]' % (n, ', '.join(rs))]
            elif k == 'nested':
                rs = refs(n)
                body += ['def %s():' % n, '    def inner():'] + ['        ' + l for l in fbody(rs)] + ['    return inner', '%s = %s()' % (n, n)]
            elif k == 'int': body += ['%s = %d' % (n, self.int(0, 99))]
            elif k == 'param': params.append((n, self.int(0, 99)))
            elif k == 'list': body += ['%s = [%d]' % (n, self.int(0, 9))]
            elif k == 'dict': body += ['%s = {"a": %d}' % (n, self.int(0, 9))]
            elif k == 'empty': empties.add(n); body += ['%s = 0' % n, 'del %s' % n]
            elif k == 'cell':
                body += ['%s = types.CellType(%s)' % (n, self.choice(['', '1']))]
            elif k in ('class', 'subclass', 'nonew'):
                base = self.choice(prev['class']) if k == 'subclass' else ''
                rs = refs(n, [n] if self.bool() else [])
                body += ['class %s(%s):' % (n, base), '    tag = %d' % self.int(0, 9), '    def m(self):'] + ['        ' + l for l in fbody(rs, ['r.append(__class__)', 'super()'] if self.bool() else [])]
                if self.bool():
                    rs = refs(n)
                    dec = self.choice(['staticmethod', 'property', 'classmethod'])
                    body += ['    @%s' % dec, '    def p(%s):' % ('' if dec == 'staticmethod' else 'self')] + ['        ' + l for l in fbody(rs)]
                kinds[n] = 'class'
            elif k == 'inst': body += ['%s = %s()' % (n, self.choice(prev['class']))]
            elif k == 'method': body += ['%s = %s.m' % (n, self.choice(prev['inst']))]
            elif k == 'partial':
                fs = [m for m in names[:i] if kinds[m] in ('func', 'setter')]
                if fs: body += ['%s = functools.partial(%s, %d)' % (n, self.choice(fs), self.int(0, 9))]
                else: body += ['%s = functools.partial(print, 1)' % n]
            elif k in ('tuple', 'frozen'):
                ok = [m for m in names[:i] if kinds[m] not in ('empty',) and (k == 'tuple' or kinds[m] in ('func', 'class', 'int', 'inst', 'gen', 'lam', 'setter'))]
                body += ['%s = (%s)' % (n, ''.join(m + ', ' for m in self.sample(ok, 0, 3)))]
                if k == 'frozen' and ok: body[-1] = '%s = frozenset([%s])' % (n, self.choice(ok))
        self.kinds = kinds
        # edges
        live = [n for n in names if kinds[n] != 'empty']
        for _ in range(self.int(0, 6)):
            muts = [n for n in live if kinds[n] in ('list', 'dict', 'inst', 'func', 'cell', 'lam', 'gen')]
            if not muts or not live: break
            m = self.choice(muts); t = self.choice(live)
            if kinds[m] == 'list': body += ['%s.append(%s)' % (m, t)]
            elif kinds[m] == 'dict': body += ['%s["k%d"] = %s' % (m, self.int(0, 3), t)]
            elif kinds[m] == 'cell':
                if kinds[t] == 'cell': continue
                body += ['%s.cell_contents = [%s]' % (m, t)]
            else: body += ['%s.at%d = %s' % (m, self.int(0, 3), t)]
            self.label('edge')
        roots = self.sample(live, 1, 5) if live else ['0']
        # cells themselves may be stored too
        fns = [n for n in live if kinds[n] in ('func', 'setter', 'lam', 'gen')]
        rexpr = list(roots)
        if fns and self.chance(30):
            f = self.choice(fns)
            rexpr.insert(self.int(0, len(rexpr)), '%s.__closure__' % f); self.label('closure tuple')
        sp = self.choice(['[%s]', '[%s]', '(%s,)', 'dict(enumerate([%s]))'])
        # every variable must be a local of the factory: bind the unbound ones of the class bodies
        lines = ['import functools, types', 'def factory(%s):' % ', '.join('%s=%d' % p for p in params)]
        lines += ['    ' + l for l in body]
        lines += ['    return ' + sp % ', '.join(rexpr)]
        self.shared = any(v > 1 for v in self.uses.values())
        lines += ['OBJ = factory()']
        self.roots = rexpr
        if self.chance(15): lines[-1] = 'OBJ = factory()[0]' if sp != 'dict(enumerate([%s]))' else 'OBJ = factory()'
        return '\n'.join(lines) + '\n'

PROBE = '''
import types
def allfuncs(o):
    """functions, methods and setters reachable, in a canonical order"""
    out, seen, todo = [], set(), [o]
    while todo:
        x = todo.pop(0)
        if id(x) in seen: continue
        seen.add(id(x)); keep.append(x)
        t = type(x)
        if t is types.FunctionType:
            out.append(x); todo += [c for c in x.__closure__ or ()] + list(x.__dict__.values())
        elif t is types.CellType:
            try: todo.append(x.cell_contents)
            except ValueError: pass
        elif t in (list, tuple): todo += list(x)
        elif t is dict: todo += list(x.values())
        elif t is types.MethodType: todo += [x.__self__, x.__func__]
        elif isinstance(x, type):
            todo += [x.__dict__[k] for k in ('m', 'p') if k in x.__dict__] + list(x.__bases__)
        elif t in (staticmethod, classmethod): todo.append(x.__func__)
        elif t is property: todo.append(x.fget)
        elif type(getattr(x, '__dict__', None)) is dict and t.__module__ != 'functools': todo += [t] + list(x.__dict__.values())
    return out
keep = []
def call(f, *a):
    try: return f(*a)
    except Exception as e: return [type(e).__name__, str(e)]
def probe(o):
    fs = allfuncs(o)
    res = [len(fs)]
    for k in ORDER:
        if not fs: break
        f = fs[k % len(fs)]
        n = f.__code__.co_argcount - len(f.__defaults__ or ())
        res.append(call(f, *[100 + k] * n))
        if f.__code__.co_flags & 32: res[-1] = call(list, res[-1])
    return [res, o]
'''

@st.composite
def strat(draw):
    b = Clo(draw)
    src = b.build()
    order = [b.int(0, 30) for _ in range(b.int(1, 8))]
    o = opts(b, byref=(None, None, False))
    rec = o.get('recurse') is True
    nt = b.ncl >= 2 and (b.shared or 'empty' in b.labels or 'selfref' in b.labels)
    return dict(src=src, opts=o, where=b.choice(['fresh', 'same']), ns=b.weighted([(6, 'main'), (1, 'fake')]), pre='',
                probe='ORDER = %r\n' % order + PROBE, gmode='none', labels=sorted(b.labels), nt=nt)

def cases(tier): return strat()

def run(case, ctx):
    ctx.label(*case['labels'], 'proto%s' % case['opts'].get('protocol'), case['where'], case['ns'], 'recurse%s' % case['opts'].get('recurse'))
    ctx.nontrivial(case['nt'])
    roundtrip(case, ctx)
