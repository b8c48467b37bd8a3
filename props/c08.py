import base64, re
from hypothesis import strategies as st
from gen import B, opts
from driver import Violation, Skip
from rt import compare

BUDGET = {'quick': dict(cases=4000, seconds=240), 'thorough': dict(cases=60000, seconds=800)}
RULE = ('A case is a generated program of 2-9 globals in one or two namespaces (data, functions, classes, closures, instances, modules, functions of an importable module, aliases, rebindings), each with a marker, whose functions refer to '
        'each other through names in 17 syntactic positions and mention other names in 12 positions that are no reference. The model computes which markers are reachable; exactly these must occur in the pickle written with recurse=True, the '
        'loaded object must act as the original where all names of the program are bound to decoys, and neither side may change any namespace. Non-trivial: something is reachable only through another function, or a name is mentioned without being referred to.')
ASSUMPTIONS = ['names that are only stored or deleted by a function, and names of a class body that are bound there, may or may not be carried']

MODS = ['colorsys', 'quopri', 'tabnanny', 'netrc', 'stringprep']
BUILTINS = ['callable', 'type', 'dict', 'sum', 'list', 'ZeroDivisionError', 'Exception', 'StopIteration']
NAMES = ['g1', 'g2', 'g3', 'g4', 'g5', 'g6', 'Kls', 'x', 'len', 'list', 'id', '_p', 'caf\u00e9', 'fn', 'fn2', 'rec', 'self', 'func', 'globs', 'name']

HM = '''
PRIVATE = ['<<HM>>']
x = g1 = len_ = 'x'
def hf(d=0): return [PRIVATE, g1, x, d]
def hdeco(fn):
    def inner(d=0): return ['deco', fn(d), g1, PRIVATE[0] == 1]
    return inner
class HC:
    data = PRIVATE
    def __init__(self, d=0): self.d = d
'''

class Spec(B):
    def start(self):
        self.vals = []               # value id -> dict(kind, marker, ns, names, vids)
        self.ns = [dict(), dict()]   # name -> value id
        self.out = []                # (namespace, lines)
        self.mods = list(MODS)
        self.n = 0
    def u(self, p):
        self.n += 1; return '%s%d_' % (p, self.n)
    def value(self, kind, ns, marker=None, names=(), vids=()):
        self.vals.append(dict(kind=kind, ns=ns, marker=marker, names=set(names), vids=set(vids)))
        return len(self.vals) - 1
    def marker(self): return '<<M%d>>' % len(self.vals)
    def anyname(self, ns, defined=False):
        known = list(self.ns[ns])
        if known and (defined or self.chance(75)): return self.choice(known)
        if defined: return None
        return self.choice(NAMES)
    def e(self, n): return '(%s(d - 1) if callable(%s) and d > 0 else type(%s).__name__ if callable(%s) else %s)' % (n, n, n, n, n)
    def refs(self, ns, ind='    ', params=('d',)):
        """lines that refer to names, and the set of them"""
        lines, names = [], set()
        for _ in range(self.weighted([(1, 0), (4, 1), (4, 2), (3, 3), (1, 5)])):
            if self.chance(72):
                n = self.anyname(ns)
                E = self.e(n)
                f = self.int(0, 17); h = self.u('h'); k = self.u('k')
                self.label('ref%d' % f); mention = False
                L = [['r.append(%s)' % E],
                     ['def %s(): return %s' % (h, E), 'r.append(%s())' % h],
                     ['r.append((lambda: %s)())' % E],
                     ['r.append([%s for _ in (1,)])' % E],
                     ['r.extend(%s for _ in (1,))' % E],
                     ['class %s:' % k, '    a = %s' % E, 'r.append(%s.a)' % k],
                     ['class %s:' % k, '    def m(s, d): return %s' % E, 'r.append(%s().m(d))' % k],
                     ['def %s(v_=%s): return v_' % (h, E), 'r.append(%s())' % h],
                     ['def %s(f_): return %s' % (k, E), '@%s' % k, 'def %s(): pass' % h, 'r.append(%s)' % h],
                     ['def %s():' % h, '    def %s(): return lambda: %s' % (k, E), '    return %s' % k, 'r.append(%s()()())' % h],
                     ["r.append(f'{type(%s).__name__:>5}')" % E],
                     ['try: r.append(1 // 0)', 'except ZeroDivisionError: r.append(%s)' % E, 'finally: r.append(type(%s).__name__)' % n],
                     ['def %s():' % h, '    yield %s' % E, 'r.append(list(%s()))' % h],
                     ['def %s(v_: %s): return 1' % (h, n), 'r.append(%s(2))' % h],
                     ['if d < -9: r.append(%s)' % n],
                     ['if (w_ := %s) is not None: r.append(w_)' % E],
                     ['def %s():' % h, '    class %s:' % k, '        def m(s): return [%s for _ in "a"]' % E, '    return %s().m()' % k, 'r.append(%s())' % h],
                     ['async def %s(): return %s' % (h, E), 'try: %s().send(None)' % h, 'except StopIteration as e_: r.append(e_.value)']][f]
                names.add(n)
                if self.chance(50) and f != 11 and f != 17: L = ['try:'] + ['    ' + l for l in L] + ['except Exception as e_: r.append(type(e_).__name__)']
            else:
                n = self.anyname(ns)
                f = self.int(0, 12); h = self.u('h'); k = self.u('k')
                self.label('mention%d' % f); mention = True
                L = [['class %s: pass' % k, '%s.%s = 1' % (k, n), 'r.append(%s.%s)' % (k, n)],
                     ['r.append(dict(%s=1))' % n],
                     ['r.append("%s")' % n],
                     ['def %s():' % h, '    %s = 1' % n, '    return %s' % n, 'r.append(%s())' % h],
                     ['r.append((lambda %s: %s)(1))' % (n, n)],
                     ['r.append([%s for %s in (1,)])' % (n, n)],
                     ['r.append(sum(%s for %s in (1,)))' % (n, n)],
                     ['def %s():' % h, '    import math as %s' % n, '    return %s.floor(2.5)' % n, 'r.append(%s())' % h],
                     ['def %s():' % h, '    %s = 1' % n, '    def %s(): return %s' % (k, n), '    return %s()' % k, 'r.append(%s())' % h],
                     ['class %s:' % k, '    %s = 1' % n, 'r.append(1)'],
                     ['def %s():' % h, '    def %s(): return 4' % n, '    return %s()' % n, 'r.append(%s())' % h],
                     ['def %s(*, %s=3): return %s' % (h, n, n), 'r.append(%s())' % h],
                     ['def %s():' % h, '    try: 1 // 0', '    except Exception as %s: return type(%s).__name__' % (n, n), 'r.append(%s())' % h]][f]
            names.update(x for x in BUILTINS if re.search(r'\b%s\b' % x, ' '.join(L)) and not (x == n and mention))
            lines += L
        if self.chance(10):
            n = self.choice(['w1', 'w2'])
            lines += ['global %s' % n, '%s = [d]' % n, 'r.append(%s)' % n]
            self.label('globalwrite'); names.add(n)
        return [ind + l for l in lines], names
    def name(self, ns):
        return self.choice(NAMES) if not self.chance(25) else self.u('n')
    def define(self, ns):
        out = []
        n = self.name(ns)
        k = self.weighted([(5, 'func'), (4, 'data'), (2, 'closure'), (2, 'class'), (1, 'mod'), (2, 'hm'), (1, 'alias'), (1, 'inst'), (1, 'method'), (1, 'deco')])
        self.label(k)
        old = list(self.ns[ns])
        if k == 'data':
            m = self.marker()
            vids = []; parts = []
            for _ in range(self.int(0, 2)):
                if not old: break
                x = self.choice(old); vids.append(self.ns[ns][x]); parts.append(x)
            form = self.choice(['str', 'list', 'dict', 'tuple', 'ns', 'bytes'])
            if form == 'str': ex, vids = repr(m), []
            elif form == 'bytes': ex, vids = 'b%r' % m, []
            elif form == 'list': ex = '[%s]' % ', '.join([repr(m)] + parts)
            elif form == 'tuple': ex = '(%s)' % ', '.join([repr(m)] + parts + [''])
            elif form == 'dict': ex = '{%s}' % ', '.join(['"a": %r' % m] + ['%d: %s' % (i, p) for i, p in enumerate(parts)])
            elif form == 'ns': ex = '__import__("types").SimpleNamespace(%s)' % ', '.join(['a=%r' % m] + ['b%d=%s' % (i, p) for i, p in enumerate(parts)])
            out.append('%s = %s' % (n, ex))
            v = self.value('data', ns, m, (), vids)
        elif k in ('func', 'closure', 'method', 'deco'):
            m = self.marker(); vids = set(); names = set(); extra = []
            par = 'd=2'
            if old and self.chance(20):
                x = self.choice(old); vids.add(self.ns[ns][x]); par += ', dv_=' + x; extra.append('r.append(type(dv_).__name__)'); names.add('type'); self.label('default')
            body, names2 = self.refs(ns); names |= names2
            mk = ['r = [%r]' % m] + extra
            gl = []
            if self.chance(12) and names2: g = self.choice(sorted(names2 - {'d'})); gl = ['global ' + g]; self.label('globalstmt')
            # a global statement must come before every use, and nothing may be bound locally
            if k == 'closure':
                f = self.u('mk')
                out.append('def %s():' % f)
                cells = []
                for _ in range(self.int(1, 2)):
                    c = self.u('c'); ok = [x for x in old if x != n]; x = self.choice(ok) if ok and self.chance(70) else None
                    out.append('    %s = %s' % (c, x or '7')); cells.append(c)
                    if x: vids.add(self.ns[ns][x])
                out.append('    def %s(%s):' % (n, par))
                for l in gl + mk + ['r.append(type(%s).__name__)' % c for c in cells]: out.append('        ' + l)
                names.add('type')
                out += ['    ' + l for l in body] + ['        return r', '    return %s' % n, '%s = %s()' % (n, f)]
                out.append('del %s' % f)
                # inside of mk the name n is local: a reference to it is a closure variable
                if n in names: names.discard(n)
                v = self.value('func', ns, m, names, vids)
            else:
                out.append('def %s(%s):' % (n, par))
                out += ['    ' + l for l in gl + mk] + body + ['    return r']
                v = self.value('func', ns, m, names, vids)
                if k == 'method':
                    c = self.u('C'); mm = self.marker()
                    out += ['class %s:' % c, '    tag = %r' % mm, '    def __init__(self, d=0): pass', '    meth = (lambda f_: lambda self, d=0: f_(d))(%s)' % n, '%s = %s().meth' % (n, c)]
                    cv = self.value('class', ns, mm, (), [v]); self.ns[ns][c] = cv
                    v = self.value('meth', ns, None, (), [cv])
                elif k == 'deco':
                    out += ['from hm_lib import hdeco as hdeco_', '%s = hdeco_(%s)' % (n, n)]
                    self.ns[ns]['hdeco_'] = self.value('hm', ns, None)
                    # a function of an importable module that has to be stored: it carries what it refers to
                    v = self.value('func', ns, '<<HM>>', (), [v])
                elif self.chance(15) and old:
                    x = self.choice(old); out.append('%s.attr = [%s]' % (n, x)); self.vals[v]['vids'].add(v if x == n else self.ns[ns][x]); self.label('attr')
        elif k == 'class':
            m = self.marker(); body, names = self.refs(ns, '        ', ('self', 'd'))
            names.discard('self')
            base = None
            cl = [x for x in old if self.vals[self.ns[ns][x]]['kind'] == 'class']
            if cl and self.chance(40): base = self.choice(cl)
            if n == base: n = self.u('n')
            out.append('class %s%s:' % (n, '(%s)' % base if base else ''))
            vids = set()
            if base: vids.add(self.ns[ns][base])
            out.append('    tag = %r' % m)
            if old and self.chance(30): x = self.choice(old); out.append('    captured = (%s,)' % x); vids.add(self.ns[ns][x])
            out += ['    def __init__(self, d=0):', '        r = []'] + body + ['        self.r = r']
            v = self.value('class', ns, m, names, vids)
        elif k == 'mod':
            if not self.mods: return
            m = self.mods.pop(); out.append('import %s as %s' % (m, n)); v = self.value('mod', ns, m)
        elif k == 'hm':
            what = self.choice(['hf', 'HC', 'hf']); out.append('from hm_lib import %s as %s' % (what, n)); v = self.value('hm', ns, None)
        elif k == 'alias':
            if not old: return
            x = self.choice(old); out.append('%s = %s' % (n, x)); v = self.ns[ns][x]
        elif k == 'inst':
            cl = [x for x in old if self.vals[self.ns[ns][x]]['kind'] == 'class']
            if not cl: return
            x = self.choice(cl); m = self.marker()
            out += ['%s = %s.__new__(%s)' % (n, x, x), '%s.data = %r' % (n, m)]
            v = self.value('inst', ns, m, (), [self.ns[ns][x]])
        self.out.append((ns, out)); self.ns[ns][n] = v
    def reach(self, roots):
        seen, todo, markers, depth = set(), [(r, 0) for r in roots], set(), 0
        while todo:
            v, k = todo.pop(0)
            if v in seen: continue
            seen.add(v); d = self.vals[v]; depth = max(depth, k)
            if d['marker']: markers.add(d['marker'])
            for n in sorted(d['names']):
                if n in self.ns[d['ns']]: todo.append((self.ns[d['ns']][n], k + 1))
            todo += [(x, k + 1) for x in d['vids']]
        return markers, depth

    def limit(self):
        """dill announces (with a warning) that it cannot store an object under construction that is met again other than directly as a global"""
        def edges(v):
            d = self.vals[v]
            return [self.ns[d['ns']][n] for n in d['names'] if n in self.ns[d['ns']]] + list(d['vids'])
        for c, d in enumerate(self.vals):
            if d['kind'] not in ('class', 'func'): continue
            seen, todo = set(), edges(c)
            while todo:
                v = todo.pop()
                if v in seen: continue
                seen.add(v); todo += edges(v)
                if c in self.vals[v]['vids']: return True
        return False

PROBE = '''
import re
def noaddr(s): return re.sub('0x[0-9a-f]+', '0x', s)
def flat(x, k=0):
    if k > 12: return 'deep'
    if type(x) in (list, tuple): return [type(x).__name__] + [flat(y, k + 1) for y in x]
    if type(x) is dict: return [[a, flat(y, k + 1)] for a, y in x.items()]
    if type(x) in (str, int, bytes, float, bool, type(None)): return repr(x)
    if hasattr(x, '__dict__') and not callable(x) and type(x).__name__ != 'module': return [type(x).__name__, flat(vars(x), k + 1)]
    return [type(x).__name__, getattr(x, '__name__', None)]
def one(x):
    out = [type(x).__name__]
    if callable(x):
        for d in (2, 0, 1):
            try: out.append(flat(x(d)))
            except Exception as e: out.append(['raised', type(e).__name__, noaddr(str(e))])
    return out
def probe(o): return [one(x) for x in o]
'''

@st.composite
def strat(draw):
    b = Spec(draw); b.start()
    two = b.chance(35)
    for _ in range(b.int(2, 9)):
        ns = 1 if two and b.chance(45) else 0
        b.define(ns)
        if two and b.chance(25) and b.ns[1 - ns]:
            x = b.choice(list(b.ns[1 - ns])); n = b.choice(NAMES)     # an object of the other namespace
            b.out.append((0, ['%s = NS1_[%r]' % (n, x) if ns == 0 else 'NS1_[%r] = %s' % (n, x)]))
            b.ns[ns][n] = b.ns[1 - ns][x]; b.label('cross')
    fs = [n for n, v in b.ns[0].items() if b.vals[v]['kind'] in ('func', 'meth', 'class', 'inst')] or list(b.ns[0])
    if not fs:
        b.out.append((0, ['x = 1'])); b.ns[0]['x'] = b.value('data', 0); fs = ['x']
    roots = [b.choice(fs[::-1])]
    if b.chance(15): roots.append(b.choice(fs))
    src = ['NS1_ = {"__name__": "nosuch.second", "__builtins__": __builtins__}']
    for ns, lines in b.out:
        if ns == 0: src += lines
        else: src.append('exec(%r, NS1_)' % ('\n'.join(lines) + '\n'))
    src.append('OBJ = [%s]' % ', '.join(roots))
    must, depth = b.reach([b.ns[0][r] for r in roots])
    mustnot = {d['marker'] for d in b.vals if d['marker']} | {'<<HM>>'}
    names = sorted(set(b.ns[0]) | set(b.ns[1]) | {'w1', 'w2'})
    return dict(src='\n'.join(src) + '\n', opts=opts(b, byref=(None, None, False), recurse=(True,)), where=b.weighted([(3, 'main'), (1, 'fake')]), must=sorted(must), mustnot=sorted(mustnot - must),
                pre=''.join('%s = "decoy %s"\n' % (n, n) for n in names) if b.chance(70) else '', depth=depth, labels=sorted(b.labels), limit=b.limit())

def cases(tier): return strat()

def run(case, ctx):
    ctx.label(*case['labels'], case['where'], 'depth%d' % min(case['depth'], 5), 'proto%s' % case['opts'].get('protocol'))
    ctx.nontrivial(case['depth'] > 1 or any(l.startswith('mention') for l in case['labels']))
    z = ctx.zygote(mods=('vlib', 'vdesc', 'ops_glob'))
    mods = [('hm_lib', HM)]
    a = z.call('ops_glob', 'dump', src=case['src'], opts=case['opts'], probe=PROBE, modules=mods, where=case['where'], gmode='names', limit=case['limit'])
    if a.get('toolong'): raise Skip('the generated function runs too long')
    if a['recwarn']: raise Skip('dill announces a recursion that it cannot store')
    data = base64.b64decode(a['data'])
    for m in case['must']:
        if m.encode() not in data: raise Violation('the pickle does not carry what holds the marker %s, though it is reachable' % m)
    for m in case['mustnot']:
        if m.encode() in data: raise Violation('the pickle carries what holds the marker %s, though nothing refers to it' % m)
    b = z.call('ops_glob', 'load', data=a['data'], pre=case['pre'], opts={}, probe=PROBE, modules=mods, gmode='names')
    compare(a['probe'], b['probe'], 'behaviour')
