from hypothesis import strategies as st
from gen import B, opts
from rt import roundtrip

BUDGET = {'quick': dict(cases=3200, seconds=240), 'thorough': dict(cases=60000, seconds=800)}
RULE = ('A case is a graph of 1-6 referents (instances of classes with odd __str__, __repr__, __eq__, __bool__, __len__, __call__, slots; functions, classes, sets, subclasses of built-in containers, library objects) and 1-8 weak references, '
        'weak proxies, weak sets and weak-key dictionaries of them, live or dead, with or without callback, shared, nested in containers, attributes and closures, met before or after the referent. After loading the graph is described, the weak objects are used, and then the strong '
        'references are dropped one by one and the state of every weak object is compared. Non-trivial: a proxy, a dead reference, an odd referent or a reference met before its referent.')
ASSUMPTIONS = ['referents are stored in the same pickle', 'callbacks are not stored, so weak containers do not forget dead members by themselves after loading', 'subclasses of weakref.ref (also in WeakValueDictionary, WeakMethod) cannot be stored',
               'weak proxies of objects that the garbage collector does not track are a known finding']

ODD = {'str': ['def __str__(self): return %r'], 'repr': ['def __repr__(self): return %r'], 'eq': ['def __eq__(self, o): return True', 'def __hash__(self): return 1'], 'bool': ['def __bool__(self): return False'],
       'len': ['def __len__(self): return 0'], 'call': ['def __call__(self, *a): return ["called", self.tag]'], 'strraise': ['def __str__(self): raise %s("no str")'], 'nohash': ['__hash__ = None'], 'getattr': ['def __getattr__(self, n):', '    if n.startswith("__"): raise AttributeError(n)', '    return n'],
       'slots': ["__slots__ = ('tag', 'r', '__weakref__')"], 'iter': ['def __iter__(self): return iter(())'], 'selfattr': ['def __self__(self): return 0']}
STR = ['meet at cafe', 'x at 0x10', '<K object at 0x7f0000000000>', '', 'None', 'at', ' at ', '<weakproxy at 0x1 to K at 0x2>', 'a at 5>', 'dead']

class W(B):
    def klass(self):
        n = self.name('K'); b = []
        base = self.choice(['', '', '', 'dict', 'list', 'set', 'collections.UserDict', 'collections.deque', 'float', 'str'])
        for k in self.sample(sorted(ODD), 0, 3):
            if k == 'slots' and base in ('float', 'str', 'set', 'collections.deque', 'collections.UserDict'): continue
            if k in ('eq', 'nohash', 'getattr', 'iter', 'bool', 'len') and base: continue
            if k in ('getattr', 'slots') and ('__slots__' in str(b) or '__getattr__' in str(b)): continue
            for l in ODD[k]: b.append(l % self.choice(STR if k != 'strraise' else ['ValueError', 'ReferenceError']).replace('%', '%%') if '%s' in l and k == 'strraise' else l % self.choice(STR) if '%r' in l else l)
            self.label('odd:' + k)
            if k == 'slots': self.need2 = True
        if base in ('collections.deque', 'str', 'float'): self.need2 = True
        self.emit('class %s%s:' % (n, '(%s)' % base if base else ''))
        for l in b or ['pass']: self.emit('    ' + l)
        self.cls.append((n, 'nohash' in str(b) or '__hash__ = None' in b or base in ('dict', 'list', 'set', 'collections.UserDict', 'collections.deque')))
    def referent(self):
        n = self.name('x'); self.tag = getattr(self, 'tag', 0) + 1
        k = self.weighted([(8, 'inst'), (2, 'func'), (2, 'class'), (1, 'set'), (1, 'fs'), (1, 'lib'), (1, 'lam'), (1, 'deque'), (1, 'mod'), (1, 'pattern')])
        hashable = True
        if k == 'inst':
            c, nh = self.choice(self.cls); self.emit('%s = %s()' % (n, c)); self.emit('%s.tag = %d' % (n, self.tag)); hashable = not nh
        elif k == 'func': self.emit('def %s(x=%d): return [x, %d]' % (n, self.int(0, 9), self.tag))
        elif k == 'lam': self.emit('%s = (lambda c: lambda: c)(%d); %s.__qualname__ = "lam%d"' % (n, self.tag, n, self.tag))
        elif k == 'class': self.emit('class %s: tag = %d' % (n, self.tag))
        elif k == 'set': self.emit('%s = {%d}' % (n, self.tag)); hashable = False
        elif k == 'fs': self.emit('%s = frozenset([%d, %d])' % (n, self.tag, self.tag + 100))
        elif k == 'deque': self.emit('%s = collections.deque([%d])' % (n, self.tag)); hashable = False
        elif k == 'lib': self.emit('%s = %s' % (n, self.choice(['json.dumps', 'json.JSONEncoder', 'len', 'collections.UserDict'])))
        elif k == 'mod': self.emit('%s = json' % n)
        elif k == 'pattern': self.emit('%s = re.compile("z%d")' % (n, self.tag)); hashable = True
        self.label('r:' + k)
        self.x.append((n, k, hashable))
    def weak(self):
        n = self.name('w'); x, k, h = self.choice(self.x)
        kind = self.weighted([(5, 'ref'), (5, 'proxy'), (2, 'dead'), (2, 'deadproxy'), (1, 'wset'), (1, 'wkey'), (1, 'again'), (1, 'deadcall')])
        cb = self.choice(['', '', ', print', ', lambda r: None'])
        if kind == 'again' and self.w: self.w.append(self.choice(self.w)); self.label('shared'); return
        if kind == 'ref': self.emit('%s = weakref.ref(%s%s)' % (n, x, cb))
        elif kind == 'proxy': self.emit('%s = weakref.proxy(%s%s)' % (n, x, cb))
        elif kind == 'dead': self.emit('%s = weakref.ref(%s%s)' % (n, self.choice(['set()', 'lambda: 0', 'collections.UserDict()', self.cls[0][0] + '()']), cb))
        elif kind == 'deadproxy': self.emit('%s = weakref.proxy(%s%s)' % (n, self.choice(['set()', 'collections.UserDict()', self.cls[0][0] + '()']), cb))
        elif kind == 'deadcall': self.emit('%s = weakref.proxy(lambda: 0%s)' % (n, cb))
        elif kind in ('wset', 'wkey'):
            hs = [y for y in self.x if y[2] and y[1] not in ('lib', 'mod')]
            if not hs: return
            ms = self.sample([y[0] for y in hs], 0, 3); 
            if kind == 'wset': self.emit('%s = weakref.WeakSet([%s])' % (n, ', '.join(ms)))
            else: self.emit('%s = weakref.WeakKeyDictionary({%s})' % (n, ', '.join('%s: %d' % (m, i) for i, m in enumerate(ms))))
        else: return
        self.label('w:' + kind); self.w.append(n)
    def place(self, w):
        """an expression or None when stored somewhere"""
        k = self.weighted([(8, 'direct'), (2, 'list'), (1, 'dict'), (2, 'attr'), (1, 'clo'), (1, 'tuple'), (1, 'partial')])
        if k == 'direct': return w
        if k == 'list': return '[%s]' % w
        if k == 'tuple': return '(%s, [])' % w
        if k == 'dict': return '{1: %s}' % w
        if k == 'partial': return 'functools.partial(print, %s)' % w
        if k == 'clo': return '(lambda c: lambda: c)(%s)' % w
        if k == 'attr':
            xs = [y for y in self.x if y[1] in ('inst', 'func', 'class', 'lam')]
            if not xs: return w
            self.emit('try: %s.r = %s' % (self.choice(xs)[0], w)); self.emit('except AttributeError: pass'); self.label('back reference')
            return w if self.bool() else '0'

PRE = 'import weakref, collections, json, re, functools, types\n'
PROBE = '''
import gc, sys, weakref, types, collections
def kinds(o, seen, out):
    t = type(o)
    if id(o) in seen and 'weak' not in t.__module__: return
    seen.add(id(o))
    if t in (list, tuple): [kinds(x, seen, out) for x in o]
    elif t is dict: [kinds(x, seen, out) for x in o.values()]
    elif t in (weakref.ref, weakref.ProxyType, weakref.CallableProxyType, weakref.WeakSet, weakref.WeakKeyDictionary): out.append(o)
    elif t is types.FunctionType and o.__closure__: [kinds(c.cell_contents, seen, out) for c in o.__closure__]
    elif t.__name__ == 'partial': kinds(list(o.args), seen, out)
def state(w):
    t = type(w)
    if t is weakref.ref: return ['ref', w() is None]
    if t in (weakref.ProxyType, weakref.CallableProxyType):
        try: w.__class__; return [t.__name__, 'alive']
        except ReferenceError: return [t.__name__, 'dead']
    return [t.__name__, sum(1 for x in w)]
def act(w):
    t = type(w)
    if t in (weakref.ProxyType, weakref.CallableProxyType):
        out = []
        for f in (lambda: w.tag, lambda: w(), lambda: str(w).split(' at 0x7')[0], lambda: w.r is not None, lambda: setattr(w, 'put', 5), lambda: len(w), lambda: bool(w)):
            try: r = f(); out.append(r if type(r) in (int, str, bool, list) else type(r).__name__)
            except Exception as e: out.append(type(e).__name__)
        return out
def probe(o):
    strong, weak = o
    ws = []; kinds(weak, set(), ws)
    out = [[state(w) for w in ws], [act(w) for w in ws], [type(getattr(x, 'put', None)).__name__ for x in strong]]
    m = sys.modules['__main__'].__dict__
    for k in list(m):
        if not k.startswith('__'): del m[k]
    while strong:
        strong.pop(); gc.collect()
        out.append([state(w) for w in ws])
    return out
'''
KNOWN = [dict(src=PRE + 'x = compile("1", "f", "eval")\nOBJ = [[x], [weakref.proxy(x)]]\n', opts={}, where='fresh', pre='', probe=PROBE, gmode='none', labels=[], key='proxy-untracked')]
def enumerate_cases(tier): return KNOWN

@st.composite
def strat(draw):
    b = W(draw); b.cls = []; b.x = []; b.w = []; b.need2 = False
    b.emit(PRE.rstrip())
    for _ in range(b.int(1, 3)): b.klass()
    for _ in range(b.int(1, 6)): b.referent()
    for _ in range(b.int(1, 8)): b.weak()
    if not b.w: b.emit('w0 = weakref.ref(%s)' % b.x[0][0]); b.w.append('w0')
    weak = [b.place(w) for w in b.w]
    xs = [x[0] for x in b.x]
    o = opts(b, byref=(None, None, False))
    if b.need2 and o.get('protocol', 4) < 2: o['protocol'] = b.int(2, 5)
    order = b.choice(['after', 'before', 'swapped'])
    b.label(order)
    if order == 'after': b.emit('OBJ = [[%s], [%s]]' % (', '.join(xs), ', '.join(weak)))
    elif order == 'before':
        b.emit('class Pair:'); b.emit('    def __iter__(self): return iter((self.strong, self.weak))')
        b.emit('OBJ = Pair(); OBJ.weak = [%s]; OBJ.strong = [%s]' % (', '.join(weak), ', '.join(xs)))
    else: b.emit('OBJ = [[%s], [%s]]' % (', '.join(xs[::-1]), ', '.join(weak)))
    return dict(src=b.src(), opts=o, where=b.choice(['fresh', 'fresh', 'same']), pre='', probe=PROBE, gmode='none', skiprec='back reference' in b.labels, labels=sorted(b.labels))

def cases(tier): return strat()

def run(case, ctx):
    ctx.label(*case['labels'], 'proto%s' % case['opts'].get('protocol'), case['where'])
    ctx.nontrivial(bool(set(case['labels']) & {'before', 'w:proxy', 'w:dead', 'w:deadproxy'}) or any(l.startswith('odd') for l in case['labels']))
    if case.get('key'):
        from driver import Violation
        try: roundtrip(case, ctx, zy='w', env={'VERIF_UNFREEZE': '1'})
        except Violation as e: ctx.fail(str(e), case['key'])
        return
    roundtrip(case, ctx, zy='w', env={'VERIF_UNFREEZE': '1'})
