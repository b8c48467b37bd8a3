"""Generator of classes with pickling hooks and of graphs of their instances (C06, C15, C20, C21)."""
from gen import B, opts
from gen_data import Data, PRELUDE

IPRE = PRELUDE + 'import copyreg, enum, abc\n'
CONTENT = {'list': lambda b: '[%s]' % ', '.join(b.vals(3)), 'dict': lambda b: '{%s}' % ', '.join('%s: %s' % (b.hashable(), b.val()) for _ in range(b.int(0, 3))),
           'int': lambda b: b.choice(['5', '-1', '2**70']), 'str': lambda b: repr(b.choice(['', 'abc', '\u00e9'])), 'tuple': lambda b: '(%s)' % ''.join(b.choice(['%s, ', '[%s], ', '(%s, [1]), ']) % b.atom() for _ in range(b.int(0, 3))),
           'set': lambda b: '[%s]' % ', '.join(b.hashable() for _ in range(b.int(0, 3))), 'frozenset': lambda b: '[%s]' % ', '.join(b.hashable() for _ in range(b.int(0, 3))),
           'float': lambda b: '2.5', 'bytes': lambda b: "b'xy'", 'Exception': lambda b: ', '.join(b.atom() for _ in range(b.int(0, 2))), 'ValueError': lambda b: ', '.join(b.atom() for _ in range(b.int(0, 2))),
           'collections.OrderedDict': lambda b: '[%s]' % ', '.join('(%s, %s)' % (b.hashable(), b.val()) for _ in range(b.int(0, 3))),
           'collections.deque': lambda b: '[%s]' % ', '.join(b.vals(3)), 'collections.UserDict': lambda b: '{1: %s}' % b.val(), 'complex': lambda b: '1, 2', 'bytearray': lambda b: "b'q'",
           'datetime.date': lambda b: '2020, 1, 2', 'collections.Counter': lambda b: '"aab"',
           'collections.defaultdict': lambda b: 'list, {1: %s}' % b.val(), 'types.SimpleNamespace': lambda b: '', 'collections.UserList': lambda b: '[%s]' % ', '.join(b.vals(2))}
VARSIZE = {'int', 'tuple', 'bytes'}           # no non-empty slots, no weak references

class Inst(Data):
    modname = None
    def setup_inst(self):
        self.cls = []       # dict(name, base, slots, hook, own-hook, hasdict, need2)
        self.insts = []
        self.ext_leaf = True
    # state values: only what copy.deepcopy treats as pickle does
    def val(self):
        if self.nodes and self.chance(55):
            self.refs = getattr(self, 'refs', 0) + 1
            return self.choice(self.nodes)[0]
        k = self.weighted([(6, 'atom'), (2, 'leaf'), (1, 'list')])
        if k == 'atom': return self.atom()
        if k == 'leaf': return self.choice(self.LEAFS)
        return '[%s]' % self.atom()
    LEAFS = ['datetime.date(2020, 1, 2)', 'decimal.Decimal("1.5")', 'fractions.Fraction(1, 3)', 'len', 'int', 'collections.OrderedDict', 'operator.add', 'datetime.timedelta(3)']
    def hashable(self, depth=2):
        return self.choice([self.atom(), '(%s, %s)' % (self.atom(), self.atom())])
    def node(self):
        n = self.name()
        k = self.weighted([(3, 'list'), (3, 'dict'), (2, 'tuple'), (1, 'set'), (1, 'odict'), (1, 'deque'), (1, 'ns')])
        if k == 'list': e = '[%s]' % ', '.join(self.vals())
        elif k == 'dict': e = '{%s}' % ', '.join('%s: %s' % (self.hashable(), self.val()) for _ in range(self.int(0, 3)))
        elif k == 'tuple': e = '(%s)' % ''.join(v + ', ' for v in self.vals())
        elif k == 'set': e = '{%s}' % ', '.join([self.hashable()] + [self.hashable() for _ in range(self.int(0, 3))])
        elif k == 'odict': e = 'collections.OrderedDict([(%s, %s)])' % (self.hashable(), self.val())
        elif k == 'deque': e = 'collections.deque([%s])' % ', '.join(self.vals())
        elif k == 'ns': e = 'types.SimpleNamespace(%s)' % ', '.join('a%d=%s' % (i, v) for i, v in enumerate(self.vals(2)))
        self.emit('%s = %s' % (n, e)); self.nodes.append((n, k))
    def klass(self):
        n = self.name('K')
        base = None; b = None
        k = self.weighted([(5, 'none'), (4, 'prev' if self.cls else 'none'), (4, 'builtin')])
        if k == 'prev': base = self.choice(self.cls); b = base['name']; built = base['built']
        elif k == 'builtin': built = b = self.choice(sorted(CONTENT))
        else: built = None
        slots = None
        if self.chance(30):
            slots = self.choice([['s1'], ['s1', 's2'], [], ['s3', '__dict__'], ['__p']])
            if built in VARSIZE: slots = []
            if base and set(slots) & set(base['allslots']): slots = []
            if '__dict__' in slots and (base and base['hasdict'] or built not in (None, 'list', 'dict', 'float', 'set')): slots = []
        hasdict = slots is None or '__dict__' in slots or bool(base and base['hasdict']) or built in ('Exception', 'ValueError', 'collections.OrderedDict', 'collections.UserDict', 'collections.UserList', 'collections.Counter', 'types.SimpleNamespace')
        allslots = (base['allslots'] if base else []) + [s for s in slots or [] if s != '__dict__']
        body = []
        if slots is not None: body.append('__slots__ = %r' % (tuple(slots),))
        hooks = ['none'] * 6
        plain = built is None
        if base is None or base['hook'] == 'none':
            hooks += ['gs_dict', 'gs_tuple', 'ss_only', 'gs_none', 'gs_falsy', 'reduce_state', 'reduce_ex', 'copyreg', 'rex_over']
            if plain: hooks += ['reduce_factory', 'getnewargs', 'getnewargs_ex', 'reduce_localfn', 'init_args', 'reduce_cls']
            if built in ('int', 'str', 'tuple', 'float', 'bytes'): hooks += ['getnewargs_b']
            if built == 'list': hooks += ['listiter', 'append']
            if built == 'dict': hooks += ['dictiter', 'setitem']
        hook = self.choice(hooks)
        if not hasdict and hook in ('gs_dict', 'reduce_state', 'reduce_ex', 'copyreg', 'gs_tuple', 'ss_only', 'gs_none', 'gs_falsy', 'rex_over', 'init_args', 'reduce_cls'): hook = 'none'
        if built in ('datetime.date', 'decimal.Decimal', 'fractions.Fraction', 'collections.defaultdict', 'collections.deque', 'collections.Counter', 'collections.OrderedDict', 'complex', 'bytearray', 'Exception', 'ValueError', 'frozenset', 'set', 'types.SimpleNamespace', 'collections.UserList', 'collections.UserDict') and hook not in ('none', 'gs_dict'): hook = 'none'
        if built and hook in ('reduce_state', 'reduce_ex', 'copyreg'): hook = 'none'
        if (slots or base and base['allslots']) and hook in ('gs_dict', 'gs_tuple', 'ss_only', 'reduce_state', 'reduce_ex', 'copyreg', 'gs_none', 'gs_falsy', 'rex_over', 'reduce_factory', 'reduce_localfn', 'reduce_cls'): hook = 'none'
        if built in ('datetime.date', 'decimal.Decimal', 'fractions.Fraction', 'collections.Counter', 'collections.UserList') and hook != 'none': hook = 'none'
        need2 = bool(allslots or slots is not None or hook.startswith('getnew') or hook == 'gs_falsy' or (base and base['need2']) or built not in (None, 'list', 'dict', 'int', 'str', 'float', 'bytes', 'tuple', 'Exception', 'ValueError', 'set', 'complex'))
        H = []
        if hook == 'gs_dict': H = ['def __getstate__(self):', '    d = dict(self.__dict__); d.pop("vol", None); d["saved"] = 1; return d']
        elif hook == 'gs_tuple': H = ['def __getstate__(self): return ("st", dict(self.__dict__))', 'def __setstate__(self, s):', '    assert s[0] == "st"; self.__dict__.update(s[1]); self.restored = type(self).__name__']
        elif hook == 'ss_only': H = ['def __setstate__(self, s): self.__dict__.update(s); self.viass = True']
        elif hook == 'gs_none': H = ['def __getstate__(self): return None', 'def __setstate__(self, s): self.bad = s']
        elif hook == 'gs_falsy': H = ['def __getstate__(self): return %s' % self.choice(['0', '{}', '""', '()', 'False', '[]']), 'def __setstate__(self, s): self.falsy = s']
        elif hook == 'reduce_factory': H = ['def __reduce__(self): return (make_%s, (dict(self.__dict__),))' % n]
        elif hook == 'reduce_cls': H = ['def __init__(self, *a): self.args = a', 'def __reduce__(self): return (type(self), (1, "a"))']
        elif hook == 'reduce_localfn': H = ['def __reduce__(self): return (lambda d: make_%s(d), (dict(self.__dict__),))' % n]
        elif hook == 'reduce_state': H = ['def __reduce__(self): return (object.__new__, (type(self),), dict(self.__dict__, red=1))']
        elif hook == 'reduce_ex': H = ['def __reduce_ex__(self, p): return (object.__new__, (type(self),), dict(self.__dict__, redex=1))', 'def __reduce__(self): raise RuntimeError("wrong hook")']
        elif hook == 'rex_over': H = ['def __reduce_ex__(self, p):', '    r = super().__reduce_ex__(max(p, 2)); return r[:2] + (dict(self.__dict__, over=1),) + r[3:]']
        elif hook == 'getnewargs': H = ['def __new__(cls, *a):', '    o = object.__new__(cls); o.__dict__["na"] = a if hasattr(o, "__dict__") else None' if hasdict else '    return object.__new__(cls)', '    return o' if hasdict else '    pass', 'def __getnewargs__(self): return (1, "x")']
        elif hook == 'getnewargs_ex': H = ['def __new__(cls, *a, kw=0):', '    o = object.__new__(cls)'] + (['    o.__dict__["na"] = (a, kw)'] if hasdict else []) + ['    return o', 'def __getnewargs_ex__(self): return ((1,), {"kw": 3})']
        elif hook == 'getnewargs_b': H = ['def __new__(cls, x=0, extra=0): return super().__new__(cls, x)', 'def __getnewargs__(self): return (%s(self), 9)' % built]
        elif hook == 'init_args': H = ['def __init__(self, a=1): self.inited = a']
        elif hook == 'listiter': H = ['def __reduce__(self): return (type(self), (), %s, iter(list(self)))' % ('dict(self.__dict__)' if hasdict else 'None')]
        elif hook == 'dictiter': H = ['def __reduce__(self): return (type(self), (), %s, None, iter(list(self.items())))' % ('dict(self.__dict__)' if hasdict else 'None')]
        elif hook == 'append': H = ['def append(self, x): super().append(x)', 'def extend(self, x): super().extend(x)']
        elif hook == 'setitem': H = ['def __setitem__(self, k, v): super().__setitem__(k, v)']
        body += H
        if self.chance(30): body += ['def m(self, x=1): return [type(self).__name__, x]']
        if self.chance(15): body += ['cattr = %s' % self.atom()]
        if self.chance(15): body += ['def __eq__(self, o): return self is o', '__hash__ = object.__hash__']
        if self.chance(10) and plain: body += ['def __getattr__(self, n):', '    if n.startswith("__"): raise AttributeError(n)', '    return ["dyn", n]']
        if self.chance(6) and hasdict and plain: body += ['def __bool__(self): raise RuntimeError("truth")']
        if self.chance(6) and hook == 'none' and hasdict and plain: body += ['def __setattr__(self, n, v): object.__setattr__(self, n, v)']
        self.emit('class %s%s:' % (n, '(%s)' % b if b else ''))
        for l in body or ['pass']: self.emit('    ' + l)
        if hook in ('reduce_factory', 'reduce_localfn'):
            self.emit('def make_%s(d):' % n); self.emit('    o = object.__new__(%s); o.__dict__.update(d); o.made = 1; return o' % n)
        if hook == 'copyreg':
            self.emit('copyreg.pickle(%s, lambda o: (object.__new__, (%s,), dict(o.__dict__, cr=1)))' % (n, n))
            hk = 'none'
        self.label('hook:' + hook, 'base:' + (built or 'object'))
        if slots is not None: self.label('slots')
        if base: self.label('derived')
        self.cls.append(dict(name=n, built=built, allslots=allslots, slots=slots, hook=hook if base is None or base['hook'] == 'none' else base['hook'], hasdict=hasdict, need2=need2,
                             initable=not (base and base['hook'] in ('init_args',)) or True))
        if need2: self.need2 = True
    need2 = False
    def inst(self):
        c = self.choice(self.cls)
        n = self.name('i')
        args = CONTENT[c['built']](self) if c['built'] else ''
        self.emit('%s = %s(%s)' % (n, c['name'], args))
        self.nodes.append((n, 'inst'))
        self.insts.append((n, c))
    def state(self):
        n, c = self.choice(self.insts)
        names = [s for s in c['allslots'] if s != '__p'] + (['a0', 'a1', 'a2', 'vol', '_b', 'm'] if c['hasdict'] else [])
        if not names: return
        v = self.choice(self.nodes)[0] if self.chance(60) else self.val()
        if any(v == x[0] and x[1]['hook'] in ('reduce_factory', 'reduce_localfn', 'dictiter') for x in self.insts) : v = self.atom()
        if c['hook'] in ('reduce_factory', 'reduce_localfn'): v = self.atom()      # a cycle through the arguments cannot be stored by pickle either
        self.emit('%s.%s = %s' % (n, self.choice(names), v)); self.label('state')
    def edge(self):
        muts = [(n, k) for n, k in self.nodes if k in ('list', 'dict', 'deque')]
        if muts:
            n, k = self.choice(muts); v = self.choice(self.nodes)[0]
            if any(x[1]['hook'] in ('reduce_factory', 'reduce_localfn') for x in self.insts if x[0] == v): return
            self.emit('%s.append(%s)' % (n, v) if k != 'dict' else '%s[%s] = %s' % (n, self.hashable(), v)); self.label('edge')
    def build(self):
        self.emit(IPRE.rstrip())
        for _ in range(self.int(1, 3)): self.klass()
        self.clsend = len(self.lines)
        for _ in range(self.int(1, 6)):
            if self.chance(35): self.node()
            else: self.inst()
        if not self.insts: self.inst()
        for _ in range(self.int(0, 6)): self.state()
        for _ in range(self.int(0, 3)): self.edge()
        names = [n for n, _ in self.nodes]
        roots = self.sample(names, 1, 5) if self.bool() else names
        if self.chance(35): roots.insert(self.int(0, len(roots)), self.choice(self.cls)['name']); self.label('class in graph')
        return roots
    def abstract(self, roots):
        """abstract base classes that the classes of the graph are registered with"""
        names = []; used = False
        for i in range(self.int(1, 2)):
            n = 'AB%d' % i; sub = i and self.bool()
            self.emit('class %s(%s):' % (n, 'AB0' if sub else 'abc.ABC'))
            self.emit('    ' + self.choice(['pass', 'def am(self): return 1', 'x = %s' % self.atom(), '@classmethod\n    def __subclasshook__(cls, c): return True if hasattr(c, "m") else NotImplemented']))
            # no two related classes, as a registration that changes nothing is left out by python
            reg = [['slice', 'range'][i]] if self.bool() else []
            if not (sub and used) and self.chance(75): reg.append(self.choice(self.cls)['name']); used = True
            for o in reg: self.emit('%s.register(%s)' % (n, o)); names += [o] if o[0] == 'K' and o not in names else []
            names.append(n)
        for n in names:       # the classes too, as classes are registered weakly
            roots.insert(self.int(0, len(roots)), n)
        if self.bool(): roots.insert(self.int(0, len(roots)), self.choice(['range(3)', '[1]']))
        self.label('registered')
