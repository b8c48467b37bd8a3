"""Generator of graphs of data values."""
from gen import B

TYPES = ['int', 'type', 'object', 'list', 'dict', 'type(None)', 'type(Ellipsis)', 'type(NotImplemented)', 'slice', 'range',
         'type(lambda: 0)', 'type(len)', 'type([].append)', 'type({}.keys())', 'type({}.values())', 'type({}.items())',
         'types.MappingProxyType', 'types.CodeType', 'types.CellType', 'types.ModuleType',
         'types.MethodType', 'types.GeneratorType', 'type(int.__add__)', 'type(str.join)', 'type((1).__add__)', 'type(type.__dict__["__name__"])',
         'BaseException', 'ValueError', 'collections.OrderedDict', 'decimal.Decimal', 'datetime.date', 'property', 'staticmethod', 'super',
         'types.SimpleNamespace', 'bytearray', 'frozenset', 'memoryview', 'types.FrameType', 'types.TracebackType', 'types.GenericAlias', 'types.UnionType',
         'weakref.ref', 'weakref.ProxyType', 'weakref.CallableProxyType', 'type(threading.RLock())', 'io.StringIO', 'type(re.compile(""))']
PRELUDE = 'import types, collections, decimal, datetime, fractions, uuid, pathlib, re, array, io, weakref, threading, signal, operator, functools\n'

LEAVES = ["datetime.datetime(2020, 2, 29, 23, 59, 59, 999999)", "datetime.date(1, 1, 1)", "datetime.timedelta(-1, 5, 7)", "datetime.time(1, 2, 3, 4)",
          "datetime.datetime(2021, 3, 4, tzinfo=datetime.timezone.utc)", "datetime.timezone(datetime.timedelta(hours=-3), 'X')",
          "decimal.Decimal('-1.50E+30')", "decimal.Decimal('NaN')", "fractions.Fraction(-7, 3)", "uuid.UUID(int=2**100+7)", "pathlib.PurePosixPath('/a/../b')",
          "re.compile('a(b)*', re.I)", "re.compile(b'x$', re.M)", "signal.SIGINT", "re.IGNORECASE"]
HASHLEAVES = LEAVES[:15]

class Data(B):
    """nodes: list of (name, kind); kind says how it may be changed."""
    ext = True; modvars = False
    def hashable(self, depth=2):
        k = self.weighted([(6, 'atom'), (2 if depth else 0, 'tuple'), (1 if depth else 0, 'fs'), (1, 'leaf')] + ([(1, 'type'), (1, 'range')] if self.ext else []))
        if k == 'atom': return self.atom()
        if k == 'tuple': return '(' + ''.join(self.hashable(depth-1) + ', ' for _ in range(self.int(0, 3))) + ')'
        if k == 'fs': return 'frozenset([' + ', '.join(self.hashable(depth-1) for _ in range(self.int(0, 3))) + '])'
        if k == 'leaf': return self.choice(HASHLEAVES)
        if k == 'type': return self.choice(TYPES)
        if k == 'range': return self.range()
    def range(self):
        big = self.choice(['0', '2**40', '-2**70'])
        return 'range(%s, %s, %s)' % (self.int(-3, 3), self.choice(['5', '0', '2**65', '-9']) if big == '0' else big, self.choice(['1', '2', '-1', '3', '2**33']))
    def val(self):
        """An expression for a value: mostly an existing node."""
        if self.nodes and self.chance(60):
            self.refs = getattr(self, 'refs', 0) + 1
            return self.choice(self.nodes)[0]
        k = self.weighted([(6, 'atom'), (2, 'leaf')] + ([(2, 'type'), (2, 'range'), (1, 'slice')] if self.ext else []))
        if k == 'atom': return self.atom()
        if k == 'leaf': return self.choice(LEAVES)
        if k == 'type': return self.choice(TYPES)
        if k == 'range': return self.range()
        if k == 'slice': return 'slice(%s, %s, %s)' % (self.choice(['None', '1', '-2**70', '"a"']), self.choice(['None', '9']), self.choice(['None', '-1', '2', '(1, 2)']))
    def vals(self, n=4): return [self.val() for _ in range(self.int(0, n))]
    def mappings(self): return [n for n, k in self.nodes if k in ('dict', 'odict')]
    def node(self):
        name = self.name()
        kinds = [(6, 'list'), (6, 'dict'), (3, 'tuple'), (2, 'set'), (1, 'frozenset'), (1, 'bytearray'), (2, 'odict'), (1, 'defaultdict'), (1, 'counter'),
                 (1, 'deque'), (2, 'ns'), (1, 'exc'), (1, 'array'), (1, 'chainmap'), (1, 'iter'), (1, 'biglist'), (1, 'bigdict')]
        if self.modvars: kinds += [(1, 'modvars')]
        if self.ext:
            kinds += [(2, 'slice'), (1, 'range'), (3, 'view'), (3, 'proxy'), (1, 'oview')]
        k = self.weighted(kinds)
        if k == 'view' or k == 'proxy':
            ms = [n for n, kk in self.nodes if kk in ('dict', 'odict', 'defaultdict', 'counter') or kk == 'chainmap' and k == 'proxy']
            if not ms:
                m = self.name(); self.emit('%s = {%s}' % (m, ', '.join('%s: %s' % (self.hashable(), self.val()) for _ in range(self.int(0, 3)))))
                self.nodes.append((m, 'dict')); ms = [m]
            m = self.choice(ms)
            if k == 'view': e = '%s.%s()' % (m, self.choice(['keys', 'values', 'items']))
            else: e = 'types.MappingProxyType(%s)' % m
            self.label(k)
        elif k == 'oview':
            m = self.name(); self.emit('%s = collections.OrderedDict([(%s, %s)])' % (m, self.hashable(), self.val()))
            self.nodes.append((m, 'odict'))
            e = '%s.%s()' % (m, self.choice(['keys', 'values', 'items']))
        elif k == 'modvars':          # looks like the namespace of a module, or is a copy of one
            if self.bool():
                m = 'vm' + name
                self.emit('import sys; %s = sys.modules[%r] = types.ModuleType(%r); %s.x = %s' % (m, m, m, m, self.val()))
                e = 'dict(vars(%s))' % m
            else: e = '{"__name__": %s, "x": %s}' % (self.choice(['"json"', '"nosuchmod"', '"__main__"', '5', 'None', '"os.path"', '"builtins"', '"types"']), self.val())
            k = 'dict'; self.label('modvars')
        elif k == 'list': e = '[%s]' % ', '.join(self.vals())
        elif k == 'dict': e = '{%s}' % ', '.join('%s: %s' % (self.hashable(), self.val()) for _ in range(self.int(0, 4)))
        elif k == 'tuple': e = '(%s)' % ''.join(v + ', ' for v in self.vals(5))
        elif k == 'set': e = 'set([%s])' % ', '.join(self.hashable() for _ in range(self.int(0, 4)))
        elif k == 'frozenset': e = 'frozenset([%s])' % ', '.join(self.hashable() for _ in range(self.int(0, 4)))
        elif k == 'bytearray': e = 'bytearray(%s)' % self.choice(["b''", "b'abc'", "bytes(range(256))", "b'q'*65536"])
        elif k == 'odict':
            e = 'collections.OrderedDict([%s])' % ', '.join('(%s, %s)' % (self.hashable(), self.val()) for _ in range(self.int(0, 3)))
        elif k == 'defaultdict': e = 'collections.defaultdict(%s, {%s})' % (self.choice(['list', 'int', 'None']), ', '.join('%s: %s' % (self.hashable(), self.val()) for _ in range(self.int(0, 3))))
        elif k == 'counter': e = 'collections.Counter(%r)' % self.choice(['', 'abca', 'zz'])
        elif k == 'deque': e = 'collections.deque([%s], %s)' % (', '.join(self.vals()), self.choice(['None', '9']))
        elif k == 'ns': e = 'types.SimpleNamespace(%s)' % ', '.join('a%d=%s' % (i, v) for i, v in enumerate(self.vals(3)))
        elif k == 'exc': e = '%s(%s)' % (self.choice(['ValueError', 'KeyError', 'StopIteration', 'Exception']), ', '.join(self.vals(3)))
        elif k == 'array': e = 'array.array(%s)' % self.choice(["'i', [1, -2**31]", "'d', [0.5]", "'B', b'ab'", "'q', []"])
        elif k == 'chainmap': e = 'collections.ChainMap({%s: %s}, {})' % (self.hashable(), self.val())
        elif k == 'iter': e = 'iter([%s])' % ', '.join(self.vals())
        elif k == 'slice': e = 'slice(%s, %s, %s)' % (self.val(), self.val(), self.val())
        elif k == 'range': e = self.range()
        elif k == 'biglist': e = 'list(range(%s))' % self.choice(['999', '1000', '1001', '2005'])
        elif k == 'bigdict': e = 'dict.fromkeys(range(%s), %s)' % (self.choice(['999', '1000', '1001', '2005']), self.val())
        self.label(k)
        self.emit('%s = %s' % (name, e))
        self.nodes.append((name, k))
    def edge(self):
        muts = [(n, k) for n, k in self.nodes if k in ('list', 'dict', 'odict', 'deque', 'ns', 'defaultdict', 'exc')]
        if not muts: return
        n, k = self.choice(muts)
        v = self.choice(self.nodes)[0] if self.chance(80) else self.val()
        if k in ('list', 'deque'): self.emit('%s.append(%s)' % (n, v))
        elif k in ('dict', 'odict', 'defaultdict'): self.emit('%s[%s] = %s' % (n, self.hashable(), v))
        elif k == 'ns' : self.emit('%s.e%d = %s' % (n, self.int(0, 5), v))
        elif k == 'exc': self.emit('%s.e%d = %s' % (n, self.int(0, 5), v))
        self.label('edge')
    def build(self, maxnodes=8, maxedges=5):
        self.lines.append(PRELUDE.rstrip())
        for _ in range(self.int(1, maxnodes)): self.node()
        for _ in range(self.int(0, maxedges)): self.edge()
        k = self.weighted([(3, 'last'), (3, 'all'), (1, 'tuple')])
        if k == 'last': root = self.nodes[-1][0]
        elif k == 'all': root = '[%s]' % ', '.join(n for n, _ in self.nodes)
        else: root = '(%s,)' % ', '.join(n for n, _ in reversed(self.nodes))
        self.emit('OBJ = ' + root)
        return self.src()
