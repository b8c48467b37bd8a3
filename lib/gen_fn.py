"""Function objects with metadata, for C02/C08/C21 etc."""
from gen import opts
from gen_code import Code, Scope

ASYNC = '''class Awaitable:
    def __await__(self):
        yield 1
        return 2
class ACM:
    async def __aenter__(self): return self
    async def __aexit__(self, *a): return False
class AIter:
    n = 0
    def __aiter__(self): return self
    async def __anext__(self):
        self.n += 1
        if self.n > 2: raise StopAsyncIteration
        return self.n
'''
PROBE = '''
import types, inspect, re
def noaddr(s): return re.sub('0x[0-9a-f]+', '0x', s)
def use(r, depth=0):
    """consume what a call returned"""
    if inspect.isgenerator(r):
        out = []
        for i, x in enumerate(r):
            out.append(x)
            if i > 20: break
        return ['gen', out]
    if inspect.iscoroutine(r):
        n = 0
        try:
            while n < 50: r.send(None); n += 1
        except StopIteration as e: return ['coro', n, e.value]
        return ['coro never ended']
    if inspect.isasyncgen(r):
        out = []
        for i in range(10):
            try: out.append(use(r.asend(None) if False else nxt(r)))
            except StopAsyncIteration: break
            except Exception as e: out.append([type(e).__name__, noaddr(str(e))]); break
        return ['agen', out]
    return r
async def nxt(r): return await r.__anext__()
def call(f, a, k={}):
    try: return use(f(*a, **k))
    except Exception as e: return ['raised', type(e).__name__, noaddr(str(e))]
def sig(f):
    try: return [[p.name, str(p.kind), type(p.default).__name__, type(p.annotation).__name__] for p in inspect.signature(f).parameters.values()]
    except Exception as e: return repr(type(e))
'''

class Fn(Code):
    def one(self, recurse, allow_deco=True):
        """Emits one function; returns (name, npos)."""
        kind = self.weighted([(5, 'def'), (3, 'lambda'), (4, 'closure'), (2, 'gen'), (1, 'async'), (1, 'agen'), (2, 'selfrec'), (1, 'stateful'), (1, 'wrapped'), (1, 'mutdef')])
        self.label('fn:' + kind)
        if kind in ('async', 'agen') and not self.async_helpers: kind = 'gen'
        if kind == 'lambda':
            p, npos, names = self.params(simple=False)
            p = self.strip_ann(p)
            n = self.u('L')
            self.emit('%s = lambda %s: %s' % (n, p, self.expr(Scope(names), 2)))
        elif kind == 'closure':
            n, fac = self.u('f'), self.u('fac')
            cells = [self.u('c') for _ in range(self.int(1, 3))]
            self.emit('def %s():' % fac)
            for c in cells: self.emit('    %s = %d' % (c, self.int(0, 30)))
            lines, name, npos = self.function(1, cells=cells, enclosing=Scope(cells))
            for l in self.ind(lines): self.emit(l)
            self.emit('    return %s' % name)
            self.emit('%s = %s()' % (n, fac))
        elif kind == 'selfrec':
            n = self.u('f')
            p, npos, names = ('n, acc=%d' % self.int(0, 9), 1, ['n', 'acc'])
            self.emit('def %s(%s):' % (n, p))
            self.emit('    if n <= 0: return acc')
            self.emit('    return %s(n - 1, %s)' % (n, self.expr(Scope(names), 2)))
        elif kind == 'stateful':
            n, g = self.u('f'), self.u('S')
            self.emit('%s = %d' % (g, self.int(0, 9)))
            self.emit('def %s(x=1):' % n)
            self.emit('    global %s' % g)
            self.emit('    %s = %s + x' % (g, g)); self.emit('    return %s' % g)
            npos = 0
        elif kind == 'mutdef':
            n = self.u('f')
            self.emit('def %s(x, acc=[%d], *, opt={}):' % (n, self.int(0, 9)))
            self.emit('    acc.append(x); opt[x] = len(acc)'); self.emit('    return list(acc), dict(opt)')
            if self.bool(): self.emit('%s(5)' % n)
            npos = 1
        elif kind == 'wrapped':
            lines, name, npos = self.function(1)
            for l in lines: self.emit(l)
            n, dec = self.u('f'), self.u('dec')
            self.emit('import functools')
            self.emit('def %s(fn):' % dec); self.emit('    @functools.wraps(fn)'); self.emit('    def wrapper(*a, **k):'); self.emit('        return ["wrapped", fn(*a, **k)]')
            self.emit('    return wrapper'); self.emit('%s = %s(%s)' % (n, dec, name))
        else:
            k = {'def': 'func'}.get(kind, kind)
            lines, n, npos = self.function(2, kind=k)
            for l in lines: self.emit(l)
        # metadata changed afterwards
        for _ in range(self.int(0, 2)):
            m = self.weighted([(4, 'attr'), (1, 'selfattr'), (1, 'doc'), (1, 'name'), (1, 'qual'), (1, 'kwd'), (1, 'ann'), (1, 'defs'), (1, 'module'), (1, 'oddattr'), (1, 'docnone'), (1, 'sharedattr')])
            if m == 'attr': self.emit('%s.%s = %s' % (n, self.u('at'), self.val()))
            elif m == 'selfattr': self.emit('%s.me = [%s]' % (n, n))
            elif m == 'doc': self.emit('%s.__doc__ = %s' % (n, self.atom()))
            elif m == 'name' and kind != 'selfrec': self.emit('%s.__name__ = %r' % (n, self.choice(['zz', 'caf\u00e9', '<lambda>', n + 'x'])))
            elif m == 'qual': self.emit('%s.__qualname__ = %r' % (n, self.choice(['A.b', 'x.<locals>.y', 'q'])))
            elif m == 'kwd': self.emit('if %s.__kwdefaults__: %s.__kwdefaults__ = dict(reversed(list(%s.__kwdefaults__.items())))' % (n, n, n))
            elif m == 'ann': self.emit("%s.__annotations__ = {'zz': %s}" % (n, self.val()))
            elif m == 'defs': self.emit('if %s.__defaults__: %s.__defaults__ = (%s,) * len(%s.__defaults__)' % (n, n, self.val(), n))
            elif m == 'oddattr': self.emit('setattr(%s, %s, %s)' % (n, self.choice(["'a b'", "'\u00e9'", "''", "'__x__'", "'1'"]), self.val()))
            elif m == 'docnone': self.emit('%s.__doc__ = None' % n)
            elif m == 'sharedattr': self.emit('%s.sa = %s.sb = [1]' % (n, n))
            self.label('meta:' + m)
        return n, npos
    def strip_ann(self, p):
        import re
        out = []
        for part in p.split(', '):
            m = re.match(r'(\**\w+)(: [^=]*)?(=.*)?$', part)
            out.append(part if not m else m.group(1) + (m.group(3) or ''))
        return ', '.join(out)
    def calls(self, fns):
        out = []
        for i, (n, npos) in enumerate(fns):
            for _ in range(self.int(1, 3)):
                k = self.weighted([(6, '{}'), (1, "{'zzz': 1}"), (1, "{'x': 4}")])
                out.append('call(o[%d], %s, %s)' % (i, self.call_args(npos), k))
        self.draw  # order of the calls is part of the case
        return out
