"""Generator of function definitions (source text), used by the code-related properties."""
from gen import B
from gen_data import Data, PRELUDE

OPS = ['+', '-', '*', '%', '//', '&', '|', '^', '<<']
CMP = ['<', '<=', '==', '!=', '>', '>=']

class Scope:
    def __init__(self, ints, cells=(), gints=()):
        self.ints = list(ints)        # readable int variables
        self.own = []                 # local variables that may be assigned
        self.cells = list(cells)      # variables of the enclosing function (nonlocal allowed)
        self.nonlocals = set()

class Code(Data):
    ext = True
    max_depth = 3
    def setup_code(self):
        self.gints = []               # global names bound to ints
        self.gfuncs = []              # global helper functions: (name, nargs)
        self.glists = []
        self.used_mut = 0
        self.classes_ok = True
        self.uniq = 0
    def u(self, p='v'):
        self.uniq += 1
        return '%s%d' % (p, self.uniq)

    # --- globals
    def globals_(self, lo=0, hi=4):
        for _ in range(self.int(lo, hi)):
            k = self.weighted([(4, 'int'), (2, 'list'), (1, 'mod'), (1, 'dict')])
            n = self.u('G')
            if k == 'int': self.emit('%s = %d' % (n, self.int(-9, 99))); self.gints.append(n)
            elif k == 'list': self.emit('%s = [%d, %d]' % (n, self.int(0, 9), self.int(0, 9))); self.glists.append(n)
            elif k == 'dict': self.emit("%s = {'a': %d}" % (n, self.int(0, 9))); self.gints.append("%s['a']" % n)
            elif k == 'mod':
                self.emit('import math as %s' % n); self.gints.append('%s.factorial(%d)' % (n, self.int(0, 5)))

    # --- expressions over ints
    def expr(self, sc, d=2):
        opts = [(3, 'lit'), (6 if sc.ints else 0, 'var'), (3 if self.gints else 0, 'g')]
        if d: opts += [(5, 'bin'), (1, 'cond'), (1, 'builtin'), (1, 'comp'), (1, 'lam'), (1, 'cmp'), (1, 'str'), (1, 'walrus'),
                       (2 if self.gfuncs else 0, 'call'), (1 if self.glists else 0, 'glist'), (1, 'bool'), (1, 'neg'), (1, 'cont'), (1, 'fstr')]
        k = self.weighted(opts)
        e = lambda: self.expr(sc, d-1)
        if k == 'lit': return self.weighted([(8, repr(self.int(0, 20))), (1, '70000'), (1, '2**70'), (1, 'True')])
        if k == 'var': return self.choice(sc.ints)
        if k == 'g': return self.choice(self.gints)
        if k == 'bin':
            op = self.choice(OPS)
            if op == '<<': return '(%s << (%s) %% 5)' % (e(), e())
            if op == '*': return '((%s) * (%s) %% 1009)' % (e(), e())
            return '(%s %s %s)' % (e(), op, e())
        if k == 'cond': return '(%s if %s else %s)' % (e(), self.cond(sc, d-1), e())
        if k == 'builtin': return self.choice(['abs(%s)', 'int(str(%s))', 'max(3, %s)', 'len(str(%s))', 'sum([%s, 1])', 'hash(%s)', 'sorted([%s, 2])[0]']) % e()
        if k == 'comp':
            v = self.u('c')
            inner = Scope(sc.ints + [v])
            return self.choice(['sum([%s for %s in range(3)])', 'len({%s for %s in range(4)})', 'sum(%s for %s in (1, 2))', 'len({%s: 0 for %s in range(2)})']) % (self.expr(inner, d-1), v)
        if k == 'lam':
            v = self.u('q')
            return '(lambda %s, *a: %s)(%s)' % (v, self.expr(Scope(sc.ints + [v]), d-1), e())
        if k == 'cmp': return '(%s)' % self.cond(sc, d-1)
        if k == 'str': return "len(%s * (%s %% 3))" % (self.choice(["'ab'", "'\\u00e9'", "b'x'"]), e())
        if k == 'walrus' and sc.own is not None and getattr(sc, 'body', False):
            v = self.u('w'); r = '(%s := %s)' % (v, e())
            return r
        if k == 'walrus': return e()
        if k == 'call':
            f, n = self.choice(self.gfuncs)
            return '%s(%s)' % (f, ', '.join(e() for _ in range(n)))
        if k == 'glist': return '%s[%d]' % (self.choice(self.glists), self.int(0, 1))
        if k == 'bool': return '(%s %s %s)' % (e(), self.choice(['and', 'or']), e())
        if k == 'neg': return self.choice(['(-%s)', '(~%s)', '(not %s)', '(+%s)']) % e()
        if k == 'cont': return self.choice(["[%s, 1][0]", "(%s, 2)[-2]", "{'k': %s}['k']", "[*[%s]][0]", "{**{'a': %s}}['a']", "next(iter({%s}))"]) % e()
        if k == 'fstr': return "len(f'{(%s)!r:>4}x{(%s)}')" % (e(), e())
    def cond(self, sc, d=1):
        return '%s %s %s' % (self.expr(sc, max(d, 0)), self.choice(CMP), self.expr(sc, max(d, 0)))

    # --- statements: list of lines without indentation of the block itself
    def block(self, sc, d, kind='func', loop=False):
        out = []
        for _ in range(self.int(1, 3)): out += self.stmt(sc, d, kind, loop)
        return out
    def ind(self, lines): return ['    ' + l for l in lines]
    def stmt(self, sc, d, kind, loop):
        opts = [(5, 'assign'), (2, 'aug'), (1, 'pass')]
        if d: opts += [(2, 'if'), (2, 'for'), (1, 'while'), (2, 'try'), (1, 'with'), (2, 'def'), (1, 'match'), (1, 'import'), (1, 'unpack'), (1, 'raise'), (1, 'assert'),
                       (1, 'class'), (1, 'del'), (1 if loop else 0, 'brk'), (1 if sc.cells else 0, 'nonlocal'), (1, 'comp')]
        if kind == 'gen' or kind == 'agen': opts += [(3, 'yield')]
        if kind in ('async', 'agen'): opts += [(2, 'await')]
        if kind == 'gen': opts += [(1, 'yieldfrom')]
        k = self.weighted(opts)
        E = lambda: self.expr(sc)
        if k == 'assign':
            e = E(); v = self.u(); sc.ints.append(v); sc.own.append(v)
            return ['%s%s = %s' % (v, self.choice(['', '', ': int']), e)]
        if k == 'aug' and sc.own: return ['%s %s %s' % (self.choice(sc.own), self.choice(['+=', '-=', '^=', '|=']), E())]
        if k == 'aug' or k == 'pass': return ['pass']
        if k == 'if':
            o = ['if %s:' % self.cond(sc)] + self.ind(self.block(self.sub(sc), d-1, kind, loop))
            if self.bool(): o += ['else:'] + self.ind(self.block(self.sub(sc), d-1, kind, loop))
            return o
        if k == 'for':
            v = self.u('i'); s2 = self.sub(sc); s2.ints.append(v)
            o = ['for %s in range(%d):' % (v, self.int(0, 3))] + self.ind(self.block(s2, d-1, kind, True))
            if self.bool(): o += ['else:'] + self.ind(self.block(self.sub(sc), d-1, kind, loop))
            return o
        if k == 'while':
            v = self.u('z')
            return ['%s = %d' % (v, self.int(0, 3)), 'while %s > 0:' % v, '    %s -= 1' % v] + self.ind(self.block(self.sub(sc), d-1, kind, True))
        if k == 'try':
            o = ['try:'] + self.ind(self.block(self.sub(sc), d-1, kind, loop))
            x = self.u('x')
            o += ['except %s as %s:' % (self.choice(['ZeroDivisionError', '(ValueError, KeyError)', 'Exception']), x)] + self.ind(self.block(self.sub(sc), d-1, kind, loop))
            if self.bool(): o += ['finally:'] + self.ind(['pass'] + self.block(self.sub(sc), d-1, kind, False))
            self.label('try')
            return o
        if k == 'with':
            return ['import contextlib', 'with contextlib.suppress(ZeroDivisionError, ValueError) as %s:' % self.u('cm')] + self.ind(self.block(self.sub(sc), d-1, kind, loop))
        if k == 'def':
            lines, name, n = self.function(d-1, cells=[v for v in sc.own], enclosing=sc)
            args = ', '.join(E() for _ in range(n))
            v = self.u(); r = ['%s = %s(%s)' % (v, name, args)]
            sc.ints.append(v); sc.own.append(v)
            self.label('nested')
            return lines + r
        if k == 'match':
            v = self.u()
            o = ['match %s:' % E(), '    case 0 | 1:', '        %s = 1' % v, '    case int(x) if x > 5:', '        %s = x' % v, '    case _:', '        %s = %s' % (v, E())]
            sc.ints.append(v)
            return o
        if k == 'import':
            v = self.u('m'); sc.ints.append('%s.floor(2.5)' % v)
            return ['import math as %s' % v]
        if k == 'unpack':
            a, b = self.u(), self.u(); e = '%s, *%s = [%s, %s, 3]' % (a, b, E(), E())
            sc.ints += [a, 'len(%s)' % b]
            return [e]
        if k == 'raise': return ['if %s: raise %s(%s)' % (self.cond(sc), self.choice(['ValueError', 'KeyError', 'RuntimeError']), E())]
        if k == 'assert': return ['assert %s, %s' % (self.cond(sc), repr(self.draw_text()))]
        if k == 'class':
            c = self.u('C'); e1, e2 = E(), E(); v = self.u()
            o = ['class %s:' % c, '    a = %s' % e1, '    def m(self, x=%s):' % e2, '        return self.a + x', '%s = %s().m()' % (v, c)]
            sc.ints.append(v)
            self.label('classbody')
            return o
        if k == 'del':
            v = self.u()
            return ['%s = %s' % (v, E()), 'del %s' % v]
        if k == 'brk': return ['if %s: %s' % (self.cond(sc), self.choice(['break', 'continue']))]
        if k == 'nonlocal':
            v = self.choice(sc.cells)
            self.label('nonlocal')
            sc.nonlocals.add(v)
            return ['%s += %s' % (v, E())]
        if k == 'comp':
            v = self.u(); c = self.u('c'); o = ['%s = [%s for %s in range(3) if %s != 1]' % (v, self.expr(Scope(sc.ints + [c])), c, c)]
            sc.ints.append('len(%s)' % v)
            return o
        if k == 'yield':
            v = self.u(); self.label('yield')
            if self.bool(): return ['yield %s' % E()]
            o = ['%s = (yield %s) or 0' % (v, E())]; sc.ints.append(v)
            return o
        if k == 'yieldfrom': return ['yield from (%s, 7)' % E()]
        if k == 'await':
            self.label('await')
            return self.choice([['await Awaitable()'], ['async with ACM():'] + self.ind(['pass']), ['async for _i in AIter():'] + self.ind(['pass'])]) if self.async_helpers else ['pass']
        return ['pass']
    async_helpers = False
    def sub(self, sc):
        s = Scope(sc.ints, sc.cells); s.own = list(sc.own); s.nonlocals = sc.nonlocals
        return s
    def draw_text(self):
        return self.choice(['', 'x', 'a\nb', 'caf\u00e9', '\u4e2d', "q'\"", '\\n', '\U0001f600'])

    # --- functions
    def params(self, scope_ok=True, simple=False):
        """Returns (text, required positional count, int names, list of kinds)."""
        parts, names = [], []
        npos = 0
        po, no, ko = self.int(0, 2) if not simple else 0, self.int(0, 2), self.int(0, 2) if not simple else 0
        defaulted = False
        def ann(): return self.weighted([(5, ''), (1, ': int'), (1, ": 'str'"), (1, ': list[int]'), (1, ': None')])
        for i in range(po + no):
            n = self.u('p'); names.append(n)
            a = ann()
            if defaulted or self.chance(30):
                defaulted = True
                parts.append('%s%s=%s' % (n, a, self.default()))
            else:
                npos += 1
                parts.append(n + a)
            if i == po - 1: parts.append('/')
        star = False
        if not simple and self.chance(25):
            parts.append('*args' + ann()); star = True; names.append('len(args)')
        if ko:
            if not star: parts.append('*')
            for _ in range(ko):
                n = self.u('k'); parts.append('%s%s=%s' % (n, ann(), self.default())); names.append(n)
                self.label('kwonly')
        if not simple and self.chance(20): parts.append('**kw'); names.append('len(kw)')
        return ', '.join(parts), npos, names
    def default(self):
        self.label('default')
        return repr(self.int(0, 50))
    def function(self, d, cells=(), enclosing=None, kind='func', name=None, deco=(), doc=None, params=None, extra=(), ints=None):
        """Returns (lines, name, number of required positional arguments)."""
        name = name or self.u('f')
        p, npos, names = params or self.params()
        sc = Scope(names + (list(enclosing.ints) if enclosing else []) + list(ints or []), cells=list(cells))
        sc.body = False
        body = []
        if doc is None and self.chance(25): doc = self.draw_text()
        body_stmts = self.block(sc, d, kind)
        ret = self.weighted([(6, 'expr'), (1, 'tuple'), (1, 'list'), (1, 'none'), (1, 'dict')])
        if kind == 'agen': body_stmts.append('yield 0')
        elif ret == 'expr': body_stmts.append('return %s' % self.expr(sc))
        elif enclosing is not None: body_stmts.append('return %s' % self.expr(sc))
        elif ret == 'tuple': body_stmts.append('return (%s, %s)' % (self.expr(sc), self.expr(sc)))
        elif ret == 'list': body_stmts.append('return [%s, %r]' % (self.expr(sc), self.draw_text()))
        elif ret == 'dict': body_stmts.append('return {%r: %s}' % (self.draw_text(), self.expr(sc)))
        if kind == 'gen': body_stmts.append('yield %s' % self.expr(sc))
        if sc.nonlocals: body.insert(0, 'nonlocal ' + ', '.join(sorted(sc.nonlocals)))
        if doc is not None: body.insert(0, repr(doc))
        body += list(extra)
        # a variable that is assigned somewhere but maybe unbound where it is read is fine: the same error both times
        ra = self.weighted([(5, ''), (1, ' -> int'), (1, " -> 'x'")])
        head = '%sdef %s(%s)%s:' % ('async ' if kind in ('async', 'agen') else '', name, p, ra)
        return list(deco) + [head] + self.ind(body + body_stmts), name, npos

    def call_args(self, npos):
        n = npos + self.weighted([(8, 0), (1, 1), (1, -1), (1, 2)])
        return '(%s)' % ''.join('%d, ' % self.int(-3, 12) for _ in range(max(0, n)))
