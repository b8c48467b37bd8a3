"""Source files with definitions at every position (C27, C28)."""
from hypothesis import strategies as st
from gen import B

class Src(B):
    def __init__(self, draw):
        super().__init__(draw)
        self.ind = 0
        self.flat = False        # no strings of several lines
        self.names = []         # functions of one or more arguments that may be called
        self.consts = []
        self.targets = []
    def put(self, s):
        for l in s.split('\n'): self.lines.append('    ' * self.ind + l if l else l)
    def raw(self, s): self.lines.extend(s.split('\n'))
    def text(self): return self.choice(['a', 'x y', 'caf\u00e9', '\u6587\u5b57', '\U0001f40d', 'def f0(x):', 'class K0:', '#', "it's", '\\n', '@', ''])
    def gap(self):
        for _ in range(self.weighted([(4, 0), (3, 1), (1, 2)])):
            k = self.choice(['blank', 'blank', 'comment', 'string', 'stmt'])
            if k == 'blank': self.raw('')
            elif k == 'comment': self.put('# ' + self.choice(['note', 'def f0(x):', 'class K0:', 'lambda x: x', '@deco', 'f0 = lambda x: 1', 'caf\u00e9 "', "'''"]))
            elif self.ind == 0 and k == 'string': self.raw('"""text\ndef f0(x):\n    class K0:\nf1 = lambda x: 3\n"""')
            elif self.ind == 0: self.put('unused = [1,\n    2]')
    def expr(self, vs, d=1):
        k = self.weighted([(4, 'v'), (2, 'op'), (2, 'const'), (1, 'str'), (2, 'glob'), (2, 'call'), (1, 'built'), (1, 'comp'), (1, 'lam'), (1, 'cond')])
        v = self.choice(vs) if vs else '7'
        if k == 'op' and d: return '(%s, %s)' % (self.expr(vs, d-1), self.expr(vs, d-1))
        if k == 'const': return str(self.int(0, 99))
        if k == 'str': return repr(self.text())
        if k == 'glob' and self.consts: return self.choice(self.consts)
        if k == 'call' and self.names: return '%s(%s)' % (self.choice(self.names), v)
        if k == 'built': return self.choice(['repr(%s)', 'str(%s)', 'type(%s).__name__', 'isinstance(%s, int)']) % v
        if k == 'comp': return '[(i, %s) for i in range(2)]' % v
        if k == 'lam' and d: return '(lambda q: (q, %s))(%s)' % (v, self.expr(vs, 0))
        if k == 'cond': return '(%s if %s else None)' % (v, v)
        return v
    def params(self, method=None):
        ps = [self.choice(['x', 'a', 'self_', '\u00e9t\u00e9'])]
        sig = ps[0]
        if self.chance(40): n = 'b'; ps.append(n); sig += ', %s=%s' % (n, self.choice(['2', '"lambda x: 3"', 'None', '"def f0"', '(1, 2)']))
        if self.chance(20): ps.append('args'); sig += ', *args'
        if self.chance(25): ps.append('k'); sig += '%s, k=%s' % ('' if 'args' in ps else ', *', self.choice(['3', '"k"', '[4]']))
        return ps, sig
    def doc(self):
        k = self.choice(['none', 'none', 'one'] + ([] if self.flat else ['multi', 'odd', 'raw']))
        if k == 'one': self.put('"""doc %s"""' % self.text().replace('\\n', ' '))
        elif k == 'multi': self.put('"""doc\n\n    more\ndef f0(x):\n  class K1:\n"""')
        elif k == 'odd': self.put('"""'); self.raw('at column 0\n   at 3'); self.put('"""')
        elif k == 'raw': self.put("r'''\\d @deco\n    lambda x: x'''")
    def body(self, vs, depth):
        self.ind += 1
        self.doc()
        vs = list(vs)
        for i in range(self.int(0, 3)):
            k = self.choice(['assign', 'if', 'for', 'comment', 'blank', 'string', 'paren', 'inner', 'try', 'semi', 'cont', 'tristring', 'under'])
            if k == 'assign': self.put('r%d = %s' % (i, self.expr(vs))); vs.append('r%d' % i)
            elif k == 'if': self.put('if %s:\n    r%d = 1\nelse:\n    r%d = %s' % (self.expr(vs), i, i, self.expr(vs))); vs.append('r%d' % i)
            elif k == 'for': self.put('for j in range(2): pass')
            elif k == 'comment': self.put('# def f1(x):')
            elif k == 'blank': self.raw(self.choice(['', '    ' * self.ind]))
            elif k == 'paren': self.put('r%d = (1,\n  %s,\n# comment\n    )' % (i, self.expr(vs))); vs.append('r%d' % i)
            elif k == 'inner' and depth:
                self.put('def in%d(y):' % i); self.body(vs + ['y'], depth - 1); self.put('r%d = in%d(%d)' % (i, i, i)); vs.append('r%d' % i)
            elif k == 'try': self.put('try: r%d = %s\nfinally: pass' % (i, self.expr(vs))); vs.append('r%d' % i)
            elif k == 'under':      # continued at the left of the definition
                self.put('r%d = (' % i); self.raw(self.choice(['1, "zero",\n 2', '  (3,\n4', '# c\n1, (2', 'repr(\n5'])); self.put(',)' + (')' if ('(' in self.lines[-1] or '(' in self.lines[-2].strip()[:6]) and self.lines[-1] != ' 2' else '')); vs.append('r%d' % i)
            elif k == 'semi': self.put('r%d = 1; s%d = 2' % (i, i)); vs.append('r%d' % i)
            elif k == 'cont': self.put('r%d = 1 + \\\n    2' % i); vs.append('r%d' % i)
            elif k == 'tristring' and not self.flat: self.put("r%d = '''" % i); self.raw('zero\n  two'); self.put("'''"); vs.append('r%d' % i)
        self.put('return %r, %s' % (self.text(), ', '.join([self.expr(vs) for _ in range(self.int(1, 2))])))
        self.ind -= 1
    def func(self, name, depth=1, kind='def', deco=None, first=None):
        ps, sig = self.params()
        if first: ps, sig = [first] + ps, first + ', ' + sig
        if deco: self.put(deco)
        vs = [p for p in ps if p != first]
        if self.chance(10) and kind == 'def': self.put('def %s(%s): return %s' % (name, sig, self.expr(vs))); return
        if self.chance(20) and ',' in sig: sig = sig.replace(', ', ',\n        ', 1)
        self.put('%s %s(%s)%s:' % (kind, name, sig, self.choice(['', '', ' -> int'])))
        self.body(vs, depth)
    def cls(self, name, depth=1, path=()):
        names, consts = self.names, self.consts
        if self.simple: self.names, self.consts = [], []
        if self.chance(20) and not self.simple: self.put(self.choice(['@cdeco', '@cdeco2(1,\n    2)']))
        self.put('class %s%s:' % (name, self.choice(['', '(object)', '(Base)' if not self.simple else '()'])))
        self.ind += 1
        self.doc()
        self.put('attr = %r' % self.text())
        q = '.'.join(path + (name,))
        ms = []
        for i in range(self.int(1, 3)):
            k = self.weighted([(4, 'm'), (1, 'cm'), (1, 'sm'), (1, 'prop'), (1, 'in'), (1, 'lam')])
            n = 'm%d' % i
            if k == 'in' and depth: self.cls('N%d%d' % (len(path), i) , depth - 1, path + (name,))
            elif k == 'lam': self.put('%s = lambda self, x: (x, %d)' % (n, i)); self.targets.append(['lambda', '%s.%s' % (q, n)])
            elif k == 'cm': self.func(n, 0, deco='@classmethod', first='cls'); self.targets.append(['method', '%s.%s' % (q, n)])
            elif k == 'sm': self.func(n, 0, deco='@staticmethod'); self.targets.append(['method', '%s.%s' % (q, n)])
            elif k == 'prop': self.put('@property'); self.put('def p%d(self): return %d' % (i, i)); self.targets.append(['method', '%s.p%d.fget' % (q, i)])
            else: self.func(n, 0, first='self'); self.targets.append(['method', '%s.%s' % (q, n)]); self.targets.append(['method', '%s().%s' % (q, n)])
            self.gap()
        self.ind -= 1
        self.names, self.consts = names, consts
        self.targets.append(['class', q])

def program(draw, n=4, wide=True, simple=False):
    """text of a file, and its targets [kind, expression]"""
    b = Src(draw); b.simple = simple
    if wide and b.chance(30): b.raw('#!/usr/bin/env python\n# -*- coding: utf-8 -*-')
    if wide and b.chance(30): b.raw('"""Docstring\ndef f0(x):\n    pass\n"""')
    b.put('import math, functools\nfrom os import path as ospath')
    b.put('def deco(fn):\n    @functools.wraps(fn)\n    def wrapper(*a, **k):\n        return "deco", fn(*a, **k)\n    return wrapper\ndef deco2(*args):\n    return lambda fn: fn\ndef cdeco(c):\n    c.decorated = 1\n    return c\ndef cdeco2(*a): return cdeco\nclass Base:\n    base = 1')
    for i in range(b.int(1, n)):
        b.gap()
        k = b.weighted([(5, 'def'), (2, 'lambda'), (3, 'class'), (1, 'const'), (1, 'redef'), (1, 'iffunc'), (1, 'mlambda')] + ([] if simple else [(2, 'async'), (1, 'deco'), (1, 'deco2'), (2, 'factory')]))
        f = 'f%d' % i
        if k == 'def': b.func(f); b.targets.append(['func', f]); b.names.append(f)
        elif k == 'lambda': b.put('%s = lambda x%s: %s' % (f, b.choice(['', ', y=1', ', *a']), b.expr(['x']).replace('lambda q', 'lambda q') if 0 else b.choice(['x', '(x, 1)', 'len(str(x))', '[x]', '{1: x}', 'x if x else 3', '"caf\u00e9"', 'math.floor(x)']))); b.targets.append(['lambda', f]); b.names.append(f)
        elif k == 'mlambda': b.put('%s = lambda x: (x,\n    1, [2,\n3])' % f); b.targets.append(['lambda', f])
        elif k == 'class': b.cls('K%d' % i)
        elif k == 'const': n_ = 'C%d' % i; b.put('%s = %s' % (n_, b.choice(['1', '-2.5', '"text"', '"caf\u00e9"', '[1, 2]', 'None', '{"a": 1}', '(1,)', 'True', 'b"x"', '{1}', '3j']))); b.consts.append(n_)
        elif k == 'async': b.func(f, kind='async def'); b.targets.append(['async', f])
        elif k == 'deco': b.func(f, deco='@deco'); b.targets.append(['wrapped', f]); b.names.append(f)
        elif k == 'deco2': b.func(f, deco=b.choice(['@deco2(1)', '@deco2(1,\n    2)', '@deco2()\n@deco2("def f0(x):")', '@(lambda fn: fn)'])); b.targets.append(['func', f]); b.names.append(f)
        elif k == 'factory':
            b.put('def make%d(n, m="m"):' % i); b.ind += 1; b.func('inner', 0); b.put(b.choice(['inner.n = n\nreturn inner', 'return inner'])); b.ind -= 1
            b.put('%s = make%d(%s)' % (f, i, b.choice(['1', '"s"']))); b.targets += [['nested', f], ['func', 'make%d' % i]]
        elif k == 'redef':
            b.func(f); b.gap(); b.func(f); b.targets.append(['func', f]); b.names.append(f)
        elif k == 'iffunc':
            b.put('if True:'); b.ind += 1; b.flat = simple; b.func(f); b.flat = False; b.ind -= 1; b.put('else:\n    %s = None' % f); b.targets.append(['func', f]); b.names.append(f)
    src = '\n'.join(b.lines) + b.choice(['\n', '\n\n', '', '\n# end', '\n# end\n'])
    return src, b.targets
