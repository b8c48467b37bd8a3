from hypothesis import strategies as st
from gen import B, opts
from rt import roundtrip

BUDGET = {'quick': dict(cases=3600, seconds=240), 'thorough': dict(cases=60000, seconds=800)}
RULE = ('A case is 1-6 NumPy values (arrays of a generated dtype - nested, aligned, titled, sub-array and object fields included - shape and memory layout; instances of generated array subclasses, of matrix, recarray, masked and character arrays; scalars; dtypes; dtype classes; '
        'scalar types; ufuncs and their methods; random generators) put in containers, attributes, closures and object arrays (also in cycles), at a drawn protocol, loaded in the same or a fresh process. Non-trivial: an array with more than one element, or a subclass, or a structured dtype.')
ASSUMPTIONS = ['attributes of masked arrays are left to the hooks of MaskedArray, which drop them', 'arrays sharing memory are separate arrays after loading, as with pickle', 'arrays which are not contiguous come back in C order, as with pickle', 'the writeable flag is not kept, as with pickle']

PRE = '''import numpy as np, functools, types, operator
class Plain(np.ndarray): pass
class Info(np.ndarray):
    def __new__(cls, a, info=None):
        o = np.asarray(a).view(cls); o.info = info
        return o
    def __array_finalize__(self, o):
        if o is not None: self.info = getattr(o, 'info', 'default')
    @property
    def double(self): return self * 2
    def meth(self, k=1): return [self.info, k]
class Red(Info):
    def __reduce__(self):
        f, a, s = super().__reduce__()
        return f, a, (s, self.info, 'red')
    def __setstate__(self, s):
        assert s[2] == 'red'
        super().__setstate__(s[0]); self.info = s[1]
class Sets(np.ndarray):
    def __setstate__(self, s):
        super().__setstate__(s); self.restored = True
class Sub(Info): pass
class Mixed(dict, object): pass
class Box: pass
'''
SCALAR = ['?', 'i1', 'u1', 'i2', '<i4', 'i8', 'u8', 'f2', 'f4', 'f8', 'g', 'c8', 'c16', '>i4', '>f8', '>u2', 'S1', 'S5', 'U3', '>U2', 'V3', 'M8[s]', 'm8[D]', 'M8[25us]', '>M8[ns]', 'O', 'm8']
class Np(B):
    def dtype(self, depth=2):
        k = self.weighted([(8, 'scalar'), (3 if depth else 0, 'fields'), (1 if depth else 0, 'dict'), (1 if depth else 0, 'sub'), (1, 'meta'), (1, 'align')])
        if k == 'scalar': return 'np.dtype(%r)' % self.choice(SCALAR)
        self.label('dt:' + k)
        if k == 'fields':
            return 'np.dtype([%s])' % ', '.join('(%s, %s%s)' % (self.choice(['"f%d"', '("T%d", "f%d")']).replace('%d', str(i)), self.dtype(depth-1), self.choice(['', '', ', (2,)', ', (1, 2)'])) for i in range(self.int(1, 3)))
        if k == 'dict': return 'np.dtype(dict(names=["a", "b"], formats=["%s", "%s"], offsets=[%d, %d], itemsize=40))' % (self.choice(['i4', 'f8', 'S3', '>i2']), self.choice(['u1', 'f4', 'U2']), self.choice([0, 8, 16]), self.choice([24, 28]))
        if k == 'sub': return 'np.dtype((%s, %s))' % (self.dtype(depth-1), self.choice(['(2,)', '(2, 2)', '(1,)']))
        if k == 'meta': return 'np.dtype(%r, metadata={"k": %s})' % (self.choice(['i4', 'f8', 'S4']), self.small())
        if k == 'align': return 'np.dtype([("a", "i1"), ("b", "f8"), ("c", "u2")], align=True)'
    def array(self, objs=()):
        dt = self.dtype() if self.chance(90) else 'np.dtypes.StringDType()'
        shape = self.choice(['()', '(0,)', '(1,)', '(3,)', '(5,)', '(2, 3)', '(3, 1, 2)', '(2, 0, 3)', '(4, 4)', '(1000,)'])
        n = self.name('a'); self.emit('%s = make(%s, %s, %r)' % (n, dt, shape, self.choice(['C', 'C', 'F'])))
        for _ in range(self.int(0, 2)):
            v = self.weighted([(4, '.T'), (2, '[...]'), (2, '[::-1]'), (2, '[::2]'), (1, '.reshape(-1)'), (1, '[1:]'), (1, '.copy("F")'), (1, 'b'), (1, '[None]')])
            if v == 'b': self.emit('%s = np.broadcast_to(%s, (2,) + %s.shape)' % (n, n, n))
            elif v in ('[::-1]', '[::2]', '[1:]'): self.emit('%s = %s%s if %s.ndim else %s' % (n, n, v, n, n))
            else: self.emit('%s = %s%s' % (n, n, v))
            self.label('view')
        return n
    def add(self, n, k): self.nodes.append((n, k)); self.label('k:' + k)
    def node(self):
        k = self.weighted([(8, 'array'), (5, 'sub'), (2, 'objarr'), (2, 'scalar'), (2, 'dtype'), (1, 'dtclass'), (1, 'stype'), (2, 'ufunc'), (2, 'ma'), (1, 'std'), (1, 'rand'), (1, 'fn'), (1, 'vec')])
        n = self.name('v')
        if k == 'array': self.emit('%s = %s' % (n, self.array()))
        elif k == 'sub':
            c = self.choice(['Plain', 'Info', 'Info', 'Red', 'Sub', 'Sets', 'ByInner'])
            a = self.array(); own = None
            if c == 'ByInner':
                own = self.choice(['np.ndarray', 'Info', 'Plain', 'np.matrix', 'np.recarray', 'np.ma.MaskedArray']); c = self.name('C'); self.emit('class %s(%s):' % (c, own))
                self.emit('    tag = %s' % self.atom())
            self.emit('%s = arr2(%s).view(%s)' % (n, a, c) if True else '')
            if c == 'Sets': self.emit('%s.restored = True' % n)
            if own == 'np.ma.MaskedArray' or c == 'Red': self.add(n, k); return        # their own hooks keep no further attributes
            if self.chance(60): self.emit('%s.info = %s' % (n, self.val()))
            if self.chance(30): self.emit('%s.extra = %s' % (n, self.val()))
            if self.chance(15): self.emit('%s.me = %s' % (n, self.choice([n, '[%s]' % n]))); self.label('cycle')
        elif k == 'objarr':
            self.emit('%s = np.empty(%d, object)' % (n, self.int(1, 4)))
            for i in range(self.int(0, 3)): self.emit('%s[%d %% len(%s)] = %s' % (n, i, n, self.val()))
            if self.chance(20): self.emit('%s[0] = %s' % (n, self.choice(['[%s]' % n, '{1: %s}' % n, n]))); self.label('cycle')
            if self.chance(30): self.emit('%s = %s.reshape(1, -1)' % (n, n)) if 'cycle' not in self.labels else None
        elif k == 'scalar': self.emit('%s = %s' % (n, self.choice(['np.float64(0.1)', 'np.int8(-5)', 'np.bool_(True)', 'np.str_("ab")', 'np.bytes_(b"x")', 'np.datetime64("2020-02-29")', 'np.timedelta64(5, "h")', 'np.longdouble("0.1")', 'np.complex64(1+2j)', 'np.void(b"abc")', 'np.zeros(1, "i4,f8")[0]', 'np.float16(2.5)', 'np.datetime64("NaT")', 'np.uint64(2**64-1)', 'np.float64("nan")'])))
        elif k == 'dtype': self.emit('%s = %s' % (n, self.dtype()))
        elif k == 'dtclass': self.emit('%s = type(%s)' % (n, self.dtype())) if self.chance(80) else self.emit('%s = np.dtype' % n)
        elif k == 'stype': self.emit('%s = %s' % (n, self.choice(['np.int32', 'np.float64', 'np.generic', 'np.str_', 'np.ndarray', 'np.matrix', 'np.ufunc', 'np.longdouble', 'type(np.dtype)', 'np.void', 'np.random.Generator', 'np.ma.MaskedArray'])))
        elif k == 'ufunc': self.emit('%s = np.%s%s' % (n, self.choice(['add', 'sin', 'multiply', 'maximum', 'logical_and', 'divmod', 'isnan', 'matmul', 'conj', 'absolute', 'abs', 'mod', 'bitwise_not', 'true_divide', 'arctan2', 'power']), self.choice(['', '', '', '.reduce', '.outer', '.accumulate'])))
        elif k == 'ma':
            self.emit('%s = np.ma.array(%s, mask=%s%s)' % (n, self.choice(['[1, 2, 3]', '[[1.5, 2], [3, 4]]', '["a", "b"]', 'np.zeros(2, "i4,f8")', 'np.array(5)', '[]']), self.choice(['False', 'True', 'np.ma.nomask']), self.choice(['', ', fill_value=1', ', hard_mask=True'])))
            if self.chance(40): self.emit('if %s.ndim: %s[:1] = np.ma.masked' % (n, n))
        elif k == 'std': self.emit('%s = %s' % (n, self.choice(['np.matrix([[1, 2], [3, 4]])', 'np.rec.array([(1, 2.5, "x")], dtype="i4,f8,U3")', 'np.char.array(["a", "bc"])', 'np.poly1d([1, 2, 3])', 'np.random.RandomState(7)', 'np.ma.masked', 'np.rec.array([(1, 2.5)], dtype="i4,f8")[0]', 'np.s_[1:2, ..., None]', 'np.newaxis'])))
        elif k == 'rand': self.emit('%s = np.random.default_rng(5).bit_generator' % n) if self.bool() else self.emit('%s = np.random.SeedSequence(3)' % n)
        elif k == 'fn': self.emit('%s = %s' % (n, self.choice(['np.dot', 'np.linalg.norm', 'np', 'np.linalg', 'np.random', 'np.vectorize', 'np.fft.fft', 'np.array', 'np.mean', 'np.random.rand', 'np.array([1, 2]).sum', 'np.array([3]).__add__', 'Info([1], 2).meth', 'np.concatenate'])))
        elif k == 'vec': self.emit('%s = functools.partial(np.%s, %s)' % (n, self.choice(['add', 'dot', 'where', 'full']), self.val()))
        self.add(n, k)
    def val(self):
        if self.nodes and self.chance(50): return self.choice(self.nodes)[0]
        return self.atom()
    def wrap(self):
        n = self.name('w')
        k = self.choice(['list', 'dict', 'attr', 'closure', 'default', 'tuple', 'classattr', 'objarr'])
        v, w = self.val(), self.val()
        if k == 'list': self.emit('%s = [%s, %s]' % (n, v, w))
        elif k == 'dict': self.emit('%s = {"a": %s, "b": %s}' % (n, v, w))
        elif k == 'tuple': self.emit('%s = (%s, %s)' % (n, v, w))
        elif k == 'attr': self.emit('%s = Box(); %s.x = %s; %s.y = %s' % (n, n, v, n, w))
        elif k == 'closure': self.emit('def mk_%s(a, b): return lambda x=0: [a, b, x]' % n); self.emit('%s = mk_%s(%s, %s)' % (n, n, v, w))
        elif k == 'default': self.emit('def %s(a=%s, *, k=%s): return [a, k]' % (n, v, w))
        elif k == 'classattr': self.emit('class %s_c:' % n); self.emit('    at = %s' % v); self.emit('%s = %s_c()' % (n, n))
        else: self.emit('%s = np.empty(2, object); %s[0] = %s; %s[1] = %s' % (n, n, v, n, w))
        self.nodes.append((n, 'w')); self.label('w:' + k)

MAKE = '''
def fill(a):
    if a.dtype.names is not None:
        for n in a.dtype.names: fill(a[n])
    elif a.dtype.kind in 'iufcb': a[...] = (np.arange(a.size).reshape(a.shape) % 7 + 1)
    elif a.dtype.kind in 'SU': a[...] = 'qrs'[:a.dtype.itemsize]
    elif a.dtype.kind in 'Mm': a[...] = np.array(5, 'i8').astype(a.dtype)
    elif a.dtype.kind == 'O': a[...] = 'ob'
    return a
def arr2(a): return a if a.ndim == 2 else (a.reshape(1, -1) if a.ndim < 2 else a.reshape(a.shape[0], -1) if a.size else a.reshape(0, 1))
def make(dt, shape, order):
    n = 1
    for s in shape: n *= s
    if dt.subdtype is not None or dt.names is not None: return fill(np.zeros(shape, dt, order))
    if dt.kind == 'T': return np.array([chr(97 + i % 26) * (i % 40) for i in range(n)], dtype=dt).reshape(shape)
    if dt.hasobject:
        a = np.zeros(shape, dt, order)
        if dt == object:
            for i in range(n): a.flat[i] = [None, 'x%d' % i, i][i % 3]
        return a
    if dt.kind in 'US': return np.array(['ab%d' % (i % 7) for i in range(n)], dtype='U3').astype(dt).reshape(shape, order=order)
    raw = bytes((i * 7 + 1) % 120 for i in range(n * dt.itemsize))
    if dt.kind == 'b': raw = bytes(b % 2 for b in raw)
    if dt.kind == 'V': return np.frombuffer(bytes(len(raw)), dt).reshape(shape, order=order).copy('K')
    if dt.kind in 'fcg': return (np.arange(n) * 0.37 - 1).astype(dt).reshape(shape, order=order)
    return np.frombuffer(raw, dt).reshape(shape, order=order).copy('K')
'''
@st.composite
def strat(draw):
    b = Np(draw)
    for l in (PRE + MAKE.strip()).split('\n'): b.emit(l)
    for _ in range(b.int(1, 5)): b.node()
    for _ in range(b.int(0, 3)): b.wrap()
    names = [n for n, _ in b.nodes]
    roots = names if b.chance(60) else b.sample(names, 1, len(names))
    b.emit('OBJ = [%s]' % ', '.join(roots) if len(roots) > 1 or b.bool() else 'OBJ = ' + roots[0])
    where = b.choice(['fresh', 'fresh', 'same'])
    return dict(src=b.src(), opts=opts(b, byref=(None, None, False)), where=where, gmode='none', skiprec=True, labels=sorted(b.labels))

def cases(tier): return strat()

def run(case, ctx):
    ctx.label(*case['labels'], 'proto%s' % case['opts'].get('protocol'), case['where'])
    ctx.nontrivial(any(l in ('k:array', 'k:sub', 'k:ma', 'k:objarr', 'k:std') or l.startswith('dt:') for l in case['labels']))
    roundtrip(case, ctx, mods=('vlib', 'vdesc', 'ops', 'numpy', 'numpy.ma', 'numpy.random'))
