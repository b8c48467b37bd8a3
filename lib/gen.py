"""Program builder on top of Hypothesis draws.  Everything random comes from draw()."""
from hypothesis import strategies as st

_ints = {}
def ints(lo, hi):
    k = (lo, hi)
    if k not in _ints: _ints[k] = st.integers(lo, hi)
    return _ints[k]

class B:
    """Builds source text line by line."""
    def __init__(self, draw):
        self.draw = draw
        self.lines = []
        self.count = 0
        self.nodes = []        # (name, kind)
        self.labels = set()
    # --- choices
    def int(self, lo, hi): return self.draw(ints(lo, hi))
    def bool(self): return self.draw(ints(0, 1)) == 1
    def chance(self, pct): return self.draw(ints(0, 99)) >= 100 - pct
    def choice(self, seq):
        seq = list(seq)
        return seq[self.draw(ints(0, len(seq) - 1))]
    def weighted(self, pairs):
        """pairs of (weight, value); the first one is what shrinking goes for."""
        tot = sum(w for w, _ in pairs)
        x = self.draw(ints(0, tot - 1))
        for w, v in pairs:
            if x < w: return v
            x -= w
    def sample(self, seq, lo=0, hi=None):
        seq = list(seq)
        hi = len(seq) if hi is None else min(hi, len(seq))
        k = self.int(min(lo, hi), hi)
        out = []
        for _ in range(k): out.append(seq.pop(self.int(0, len(seq) - 1)))
        return out
    def name(self, prefix='n'):
        self.count += 1
        return '%s%d' % (prefix, self.count)
    def emit(self, line): self.lines.append(line)
    def label(self, *l): self.labels.update(l)
    def src(self): return '\n'.join(self.lines) + '\n'

    # --- leaf values, as expressions
    def small(self): return repr(self.int(0, 9))
    def atom(self, hashable=True):
        k = self.weighted([(6, 'int'), (4, 'str'), (2, 'bytes'), (2, 'float'), (1, 'bool'), (1, 'none'), (1, 'complex'),
                           (2, 'bigint'), (2, 'oddstr'), (1, 'longstr'), (1, 'longbytes'), (1, 'ell'), (1, 'notimpl')])
        if k == 'int': return repr(self.int(-5, 300))
        if k == 'str': return repr(self.draw(st.text('abcXYZ_ 0', max_size=8)))
        if k == 'bytes': return repr(self.draw(st.binary(max_size=6)))
        if k == 'float': return self.choice(['0.5', '-0.0', '1e308', "float('inf')", "-float('inf')", "float('nan')", '5e-324', '0.1', '-2.75'])
        if k == 'bool': return self.choice(['True', 'False'])
        if k == 'none': return 'None'
        if k == 'complex': return self.choice(['1j', 'complex(-0.0,2.5)', "complex('nan')", '(3-4j)'])
        if k == 'bigint':
            e = self.choice([7, 8, 15, 16, 31, 32, 63, 64, 127, 2031, 2039, 2040, 2047, 4096])
            return '%s2**%d%s' % (self.choice(['', '-']), e, self.choice(['', '+1', '-1']))
        if k == 'oddstr': return self.choice([r"'\n'", r"'\\u0041\\'", r"'\u00e9\u4e2d'", r"'\U0001f600'", r"'\ud800x'", r"'\x00\x1a\r\n'", "'\"\\''", "'__main__'", r"'\u2028'"])
        if k == 'longstr': return self.choice(["'x'*255", "'y'*256", "'\\u20ac'*86", "'z'*65536", "'w'*70000"])
        if k == 'longbytes': return self.choice(["b'x'*255", "b'y'*256", "bytes(range(256))", "b'z'*65537"])
        if k == 'ell': return 'Ellipsis'
        if k == 'notimpl': return 'NotImplemented'

def opts(b, protos=(0, 1, 2, 3, 4, 5, None), byref=(None, True, False), recurse=(None, True, False)):
    o = {}
    p = b.choice(list(reversed(protos)))
    if p is not None: o['protocol'] = p
    r = b.choice(list(byref))
    if r is not None: o['byref'] = r
    r = b.choice(list(recurse))
    if r is not None: o['recurse'] = r
    return o
