from hypothesis import strategies as st
from gen import B

BUDGET = {'quick': dict(cases=6000, seconds=240), 'thorough': dict(cases=40000, seconds=800)}
RULE = ('A case is a first version of a script that defines a class (plain, with slots, over list, dict, tuple, set, int, str, float, Exception or another class of the script, a dataclass, with a metaclass, with hooks such as __setattr__, __getattr__, __eq__, __reduce__; at top level, nested or local) and an object (an instance, alone, inside a container or holding other instances and itself, or a class with a metaclass of the script), and a second version that keeps, edits, moves, deletes or shadows that class. '
        'The object is stored under the first version and loaded under the second with ignore=True and False given in six ways. The class must be that of the script exactly when there is a class of that qualified name that Python lets the object take, and the stored class otherwise; the raw state must be equal. Non-trivial: the object is an instance of a class of the script.')
ASSUMPTIONS = ['compatible means that Python accepts the class for the object']
BASES = ['', 'list', 'dict', 'tuple', 'set', 'int', 'str', 'float', 'Exception', 'Base', 'object', 'Slotted']

def klass(b, name, base, kind, edit):
    L = []
    meta = ', metaclass=Meta' if kind == 'meta' else ''
    ind = ''
    if kind == 'data': L.append('@dataclasses.dataclass(frozen=%r)' % (edit.get('frozen', False)))
    L.append('class %s%s:' % (name, '(%s%s)' % (base, meta) if base or meta else '') if base else 'class %s%s:' % (name, '(metaclass=Meta)' if meta else ''))
    if kind == 'data': L += ['    x: int = 1', '    y: object = None']
    if kind == 'slots': L.append('    __slots__ = %s' % edit.get('slots', "('x', 'y')"))
    L.append('    v = %d' % edit.get('v', 0))
    hooks = edit['hooks']
    if 'setattr' in hooks: L.append('    def __setattr__(self, n, val): object.__setattr__(self, n, [val]) if n != "__class__" else self.__dict__.__setitem__(n, val)')
    if 'setattr_raise' in hooks: L.append('    def __setattr__(self, n, val): raise KeyError(n)')
    if 'setattr_count' in hooks: L.append('    def __setattr__(self, n, val):\n        object.__setattr__(self, "count", self.__dict__.get("count", 0) + 1)\n        object.__setattr__(self, n, val)')
    if 'getattr' in hooks: L.append('    def __getattr__(self, n):\n        if n[:2] == "__": raise AttributeError(n)\n        return "missing " + n')
    if 'eq' in hooks: L.append('    def __eq__(self, o): return True\n    __hash__ = None')
    if 'bool' in hooks: L.append('    def __bool__(self): raise ValueError("bool")')
    if 'getattribute' in hooks: L.append('    def __getattribute__(self, n):\n        if n == "v": return "hidden"\n        return object.__getattribute__(self, n)')
    if 'getstate' in hooks: L.append('    def __getstate__(self): return dict(self.__dict__, stored=1)\n    def __setstate__(self, s): self.__dict__.update(s)')
    if 'repr' in hooks: L.append('    def __repr__(self): raise RuntimeError("repr")')
    if 'delattr' in hooks: L.append('    def __delattr__(self, n): raise RuntimeError("del")')
    if 'str' in hooks: L.append('    def __str__(self): return "K"')
    if edit.get('method'): L.append('    def meth(self): return %d' % edit['method'])
    return '\n'.join(L) + '\n'

def place(where, name, text):
    if where == 'top': return text
    ind = lambda t, n=1: ''.join('    ' * n + l + '\n' for l in t.splitlines())
    if where == 'nested': return 'class Outer:\n' + ind(text)
    if where == 'nested2': return 'class Outer:\n    class Inner:\n' + ind(text, 2)
    if where == 'local': return 'def factory():\n' + ind(text) + '    return %s\n' % name
def ref(where, name): return {'top': name, 'nested': 'Outer.' + name, 'nested2': 'Outer.Inner.' + name, 'local': 'factory()'}[where]
COMMON = 'import dataclasses, collections, types\nclass Base:\n    b = 1\n    def bm(self): return 1\nclass Slotted:\n    __slots__ = ("p",)\nclass Meta(type):\n    def mm(cls): return 2\nclass Other:\n    def __init__(self, *a): self.a = a\n'

@st.composite
def strat(draw):
    b = B(draw)
    name = b.choice(['K', 'K', 'K', 'Other2', 'L'])
    base = b.choice(BASES) if b.bool() else ''
    kind = b.weighted([(5, 'plain'), (2, 'slots'), (1, 'data'), (1, 'meta')])
    if kind == 'data': base = ''
    if kind == 'slots' and base in ('tuple', 'int', 'Slotted', 'str', 'Exception'): base = ''
    hooks = []
    if base == '' and kind in ('plain', 'meta') and b.chance(60): hooks = b.sample(['setattr', 'setattr_raise', 'setattr_count', 'getattr', 'eq', 'bool', 'getattribute', 'getstate', 'repr', 'delattr', 'str'], 1, 3)
    if 'setattr_raise' in hooks: hooks = [h for h in hooks if h not in ('setattr', 'setattr_count')]
    if 'setattr_count' in hooks: hooks = [h for h in hooks if h != 'setattr']
    where = b.weighted([(5, 'top'), (2, 'nested'), (1, 'nested2'), (2, 'local')])
    e1 = dict(hooks=hooks, v=0, frozen=b.bool() if kind == 'data' else False, slots=b.choice(["('x', 'y')", "('x', 'y', '__dict__')", "['x']", "'x'", "('x', '__x')", "('x', '__weakref__')"]) if kind == 'slots' else None)
    v1 = COMMON + place(where, name, klass(b, name, base, kind, e1)) + 'C = %s\n' % ref(where, name)
    if kind == 'plain' and base in ('', 'Base') and b.chance(20): v1 += 'C.__name__ = %r\n' % b.choice(['Other', 'Renamed', name])
    arg = {'list': '[1, 2]', 'dict': '{1: 2}', 'tuple': '(1, 2)', 'set': '{3}', 'int': '7', 'str': '"s"', 'float': '1.5', 'Exception': '"e", 2'}.get(base, '')
    form = b.weighted([(8, 'inst'), (1, 'list'), (2, 'holds'), (1, 'self'), (1, 'class'), (1, 'other'), (1, 'dictsub')])
    v1 += 'o = C(%s)\n' % arg
    if kind == 'plain' and base != 'Slotted' or kind == 'meta' or 'Slotted' == base:
        v1 += 'try: d = object.__getattribute__(o, "__dict__")\nexcept AttributeError: pass\nelse: d["x"] = %d; d["y"] = [1]\n' % b.int(0, 9)
    if kind == 'slots': v1 += 'o.x = [%d]\n' % b.int(0, 9)
    setter = 'C.__dict__["x"].__set__(o, %s)\n' if kind == 'slots' else ('object.__setattr__(o, "x", %s)\n')
    if form == 'holds': v1 += setter % '[Other(1), C, Base()]'
    if form == 'self': v1 += setter % ('o' if kind not in ('data',) else '[o]')
    v1 += {'inst': 'OBJ = o\n', 'holds': 'OBJ = o\n', 'self': 'OBJ = o\n', 'list': 'OBJ = [o, {1: o}]\n', 'class': 'OBJ = C\n', 'other': 'OBJ = collections.OrderedDict(a=o)\n', 'dictsub': 'OBJ = Other(o, o)\n'}[form]
    # the second version
    ver = b.weighted([(3, 'same'), (4, 'edit'), (2, 'absent'), (3, 'shadow'), (3, 'other_place'), (3, 'incompatible')])
    e2 = dict(e1, v=b.int(1, 5), method=b.int(0, 5))
    if ver == 'same': v2 = None
    elif ver == 'edit':
        if b.chance(30): e2['hooks'] = b.sample(['getattr', 'eq', 'setattr', 'setattr_raise'], 0, 2) if kind == 'plain' and base == '' else hooks
        v2 = COMMON + place(where, name, klass(b, name, base, kind, e2))
    elif ver == 'absent': v2 = COMMON
    elif ver == 'shadow': v2 = COMMON + '%s = %s\n' % (b.choice([name, 'Outer', 'factory']), b.choice(['5', 'None', 'lambda: 1', 'types', 'Base', 'Base()', 'Other(1)', 'collections.OrderedDict', 'int', 'type("Z", (), {})', 'Meta', 'list', 'Exception', '"s"', '[]']))
    elif ver == 'other_place':
        w2 = b.choice(['top', 'nested', 'nested2', 'local'])
        v2 = COMMON + place(w2, name, klass(b, name, base, kind, e2))
    else:
        base2 = b.choice(BASES); kind2 = b.choice(['plain', 'slots', 'data', 'meta'])
        if kind2 == 'data': base2 = ''
        if kind2 == 'slots' and base2 in ('tuple', 'int', 'Slotted', 'str', 'Exception'): base2 = ''
        v2 = COMMON + place(where, name, klass(b, name, base2, kind2, dict(hooks=[], v=9, frozen=False, slots=b.choice(["('x', 'y')", "('z',)", '()', "('x', 'y', 'z')"]))))
    o = {}
    p = b.choice([None, 2, 3, 4, 5])
    if p is not None: o['protocol'] = p
    if b.chance(30): o['recurse'] = b.bool()
    if ver == 'same' and where != 'local' and b.chance(30) and '__name__ =' not in v1: o['byref'] = b.bool()
    return dict(v1=v1, v2=v2, opts=o, setting=b.choice([None, None, True, False]), how=b.choice(['loads', 'load', 'unpickler', 'copy', 'settings', 'settings_none']), value=b.weighted([(3, False), (1, True)]), form=form, ver=ver, place=where)

def cases(tier): return strat()

def run(case, ctx):
    z = ctx.zygote(mods=('vlib', 'vdesc', 'ops_ign', 'dataclasses'))
    r = z.call('ops_ign', 'ignore', v1=case['v1'], v2=case['v2'], opts=case['opts'], how=case['how'], value=case['value'], setting=case['setting'])
    ctx.label(r, case['ver'], case['form'], case['place'])
    ctx.nontrivial(r != 'not a class of main')
