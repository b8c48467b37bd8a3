from hypothesis import strategies as st
from gen import opts
from gen_code import Code, Scope

BUDGET = {'quick': dict(cases=8000, seconds=240), 'thorough': dict(cases=120000, seconds=800)}
RULE = ('A case is generated source compiled in a drawn mode, file name, optimisation level and future flags; 1-3 of its code objects (nested ones too), partly with replaced fields, '
        'are stored at a drawn protocol and every co_* field, positions, line tables and equality are compared; or their fields are written in the argument layout of an older Python. '
        'Non-trivial: more than one code object in the program, or replaced fields, or an older layout.')
ASSUMPTIONS = ['layouts of other Python versions are checked for the fields they carry, on code whose bytes are of this version']

class CodeSrc(Code):
    async_helpers = True
    CONSTS = ['0.0', '-0.0', '1', '1.0', 'True', "float('nan')", "b'\\x00\\xff'", "'\\u4e2d'", "(1, (2.0, None), b'')", 'frozenset({1, "a"})', 'Ellipsis', '2**200', '1j', "'x'*300", '()', "'\\ud800'"]
    def const_stmt(self):
        return self.choice(['q = %s', 'q = x in {1, 2.0, "a", %s}', 'q = (1, (2, %s), ...)', "q = f'{%s}'", 'q = [%s, None, b"\\xff", 1e300, -0.0]'])  % self.choice(['0', '-1', '3.5', '"\u4e2d"', 'b"z"', '1j', '10**30', '(1, 2)', 'None', '-0.0'])

@st.composite
def strat(draw):
    b = CodeSrc(draw); b.setup_code()
    mode = b.weighted([(6, 'exec'), (1, 'eval'), (1, 'single')])
    if mode == 'eval':
        src = b.expr(Scope(['y', 'z']), 3)
    else:
        b.globals_(0, 2)
        n = b.int(1, 3) if mode == 'exec' else 1
        if mode == 'single': b.lines = []
        for _ in range(n):
            k = b.choice(['func', 'gen', 'async', 'agen', 'class', 'lambda', 'const', 'longfn', 'pep695', 'unicode'] if mode == 'exec' else ['func'])
            b.label(k)
            if k == 'class':
                lines, name, npos = b.function(1)
                lines = ['class K%d(object, metaclass=type):' % b.int(0, 9), '    "doc"', '    a: int = 1'] + ['    ' + l for l in lines]
            elif k == 'lambda': lines = ['h = lambda a, b=2, *c, d, e=5, **f: %s' % b.expr(Scope(['a', 'b']), 3)]
            elif k == 'const': lines = [b.const_stmt(), 'def cf(x): ' , '    ' + b.const_stmt(), '    return q']
            elif k == 'longfn': lines = ['def long(x):'] + ['    x = x %s %d' % (b.choice(['+', '-', '^']), i) for i in range(b.choice([40, 300, 700]))] + ['    return x']
            elif k == 'pep695': lines = ['def gen[T: int, *Ts, **P](x: T) -> T:', '    return x', 'type Al[T] = list[T]', 'class G[T]:', '    def m(self, x: T): return x']
            elif k == 'unicode': lines = ['def caf\u00e9(\u03b1, \u4e2d="\U0001f600"):', '    "d\u00e9"', '    def inner(): return \u03b1', '    return inner, {"\u00e9": \u4e2d}']
            else: lines, name, npos = b.function(2, kind=k)
            for l in lines: b.emit(l)
        src = b.src()
        if mode == 'exec': src = '\n' * b.weighted([(5, 0), (1, 300), (1, 70000)]) + src
    changes = []
    for _ in range(b.int(0, 2)):
        c = {}
        k = b.choice(['consts', 'name', 'filename', 'line', 'stack', 'qual'])
        if k == 'consts': c['consts'] = [b.choice(b.CONSTS) for _ in range(b.int(1, 3))]
        elif k == 'name': c['co_name'] = b.choice(['x', 'caf\u00e9', '<lambda>', ''])
        elif k == 'filename': c['co_filename'] = b.choice(['', 'a\nb.py', '/x/\u00e9.py', '<stdin>'])
        elif k == 'line': c['co_firstlineno'] = b.choice([1, 0, 255, 70000, 2**31 - 1])
        elif k == 'stack': c['stack'] = b.int(0, 300)
        elif k == 'qual': c['co_qualname'] = b.choice(['A.<locals>.b', 'q', ''])
        changes.append(c)
    kw = dict(src=src, mode=mode, filename=b.choice(['<gen>', 'f.py', '/a b/\u00e9.py']), flags=b.weighted([(4, 0), (1, 0x1000000)]),
              optimize=b.choice([-1, 0, 1, 2]), changes=changes, pick=[b.int(0, 12) for _ in range(b.int(1, 3))])
    leg = b.weighted([(5, None), (1, '18'), (1, '16'), (1, '15'), (1, '17'), (1, '20')])
    o = opts(b)
    case = dict(kw=kw, opts=o, legacy=leg, labels=sorted(b.labels) + [mode])
    if leg: case['leg'] = dict(lead=b.bool(), astext=b.chance(30), protocol=3)
    return case

def cases(tier): return strat()

def run(case, ctx):
    z = ctx.zygote()
    ctx.label(*case['labels'], 'legacy%s' % case['legacy'], 'proto%s' % case['opts'].get('protocol'))
    ctx.nontrivial(bool(case['legacy'] or case['kw']['changes'] or len(case['kw']['pick']) > 1))
    if case['legacy']: z.call('ops_code', 'legacy', layout=case['legacy'], **case['leg'], **case['kw'])
    else: z.call('ops_code', 'roundtrip', opts=case['opts'], **case['kw'])
