from hypothesis import strategies as st
from gen import B
import gen_src
from props.c17 import SRCS
from driver import Violation, Skip

BUDGET = {'quick': dict(cases=4000, seconds=240), 'thorough': dict(cases=40000, seconds=800)}
RULE = ('Three kinds of cases. (1) An object graph from the generators of C01, C02, C03, C05, C07, C10 or C11 and settings, with a history of dump (prefix, suffix, dir, delete), dumpIO, loads from handles, names, buffers and bytes, repeatedly and interleaved, and closing; what is loaded must be described like the result of dill.loads, the files must be where and as long as requested. '
        '(2) A generated script with functions, lambdas and classes (also with other alphabets) stored as source in files or buffers with or without an alias and loaded from every kind of source in both modes; the result must behave like the original on six arguments. (3) Nested captures of stdout, stderr and another stream with prints, writes, replaced streams, and every way of leaving, compared with a model. '
        'Non-trivial: two loads, or two writes in a capture.')
ASSUMPTIONS = ['objects that dill cannot store or whose copies are not comparable are skipped', 'source: functions without closures and decorators, and classes whose methods use no other names, at the top of a script']
KINDS = ['c01', 'c02', 'c03', 'c05', 'c07', 'c10', 'c11']

def cap(b, d):
    out = []
    for _ in range(b.int(1, 4)):
        k = b.weighted([(4, 'write'), (3, 'with' if d < 4 else 'write'), (1, 'return'), (1, 'gen'), (1, 'replace')] + ([(1, 'raise')] if d else []))
        n = b.choice(['stdout', 'stdout', 'stderr', 'other'])
        if k == 'write': out.append([k, n, b.choice(['a', 'b\n', 'x', '\u00e9x', '', 'two\nlines x'])])
        elif k == 'with': out.append([k, n, cap(b, d + 1), b.bool()])
        elif k == 'raise': out.append([k, b.int(0, 3)])
        else: out.append([k, n])
    return out

@st.composite
def strat(draw):
    b = B(draw)
    what = b.weighted([(4, 'obj'), (4, 'src'), (2, 'cap')])
    if what == 'cap': return dict(what=what, prog=cap(b, 0))
    if what == 'src':
        src, targets = gen_src.program(draw, 3, simple=True)
        targets = [t for t in targets if t[0] in ('func', 'lambda', 'class') and '.' not in t[1]]
        if not targets: src += '\ndef f9(x): return x\n'; targets = [['func', 'f9']]
        plan = [[b.int(0, 9), b.choice(['file', 'io']), b.choice(['', '', '_f', 'other', 'f\u00e9']), b.choice([{}, {'prefix': 'pre'}, {'dir': True}, {'suffix': '.txt'}, {'prefix': 'p', 'dir': True}]), [b.int(0, 7) for _ in range(b.int(1, 3))]] for _ in range(b.int(1, 3))]
        return dict(what=what, src=src, targets=targets, plan=plan)
    kind = b.choice(KINDS)
    case = draw(SRCS[kind]())
    hist = [['dump', {}] if b.bool() else ['io']]
    for _ in range(b.int(2, 8)):
        k = b.weighted([(4, 'load'), (2, 'dump'), (2, 'io'), (1, 'close')])
        if k == 'load': hist.append([k, b.int(0, 5), b.int(0, 5), b.int(0, 2)])
        elif k == 'dump': hist.append([k, {k2: v for k2, v in dict(prefix='pre', suffix='.sfx', dir=True, delete=False).items() if b.chance(30)}])
        elif k == 'close': hist.append([k, b.int(0, 5)])
        else: hist.append([k])
    return dict(what=what, src=case['src'], opts=case['opts'], modules=case.get('modules'), kind=kind, hist=hist)

def cases(tier): return strat()

def run(case, ctx):
    z = ctx.zygote(mods=('vlib', 'vdesc', 'ops_temp', 'numpy'))
    ctx.label(case['what'])
    if case['what'] == 'cap':
        r = z.call('ops_temp', 'captures', prog=case['prog']); ctx.nontrivial(r['writes'] >= 2 and r['contexts'] > 0)
    elif case['what'] == 'src':
        r = z.call('ops_temp', 'sources', src=case['src'], targets=case['targets'], plan=case['plan']); ctx.nontrivial(r['loads'] >= 2)
        ctx.label(*{case['targets'][t % len(case['targets'])][0] for t, *_ in case['plan']}, 'alias' if any(p[2] for p in case['plan']) else 'no alias')
    else:
        r = z.call('ops_temp', 'objects', src=case['src'], opts=case['opts'], where='main', modules=case['modules'], hist=case['hist'])
        if 'skip' in r: raise Skip(r['skip'])
        ctx.label(case['kind']); ctx.nontrivial(r['loads'] >= 2)
