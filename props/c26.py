from hypothesis import strategies as st
from gen import B
from props.c17 import SRCS
from driver import Violation, Skip

BUDGET = {'quick': dict(cases=1600, seconds=240), 'thorough': dict(cases=40000, seconds=800)}
RULE = ('A case is an object graph from the generators of C01, C02, C03, C05, C06, C07, C10 or C11 with its options and a history, nested up to 4 deep, of tracing switched on and off, levels set by the user, handlers added, blocks of the trace context manager (no file, file names in two modes, the same file again, open files in two encodings, string buffers, objects with a write method, impossible names) left normally and by exceptions, and dumps '
        'into memory, files, pipes, streams without or with an unusable tell, behind other data, failing in the middle, dumping something else in the middle, switching tracing in the middle. Every dump must give the bytes of the untraced one; records must be closed by their counterparts at their depth with the number of bytes counted by the stream; written lines, level, handlers and open files are compared after every step. '
        'Non-trivial: at least one traced dump with 6 records and one context block.')
ASSUMPTIONS = ['objects whose untraced dumps differ are skipped', 'a redirection within a redirection may write to both files', 'sizes are compared with counted bytes for protocols below 4 and for the whole object otherwise']
KINDS = ['c01', 'c02', 'c03', 'c05', 'c06', 'c07', 'c10', 'c11']

def prog(b, depth):
    out = []
    for _ in range(b.int(1, 5 if depth else 6)):
        k = b.weighted([(5, 'dump'), (4, 'with' if depth < 4 else 'dump'), (1, 'set'), (1, 'level'), (1, 'user'), (1, 'badctx'), (1, 'root')] + ([(1, 'raise')] if depth else []))
        if k == 'dump': out.append([k, b.choice(['dumps', 'bytes', 'bytes', 'bytes', 'prefix', 'file', 'pipe', 'notell', 'oddtell', 'badtell', 'fail', 'nest', 'on', 'off', 'copy'])])
        elif k == 'set': out.append([k, b.bool(), b.bool()])
        elif k == 'level': out.append([k, b.choice([0, 10, 20, 30, 40, 50])])
        elif k == 'root': out.append([k, b.choice([10, 30])])
        elif k == 'with': out.append([k, b.choice(['none', 'path', 'path', 'pathlib', 'stringio', 'ascii', 'utf8', 'obj']), b.choice(['a', 'w', 'same']), prog(b, depth + 1), b.chance(30)])
        else: out.append([k])
    return out

@st.composite
def strat(draw):
    b = B(draw)
    kind = b.choice(KINDS)
    case = draw(SRCS[kind]())
    return dict(src=case['src'], opts=case['opts'], where=case.get('ns', 'main') if case.get('ns', 'main') in ('main', 'fake') else 'main', modules=case.get('modules'), kind=kind, prog=prog(b, 0), level0=b.choice([None, 20, 30, 20, 10, 20, 40]))

def cases(tier): return strat()

def run(case, ctx):
    z = ctx.zygote(mods=('vlib', 'ops_trace'))
    r = z.call('ops_trace', 'history', src=case['src'], opts=case['opts'], where=case['where'], modules=case['modules'], prog=case['prog'], level0=case['level0'])
    if 'skip' in r: raise Skip(r['skip'])
    ctx.label(case['kind'], *['contexts:%d' % min(r['contexts'], 4), 'failures' if r['failures'] else 'no failure'])
    def names(p):
        for op in p:
            yield op[0] + (':' + op[1] if op[0] in ('dump', 'with') else '')
            if op[0] == 'with': yield from names(op[3])
    ctx.label(*sorted(set(names(case['prog']))))
    ctx.nontrivial(r['records'] >= 6 and r['contexts'] > 0)
