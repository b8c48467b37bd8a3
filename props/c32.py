from hypothesis import strategies as st
from gen import B
from props.c17 import SRCS
from driver import Skip

BUDGET = {'quick': dict(cases=600, seconds=240), 'thorough': dict(cases=12000, seconds=800)}
RULE = ('A case is 2-4 threads, each with its own object graph from the generators of C01, C02, C03, C05, C06, C07 or C10 in its own namespace, its own options and 1-5 operations (dumps, dump, loads, load, copy, pickles, own Pickler subclass, dump_module, load_module_asdict, globalvars), repeated 2-6 times with a drawn thread switch interval between 1 and 200 microseconds; every graph holds three objects that make the threads wait for each other in the middle of storing and loading. '
        'Every result (bytes, values, errors, canonical descriptions of loaded objects) must be that of the same operation done alone before; the warning filters and settings are as before at the end. Non-trivial: the threads met inside operations.')
ASSUMPTIONS = ['operations whose results alone differ are not compared', 'objects are not shared between threads', 'schedules are sampled']
KINDS = ['c01', 'c02', 'c03', 'c05', 'c06', 'c07', 'c10']

@st.composite
def strat(draw):
    b = B(draw)
    threads = []
    for _ in range(b.weighted([(4, 2), (3, 3), (1, 4)])):
        kind = b.choice(KINDS)
        c = draw(SRCS[kind]())
        ops = []
        for _ in range(b.int(1, 5)):
            k = b.weighted([(6, 'dumps'), (5, 'loads'), (3, 'copy'), (1, 'dump'), (1, 'load'), (1, 'pickles'), (2, 'session'), (2, 'asdict'), (2, 'own'), (1, 'globals')])
            ops.append([k, b.int(0, 1)] if k in ('session', 'globals') else [k])
        threads.append(dict(kind=kind, src=c['src'], opts=c['opts'], modules=c.get('modules'), ops=ops))
    return dict(threads=threads, rounds=b.int(2, 6), interval=b.choice([1e-6, 1e-5, 2e-4]), filters=b.choice(['ignore', 'error']))

def cases(tier): return strat()

def run(case, ctx):
    z = ctx.zygote(mods=('vlib', 'ops_thread'))
    r = z.call('ops_thread', 'history', threads=case['threads'], rounds=case['rounds'], interval=case['interval'], filters=case['filters'])
    if 'skip' in r: raise Skip(r['skip'])
    ctx.label('threads:%d' % len(case['threads']), *{t['kind'] for t in case['threads']}, *{o[0] for t in case['threads'] for o in t['ops']}, 'raised' if r['raised'] else 'all fine')
    ctx.nontrivial(r['met'] >= 3)
