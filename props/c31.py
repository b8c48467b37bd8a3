from hypothesis import strategies as st
from gen import B

BUDGET = {'quick': dict(cases=600, seconds=240), 'thorough': dict(cases=8000, seconds=800)}
RULE = ('A case is a history of 1-5 load_types calls with every combination of arguments, given in every way, reloads of dill.types and dumps between them; after each step dill.objects must hold exactly the objects of the last request, dill.types exactly their types. Then 1-12 objects registered as picklable, drawn from all, are stored with a drawn protocol and options and loaded; the copy must have the same type. '
        'Non-trivial: two load_types calls that differ.')
ASSUMPTIONS = ['entries are those of dill._objects as imported on this system', 'several standard types need protocol 2 or newer']
SEEN = set()

@st.composite
def strat(draw):
    b = B(draw)
    calls = []
    for _ in range(b.int(1, 5)):
        k = b.weighted([(6, 'load'), (1, 'reload'), (1, 'dump')])
        calls.append([k, b.bool(), b.bool(), b.int(0, 4)] if k == 'load' else [k])
    picks = [[b.int(0, 399), dict(protocol=b.choice([None, 2, 3, 4, 5]), byref=b.choice([None, True, False]), recurse=b.choice([None, True, False]))] for _ in range(b.int(1, 12))]
    return dict(calls=calls, picks=picks)

def cases(tier): return strat()

def run(case, ctx):
    z = ctx.zygote(mods=('vlib', 'ops_types'))
    r = z.call('ops_types', 'history', calls=case['calls'], picks=case['picks'])
    ctx.label('loads:%d' % r['loads'], 'of %d' % r['total'], *r['names'])
    ctx.nontrivial(len({tuple(c[1:3]) for c in case['calls'] if c[0] == 'load'}) > 1)
