from hypothesis import strategies as st
from gen import opts
from gen_data import Data
from rt import roundtrip

BUDGET = {'quick': dict(cases=6000, seconds=240), 'thorough': dict(cases=60000, seconds=800)}
RULE = ('A case is generated Python text building a graph of 1-8 data nodes (plus extra edges for sharing and cycles) with protocol, byref, recurse and '
        'load place drawn at random; it is non-trivial if the graph has a second reference to a node or an added edge, or one of the values dill adds to pickle.')
ASSUMPTIONS = ['immutable containers of leaves only are compared by value, not identity', 'NaN payloads are not compared']

@st.composite
def strat(draw, modvars=False):
    b = Data(draw); b.modvars = modvars
    src = b.build()
    return dict(src=src, opts=opts(b), where=b.choice(['same', 'fresh']), labels=sorted(b.labels), nt=bool(getattr(b, 'refs', 0) or b.labels & {'edge', 'view', 'proxy', 'slice'}))

def cases(tier): return strat(True)

def run(case, ctx):
    ctx.label(*case['labels'], 'proto%s' % case['opts'].get('protocol'), case['where'])
    ctx.nontrivial(case['nt'])
    roundtrip(case, ctx)
