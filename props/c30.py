from hypothesis import strategies as st
from gen import B

BUDGET = {'quick': dict(cases=2200, seconds=240), 'thorough': dict(cases=30000, seconds=800)}
RULE = ('A case is a graph of 3-9 instances (with and without __dict__, callable, falsy, with misleading __str__ and __repr__), lists, dictionaries, sets, tuples, subclasses of them, functions with closures and defaults, methods, classes, iterators, generators, deques and partials, with extra links that make cycles, and 3-8 questions: at (also in a module, for wrong addresses), reference of living and dead proxies, parent, parents and children for a type or several, a depth up to 5 and ignored objects. '
        'Chains must consist of actual references (gc), end at the first object of the type, respect the depth and the ignored objects, and be as short as the breadth-first reference says. Non-trivial: a chain was found.')
ASSUMPTIONS = ['children may also be found through objects of the harness, if the references are real', 'parents returns the chain beginning with the object, children the one ending with it']
KINDS = ['K0', 'K0', 'K1', 'K2', 'K3', 'K4', 'LSub', 'DSub', 'list', 'list', 'tuple', 'dict', 'kdict', 'set', 'fn', 'meth', 'cls', 'iter', 'gen', 'deque', 'part']

@st.composite
def strat(draw):
    b = B(draw)
    def val(): return [b.choice(['o', 'o', 'o', 'n']), b.int(0, 9)]
    init = [[b.choice(KINDS), [val() for _ in range(b.int(0, 3))]] for _ in range(b.int(3, 9))]
    ops = [['link', b.int(0, 9), val(), b.int(0, 5)] for _ in range(b.int(2, 9))]
    for _ in range(b.int(4, 12)):
        k = b.weighted([(4, 'parents'), (4, 'children'), (2, 'parent'), (1, 'at'), (2, 'ref')])
        ign = [b.int(0, 9) for _ in range(b.weighted([(3, 0), (1, 1), (1, 2)]))]
        t = b.choice(['K0', 'K1', 'K2', 'K3', 'K4', 'LSub', 'DSub', 'Meta', 'K01'] + ([] if k == 'children' else ['list', 'dict', 'tuple', 'set', 'fn', 'cell', 'int', 'code', 'meth', 'type', 'many']))
        there = [x for x, v in init if x[0] in 'KLD'] + ['K0']
        if b.chance(70): t = b.choice(there)
        ops.append([k, b.int(0, 9), t, b.int(0, 5), ign] if k not in ('at', 'ref') else [k, b.int(0, 9), b.int(0, 1)])
    return dict(init=init, ops=ops)

def cases(tier): return strat()

def run(case, ctx):
    z = ctx.zygote(mods=('vlib', 'ops_ptr'), env={'VERIF_UNFREEZE': '1'})
    r = z.call('ops_ptr', 'history', init=case['init'], ops=case['ops'])
    ctx.label(*{k for k, v in case['init']}, *{o[0] for o in case['ops']}, *['found:%d' % min(r['found'], 4)], *(['deep'] if r['deep'] else []), *(['ignore'] if any(len(o) > 4 and o[4] for o in case['ops']) else []))
    ctx.nontrivial(r['found'] > 0)
