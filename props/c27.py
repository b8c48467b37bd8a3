from hypothesis import strategies as st
from gen import B
import gen_src

BUDGET = {'quick': dict(cases=5000, seconds=240), 'thorough': dict(cases=40000, seconds=800)}
RULE = ('Three kinds of cases. (1) A generated file with functions (decorated, asynchronous, nested, redefined, conditional), classes (nested, of the same name, decorated), methods of every kind and lambdas, between comments, strings and docstrings that look like definitions, and 2-8 questions: getsourcelines, getsource, findsource (of objects, code objects, instances, the module), lstrip, getname, imports with and without alias, importable source with and without alias. '
        'Lines must be those the syntax tree of the file gives; the text without indentation must have the same syntax tree; executed imports must bind the object itself; executed source must bind an object of the requested name that gives the same results. (2) indent and outdent of generated texts against a model. (3) imports of 60 objects of the standard library. Non-trivial: at least two questions answered.')
ASSUMPTIONS = ['indented definitions with strings of several lines are not compared after removing the indentation', 'lambdas: one to a line', 'source on its own: functions without closures and decorators, and classes whose methods use no other names', 'texts whose first line is indented or blank are left out of the model of indent']
N = [0]

@st.composite
def strat(draw):
    b = B(draw)
    what = b.weighted([(7, 'prog'), (2, 'text'), (2, 'std')])
    if what == 'text':
        cs = []
        for _ in range(b.int(1, 4)):
            ls = [b.choice(['a', 'def f(x):', 'x = """', '#', '"', '\u00e9'])]
            for _ in range(b.int(0, 5)): ls.append(b.choice(['', '  ', '    b', '\tc', ' d', 'e', '  """', '        f  ', '\\', "'''x'''"]))
            cs.append(['\n'.join(ls), b.choice([1, 2, 4, 4, 8, '  ', ' ', '   '])])
        return dict(what=what, cases=cs)
    if what == 'std': return dict(what=what, picks=[[b.int(0, 63), b.choice(['', '', '_f', 'other']), b.bool(), b.int(0, 3)] for _ in range(b.int(1, 8))])
    alone = b.bool()
    src, targets = gen_src.program(draw, 4, wide=not alone or b.bool(), simple=alone)
    if not targets: src += '\ndef f9(x): return x\n'; targets = [['func', 'f9']]
    acts = ['lines', 'lines', 'lines', 'code', 'module', 'lstrip', 'lstrip', 'alias', 'alias', 'name', 'import'] + (['source'] * 6 if alone else [])
    plan = [[b.int(0, 19), b.choice(acts), b.choice(['', '', '_f', 'other'])] for _ in range(b.int(2, 8))]
    return dict(what=what, src=src, targets=targets, plan=plan, alone=alone)

def cases(tier): return strat()

def run(case, ctx):
    z = ctx.zygote(mods=('vlib', 'ops_src'))
    ctx.label(case['what'])
    if case['what'] == 'text': r = z.call('ops_src', 'texts', cases=case['cases'])
    elif case['what'] == 'std': r = z.call('ops_src', 'imports', picks=case['picks'])
    else: r = z.call('ops_src', 'program', src=case['src'], targets=case['targets'], plan=case['plan'], name='vsource', alone=case['alone'])
    ctx.label(*r['kinds'])
    ctx.nontrivial(r['checks'] > 1)
