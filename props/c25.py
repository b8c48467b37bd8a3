from hypothesis import strategies as st
from gen import B
from gen_det import program, OTHER
from driver import Violation, Skip

BUDGET = {'quick': dict(cases=1500, seconds=240), 'thorough': dict(cases=40000, seconds=800)}
RULE = ('A case is a generated program of 1-4 global functions, a method and a decorated function, nested up to 4 deep, whose bodies use names of globals, builtins, undefined names, parameters, locals, variables of enclosing functions and functions of the program in reads, attribute names, keywords, strings, augmented assignments, deletions, imports, loops, with, try, match, comprehensions, lambdas, class bodies, f-strings, assignment expressions, '
        'with shadowing and global and nonlocal declarations. It is run in the main script or in a module file, and code, nestedglobals, globalvars and referredglobals (recurse and builtin on and off), freevars, varnames, nestedcode and outermost are compared for every function, inner function (with known values of its closure), method and code object with the symbol table that the compiler makes of the source, and a model of the transitive use. '
        'Functions and a decorator come from a module with other objects under the same names. Names of a class body that are also read in it may be reported or not. Non-trivial: at least three functions and a global found.')
ASSUMPTIONS = ['dead code and annotations of local variables are not generated', 'variables of comprehensions may be reported', 'globals of functions held in closures may be followed or not when recurse is off', 'transitive names are those of the namespace of the function']

def cases(tier):
    @st.composite
    def s(draw):
        b = B(draw); p = draw(program())
        return dict(p, modname=b.choice(['__main__', 'detmod', 'detpk.mod']))
    return s()

def run(case, ctx):
    z = ctx.zygote(mods=('vlib', 'ops', 'ops_det'))
    r = z.call('ops_det', 'check', src=case['src'], modname=case['modname'], targets=case['targets'], frees={}, extra=OTHER)
    ctx.label(case['modname'], *['depth:%d' % len(t['path']) for t in case['targets'] if t['path']])
    for w in ('global ', 'nonlocal ', 'lambda', 'class K', 'match ', ' for ', ':=', 'del ', 'f"', '@deco'):
        if w in case['src']: ctx.label('has:' + w.strip())
    ctx.nontrivial(r['functions'] >= 3 and r['globals'] > 0)
