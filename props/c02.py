from hypothesis import strategies as st
from gen import opts
from gen_fn import Fn, PROBE, ASYNC
from gen_data import PRELUDE
from rt import roundtrip

BUDGET = {'quick': dict(cases=4000, seconds=240), 'thorough': dict(cases=60000, seconds=800)}
RULE = ('A case is a generated program with 0-4 globals, 0-2 helper functions and 1-3 functions of a grammar (parameter kinds, defaults, annotations, nested '
        'functions, closures, generators, coroutines, control flow), whose metadata may be changed afterwards, stored at a drawn protocol with recurse on or off and '
        'called 1-3 times each with generated arguments in a fresh process. Non-trivial: the function has a closure, a default, nested code, changed metadata, or refers to a global.')
ASSUMPTIONS = ['functions using PEP 695 type parameters are outside of the domain (dill cannot store a local TypeVar)',
               'with recurse off, the loading script has the same globals as the storing one']

@st.composite
def strat(draw):
    b = Fn(draw); b.setup_code()
    o = opts(b, byref=(None, None, True, False))
    rec = o.get('recurse') is True
    b.emit(PRELUDE.rstrip())
    fut = b.chance(8)
    for _ in range(b.int(0, 2)): b.node()
    b.async_helpers = b.chance(30)
    if b.async_helpers: b.emit(ASYNC.rstrip()); o.pop('byref', None)
    b.globals_()
    for _ in range(b.int(0, 2)):
        lines, name, npos = b.function(1, params=('a, b=3', 1, ['a', 'b']))
        for l in lines: b.emit(l)
        b.gfuncs.append((name, npos))
    if b.gfuncs and b.chance(25):      # mutual recursion through globals
        a, c = b.u('f'), b.u('f')
        b.emit('def %s(n, d=0):' % a); b.emit('    return n + d if n <= 0 else %s(n - 1)' % c)
        b.emit('def %s(n):' % c); b.emit('    return %s(n - 1, %s)' % (a, b.expr(__import__('gen_code').Scope(['n']), 1)))
        b.gfuncs.append((a, 1)); b.label('mutual')
    ns = b.weighted([(5, 'main'), (1, 'fake')])
    pre = b.src()
    fns = [b.one(rec) for _ in range(b.weighted([(5, 1), (2, 2), (1, 3)]))]
    whole = b.src()
    if not rec: pre = whole
    b.emit('OBJ = [%s]' % ', '.join(n for n, _ in fns))
    src = b.src()
    if fut: src = 'from __future__ import annotations\n' + src; pre = 'from __future__ import annotations\n' + pre
    probe = PROBE + 'def probe(o):\n    r = [sig(f) for f in o]\n' + ''.join('    r.append(%s)\n' % c for c in b.calls(fns)) + '    return r\n'
    where = b.choice(['fresh', 'fresh', 'same'])
    if rec or ns == 'fake': pre = ''
    return dict(src=src, opts=o, where=where, ns=ns, pre=pre, probe=probe, gmode='names' if rec else 'mod', labels=sorted(b.labels))

def cases(tier): return strat()

TRIVIAL = {'fn:def', 'fn:lambda'}
def run(case, ctx):
    ctx.label(*case['labels'], 'proto%s' % case['opts'].get('protocol'), case['where'], case['ns'], 'recurse%s' % case['opts'].get('recurse'))
    ctx.nontrivial(bool(set(case['labels']) - TRIVIAL))
    roundtrip(case, ctx)
