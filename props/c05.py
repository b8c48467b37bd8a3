from hypothesis import strategies as st
from gen import opts
from gen_class import Cls, CPRE, CPROBE
from gen_fn import PROBE
from rt import roundtrip

BUDGET = {'quick': dict(cases=3500, seconds=240), 'thorough': dict(cases=50000, seconds=800)}
RULE = ('A case is a generated program of 1-5 classes (single, multiple and built-in bases, metaclasses, ABCs, generics, slots, 0-5 members each of 30 kinds, changes after creation), in the main script, '
        'in a function or in a namespace that is no module, stored at a drawn protocol with recurse on or off. Structure and generated behaviour (MRO, issubclass matrix, instances, every method and '
        'attribute) are compared in the same or a fresh process. Non-trivial: a class with a generated base, metaclass, slots, ABC or at least two members.')
ASSUMPTIONS = ['class-creation keywords and the arguments of __init_subclass__ are not kept by dill (documented nowhere, cannot be known from the class); classes that need them are outside of the domain',
               'PEP 695 type parameters and TypeVars of the main script are outside of the domain']

@st.composite
def strat(draw):
    b = Cls(draw); b.setup_class()
    o = opts(b, byref=(None, None, False))
    rec = o.get('recurse') is True
    b.emit(CPRE.rstrip())
    for _ in range(b.int(0, 2)): b.node()
    b.globals_(0, 2)
    for _ in range(b.int(0, 1)):
        n = b.u('g'); b.emit('def %s(self, x=1): return ["shared", x]' % n); b.gfn.append(n)
    pre = b.src()
    local = b.chance(35)
    start = len(b.lines)
    for _ in range(b.int(1, 5)): b.klass()
    b.after()
    names = [c.name for c in b.cls]
    roots = b.sample(names, 1, 5) if b.bool() else list(reversed(names))
    roots += [n for n in names if n in b.must and n not in roots]
    if local:
        body = b.lines[start:]
        b.lines[start:] = ['def factory():'] + ['    ' + l for l in body] + ['    return [%s]' % ', '.join(roots), 'OBJ = factory()']
        b.label('local')
    else: b.emit('OBJ = [%s]' % ', '.join(roots))
    src = b.src()
    picks = [b.int(0, 9) for _ in range(b.int(1, 2))]
    where = b.choice(['fresh', 'same'])
    ns = b.weighted([(6, 'main'), (1, 'fake')])
    return dict(src=src, opts=o, where=where, ns=ns, pre='' if rec or ns == 'fake' else pre, probe=PROBE + 'PICKS = %r\n' % picks + CPROBE,
                gmode='names' if rec else 'mod' if not local or ns != 'fake' else 'none', labels=sorted(b.labels))

def cases(tier): return strat()

def run(case, ctx):
    ctx.label(*case['labels'], 'proto%s' % case['opts'].get('protocol'), case['where'], case['ns'], 'recurse%s' % case['opts'].get('recurse'))
    ctx.nontrivial(bool({'metaclass', 'derived', 'multibase', 'abc', 'slots', 'generic'} & set(case['labels'])) or len([l for l in case['labels'] if l.startswith('m:')]) > 1)
    roundtrip(case, ctx)
