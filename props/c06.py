from hypothesis import strategies as st
from gen import opts
from gen_inst import Inst
from driver import Skip, Violation
from rt import compare

BUDGET = {'quick': dict(cases=5000, seconds=240), 'thorough': dict(cases=60000, seconds=800)}
RULE = ('A case is 1-3 generated classes (23 built-in bases, slots at every level, 20 kinds of pickling hooks) and a graph of 1-6 of their instances and containers with shared and cyclic state, stored by value '
        'at a drawn protocol; the loaded graph is compared with what copy.deepcopy makes of the original (the same hooks run by another implementation), and the isinstance relations (some by registration with abstract classes) with those of the original. Non-trivial: a hook, slots, a built-in base or generated state.')
ASSUMPTIONS = ['cycles through the arguments of __reduce__ are outside of the domain (pickle cannot store them)', 'classes that need protocol 2 are stored at protocol 2 or higher']

@st.composite
def strat(draw):
    b = Inst(draw); b.setup_inst()
    roots = b.build()
    if b.chance(30): b.abstract(roots)
    o = opts(b, byref=(None, None, False))
    if b.need2 and o.get('protocol', 4) < 2: o['protocol'] = b.int(2, 5)
    if b.chance(35) or b.labels & {'hook:reduce_factory', 'hook:reduce_localfn'} and o.get('recurse') is not True:
        lines = b.lines
        k = len(__import__('gen_inst').IPRE.rstrip().split('\n'))
        pre = lines[:1]
        body = b.src().split('\n')[:-1]
        src = '\n'.join(body[:k] + ['def factory():'] + ['    ' + l for l in body[k:]] + ['    return [%s]' % ', '.join(roots), 'OBJ = factory()']) + '\n'
        b.label('local')
    else:
        src = b.src() + 'OBJ = [%s]\n' % ', '.join(roots)
    where = b.weighted([(6, 'main'), (1, 'fake')])
    if where == 'fake' and o.get('recurse') is not True and any(c['built'] in LISTS or c['hook'] in ('listiter', 'append') for c in b.cls): where = 'main'
    return dict(src=src, opts=o, where=where, same=b.bool(), labels=sorted(b.labels))

LISTS = ('list', 'collections.deque', 'collections.UserList')
KNOWN = [dict(src='class K(list):\n    def m(self): return inst\ninst = K([1, 2])\nOBJ = [inst]\n', opts=dict(recurse=True), where='main', same=True, labels=['known'], key='reentrant-list')]
def enumerate_cases(tier): return KNOWN

def cases(tier): return strat()

def run(case, ctx):
    z = ctx.zygote()
    ctx.label(*case['labels'], 'proto%s' % case['opts'].get('protocol'), case['where'], 'same' if case['same'] else 'fresh', 'recurse%s' % case['opts'].get('recurse'))
    ctx.nontrivial(bool(set(case['labels']) - {'hook:none', 'base:object', 'local'}))
    a = z.call('ops_inst', 'dump', src=case['src'], opts=case['opts'], where=case['where'], same=case['same'])
    if 'skip' in a: raise Skip(a['skip'])
    if case['same']: got, rel = a['got'], a['gotrel']
    else:
        r = z.call('ops_inst', 'load', data=a['data'])
        got, rel = r['desc'], r['rel']
    if case.get('key') and a['exp'] != got: return ctx.fail('the list subclass instance has its items twice', case['key'])
    compare(a['exp'], got, 'the object graph')
    if a['rel'] != rel: raise Violation('isinstance relations of the objects at the top: %r, of the originals: %r' % (rel, a['rel']))
