from hypothesis import strategies as st
from gen import B
from driver import Violation, Skip
from props import c22

BUDGET = {'quick': dict(cases=1000, seconds=240), 'thorough': dict(cases=25000, seconds=800)}
RULE = ('A case saves two modules (main script, importable module or submodule, run-time module object; namespaces generated as for C22) and then, in a fresh process with a drawn pool of live modules (some only on disk), performs 2-7 loading operations: load_module with no target, targets by object or name that match or differ in name or kind, values that are no modules, names that cannot be imported, both spellings of the argument; '
        'load_module_asdict with and without update; files that are missing, empty, no pickles or pickles of other things; truncation at a drawn byte; sources given as path, buffered file at any position of its buffer, raw file, pipe, seekable and unseekable stream. A model of the pool says for every operation whether it succeeds, and with which kind of error it fails; a refused operation may not change a name of any live module, a successful one only those of its target, '
        'load_module_asdict none; the namespace loaded must have the description of the one saved (plus the live names), and after every operation sys.modules has the entries it had. Non-trivial: at least one success and one failure in the history.')
ASSUMPTIONS = ['a stream that can neither be peeked nor rewound is loaded only into a given module, and a mismatch is found only after loading', 'after a truncated session was loaded, names of the target may have been set', 'update of the dictionary of a run-time module starts with nothing', 'modules may be imported by loading']
LONG = [('runtime', 'long' + 'n' * k) for k in (60, 100, 130, 160)]
POOL = [('modname', 'import'), ('pk.modname', 'import'), ('filemod', 'file'), ('filepkg.sub', 'file'), ('runmod', 'runtime'), ('dotted.name', 'runtime'), ('modname', 'runtime'), ('othermod', 'import'), ('__main__', 'runtime')]

@st.composite
def strat(draw):
    b = B(draw)
    sess = []
    for i in range(2):
        k = b.choice([('main', '__main__'), ('main', '__main__'), ('import', 'modname'), ('import', 'pk.modname'), ('import', 'filemod'), ('import', 'filepkg.sub'), ('import', 'elsewhere'), ('runtime', 'runmod'), ('runtime', 'dotted.name'), ('runtime', 'modname')] + b.sample(LONG, 1, 1))
        sess.append(draw(c22.strat(gens=False, names=k)))
    pool = [('__main__', 'main')] + [p for p in POOL if b.chance(75)] + [(n, k) for k, n in LONG if b.chance(10)]
    seen = set(); pool = [p for p in pool if not (p in seen or seen.add(p))]
    steps = []
    for i in range(b.int(2, 7)):
        via = b.choice(['bytes', 'path', 'pathlib', 'file', 'raw', 'small', 'pipe', 'seek', 'nopeek', 'bytes', 'path', 'file'])
        k = b.weighted([(7, 'load'), (5, 'asdict'), (1, 'bad')])
        if k == 'bad':
            steps.append(dict(op=b.choice(['load', 'asdict']), what=b.choice(['missing', 'dir', 'empty', 'garbage', 'other', 'text']), via=via, update=b.bool())); continue
        s = b.int(0, 1); x = dict(op=k, session=s, via=via)
        if k == 'asdict':
            x['update'] = b.bool()
            if b.chance(3): x['badkw'] = True
        else:
            t = b.weighted([(4, 'none'), (4, 'match'), (4, 'any'), (1, 'nonmodule'), (1, 'both')])
            if t == 'match': t = [('rt:' if sess[s]['kind'] == 'runtime' else '') + sess[s]['name'], b.choice(['obj', 'name'])]
            elif t == 'any': p = b.choice(pool); t = [('rt:' if p[1] == 'runtime' else '') + p[0], b.choice(['obj', 'name'])]
            elif t == 'nonmodule': x['value'] = b.choice([5, [1], {'a': 1}, 'no_such_module', 'no.such.module', 2.5, True])
            if isinstance(t, list) and not any(t[0] == ('rt:' if p[1] == 'runtime' else '') + p[0] for p in pool): t = 'none'
            x['target'] = t
        if b.chance(15): x['cut'] = b.choice([b.int(0, 120), b.int(0, 100000), -1 - b.int(0, 3)])
        steps.append(x)
    return dict(sess=sess, pool=[list(p) for p in pool], steps=steps)

def cases(tier): return strat()

def run(case, ctx):
    z = ctx.zygote(mods=('vlib', 'vdesc', 'ops_sess', 'numpy', 'numpy.ma'))
    ss = []
    for s in case['sess']:
        spec = dict(s['spec']); seen = {}
        for n, e in spec['ident'] + spec['ident_ref'] + [[n, 'not ' + e] for n, e in spec['own']]: seen.setdefault(n, set()).add(e)
        spec['ident'] = [x for x in spec['ident'] if len(seen[x[0]]) == 1]; spec['ident_ref'] = [x for x in spec['ident_ref'] if len(seen[x[0]]) == 1]
        spec['own'] = [x for x in spec['own'] if len(seen[x[0]]) == 1]
        proto = s['opts'].get('protocol')
        a = z.call('ops_sess', 'save', src=c22.setproto(proto) + s['src'], kind=s['kind'], name=s['name'], fsrc='BASE = 1\n', spec=spec, ref=s['ref'], how=s['how'], via='bytes', opts={}, modules=c22.MODS)
        if a.get('skip'): raise Skip(a['skip'])
        ss.append(dict(data=a['data'], name=s['name'], kind=s['kind'], desc=a['desc'], names=a['names'], spec=spec, ref=bool(s['ref'])))
    for s in ss:
        if len(s['data']) > 70000: raise Skip('too large for a pipe')
    r = z.call('ops_sess', 'loads', sessions=ss, pool=case['pool'], steps=case['steps'])
    for st_ in case['steps']: ctx.label(st_['op'], 'via:' + st_['via'], 'target:%s' % (st_.get('target') if isinstance(st_.get('target'), str) else 'given'), *(['cut'] if 'cut' in st_ else []))
    for k, v in r.items():
        if v: ctx.label('done:' + k)
    ctx.nontrivial(r['ok'] + r['asdict'] > 0 and r['refused'] + r['cut'] > 0)
