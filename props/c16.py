from hypothesis import strategies as st
from gen import B
from driver import Violation
import vdesc

BUDGET = {'quick': dict(cases=2000, seconds=240), 'thorough': dict(cases=40000, seconds=800)}
RULE = ('A case is a history of 2-14 steps - changes of dill.settings, dump/dumps/copy/Pickler calls (keyword, positional, to buffers, files and one shared stream), loads of an instance of a main-script class, failing calls, other entry points - with every option given or left out, on 3-6 objects whose bytes depend on the options '
        '(functions with globals, main classes, modules, file handles). Every result is compared with dumps in another process where the settings were never touched and all options are given. Non-trivial: a setting differs from its default while an option is left out, or an option given differs from the setting.')
ASSUMPTIONS = []
DEFAULT = dict(protocol=None, byref=False, fmode=0, recurse=False, ignore=False)

OBJ = ['f1', 'f2', 'K', 'K()', 'mod', 'fh', '[f1, K]', 'L.g', 'om.imported', 'om.Imp()', '(lambda: f1)', '{"a": fh, "b": f2}', 'nested(5)', 'data', 'Sub()', 'Dyn', 'fw']
SRC = '''
import om, types, math
G = [1, 2]
H = {'x': 5}
def f2(x=1): return H, x
def f1(y): return G, f2(y), math.pi
class K:
    attr = 3
    def m(self): return G, self
class Sub(K): pass
class L:
    @staticmethod
    def g(): return f2(2)
def nested(k):
    def inner(): return k, G
    return inner
Dyn = type('Dyn', (K,), {'m2': f2})
data = [1, 'x', b'y', (2, 3.5), {4}, {'k': bytearray(b'q')}]
mod = types.ModuleType('newmod'); mod.v = 7; mod.w = [8]; __import__('sys').modules['newmod'] = mod
fh = open('data.txt', 'r'); fh.read(4)
fw = open('other.bin', 'w+b'); fw.write(b'abc'); fw.flush()
INST = K(); INST.state = 4
'''
def val(b, k): return {'protocol': lambda: b.choice([None, 0, 1, 2, 3, 4, 5, -1]), 'fmode': lambda: b.choice([0, 1, 2])}.get(k, b.bool)()
APIS = ['dumps', 'dumps_pos', 'dump', 'dump_pos', 'dump_file', 'stream', 'stream', 'pickler', 'pickler_pos']
@st.composite
def strat(draw):
    b = B(draw)
    objs = [b.choice(OBJ) for _ in range(b.int(1, 4))]
    # modules cannot be pickled at every protocol when they hold handles; they are all fine here
    def ex(names=('protocol', 'byref', 'fmode', 'recurse')):
        d = {}
        for k in names:
            if b.chance(35):
                v = val(b, k)
                d[k] = v if not b.chance(10) else None
        return d
    steps = []
    for _ in range(b.int(2, 14)):
        k = b.weighted([(6, 'dump'), (4, 'set'), (2, 'copy'), (3, 'load'), (1, 'fail'), (1, 'other')])
        if k == 'set':
            s = b.choice(['protocol', 'byref', 'fmode', 'recurse', 'ignore']); v = val(b, s)
            if s == 'protocol' and v is None: v = 4
            steps.append(['set', s, v])
        elif k == 'dump': steps.append(['dump', b.choice(APIS), b.int(0, len(objs) - 1), ex()])
        elif k == 'copy': steps.append(['copy', b.int(0, len(objs) - 1), ex()])
        elif k == 'load': steps.append(['load', b.choice(['loads', 'load', 'unpickler', 'copy']), ex(('ignore',)), ex(('protocol', 'recurse'))])
        elif k == 'fail': steps.append(['fail', b.choice(['dumps', 'loads', 'copy']), ex()])
        else: steps.append(['other', b.choice(['pickles', 'errors', 'dump_module', 'load_module', 'asdict', 'temp']), {}])
    return dict(src=SRC + 'OBJS = [%s]\n' % ', '.join(objs), steps=steps)

def cases(tier): return strat()

def run(case, ctx):
    z = ctx.zygote(mods=('vlib', 'vdesc', 'ops_opts'))
    out = z.call('ops_opts', 'history', src=case['src'], steps=case['steps'])
    # the model
    s = dict(DEFAULT, protocol=4); req = []; want = []; nt = False
    for i, stp in enumerate(case['steps']):
        ctx.label(stp[0] if stp[0] != 'dump' else 'dump:' + stp[1])
        if stp[0] == 'set': s[stp[1]] = stp[2]
        elif stp[0] in ('dump', 'copy'):
            ex = {k: v for k, v in stp[-1].items() if v is not None}
            eff = {k: ex.get(k, s[k]) for k in ('protocol', 'byref', 'fmode', 'recurse')}
            if any(k not in ex and s[k] != dict(DEFAULT, protocol=4)[k] or k in ex and ex[k] != s[k] for k in eff): nt = True
            req.append([stp[-2], eff['protocol'], eff['byref'], eff['fmode'], eff['recurse']]); want.append((i, stp[0]))
        elif stp[0] == 'load':
            ig = stp[2].get('ignore'); ig = s['ignore'] if ig is None else ig
            br = s['byref']
            if out[i] != (not ig) and not (br and ig): raise Violation('step %d %r with ignore=%r in the settings: the class of the main script was%s used' % (i, stp, s['ignore'], '' if out[i] else ' not'))
    ctx.nontrivial(nt)
    if req:
        ref = z.call('ops_opts', 'reference', src=case['src'], requests=req)
        for (i, kind), r, q in zip(want, ref, req):
            if kind == 'dump' and out[i] != r: raise Violation('step %d %r: the bytes differ from those of dumps(protocol=%r, byref=%r, fmode=%r, recurse=%r)' % ((i, case['steps'][i]) + tuple(q[1:])))
        need = [r for (i, kind), r in zip(want, ref) if kind == 'copy']
        st_ref = []
        if out[-1]:
            bystep = {i: r for (i, kind), r in zip(want, ref)}
            st_ref = [bystep[i] for i, stp in enumerate(case['steps']) if stp[0] == 'dump' and stp[1] == 'stream']
        if need or st_ref:
            got = z.call('ops_opts', 'loadref', src=case['src'], datas=need + st_ref)
            k = 0
            for (i, kind) in want:
                if kind == 'copy':
                    if out[i] != got[k]: raise Violation('step %d %r: copy differs from loads(dumps) at %s' % (i, case['steps'][i], vdesc.first_diff(got[k], out[i])))
                    k += 1
            if out[-1] and out[-1][1] != got[k:]: raise Violation('the objects read from the stream differ at %s' % vdesc.first_diff(got[k:], out[-1][1]))
