"""Round-trip comparison used by several properties."""
import json
from driver import Violation, Skip, HarnessError
import vdesc

def compare(a, b, what):
    if a != b:
        raise Violation('%s differs after loading (original / loaded) at %s' % (what, vdesc.first_diff(a, b)))

def roundtrip(case, ctx, zy='z', **zkw):
    z = ctx.zygote(zy, **zkw)
    common = dict(gmode=case.get('gmode', 'mod'), modules=case.get('modules'))
    dkw = {'skiprec': True} if case.get('skiprec') else {}
    if case.get('where') == 'same':
        r = z.call('ops', 'rt_same', src=case['src'], opts=case['opts'], lopts=case.get('lopts', {}), probe=case.get('probe'),
                   where=case.get('ns', 'main'), **common, **dkw)
        if 'skip' in r: raise Skip(r['skip'])
        compare(r['desc'][0], r['desc'][1], 'the object')
        if 'probe' in r:
            o = z.call('ops', 'rt_probe', src=case['src'], probe=case['probe'], where=case.get('ns', 'main'), **common)
            compare(o['probe'], r['probe'], 'behaviour')
        return r
    a = z.call('ops', 'rt_dump', src=case['src'], opts=case['opts'], probe=case.get('probe'), where=case.get('ns', 'main'), **common, **dkw)
    if 'skip' in a: raise Skip(a['skip'])
    b = z.call('ops', 'rt_load', data=a['data'], pre=case.get('pre', ''), opts=case.get('lopts', {}), probe=case.get('probe'), **common)
    compare(a['desc'], b['desc'], 'the object')
    if 'probe' in a: compare(a['probe'], b['probe'], 'behaviour')
    return a
