"""C16: histories of settings and calls."""
import io, os, sys, warnings
import dill, vdesc
from dill.settings import settings
from ops import run_src, main_ns, GenError, short_tb, make_module
from vlib import Violation, b64
import vlib

def setup(src):
    warnings.simplefilter('ignore')
    path = os.path.join(vlib.SCRATCH, 'data.txt')
    with open(path, 'w') as f: f.write('some content\nmore\n')
    ns = main_ns()
    make_module('om2', 'Y = [2]\n')
    make_module('om', 'X = [1]\ndef imported(x): return X, x\nclass Imp: pass\n')
    run_src(src, ns)
    return ns['OBJS']

OPT = ('protocol', 'byref', 'fmode', 'recurse')
def kw(d): return dict(d)

class Odd:
    def __reduce__(self): raise RuntimeError('odd')

def one(api, obj, ex, stream):
    """returns bytes or None"""
    ex = dict(ex)
    if api == 'dumps': return dill.dumps(obj, **ex)
    if api == 'dumps_pos': return dill.dumps(obj, *[ex.get(k) for k in OPT])
    if api == 'dump':
        f = io.BytesIO(); dill.dump(obj, f, **ex); return f.getvalue()
    if api == 'dump_pos':
        f = io.BytesIO(); dill.dump(obj, f, *[ex.get(k) for k in OPT]); return f.getvalue()
    if api == 'dump_file':
        p = os.path.join(vlib.SCRATCH, 'out.pkl')
        with open(p, 'wb') as f: dill.dump(obj, f, **ex)
        with open(p, 'rb') as f: return f.read()
    if api == 'stream':
        n = stream.tell(); dill.dump(obj, stream, **ex); return stream.getvalue()[n:]
    if api == 'pickler':
        f = io.BytesIO(); p = dill.Pickler(f, **ex); p.dump(obj); return f.getvalue()
    if api == 'pickler_pos':
        f = io.BytesIO(); pr = ex.pop('protocol', None); dill.Pickler(f, pr, **ex).dump(obj); return f.getvalue()
    raise AssertionError(api)

def history(src, steps):
    objs = setup(src)
    out = []
    stream, stored = io.BytesIO(), []
    K = sys.modules['__main__'].__dict__.get('K')
    for st in steps:
        before = dict(settings)
        kind = st[0]
        if kind == 'set':
            settings[st[1]] = st[2]; out.append(None); continue
        try:
            if kind == 'dump':
                _, api, i, ex = st
                b = one(api, objs[i], ex, stream)
                if api == 'stream': stored.append(i)
                out.append(b64(b))
            elif kind == 'copy':
                _, i, ex = st
                out.append(vdesc.describe(dill.copy(objs[i], **ex), gmode='none'))
            elif kind == 'load':          # an instance of a class of the main script
                _, api, ex, opts = st
                inst = main_ns()['INST']
                if api == 'copy': r = dill.copy(inst, **dict(opts, **ex))
                else:
                    data = dill.dumps(inst, **opts)
                    r = dill.loads(data, **ex) if api == 'loads' else dill.load(io.BytesIO(data), **ex) if api == 'load' else dill.Unpickler(io.BytesIO(data), **ex).load()
                out.append(type(r) is main_ns()['K'])
            elif kind == 'fail':
                try:
                    if st[1] == 'dumps': dill.dumps([1, Odd()], **st[2])
                    elif st[1] == 'loads': dill.loads(b'\x80\x04K')
                    else: dill.copy(Odd(), **st[2])
                    raise Violation('no error')
                except (RuntimeError, EOFError): pass
                except Exception as e:
                    if 'truncated' not in str(e): raise
                out.append(None)
            elif kind == 'other':
                if st[1] == 'pickles': dill.pickles(objs[0], **st[2])
                elif st[1] == 'errors': dill.detect.errors(objs[0], exact=False)
                elif st[1] == 'dump_module': dill.dump_module(os.path.join(vlib.SCRATCH, 's.pkl'), 'om2')
                elif st[1] == 'load_module':
                    p = os.path.join(vlib.SCRATCH, 's2.pkl'); dill.dump_module(p, 'om2'); dill.load_module(p, 'om2')
                elif st[1] == 'asdict':
                    p = os.path.join(vlib.SCRATCH, 's3.pkl'); dill.dump_module(p, 'om2'); dill.load_module_asdict(p)
                elif st[1] == 'temp': dill.temp.loadIO(dill.temp.dumpIO(objs[0]))
                out.append(None)
        except Violation: raise
        except Exception as e:
            raise Violation('%r raised %r\n%s' % (st, e, short_tb()))
        if dict(settings) != before: raise Violation('%r changed the settings from %r to %r' % (st, before, dict(settings)))
    if stored:
        stream.seek(0)
        back = []
        for i in stored: back.append(vdesc.describe(dill.load(stream), gmode='none'))
        if stream.read(): raise Violation('bytes are left in the stream')
        out.append([stored, back])
    else: out.append(None)
    return out

def reference(src, requests):
    """requests: [i, protocol, byref, fmode, recurse], all options given, settings never changed"""
    objs = setup(src)
    out = []
    for i, p, b, f, r in requests:
        out.append(b64(dill.dumps(objs[i], protocol=p, byref=b, fmode=f, recurse=r)))
    return out

def loadref(src, datas):
    setup(src)
    from vlib import unb64
    return [vdesc.describe(dill.loads(unb64(d)), gmode='none') for d in datas]
