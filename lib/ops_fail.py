"""C18: failures are reported."""
import sys, io, os, warnings
import dill
import vdesc, vlib
from ops import setup, opts_of, GenError, short_tb
from vlib import Violation, unb64
Errors = (Exception, KeyboardInterrupt, SystemExit)

def attempt(f, *a, **k):
    try: return 'ok', f(*a, **k)
    except Errors as e: return 'error', e

def why(r): return '%s(%.200s)' % (type(r).__name__, r)

def truncated(src, opts, where='main', modules=None, cuts=(), via='loads'):
    """loads of a prefix must raise."""
    warnings.simplefilter('ignore')
    ns = setup(src, modules, where)
    s, data = attempt(dill.dumps, ns['OBJ'], **opts_of(opts))
    if s == 'error': return dict(n=0, size=0)
    n = len(data)
    points = set(range(n)) if n <= 160 else {int(n * c / 1000) for c in cuts} | set(range(12)) | set(range(n - 25, n))
    import pickletools
    try: points |= {p + d for p in [p for o, a, p in pickletools.genops(data)][:: max(1, n // 800)] for d in (0, 1)}
    except Exception: pass
    out = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    count = 0
    for i in sorted(points)[:400]:
        if not 0 <= i < n: continue
        count += 1
        if via == 'loads': s, r = attempt(dill.loads, data[:i])
        elif via == 'ignore': s, r = attempt(dill.loads, data[:i], ignore=True)
        elif via == 'load': s, r = attempt(dill.load, io.BytesIO(data[:i]))
        elif via == 'unpickler': s, r = attempt(dill.Unpickler(io.BytesIO(data[:i])).load)
        elif via == 'file':
            p = os.path.join(vlib.SCRATCH, 'cut.pkl')
            with open(p, 'wb') as f: f.write(data[:i])
            with open(p, 'rb') as f: s, r = attempt(dill.load, f)
        if s == 'ok': raise Violation('a pickle of %d bytes that was cut after %d bytes was loaded by %s as %.200s' % (n, i, via, vdesc.describe(r)))
    sys.stdout, sys.stderr = out
    return dict(n=count, size=n)

def unstorable(src, opts, where='main', modules=None, expect=None, expect_load=None, typename=None):
    """OBJ = the graph, BADPART() finds the part in a copy."""
    warnings.simplefilter('ignore')
    ns = setup(src, modules, where)
    obj = ns['OBJ']
    out = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    try: s, data = attempt(dill.dumps, obj, **opts_of(opts))
    finally: sys.stdout, sys.stderr = out
    if expect:
        if s == 'ok': raise Violation('dumps wrote %r although a part raises %s' % (data[:300], expect))
        if type(data).__name__ != expect: raise Violation('dumps raised %s where a part raises %s' % (why(data), expect))
        return 'dumps raises as the part does'
    if s == 'error':
        if not isinstance(data, Exception): raise Violation('dumps raised %s' % why(data))
        return 'dumps raises %s' % type(data).__name__
    s, got = attempt(dill.loads, data)
    if expect_load:
        if s == 'ok': raise Violation('loads gave an object although a part raises %s' % expect_load)
        if type(got).__name__ != expect_load: raise Violation('loads raised %s where a part raises %s' % (why(got), expect_load))
        return 'loads raises as the part does'
    if s == 'error': return 'loads raises %s' % type(got).__name__
    try: a, b = ns['part'](obj), ns['part'](got)
    except Errors as e: raise Violation('the part that cannot be stored is not to be found in the copy: %s' % why(e))
    if type(a) is not type(b) and repr(type(a)) != repr(type(b)): raise Violation('%.100r came back as %.100r' % (a, b))
    da, db = vdesc.describe(a), vdesc.describe(b)
    if da != db and typename in ('exact',): raise Violation('%.100r came back as %.100r' % (a, b))
    return 'round trip of ' + type(a).__name__

def bad(obj, exact=False):
    """What the helpers should say: None, or the error."""
    s, c = attempt(dill.copy, obj)
    if s == 'error': return c
    if type(c) is not type(obj) and repr(type(c)) != repr(type(obj)): return AssertionError('another type')
    if exact and not (c == obj): return AssertionError('unequal')
    return None

def helpers(src, where='main', modules=None, exact=False, safe=False):
    warnings.simplefilter('ignore')
    ns = setup(src, modules, where)
    obj, items, depth = ns['OBJ'], ns.get('ITEMS'), ns.get('DEPTH')
    D = dill.detect
    out = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    trapped = (Exception,) if safe else (TypeError, AssertionError, NotImplementedError, dill.PicklingError, dill.UnpicklingError)
    try:
        res = dict(bad=0, good=0)
        def one(o, what):
            e = bad(o, exact)
            res['bad' if e is not None else 'good'] += 1
            raised = e is not None and not isinstance(e, trapped)
            for name, f, want in (('pickles', lambda: dill.pickles(o, exact, safe), e is None), ('badobjects', lambda: D.badobjects(o, 0, exact, safe), None if e is None else o),
                                  ('badtypes', lambda: D.badtypes(o, 0, exact, safe), None if e is None else type(o))):
                s, r = attempt(f)
                if raised:
                    if s == 'ok' or type(r) is not type(e): raise Violation('%s of %s gave %.200r where copy raises %s, which is not to be trapped' % (name, what, r, why(e)))
                elif s == 'error': raise Violation('%s of %s raised %s, copy gives %s' % (name, what, why(r), 'the error ' + why(e) if e is not None else 'a good copy'))
                elif r is not want: raise Violation('%s of %s gave %.200r instead of %.200r; copy gives %s' % (name, what, r, want, 'the error ' + why(e) if e is not None else 'a good copy'))
            if e is None or isinstance(e, Exception):
                s, r = attempt(D.errors, o, 0, exact, safe)
                if s == 'error' or type(r) is not type(e): raise Violation('errors of %s gave %.300r; copy gives %s' % (what, r, 'the error ' + why(e) if e is not None else 'a good copy'))
            return e
        one(obj, 'the graph')
        if items is not None:
            vals = list(items.values()) if isinstance(items, dict) else list(items)
            es = [one(v, 'item %d' % i) for i, v in enumerate(vals)]
            want = []
            for v, e in zip(vals, es):
                if e is not None and not any(v is w for w in want): want.append(v)
            escape = [e for e in es if e is not None and not isinstance(e, trapped)]
            s, r = attempt(D.baditems, items, exact, safe)
            if escape:
                if s == 'ok' or type(r) is not type(escape[0]): raise Violation('baditems gave %.200r where an item raises %s' % (r, why(escape[0])))
            elif s == 'error': raise Violation('baditems raised %s' % why(r))
            elif len(r) != len(want) or any(a is not b for a, b in zip(r, want)): raise Violation('baditems gave %.300r instead of %.300r' % (r, want))
        if depth is not None:
            es = {n: bad(getattr(depth, n), exact) for n in dir(depth)}
            if all(e is None or isinstance(e, trapped) for e in es.values()):
                want = {n: e for n, e in es.items() if e is not None}
                s, r = attempt(D.badobjects, depth, 1, exact, safe)
                if s == 'error' or set(r) != set(want) or any(type(r[n]) is not type(getattr(depth, n)) for n in r): raise Violation('badobjects(x, 1) gave %.300r instead of the attributes %.300r' % (r, want))
                s, r = attempt(D.badtypes, depth, 1, exact, safe)
                if s == 'error' or r != {n: type(getattr(depth, n)) for n in want}: raise Violation('badtypes(x, 1) gave %.300r instead of the attributes %.300r' % (r, want))
                s, r = attempt(D.errors, depth, 1, exact, safe)
                if s == 'error' or {n: type(e) for n, e in r.items()} != {n: type(e) for n, e in want.items()}: raise Violation('errors(x, 1) gave %.300r instead of the attributes %.300r' % (r, want))
        return res
    finally:
        sys.stdout, sys.stderr = out
