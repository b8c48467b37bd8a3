"""C17: what dumps and loads leave behind."""
import sys, os, io, pickle, copyreg, warnings, threading, gc, logging, signal, random, time
import dill, vdesc
from dill.settings import settings
from ops import setup, opts_of, GenError, short_tb, run_src, main_ns
from vlib import Violation, b64
import vlib

def state():
    s = {}
    for n, m in list(sys.modules.items()):
        d = getattr(m, '__dict__', None)
        if type(d) is dict:
            d = d.copy(); d.pop('__warningregistry__', None); s['namespace of ' + n] = d
    s['sys.modules'] = dict(sys.modules)
    s['pickle._Pickler.dispatch'] = dict(pickle._Pickler.dispatch)
    s['pickle._Unpickler.dispatch'] = dict(pickle._Unpickler.dispatch)
    s['copyreg.dispatch_table'] = dict(copyreg.dispatch_table)
    s['copyreg extensions'] = dict(copyreg._extension_registry)
    s['dill.Pickler.dispatch'] = {k: v for k, v in dill.Pickler.dispatch.items() if not k.__module__.startswith('numpy') and not any(c.__module__ == 'numpy' for c in k.__mro__)}
    s['sys'] = {k: getattr(sys, k, None) for k in ('stdout', 'stderr', 'stdin', 'displayhook', 'excepthook')}
    s['values'] = dict(path=list(sys.path), meta=list(sys.meta_path), rec=sys.getrecursionlimit(), filters=list(warnings.filters), show=warnings.showwarning, threads=threading.active_count(),
                       gc=(gc.isenabled(), gc.get_threshold()), cwd=os.getcwd(), env=dict(os.environ), settings=dict(settings), trace=(sys.gettrace(), sys.getprofile()),
                       fds=sorted(os.listdir('/proc/self/fd')), sig=signal.getsignal(signal.SIGINT), files=sorted(os.listdir(vlib.SCRATCH)), rnd=random.getstate(),
                       log=(logging.getLogger('dill').level, list(logging.getLogger('dill').handlers), logging.root.level, list(logging.root.handlers)), out=sys.stdout.getvalue() + sys.stderr.getvalue())
    return s

def diff(a, b, what, allow_new_modules=False):
    for k in a:
        x, y = a[k], b.get(k)
        if k == 'values':
            for n in x:
                if x[n] != y[n]: raise Violation('%s changed %s: %.300r / %.300r' % (what, n, x[n], y[n]))
            continue
        if k == 'sys.modules' and allow_new_modules: y = {n: m for n, m in y.items() if n in x}
        if allow_new_modules and y is not None and k.startswith('namespace'): y = {n: v for n, v in y.items() if n in x or not isinstance(v, type(sys))}
        if y is None: raise Violation('%s removed %s' % (what, k))
        for n in y:
            if n not in x: raise Violation('%s added %r to the %s' % (what, n, k))
            if x[n] is not y[n]: raise Violation('%s changed %r in the %s: %.200r / %.200r' % (what, n, k, x[n], y[n]))
        for n in x:
            if n not in y: raise Violation('%s removed %r from the %s' % (what, n, k))

def quiet(src, opts, where='main', modules=None, cut=None, gmode='names', helper=None, filt=True):
    warnings.simplefilter('ignore')
    if not filt: warnings.filters.clear(); warnings.filterwarnings('ignore', category=dill.PicklingWarning); warnings.filterwarnings('ignore', category=DeprecationWarning); warnings.filterwarnings('ignore', category=SyntaxWarning)
    ns = setup(src, modules, where)
    obj = ns['OBJ']
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    import encodings.raw_unicode_escape, numpy, numpy.rec; dill.dumps([numpy.zeros(1), numpy.add, numpy.dtype('i')]); gc.collect()     # what dill sets up once for NumPy
    def desc(): return vdesc.describe(obj, gmode=gmode)
    d0 = desc(); s0 = state()
    def dumps(what):
        try: r = dill.dumps(obj, **opts_of(opts))
        except Exception as e: r = e
        except KeyboardInterrupt as e: r = e
        diff(s0, state(), what + (' (which failed with %r)' % r if isinstance(r, BaseException) else ''), allow_new_modules=True)
        return r
    a = dumps('dumps')
    d1 = desc()
    if d1 != d0: raise Violation('dumps changed the object at %s' % vdesc.first_diff(d0, d1))
    b = dumps('the second dumps')
    failed = isinstance(a, BaseException)
    if failed:
        if type(b) is not type(a): raise Violation('the second dumps gave %.200r, the first %.200r' % (b, a))
    elif a != b and not (b'numpy' in a and isinstance(b, bytes) and (len(a) == len(b) or b'_codecs' in a)):     # NumPy stores padding bytes
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        raise Violation('the second dumps gave other bytes from %d on: %r / %r' % (i, a[max(0, i-40):i+40], b[max(0, i-40):i+40] if isinstance(b, bytes) else b))
    loaded = None
    if not failed and not any(m[0] == 'quietmod' for m in modules or []):       # the state of a user's module is loaded with it, by design
        for data, what in ((a, 'loads'), (a[:int(len(a) * cut)] if cut is not None else None, 'loads of a truncated pickle')):
            if data is None: continue
            s1 = state()
            try: r = dill.loads(data); loaded = 'ok'
            except Exception as e: r = e; loaded = 'error'
            diff(s1, state(), what, allow_new_modules=True)
            r = None
        if desc() != d0: raise Violation('loads changed the original object at %s' % vdesc.first_diff(d0, desc()))
    if helper and not any(m[0] == 'quietmod' for m in modules or []):
        s1 = state()
        try:
            if helper == 'pickles': r = dill.pickles(obj)
            elif helper == 'pickles_exact': r = dill.pickles(obj, exact=True, safe=True)
            elif helper == 'errors': r = dill.detect.errors(obj)
            elif helper == 'errors1': r = dill.detect.errors(obj, 1)
            elif helper == 'baditems': r = dill.detect.baditems(obj)
            elif helper == 'badobjects': r = dill.detect.badobjects(obj, 1)
            elif helper == 'copy': r = dill.copy(obj, **opts_of(opts))
        except (Exception, KeyboardInterrupt) as e: r = e
        sys.stdout.truncate(0); sys.stdout.seek(0); s1['values']['out'] = ''     # methods called by the comparison may print
        diff(s1, state(), 'dill.' + helper, allow_new_modules=True)
        if desc() != d0: raise Violation('%s changed the object at %s' % (helper, vdesc.first_diff(d0, desc())))
    return dict(failed=failed, kind=type(a).__name__ if failed else '', loaded=loaded)
