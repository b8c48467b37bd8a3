"""C32: several threads at work at the same time."""
import sys, io, os, time, types, warnings, threading, tempfile
import dill, dill.detect, dill.session, dill.source
import vlib, vdesc
from ops import GenError, run_src, opts_of, make_module
from vlib import Violation

class Meeting:
    """a place where the threads wait for each other, but not for long"""
    def __init__(self): self.n, self.cond, self.here, self.turn, self.met = 1, threading.Condition(), 0, 0, 0
    def wait(self):
        if self.n < 2: return
        with self.cond:
            turn = self.turn
            self.here += 1
            if self.here >= self.n:
                self.here = 0; self.turn += 1; self.met += 1; self.cond.notify_all(); return
            if not self.cond.wait_for(lambda: self.turn != turn, 0.01) and self.turn == turn: self.here -= 1

MEETING = Meeting()
def met(): MEETING.wait(); return Meet()
class Meet:
    """meets the others while it is stored and while it is loaded"""
    def __reduce__(self): MEETING.wait(); return met, ()

KEEP = []

def make(i, t):
    for name, msrc in t.get('modules') or []: make_module(name, msrc)
    tmp = sys.modules['nosuch%d' % i] = types.ModuleType('nosuch%d' % i)        # dataclasses look for it
    ns = tmp.__dict__
    ns['__builtins__'] = __builtins__
    run_src(t['src'], ns)
    obj = ns.pop('OBJ')
    del sys.modules['nosuch%d' % i]
    KEEP.append(tmp)
    mod = types.ModuleType('vmod%d' % i)
    mod.obj, mod.number, mod.text, mod.meet = obj, i, ['t', i], Meet()
    graph = {'first': [Meet(), i], 'obj': obj, 'meet': Meet(), 'again': (obj, [obj]), 'last': Meet()}
    return graph, obj, mod

def do(op, state, opts):
    """one operation; result as (kind, value)"""
    graph, obj, mod = state['graph'], state['obj'], state['mod']
    k = op[0]
    try:
        if k == 'dumps':
            state['data'] = dill.dumps(graph, **opts); return ('bytes', state['data'])
        if k == 'dump':
            with tempfile.TemporaryFile() as f:
                f.write(b'head'); dill.dump(graph, f, **opts); f.write(b'tail'); f.seek(0); return ('bytes', f.read())
        if k == 'loads': return ('obj', dill.loads(state['data0']))
        if k == 'load': return ('obj', dill.load(io.BytesIO(state['data0'])))
        if k == 'copy': return ('obj', dill.copy(graph, **opts))
        if k == 'pickles': return ('val', dill.pickles(obj, **opts))
        if k == 'session':
            b = io.BytesIO(); dill.dump_module(b, module=mod, refimported=bool(op[1])); return ('sess', b.getvalue())
        if k == 'asdict':
            b = io.BytesIO(state['sess0']); return ('obj', {k: v for k, v in dill.load_module_asdict(b).items() if not k.startswith('__')})
        if k == 'own':
            class P(dill.Pickler): pass
            b = io.BytesIO(); p = P(b, **opts); p.dump(graph); return ('bytes', b.getvalue())
        if k == 'globals':
            fs = [v for v in vars_of(obj) if isinstance(v, types.FunctionType)]
            return ('val', [sorted(dill.detect.globalvars(f, recurse=bool(op[1]))) for f in fs[:4]])
        if k == 'bad': return ('val', sorted(map(str, dill.detect.badtypes(obj, 1).keys())) if hasattr(dill.detect.badtypes(obj, 1), 'keys') else str(dill.detect.badtypes(obj)))
    except Exception as e: return ('raised', type(e).__name__)
    raise ValueError(k)

def vars_of(o):
    if isinstance(o, dict): return list(o.values())
    if isinstance(o, (list, tuple)): return list(o)
    return [o]

def canon(r, i):
    if r[0] == 'obj': return ('obj', vdesc.describe(r[1], gmode='mod', home=('nosuch%d' % i,)))
    return r

def history(threads, rounds, interval, filters):
    warnings.resetwarnings()
    warnings.simplefilter('ignore')
    if filters == 'error': warnings.filterwarnings('error', category=DeprecationWarning)
    states = []
    for i, t in enumerate(threads):
        graph, obj, mod = make(i, t)
        states.append(dict(graph=graph, obj=obj, mod=mod))
    todo = []
    stat = dict(ops=0, met=0, stable=0, raised=0)
    before = list(warnings.filters)
    for i, (t, s) in enumerate(zip(threads, states)):
        opts = opts_of(t['opts'])
        try: s['data0'] = dill.dumps(s['graph'], **opts)
        except (AttributeError, dill.PicklingError) as e: return dict(skip='not picklable')
        except Exception as e: raise Violation('storing alone raised %r' % e)
        s['sess0'] = None
        b = io.BytesIO()
        try: dill.dump_module(b, module=s['mod']); s['sess0'] = b.getvalue()
        except Exception: pass
        alone = []
        for op in t['ops']:
            a, b = canon(do(op, s, opts), i), canon(do(op, s, opts), i)
            if op[0] == 'asdict' and s['sess0'] is None: a = b = None
            alone.append(a if a == b else None)
            stat['stable'] += a == b and a is not None; stat['raised'] += a is not None and a[0] == 'raised'
        todo.append((i, s, opts, t['ops'], alone))
    if warnings.filters != before: raise Violation('operations of one thread changed the warning filters to %r' % warnings.filters)
    wrong, errors = [], []
    start = threading.Barrier(len(threads))
    def work(i, s, opts, ops, alone):
        try:
            start.wait(10)
            for r in range(rounds):
                for op, want in zip(ops, alone):
                    if want is None: continue
                    got = do(op, s, opts)
                    if got[0] == 'obj': s.setdefault('kept', []).append((r, op, want, got))
                    elif got != want: wrong.append((i, r, op, want, got))
                    stat['ops'] += 1
        except BaseException as e: errors.append((i, e))
    old = sys.getswitchinterval()
    sys.setswitchinterval(interval)
    MEETING.n = len(threads)
    settings = dict(dill.settings)
    try:
        ts = [threading.Thread(target=work, args=a, daemon=True) for a in todo]
        for t in ts: t.start()
        for t in ts: t.join(60)
        if any(t.is_alive() for t in ts): raise Violation('threads do not come to an end')
    finally:
        sys.setswitchinterval(old); stat['met'] = MEETING.met; MEETING.n = 1
    if errors: raise RuntimeError(repr(errors))
    def short(v): return repr(v)[:300]
    if wrong:
        i, r, op, want, got = wrong[0]
        if want[0] == got[0] == 'bytes':
            at = next((n for n, (x, y) in enumerate(zip(want[1], got[1])) if x != y), min(len(want[1]), len(got[1])))
            raise Violation('thread %d, round %d, %s: other bytes from %d of %d on: %r instead of %r' % (i, r, op, at, len(want[1]), got[1][at-20:at+30], want[1][at-20:at+30]))
        raise Violation('thread %d, round %d, %s: %s instead of %s as alone' % (i, r, op, short(got), short(want)))
    for i, s, opts, ops, alone in todo:
        for r, op, want, got in s.get('kept', []):
            if canon(got, i) != want: raise Violation('thread %d, round %d, %s gave another object than alone: %s' % (i, r, op, vlib.diff(want[1], canon(got, i)[1]) if hasattr(vlib, 'diff') else short(got)))
    if warnings.filters != before: raise Violation('the warning filters are %r instead of %r' % (warnings.filters, before))
    if dill.settings != settings: raise Violation('the settings changed')
    return stat
