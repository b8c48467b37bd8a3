"""C12: locks and objects built on them."""
import re, sys, threading, queue, functools, warnings, collections
import dill
from vlib import Violation, b64, unb64
from ops import run_src, tolerant_dumps, tolerant_loads, main_ns

MISS = object()
def norm(s):
    me = threading.get_ident()
    s = re.sub(r'owner=(\d+)', lambda m: 'owner=' + ('0' if m.group(1) == '0' else 'me' if int(m.group(1)) == me else 'other'), s)
    return re.sub('0x[0-9a-f]+', '', s)

def snap(o):
    out = [type(o).__name__]
    if type(o) in (type(threading.Lock()), threading.RLock().__class__): out.append(norm(repr(o)))
    if isinstance(o, threading.Condition): out += [norm(repr(o)), len(o._waiters), snap(o._lock)]
    if isinstance(o, threading.Semaphore): out += [o._value, getattr(o, '_initial_value', None), snap(o._cond)]
    if isinstance(o, threading.Event): out += [o.is_set(), snap(o._cond)]
    if isinstance(o, threading.Barrier): out += [o.parties, o.n_waiting, o.broken, repr(o._action) if o._action is None or o._action is print else 'fn', o._timeout]
    if isinstance(o, queue.Queue): out += [o.maxsize, o.unfinished_tasks, [repr(x) for x in o.queue], snap(o.mutex), o.not_empty._lock is o.mutex, o.not_full._lock is o.mutex, o.all_tasks_done._lock is o.mutex]
    return out

_worker = []
def in_thread(f):
    """run f in the one other thread (always the same, so that thread identities are not reused)"""
    if not _worker:
        tasks, results = queue.SimpleQueue(), queue.SimpleQueue()
        def loop():
            while True: results.put(tasks.get()())
        threading.Thread(target=loop, daemon=True).start()
        _worker.extend([tasks, results])
    _worker[0].put(f)
    try: return _worker[1].get(timeout=20)
    except queue.Empty: raise Violation('an operation that must not wait blocked')

def apply(o, op, arg, other):
    def f():
        try:
            if op == 'acquire': r = o.acquire(False)
            elif op == 'acquire_t': r = o.acquire(timeout=0.001)
            elif op == 'acquire_n':
                r = 0
                while r < arg and o.acquire(False): r += 1
            elif op == 'release_all':
                r = 0
                while o._is_owned() and r < 3000: o.release(); r += 1
            elif op == 'release': r = o.release()
            elif op == 'release_n': r = o.release(arg)
            elif op == 'locked': r = o.locked()
            elif op == 'owned': r = o._is_owned()
            elif op == 'with': 
                if isinstance(o, threading.Condition) and type(o._lock).__name__ == 'lock' and o._lock.locked(): return 'held'
                if type(o).__name__ == 'lock' and o.locked(): return 'held'
                if type(o).__name__ == 'RLock' or isinstance(o, threading.Condition):
                    if not o.acquire(False): return 'cannot'
                    o.release()
                elif isinstance(o, threading.Semaphore) and o._value < 1: return 'zero'
                with o: r = 'in'
            elif op in ('notify', 'notify_all', 'set', 'clear', 'is_set', 'abort', 'reset', 'qsize', 'empty', 'full', 'task_done', 'get_nowait'): r = getattr(o, op)()
            elif op == 'wait': r = o.wait(0)
            elif op == 'wait_for': r = o.wait_for(lambda: arg, 0)
            elif op == 'put': r = o.put_nowait(arg)
            elif op == 'join': r = o.join() if o.unfinished_tasks <= 0 else 'pending'
            elif op == 'state': r = [o.parties, o.n_waiting, o.broken]
            else: raise AssertionError(op)
            return repr(r) if type(r) not in (list, tuple) else repr(r)
        except AssertionError: raise
        except Exception as e: return 'raised ' + type(e).__name__
    return in_thread(f) if other else f()

def build(src, history):
    warnings.simplefilter('ignore')
    ns = main_ns(); run_src('import threading, queue, functools, collections\n' + src, ns)
    objs = ns['OBJS']
    for i, op, arg, other in history: apply(objs[i], op, arg, other)
    return ns, objs

def play(objs, ops):
    out = [snap(o) for o in objs]
    for i, op, arg, other in ops:
        out.append([i, op, arg, other, apply(objs[i], op, arg, other)])
    return out + [snap(o) for o in objs]

def held(objs):
    def rl(o):
        if type(o).__name__ == 'RLock': return 'owner=0' not in repr(o)
        if isinstance(o, threading.Condition): return rl(o._lock)
        return False
    return any(rl(o) for o in objs)

def run_case(src, history, ops, opts, where):
    ns, objs = build(src, history)
    s = [snap(o) for o in objs]
    root = ns['OBJ']
    foreign = any('owner=other' in str(x) for x in s)
    data = tolerant_dumps(root, opts)
    if [snap(o) for o in objs] != s: raise Violation('dumps changed a lock: %r / %r' % (s, [snap(o) for o in objs]))
    h = held(objs)
    if where == 'same' and not foreign:
        new = list(tolerant_loads(data, {})())
        if [snap(o) for o in objs] != s: raise Violation('loads changed an original lock')
        for k, o in enumerate(objs):
            if new[k] is o: raise Violation('the copy is the original')
        a, b = play(objs, ops), play(new, ops)
        if a != b: raise Violation('the copy behaves differently: %r' % [x for x in zip(a, b) if x[0] != x[1]][:2])
        return dict(done=True)
    if where == 'thread' or foreign:
        def f():
            try: new = list(dill.loads(data)())
            except dill.UnpicklingError as e: return 'refused'
            return [norm(str(snap(o))) for o in new]
        r = in_thread(f) if not foreign else f()
        if not h:
            if r != [norm(str(x)) for x in s]: raise Violation('loaded in another thread the state is different: %r / %r' % (r, s))
        elif r != 'refused': raise Violation('a lock held by one thread loads as %r in another' % (r,))
        return dict(done=True)
    return dict(done=False, data=b64(data), held=h, play=play(objs, ops))

def load(data, ops):
    warnings.simplefilter('ignore')
    try: new = list(dill.loads(unb64(data))())
    except dill.UnpicklingError as e: return dict(refused=True)
    return dict(play=play(new, ops))
