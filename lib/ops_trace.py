"""C26: histories of tracing."""
import sys, os, io, logging, warnings, tempfile, contextlib
import dill, dill.detect
import vlib
from dill import logger as DL
from ops import setup, opts_of
from vlib import Violation

class Boom(Exception): pass

class Cap(logging.Handler):
    """what is reported, with the number of bytes that had been written"""
    def __init__(self): super().__init__(); self.recs, self.out = [], None
    def emit(self, r):
        self.recs.append((r.msg, getattr(r, 'depth', None), getattr(r, 'size', None), self.out() if self.out else None))

class Counting(io.BytesIO):
    n = 0
    def write(self, b): self.n += len(b); return super().write(b)

class NoTell:
    def __init__(self): self.b = []
    def write(self, b): self.b.append(bytes(b)); return len(b)

class OddTell(NoTell):
    def tell(self): return None

class BadTell(NoTell):
    def tell(self): raise io.UnsupportedOperation('tell')

class Fails:
    def __reduce__(self): raise Boom('reduce')

class Nests:
    """stores something else while it is being stored"""
    def __reduce__(self): return Nests, (), {'n': dill.dumps({'a': {}})}
    def __setstate__(self, s): pass

class Sets:
    def __init__(self, on): self.on = on
    def __reduce__(self):
        DL.trace(self.on)
        return Sets, (self.on,)

@contextlib.contextmanager
def pipe():
    r, w = os.pipe()
    import threading
    got = []
    def read():
        with os.fdopen(r, 'rb') as f: got.append(f.read())
    t = threading.Thread(target=read); t.start()
    f = os.fdopen(w, 'wb')
    try: yield f, lambda: (f.close(), t.join(), got[0])[2]
    finally: f.close(); t.join()

def frames(data):
    """bytes of frame headers that are not counted in a trace: that of the last frame"""
    i = 2; last = False
    import pickletools
    ends = None
    for op, arg, pos in pickletools.genops(data):
        if op.name == 'FRAME': ends = pos + 9 + arg
    return 9 if ends is not None and ends == len(data) else 0

def check_records(recs, complete, data, proto, counted, what, root):
    """pairs, depth and sizes"""
    stack, depth = [], 1
    for i, (msg, d, size, n) in enumerate(recs):
        if d is None: raise Violation('%s: record %r without depth' % (what, msg))
        if msg.startswith('#'):
            if not stack: raise Violation('%s: record %r closes nothing' % (what, msg))
            depth -= 1
            m0, n0, kids = stack.pop()
            if m0.split(':')[0].strip() != msg[1:].split('[')[0].strip(): raise Violation('%s: record %r closes %r' % (what, msg, m0))
            if d != depth: raise Violation('%s: record %r has depth %r instead of %r' % (what, msg, d, depth))
            if counted:
                if size is None: raise Violation('%s: record %r without size' % (what, msg))
                if size < 0: raise Violation('%s: size %r of %r' % (what, size, msg))
                if proto < 4 and size != n - n0: raise Violation('%s: record %r has size %r but %r bytes were written' % (what, msg, size, n - n0))
                if size < kids: raise Violation('%s: record %r has size %r, its parts %r' % (what, msg, size, kids))
                if stack: stack[-1][2] += size
                elif root and complete and i == len(recs) - 1:
                    want = len(data) - 1 - (2 if proto >= 2 else 0) - frames(data)
                    if size != want: raise Violation('%s: size of the whole object is %r instead of %r' % (what, size, want))
            elif size is not None: raise Violation('%s: record %r has size %r for a stream without positions' % (what, msg, size))
        else:
            if d != depth: raise Violation('%s: record %r has depth %r instead of %r' % (what, msg, d, depth))
            stack.append([msg, n, 0]); depth += 1
    if complete and stack: raise Violation('%s: record %r is not closed' % (what, stack[-1][0]))

def lines_of(recs, utf8):
    """the beginnings of the lines of the records"""
    out = []
    for msg, d, size, n in recs:
        if not d: p = ''
        elif msg.startswith('#'): p = (d - 1) * '\u2502' + '\u2514'
        elif d == 1: p = '\u252c'
        else: p = (d - 2) * '\u2502' + '\u251c\u252c'
        if p and not utf8: p = ''.join({'\u2502': '|', '\u251c': '|', '\u252c': '+', '\u2514': '`'}[c] for c in p) + '-'
        if p: p += ' '
        s = ''
        if size:
            k = 0
            while size >> (10 * (k + 1)): k += 1
            s = ' [%d %sB]' % (size >> (10 * k), 'KMGTP'[k - 1] + 'i' if k else '')
        out.append((p + (msg.split('%')[0]), s))
    return out

def check_text(text, recs, utf8, what):
    pos = 0
    for start, end in lines_of(recs, utf8):
        # strings of messages may be of several lines
        i = text.find(start, pos)
        if i < 0 or (i and text[i-1] != '\n'): raise Violation('%s: no line %r after position %d in %.2000r' % (what, start, pos, text))
        j = text.find(end + '\n', i)
        if j < 0: raise Violation('%s: no %r at the end of line %r in %.2000r' % (what, end, start, text))
        pos = i + len(start)

def history(src, opts, where, modules, prog, level0):
    warnings.simplefilter('ignore')
    ns = setup(src, modules, where)
    obj = {0: ns['OBJ']}
    kw = opts_of(opts)
    log = DL.logger
    cap = Cap()
    real = sys.stderr
    sys.stderr = io.StringIO()
    if level0 is not None: log.setLevel(level0)
    user = logging.StreamHandler(io.StringIO())
    dill.dumps({0: {}})
    try: base = dill.dumps(obj, **kw)
    except Exception as e: base = e
    try: again = dill.dumps(obj, **kw)
    except Exception as e: again = e
    if isinstance(base, bytes) and (b'numpy' in base or base != again): return dict(skip='not stable')
    proto = dill.settings['protocol'] if kw.get('protocol') is None else kw['protocol']
    log.addHandler(cap)
    H = log.handlers
    stat = dict(dumps=0, records=0, contexts=0, failures=0)
    streams = []            # innermost last: (get text, utf8)
    tmp = tempfile.mkdtemp(dir=vlib.SCRATCH)
    nfile = [0]
    def same(a, what):
        if isinstance(base, bytes):
            if a != base: raise Violation('%s: dumping gave %.300r instead of %.300r' % (what, a, base))
        elif type(a) is not type(base): raise Violation('%s: dumping gave %.300r instead of the error %r' % (what, a, base))
    def texts(): return [sys.stderr.getvalue()] + [s[0]() for s in streams]
    def dump(target, what):
        nonlocal base
        on = log.isEnabledFor(logging.INFO); lev = log.level
        cap.recs.clear(); before = texts(); what = '%s (%s)' % (what, target)
        complete = isinstance(base, bytes); o = obj; root = True; b = base
        cap.out = None; counted = True
        if target == 'fail': o = {0: ns['OBJ'], 1: {2: Fails()}}
        elif target == 'nest': o = {0: Nests(), 1: {}}
        elif target in ('on', 'off'): o = {0: {}, 1: Sets(target == 'on'), 2: {3: {}}}
        try:
            if target in ('fail', 'nest', 'on', 'off'):
                f = Counting(); cap.out = lambda: f.n
                dill.dump(o, f, **kw); a = f.getvalue()
            elif target == 'dumps': a = dill.dumps(o, **kw)
            elif target == 'bytes':
                f = Counting(); cap.out = lambda: f.n
                dill.dump(o, f, **kw); a = f.getvalue()
            elif target == 'prefix':
                f = Counting(); f.write(b'abc'); f.n = 0; cap.out = lambda: f.n
                dill.dump(o, f, **kw); a = f.getvalue()[3:]
            elif target == 'file':
                with open(os.path.join(tmp, 'out'), 'wb') as f: dill.dump(o, f, **kw)
                with open(os.path.join(tmp, 'out'), 'rb') as f: a = f.read()
            elif target == 'pipe':
                counted = False
                with pipe() as (f, end): dill.dump(o, f, **kw); a = end()
            elif target == 'copy': a = base if dill.copy(o, **kw) is not None else None
            else:
                counted = False
                f = dict(notell=NoTell, oddtell=OddTell, badtell=BadTell)[target]()
                dill.dump(o, f, **kw); a = b''.join(f.b)
        except Exception as e: a = e; complete = False
        cap_out, cap.out = cap.out, None
        if target == 'fail':
            if not isinstance(a, Boom) and type(a) is not type(base): raise Violation('%s: dumping gave %.300r' % (what, a))
        elif target in ('nest', 'on', 'off'):
            if isinstance(a, Exception): raise Violation('%s: dumping raised %r' % (what, a))
            complete = True
        elif target != 'copy': same(a, what)
        elif isinstance(base, Exception) and type(a) is not type(base): raise Violation('%s: copying gave %.300r instead of the error %r' % (what, a, base))
        recs = list(cap.recs)
        if target in ('on', 'off'):
            log.setLevel(lev)
            if target == 'off' and on:
                # records stop in the middle
                check_records(recs, False, None, proto, counted, what, False)
                if len(recs) != 3: raise Violation('%s: %r are reported' % (what, recs))
            elif not on and recs: raise Violation('%s: %r are reported' % (what, recs))
            elif on: check_records(recs, True, a, proto, counted, what, True)
            stat['dumps'] += 1
            return
        if not on:
            if recs: raise Violation('%s: tracing is off but %r are reported' % (what, recs[:3]))
            if texts() != before: raise Violation('%s: tracing is off but something is written' % what)
        else:
            if not recs: raise Violation('%s: tracing is on but nothing is reported' % what)
            if target == 'nest':
                # the records of the inner dump are among those of the outer one
                check_records(recs[:1] + recs[5:] , True, a, proto, counted, what, True); recs1 = [(m, d, s, None) for m, d, s, n in recs[1:5]]
                check_records(recs1, True, b'', 4, True, what, False)
            elif target == 'copy': pass         # stores and loads, which may store again
            else: check_records(recs, complete, a, proto, counted and (cap_out is not None or proto >= 4), what, True) if cap_out is not None or not counted else check_records(recs, complete, a, 4, counted, what, False)
            after = texts()
            if not streams:
                if stderr_on(): check_text(after[0][len(before[0]):], recs, utf8_of(sys.stderr), what)
            else:
                if after[0] != before[0]: raise Violation('%s: output is redirected but also written to stderr: %.200r' % (what, after[0][len(before[0]):]))
                check_text(after[-1][len(before[-1]):], recs, streams[-1][1], what)
        stat['dumps'] += 1; stat['records'] += len(recs)
        if target == 'copy' and isinstance(base, bytes):        # loading may intern strings that were equal before
            l = log.level; log.setLevel(50); base = dill.dumps(obj, **kw); log.setLevel(l)
        if isinstance(a, Exception): stat['failures'] += 1
    def utf8_of(s): return True
    def stderr_on(): return DL.stderr_handler in H
    def run(prog, what):
        for k, op in enumerate(prog):
            w = '%s/%d %s' % (what, k, op[0]); state = (log.level, list(H)); loc = True
            if op[0] == 'dump': dump(op[1], w)
            elif op[0] == 'set':
                r = (dill.detect.trace if op[2] else DL.trace)(op[1])
                if r is not None: raise Violation('%s: trace(%r) returned %r' % (w, op[1], r))
                if log.level != (logging.INFO if op[1] else logging.WARNING): raise Violation('%s: level is %r after trace(%r)' % (w, log.level, op[1]))
                loc = False
            elif op[0] == 'level': log.setLevel(op[1]); loc = False
            elif op[0] == 'root': logging.getLogger().setLevel(op[1])
            elif op[0] == 'user':
                (log.removeHandler if user in H else log.addHandler)(user); loc = False
            elif op[0] == 'raise': raise Boom('block')
            elif op[0] == 'badctx':
                try:
                    with DL.trace(os.path.join(tmp, 'no', 'file')): pass
                except OSError: pass
                else: raise Violation('%s: a trace file in a missing directory is accepted' % w)
            elif op[0] == 'with':
                _, kind, mode, body, exc = op
                stat['contexts'] += 1
                nfile[0] += 1
                p = os.path.join(tmp, 't0')
                if mode != 'same' or kind not in ('path', 'pathlib') or any(x[2] == p for x in streams): p = os.path.join(tmp, 't%d' % nfile[0])
                f = None; opened = None; utf8 = True; pre = ''
                if kind == 'none': cm = dill.detect.trace()
                elif kind == 'path': cm = dill.detect.trace(p, mode='w' if mode == 'w' else 'a')
                elif kind == 'pathlib':
                    import pathlib; cm = DL.trace(pathlib.Path(p))
                elif kind == 'stringio': f = io.StringIO(); cm = DL.trace(f)
                elif kind == 'ascii': f = opened = open(p + 'a', 'w', encoding='ascii', errors='replace'); utf8 = False; cm = DL.trace(f)
                elif kind == 'utf8': f = opened = open(p + 'u', 'w', encoding='UTF8'); cm = DL.trace(f)
                elif kind == 'obj':
                    class W:
                        encoding = 'utf_8'
                        def __init__(self): self.t = []
                        def write(self, s): self.t.append(s)
                        def getvalue(self): return ''.join(self.t)
                    f = W(); cm = DL.trace(f)
                if kind in ('path', 'pathlib'):
                    if os.path.exists(p):
                        if mode != 'w': pre = open(p, encoding=enc()).read()
                    get = lambda: open(p, encoding=enc(), errors='replace').read()
                    utf8 = enc() in ('utf-8', 'UTF-8', 'utf8')
                elif opened: get = lambda: (opened.flush(), open(opened.name, encoding=opened.encoding).read())[1]
                elif f is not None: get = f.getvalue
                if kind == 'stringio': utf8 = enc() in ('utf-8', 'UTF-8', 'utf8')
                try:
                    with cm as out:
                        if not log.isEnabledFor(logging.INFO): raise Violation('%s: tracing is off in the block' % w)
                        if kind != 'none': streams.append((get, utf8, p))
                        try:
                            t0 = texts()
                            out('> note %d %s', k, 'x')
                            t1 = texts()
                            if streams or stderr_on():
                                if t1[-1] != t0[-1] + '> note %d x\n' % k: raise Violation('%s: the log function wrote %r' % (w, t1[-1][len(t0[-1]):]))
                            if kind in ('path', 'pathlib') and not t1[-1].startswith(pre): raise Violation('%s: the file no longer begins with what it held' % w)
                            run(body, w)
                            if exc: raise Boom('end of block')
                        finally:
                            if kind != 'none': streams.pop()
                except Boom:
                    if not exc and not has_raise(body): raise
                if f is not None and getattr(f, 'closed', False): raise Violation('%s: the stream was closed' % w)
                if kind in ('path', 'pathlib'):
                    for n in os.listdir('/proc/self/fd'):
                        try:
                            if os.readlink('/proc/self/fd/' + n) == p and not any(s[2] == p for s in streams): raise Violation('%s: the file is still open' % w)
                        except OSError: pass
                if opened: opened.close()
                want = list(state[1])
                if has_user(body) % 2:
                    want.remove(user) if user in want else want.append(user)
                if sorted(map(id, H)) != sorted(map(id, want)): raise Violation('%s: handlers are %r instead of %r' % (w, H, want))
                if log.level != state[0]: raise Violation('%s: level is %r instead of %r after the block' % (w, log.level, state[0]))
                loc = False
            if loc and (log.level, list(H)) != state: raise Violation('%s: level and handlers changed from %r to %r' % (w, state, (log.level, list(H))))
    def enc():
        import locale
        return locale.getpreferredencoding(False)
    def executed(prog):
        for op in prog:
            yield op
            if op[0] == 'raise': return
    def has_raise(prog): return any(op[0] == 'raise' for op in executed(prog))
    def has_user(prog):
        n = 0
        for op in executed(prog):
            if op[0] == 'user': n += 1
            elif op[0] == 'with': n += has_user(op[3])
        return n
    run(prog, 'history')
    sys.stderr = real
    return stat
