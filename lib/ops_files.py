"""C14: file handles.  Everything happens twice: in folder A with dill, in folder B with plain file operations that do what
the option promises."""
import sys, os, io, warnings, shutil, tempfile, _pyio
import dill
import vlib
from vlib import Violation

OPENERS = dict(io=open, pyio=_pyio.open)

def opened(spec, d):
    kw = dict(buffering=0) if spec.get('raw') else {}
    return OPENERS[spec['lib']](os.path.join(d, spec['name']), spec['mode'], **kw)

def use(f, op, text):
    """one operation on a handle; the outcome as plain data"""
    k = op[0]
    try:
        if k == 'read': return ('data', f.read(op[1]) if op[1] >= 0 else f.read())
        if k == 'line': return ('data', f.readline())
        if k == 'lines': return ('data', f.readlines())
        if k == 'write': return ('n', f.write(op[1] if text else op[1].encode()))
        if k == 'seek': return ('pos', f.seek(op[1]))
        if k == 'end': return ('pos', f.seek(0, 2))
        if k == 'tell': return ('pos', f.tell())
        if k == 'trunc': return ('n', f.truncate())
        if k == 'flush': return ('ok', f.flush())
        if k == 'close': return ('ok', f.close())
        if k == 'attrs': return ('attrs', f.closed, f.mode, f.readable(), f.writable(), f.seekable())
    except (ValueError, OSError) as e: return ('raised', 'closed' if 'closed' in str(e) else 'other')
    raise ValueError(k)

def edit(d, op):
    p = os.path.join(d, op[1])
    if op[0] == 'rewrite': write(p, op[2].encode())
    elif op[0] == 'cut' and os.path.exists(p): os.truncate(p, min(op[2], os.path.getsize(p)))
    elif op[0] == 'append': write(p, op[2].encode(), 'ab')
    elif op[0] == 'delete' and os.path.exists(p): os.remove(p)
    elif op[0] == 'replace':
        write(p + '~', op[2].encode()); os.replace(p + '~', p)

def write(p, data, mode='wb'):
    with open(p, mode) as f: f.write(data)
def content(p):
    if not os.path.exists(p): return None
    with open(p, 'rb') as f: return f.read()
def snapshot(d): return {n: (content(os.path.join(d, n)), os.stat(os.path.join(d, n)).st_mode) for n in sorted(os.listdir(d))}

def keeping(spec, d, mode):
    """open without truncating or refusing an existing file"""
    kw = dict(buffering=0) if spec.get('raw') else {}
    p = os.path.join(d, spec['name'])
    if 'w' in mode or 'x' in mode:
        fd = os.open(p, os.O_CREAT | (os.O_RDWR if '+' in mode else os.O_WRONLY), 0o666)
        return OPENERS[spec['lib']](fd, mode, **kw)
    return OPENERS[spec['lib']](p, mode, **kw)

def expected(rec, d):
    """the handle a load must give, made in folder d; None if the load has to fail"""
    spec, mode, pos, closed, fmode = rec['spec'], rec['mode'], rec['pos'], rec['closed'], rec['fmode']
    p = os.path.join(d, spec['name'])
    there = os.path.exists(p)
    rec['temp'] = fmode != 2 and not there and 'r' in mode
    kw = dict(buffering=0) if spec.get('raw') else {}
    if fmode == 2:
        write(p, rec['content'])
        f = keeping(spec, d, mode)
        if not closed: f.seek(pos)
    elif not there and 'r' in mode:
        f = tempfile.TemporaryFile(mode if spec['lib'] == 'io' else 'w+b', dir=os.path.dirname(d), **kw) if spec['lib'] == 'io' and not spec.get('raw') else None
        if f is None:
            fd, q = tempfile.mkstemp(dir=os.path.dirname(d)); os.remove(q)
            f = OPENERS[spec['lib']](fd, mode, **kw)
    elif fmode == 0:
        try: f = OPENERS[spec['lib']](p, mode, **kw)
        except OSError: return None
    else:
        f = keeping(spec, d, mode)
        if not closed: f.seek(min(pos, os.path.getsize(p)))
    if closed: f.close()
    return f

def history(files, handles, ops):
    warnings.simplefilter('ignore')
    root = tempfile.mkdtemp(prefix='c14-')
    old = dict(dill.settings)
    opened_all = []
    try: return _history(root, files, handles, ops, opened_all)
    finally:
        dill.settings.clear(); dill.settings.update(old)
        for f in opened_all:
            try: f.close()
            except Exception: pass
        shutil.rmtree(root)

def _history(root, files, handles, ops, keep):
    A, C = os.path.join(root, 'w'), os.path.join(root, 'v')           # same length, so that names have the same length
    for d in (A, C): os.mkdir(d)
    for n, data in files.items():
        if data is not None:
            for d in (A, C): write(os.path.join(d, n), data.encode())
    pairs, recs = [], []
    stat = dict(stores=0, loads=0, refused=0, atemp=0)
    def compare(w):
        a, c = snapshot(A), snapshot(C)
        if a != c:
            n = [k for k in {*a, *c} if a.get(k) != c.get(k)][0]
            raise Violation('%s: file %s has (content, mode) %r instead of %r' % (w, n, a.get(n), c.get(n)))
    for spec in handles:
        try: f = opened(spec, A)
        except OSError: f = None
        try: g = opened(spec, C)
        except OSError: g = None
        if (f is None) != (g is None): raise RuntimeError('mirror differs')
        if f is not None: keep += [f, g]; pairs.append([f, g, spec, 'b' not in spec['mode']])
    if not pairs: return stat
    for n, op in enumerate(ops):
        w = 'step %d %s' % (n, op)
        if op[0] == 'use':
            f, g, spec, text = pairs[op[1] % len(pairs)]
            a, c = use(f, op[2], text), use(g, op[2], text)
            if a != c: raise Violation('%s on %r gave %r instead of %r' % (w, f, a, c))
        elif op[0] == 'edit':
            edit(A, op[1]); edit(C, op[1])
        elif op[0] == 'store':
            _, who, fmode, how, protocol = op
            hs = [pairs[i] for i in dict.fromkeys(i % len(pairs) for i in who)]
            info = []
            if not all(isinstance(h[0].name, str) for h in hs): continue        # an anonymous file
            for f, g, spec, text in hs:
                closed = g.closed; pos = 0 if closed else (g.flush(), g.tell())[1]
                info.append(dict(spec=spec, mode=f.mode, pos=pos, closed=closed, fmode=fmode, text=text))
            for r in info: r['content'] = content(os.path.join(C, r['spec']['name']))
            kw = {} if protocol is None else dict(protocol=protocol)
            if how == 'arg': kw['fmode'] = fmode; dill.settings['fmode'] = (fmode + 1) % 3
            else: dill.settings['fmode'] = fmode
            obj = [h[0] for h in hs] + [hs[0][0], {'k': hs[-1][0]}]
            try:
                data = dill.dumps(obj, **kw)
            except OSError as e:
                if fmode == 2 and any(r['content'] is None for r in info):
                    for h in hs: use(h[0], ['flush'], h[3])
                    stat['refused'] += 1; continue
                raise Violation('%s: %r' % (w, e))
            except Exception as e: raise Violation('%s: storing %r raised %r' % (w, obj, e))
            if fmode == 2 and any(r['content'] is None for r in info): raise Violation('%s: stored contents of a file that is not there' % w)
            if how != 'arg': dill.settings['fmode'] = (fmode + 1) % 3     # the option belongs to the pickle
            for f, g, spec, text in hs:
                a, c = use(f, ['tell'], text), use(g, ['tell'], text)
                if a != c: raise Violation('%s: storing moved %r: %r instead of %r' % (w, f, a, c))
            compare(w)
            recs.append((data, info)); stat['stores'] += 1
        elif op[0] == 'load' and recs:
            data, info = recs[op[1] % len(recs)]
            exp = []
            for r in info:
                g = expected(r, C)
                exp.append(g)
                if g is None: break
                keep.append(g)
            try: got = dill.loads(data)
            except dill.UnpicklingError as e:
                if exp[-1] is None: stat['refused'] += 1; compare(w); continue
                raise Violation('%s raised %r' % (w, e))
            except Exception as e: raise Violation('%s raised %r' % (w, e))
            if exp[-1] is None: raise Violation('%s: gave %r although opening must fail' % (w, got))
            k = len(info)
            keep += got[:k]
            if got[k] is not got[0] or got[k + 1]['k'] is not got[k - 1]: raise Violation('%s: identity lost' % w)
            for f, g, r in zip(got, exp, info):
                spec, text = r['spec'], r['text']
                if type(f) is not type(g) and (isinstance(f.name, str) or spec["lib"] == "io"): raise Violation('%s: a %r instead of a %r' % (w, type(f), type(g)))
                if isinstance(f.name, str):
                    if f.name != os.path.join(A, spec['name']): raise Violation('%s: name %r' % (w, f.name))
                elif not r['temp']: raise Violation('%s: name %r instead of %r' % (w, f.name, os.path.join(A, spec['name'])))
                if (f.mode, f.closed) != (r['mode'], r['closed']): raise Violation('%s: mode and closed are %r instead of %r' % (w, (f.mode, f.closed), (r['mode'], r['closed'])))
                a, c = use(f, ['tell'], text), use(g, ['tell'], text)
                if a != c: raise Violation('%s: position of %r is %r instead of %r' % (w, f, a, c))
                pairs.append([f, g, spec, text])
            compare(w)
            stat['loads'] += 1
    for f, g, spec, text in pairs:
        for op in (['tell'], ['attrs'], ['read', -1], ['close']):
            a, c = use(f, op, text), use(g, op, text)
            if op[0] == 'attrs' and a != c: raise Violation('at the end %r is %r instead of %r' % (f, a, c))
            if a != c: raise Violation('at the end %s on %r gave %r instead of %r' % (op, f, a, c))
    compare('at the end')
    return stat

