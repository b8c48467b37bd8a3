"""C24: session files and symbolic links, under attack at every event."""
import sys, io, os, types, pathlib, warnings, shutil, random, stat
import dill, dill.session
import vlib
from vlib import Violation

SESS = os.path.dirname(os.path.realpath(dill.session.__file__))
FS = {'open', 'lstat', 'stat', 'fstat', 'unlink', 'remove', 'rename', 'replace', 'readlink', 'chmod', 'fchmod', 'access', 'link', 'symlink', 'mkdir', 'listdir', 'scandir', 'truncate', 'ftruncate', 'close', 'FileIO', 'fdopen'}

def session_bytes(val):
    m = types.ModuleType('box'); m.val = val; m.fill = ['x'] * (5 if val != 'OTHER' else 400)
    f = io.BytesIO(); dill.dump_module(f, module=m)
    return f.getvalue()

class World:
    """A directory with a path under attack and things that must not be touched."""
    def __init__(self, d, kind, data):
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        self.d, self.data = d, data
        self.path = os.path.join(d, 's.pkl')
        self.n = 0
        os.makedirs(os.path.join(d, 'v', 'dir'))
        self.victim = os.path.join(d, 'v', 'victim.pkl'); self.write(self.victim, data['EVIL']); os.chmod(self.victim, 0o644)
        self.nothing = os.path.join(d, 'v', 'nothing')
        self.chain = os.path.join(d, 'v', 'chain'); os.symlink(self.victim, self.chain)
        os.utime(self.victim, (1000, 1000))
    def write(self, p, b):
        with open(p, 'wb') as f: f.write(b)
    def act(self, a):
        """What the owner of the directory may do at any moment; every replacement is atomic."""
        t = os.path.join(self.d, 't%d' % self.n); self.n += 1
        if a == 'none': return
        if a == 'delete':
            if os.path.islink(self.path) or os.path.isfile(self.path): os.unlink(self.path)
            elif os.path.isdir(self.path): os.rmdir(self.path)
            return
        if os.path.isdir(self.path) and not os.path.islink(self.path): os.rmdir(self.path)
        if a == 'dir':
            if os.path.lexists(self.path): os.unlink(self.path)
            os.mkdir(self.path); return
        if a in ('file', 'other', 'empty'): self.write(t, b'' if a == 'empty' else self.data['GOOD' if a == 'file' else 'OTHER'])
        else: os.symlink({'link': self.victim, 'rellink': os.path.join('v', 'victim.pkl'), 'dangling': self.nothing, 'linkdir': os.path.join(self.d, 'v', 'dir'), 'chain': self.chain, 'loop': self.path}[a], t)
        os.replace(t, self.path)
    def check(self, what):
        if open(self.victim, 'rb').read() != self.data['EVIL']: raise Violation('%s: the file behind the link was overwritten' % what)
        s = os.stat(self.victim)
        if (s.st_mtime, stat.S_IMODE(s.st_mode)) != (1000, 0o644): raise Violation('%s: the file behind the link was touched (mtime %r, mode %o)' % (what, s.st_mtime, stat.S_IMODE(s.st_mode)))
        if os.path.lexists(self.nothing): raise Violation('%s: a file was created through a dangling link' % what)
        if sorted(os.listdir(os.path.join(self.d, 'v'))) != ['chain', 'dir', 'victim.pkl'] or os.listdir(os.path.join(self.d, 'v', 'dir')): raise Violation('%s: the directory behind the link was changed' % what)

LINKS = ('link', 'rellink', 'dangling', 'linkdir', 'chain', 'loop')

class Events:
    """Counts the moments at which somebody else may act and acts at the chosen ones."""
    def __init__(self, plan, world): self.plan, self.world, self.n, self.log, self.seen = dict(plan), world, 0, [], {}
    def event(self, name):
        a = self.plan.get(self.n)
        self.n += 1
        if len(self.log) < 400: self.log.append(name)
        if a is not None: self.world.act(a)
    def trace(self, frame, ev, arg):
        if not frame.f_code.co_filename.startswith(SESS): return None
        if os.path.basename(frame.f_code.co_filename) in ('_dill.py', 'logger.py', 'settings.py', '_shims.py', 'detect.py', 'source.py'): return None
        k = (ev, frame.f_lineno, frame.f_code.co_name)
        self.seen[k] = self.seen.get(k, 0) + 1
        if self.seen[k] > 2: return self.trace if ev != 'line' or self.seen[k] < 50 else None      # loops
        self.event('%s:%d %s' % (ev, frame.f_lineno, frame.f_code.co_name))
        return self.trace
    def prof(self, frame, ev, arg):
        if ev in ('c_call', 'c_return', 'c_exception') and getattr(arg, '__name__', '') in FS and (getattr(arg, '__module__', None) in ('posix', 'io', '_io', 'os', 'nt') or arg is open):
            self.event('%s %s' % (ev, arg.__name__))
    def run(self, f):
        sys.setprofile(self.prof); sys.settrace(self.trace)
        try: return f()
        finally: sys.settrace(None); sys.setprofile(None)

def operation(op, path, pathkind, mod):
    p = path if pathkind == 'str' else pathlib.Path(path) if pathkind == 'pathlib' else os.path.relpath(path) if pathkind == 'rel' else None
    if op == 'dump': return lambda: dill.dump_module(p, module=mod) if p is not None else dill.dump_module(module=mod)
    if op == 'dumpref': return lambda: dill.dump_module(p, mod, True)
    if op == 'dump_session': return lambda: dill.dump_session(p, mod)
    if op == 'load': return lambda: dill.load_module(p).val if p is not None else dill.load_module().val
    if op == 'loadinto':
        def f():
            m = types.ModuleType('box'); dill.load_module(p, module=m); return m.val
        return f
    if op == 'load_session':
        def f():
            m = types.ModuleType('box'); dill.load_session(p, m); return m.val
        return f
    if op == 'asdict': return lambda: dill.load_module_asdict(p)['val'] if p is not None else dill.load_module_asdict()['val']

def attack(op, pathkind, state, actions, umask, seed, limit):
    """Every event (one action) or limit drawn tuples of events (several)."""
    data = {k: session_bytes(k) for k in ('GOOD', 'EVIL', 'OTHER')}
    mod = types.ModuleType('box'); mod.val = 'GOOD'; mod.fill = ['x'] * 5
    base = os.path.join(vlib.SCRATCH, 'w')
    os.makedirs(vlib.SCRATCH, exist_ok=True); os.chdir(vlib.SCRATCH)
    rnd = random.Random(seed)
    counts = dict(runs=0, refused=0, done=0)
    writing = op.startswith('dump')
    def one(plan):
        w = World(base, pathkind, data)
        if pathkind == 'default':
            w.path = dill.session.SESSION_TEMPFILE
            if not w.path.startswith(os.environ['TMPDIR'] + '/'): raise RuntimeError('the default path %r is outside of the scratch directory' % w.path)
            w.act('delete')
        w.act(state)
        before = None
        ev = Events(plan, w)
        f = operation(op, w.path, pathkind, mod)
        r = err = None
        old = os.umask(umask)
        try:
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                try: r = ev.run(f)
                except Exception as e: err = e
        finally: os.umask(old)
        what = '%s(%s) with %s at the path and %s' % (op, pathkind, state, ', then '.join('%s at event %d (%s)' % (a, i, ev.log[i] if i < len(ev.log) else '-') for i, a in sorted(plan.items())) or 'no interference')
        w.check(what)
        counts['runs'] += 1; counts['refused' if err is not None else 'done'] += 1
        if err is not None and not isinstance(err, OSError):
            if not ('empty' in plan.values() or state == 'empty'): raise Violation('%s raised %r, which is no OSError' % (what, err))
        if err is None and not writing and r not in ('GOOD', 'OTHER'): raise Violation('%s read the file behind the link: %r' % (what, r))
        if err is None and not writing and r == 'OTHER' and not ('other' in plan.values() or state == 'other'): raise Violation('%s gave %r' % (what, r))
        if pathkind == 'default' and not any(issubclass(x.category, UserWarning) and 'default' in str(x.message) for x in ws): raise Violation('%s did not warn about the default path: %r' % (what, [str(x.message) for x in ws]))
        if pathkind != 'default' and any('SecurityWarning' in x.category.__name__ for x in ws): raise Violation('%s warned: %s' % (what, ws[0].message))
        acts = [a for i, a in plan.items() if a != 'none']
        first = plan.get(0) if len(plan) == 1 else None          # before the operation did anything
        eff = first if first else state if not acts else None
        if eff is not None:
            if eff in LINKS or eff == 'dir' or (eff in ('delete', 'none') and not writing):
                if err is None: raise Violation('%s did not fail' % what)
            elif eff != 'empty' or writing:
                if err is not None: raise Violation('%s raised %r' % (what, err))
                if writing:
                    st = os.lstat(w.path)
                    if not stat.S_ISREG(st.st_mode): raise Violation('%s left no regular file' % what)
                    if eff in ('delete', 'none') and st.st_mode & 0o077: raise Violation('%s created a file with mode %o (umask %o)' % (what, stat.S_IMODE(st.st_mode), umask))
                    if op != 'dumpref' and open(w.path, 'rb').read() != data['GOOD']: raise Violation('%s left other contents (%d bytes instead of %d)' % (what, st.st_size, len(data['GOOD'])))
                    v = dill.load_module(io.BytesIO(open(w.path, 'rb').read())).val
                    if v != 'GOOD': raise Violation('%s: the file holds %r' % (what, v))
                elif r != dict(file='GOOD', other='OTHER')[eff]: raise Violation('%s gave %r' % (what, r))
        w.act('delete')
        return ev.n
    n = one({})
    m = len(actions)
    if m == 1: plans = ({i: actions[0]} for i in range(n + 3))
    elif m: plans = (dict(zip(sorted(rnd.randrange(n + 3) for _ in range(m)), actions)) for _ in range(limit))
    else: plans = ()
    for p in plans: one(p)
    counts['events'] = n
    return counts
