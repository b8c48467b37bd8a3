"""Runs under /opt/venv/bin/python with dill from /repo imported once; forks a pristine child per request.

Request  (one JSON line on stdin):  {"mod": module in lib, "fn": name, "args": {...}, "cpu": s, "wall": s}
Response (one JSON line on stdout): {"ok": value} | {"err": traceback text} | {"died": text} | {"blocked": text}
                                    | {"timeout": text}
"""
import sys, os, json, signal, resource, select, time, gc, traceback, shutil, importlib

def child(req, wfd, scratch):
    LIBC.prctl(1, signal.SIGKILL)
    resource.setrlimit(resource.RLIMIT_CPU, (req.get('cpu', 60), req.get('cpu', 60) + 2))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    os.chdir(scratch)
    if os.environ.get('VERIF_UNFREEZE'): gc.unfreeze()
    main = sys.modules['__main__'].__dict__
    for k in list(main):
        if k not in PRISTINE: del main[k]
    try:
        import vlib
        vlib.SCRATCH = scratch
        fn = getattr(importlib.import_module(req['mod']), req['fn'])
        out = {'ok': fn(**req['args'])}
        text = json.dumps(out)
    except vlib.Violation as e:
        text = json.dumps({'violation': str(e)})
    except BaseException:
        text = json.dumps({'err': traceback.format_exc()[-6000:]})
    data = text.encode('utf-8', 'surrogatepass')
    while data:
        n = os.write(wfd, data)
        data = data[n:]

def cputime(pid):
    try:
        f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
    except Exception:
        return None

def serve(req, inp, out, base):
    r, w = os.pipe()
    scratch = os.path.join(base, 'c')
    os.makedirs(scratch, exist_ok=True)
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            os.close(r)
            nul = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(nul, fd)
            os.close(nul)
            for fd in (inp, out):
                if fd > 2: os.close(fd)
            child(req, w, scratch)
        except BaseException:
            code = 99
        finally:
            os._exit(code)
    os.close(w)
    try: os.setpgid(pid, pid)
    except OSError: pass
    chunks = []
    deadline = time.monotonic() + req.get('wall', 90)
    killed = None
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            cpu = cputime(pid)
            killed = 'blocked' if cpu is not None and cpu < 5 else 'timeout'
            os.kill(pid, signal.SIGKILL)
            break
        if select.select([r], [], [], min(left, 5))[0]:
            b = os.read(r, 1 << 20)
            if not b: break
            chunks.append(b)
    _, st = os.waitpid(pid, 0)
    try: os.killpg(pid, signal.SIGKILL)
    except OSError: pass
    if killed is None:
        while True:
            b = os.read(r, 1 << 20)
            if not b: break
            chunks.append(b)
    os.close(r)
    shutil.rmtree(scratch, ignore_errors=True)
    data = b''.join(chunks)
    if killed: return json.dumps({killed: 'no answer after %s s of wall time' % req.get('wall', 90)}).encode()
    if os.WIFSIGNALED(st): return json.dumps({'died': 'signal %s' % signal.Signals(os.WTERMSIG(st)).name}).encode()
    if not data: return json.dumps({'died': 'exit status %s without an answer' % os.WEXITSTATUS(st)}).encode()
    return data

def main(base, mods):
    global PRISTINE, LIBC
    import ctypes
    LIBC = ctypes.CDLL(None)
    LIBC.prctl(1, signal.SIGKILL)
    PRISTINE = {'__name__', '__doc__', '__package__', '__loader__', '__spec__', '__builtins__', '__annotations__'}
    # keep the protocol's own descriptors away from 0, 1 and 2
    inp, out = os.dup(0), os.dup(1)
    nul = os.open(os.devnull, os.O_RDWR)
    os.dup2(nul, 0); os.dup2(nul, 1)
    for m in mods: importlib.import_module(m)
    import dill
    assert os.path.realpath(dill.__file__).startswith(os.environ['VERIF_DILL'] + '/'), dill.__file__
    fin = os.fdopen(inp, 'rb', closefd=False)
    gc.collect(); gc.freeze()
    for line in fin:
        req = json.loads(line)
        ans = serve(req, inp, out, base) + b'\n'
        while ans:
            n = os.write(out, ans)
            ans = ans[n:]
