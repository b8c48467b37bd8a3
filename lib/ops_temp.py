"""C28: dill.temp."""
import sys, os, io, warnings, pathlib
import dill, dill.temp as T
import vlib, vdesc
from ops import setup, opts_of, run_src, make_module
from vlib import Violation

def script(src, modname='__main__'):
    """the text as a script (or module) in a file, executed"""
    import linecache
    path = os.path.join(vlib.SCRATCH, 'script.py' if modname == '__main__' else modname + '.py')
    with open(path, 'w', encoding='utf-8') as f: f.write(src)
    linecache.clearcache()
    if modname == '__main__':
        m = sys.modules['__main__']; ns = m.__dict__
        ns['__file__'] = path
        exec(compile(src, path, 'exec', dont_inherit=True), ns)
        return ns, path
    if vlib.SCRATCH not in sys.path: sys.path.insert(0, vlib.SCRATCH)
    import importlib; importlib.invalidate_caches()
    sys.dont_write_bytecode = True
    return importlib.import_module(modname).__dict__, path

def outcome(fn, *a, **k):
    try: r = fn(*a, **k)
    except Exception as e: return ['raise', type(e).__name__, str(e)[:200]]
    if hasattr(r, 'send') and hasattr(r, 'cr_frame'):
        try: r.send(None)
        except StopIteration as e: return ['co', repr(e.value)]
    import re
    return ['ret', re.sub(r' at 0x[0-9a-f]+', '', repr(r))]

ARGS = [(1,), (0,), ('s',), (2.5, 3), (None,), ([1],)]

def probe(obj):
    """what a function or class does"""
    out = []
    if isinstance(obj, type):
        out.append([obj.__name__, getattr(obj, 'attr', None), obj.__doc__, getattr(obj, 'decorated', None), getattr(obj, 'base', None)])
        for n in sorted(vars(obj)):
            v = vars(obj)[n]
            if n.startswith('m'): out += [[n, outcome(getattr(obj(), n), *a)] for a in ARGS]
            elif isinstance(v, property): out.append([n, getattr(obj(), n)])
            elif isinstance(v, type) and n.startswith('N'): out.append(probe(v))
        return out
    out.append(obj.__doc__)
    return out + [outcome(obj, *a) for a in ARGS]

def objects(src, opts, where, modules, hist):
    """pickle in a file or buffer"""
    warnings.simplefilter('ignore')
    ns = setup(src, modules, where)
    obj = ns['OBJ']
    def desc(o): return vdesc.describe(o, gmode='mod')
    for k, v in opts_of(opts).items():
        if k in dill.settings and v is not None: dill.settings[k] = v
    try: want = dill.loads(dill.dumps(obj))
    except Exception as e: return dict(skip='cannot be stored')
    d0 = desc(want)
    if desc(dill.loads(dill.dumps(obj))) != d0: return dict(skip='not comparable')
    stat = dict(loads=0, kept=0)
    live = []
    base = set(os.listdir(vlib.SCRATCH))
    for i, op in enumerate(hist):
        w = 'step %d %s' % (i, op)
        if op[0] == 'dump':
            kw = {k: v for k, v in op[1].items()}
            if kw.pop('dir', None):
                d = os.path.join(vlib.SCRATCH, 'd%d' % i); os.mkdir(d); kw['dir'] = d
            f = T.dump(obj, **kw)
            n = os.path.basename(f.name)
            if not n.startswith(kw.get('prefix', '')) or not n.endswith(kw.get('suffix', '')) or 'dir' in kw and os.path.dirname(f.name) != kw['dir']: raise Violation('%s: file is %r' % (w, f.name))
            live.append(['file', f, f.name, kw.get('delete', True)])
        elif op[0] == 'io':
            f = T.dumpIO(obj); live.append(['io', f, None, True])
        elif not live: continue
        elif op[0] == 'load':
            kind, f, name, dele = live[op[1] % len(live)]
            if kind == 'file':
                src = [f, name, pathlib.Path(name)][op[2] % 2]
                r = T.load(src, **([{}, {'mode': 'rb'}, {'buffering': 0}][op[3] % 3]))
            else:
                r = T.loadIO([f, f.getvalue(), io.BytesIO(f.getvalue())][op[2] % 3])
            d = desc(r)
            if d != d0: raise Violation('%s: what is loaded differs from what dill.loads gives at %s' % (w, vdesc.first_diff(d0, d)))
            stat['loads'] += 1
        elif op[0] == 'close':
            kind, f, name, dele = live.pop(op[1] % len(live))
            f.close()
            if kind == 'file':
                if os.path.exists(name) == dele: raise Violation('%s: the file %s' % (w, 'is still there' if dele else 'is gone'))
                if not dele: live.append(['file', name, name, False]) if False else os.unlink(name)
        for kind, f, name, dele in live:
            if kind == 'file' and not os.path.exists(name): raise Violation('%s: the file of another handle is gone' % w)
        stat['kept'] = max(stat['kept'], len(live))
    for kind, f, name, dele in live: f.close()
    return stat

def sources(src, targets, plan):
    """source in a file or buffer"""
    warnings.simplefilter('ignore')
    ns, path = script(src)
    stat = dict(loads=0, functions=0)
    live = []
    for i, (t, how, alias, opts, loads) in enumerate(plan):
        kind, x = targets[t % len(targets)]
        obj = eval(x, ns)
        w = 'dump_source of %s (%s, alias %r, %r)' % (x, how, alias, opts)
        want = probe(obj)
        kw = dict(alias=alias) if alias else {}
        try:
            if how == 'file':
                k2 = dict(opts)
                if k2.pop('dir', None):
                    d = os.path.join(vlib.SCRATCH, 'd%d' % i); os.mkdir(d); k2['dir'] = d
                f = T.dump_source(obj, **kw, **k2)
                if not f.name.endswith('.py') or not os.path.basename(f.name).startswith(k2.get('prefix', '')) or 'dir' in k2 and os.path.dirname(f.name) != k2['dir']: raise Violation('%s: the file is %r' % (w, f.name))
            else: f = T.dumpIO_source(obj, **kw)
        except Exception as e:
            if isinstance(e, Violation): raise
            raise Violation('%s raised %r' % (w, e))
        live.append((how, f, want, w, alias, obj, loads))
    for how, f, want, w, alias, obj, loads in live:
        for ld in loads:
            try:
                if how == 'file':
                    src_ = f if ld & 1 else f.name
                    k = {}
                    if ld & 2: k['alias'] = alias or obj.__name__
                    if obj.__name__ == '<lambda>' and not alias: k.pop('alias', None)
                    if ld & 4: k['mode'] = 'rb'
                    r = T.load_source(src_, **k)
                    text = open(f.name, encoding='utf-8').read()
                else:
                    k = {}
                    if ld & 2 and (alias or obj.__name__ != '<lambda>'): k['alias'] = alias or obj.__name__
                    r = T.loadIO_source(f if ld & 1 else f.getvalue(), **k)
                    text = f.getvalue().decode()
            except Exception as e: raise Violation('%s: loading (%r) raised %r; the text is %.1500r' % (w, ld, e, f.getvalue() if how != 'file' else open(f.name, 'rb').read()))
            got = probe(r)
            if got != want: raise Violation('%s: loading (%r) gives something that does %r instead of %r; the text is %.1500r' % (w, ld, got, want, text))
            stat['loads'] += 1
        stat['functions'] += 1
    for how, f, *_ in live: f.close()
    return stat

class Boom(Exception): pass

def captures(prog):
    """nested captures"""
    class Own(io.StringIO): pass
    sys.stdout, sys.stderr = Own(), Own(); sys.other = Own()
    stack = {'stdout': [sys.stdout], 'stderr': [sys.stderr], 'other': [sys.other]}
    want = {id(s[0]): '' for s in stack.values()}
    stat = dict(writes=0, contexts=0)
    keep = []
    def check(w):
        for n, s in stack.items():
            if getattr(sys, n) is not s[-1]: raise Violation('%s: sys.%s is %r instead of %r' % (w, n, getattr(sys, n), s[-1]))
            for x in s:
                if x.getvalue() != want[id(x)]: raise Violation('%s: the buffer holds %r instead of %r' % (w, x.getvalue(), want[id(x)]))
    def run(prog, w0):
        for i, op in enumerate(prog):
            w = '%s/%d %s' % (w0, i, op[:2])
            if op[0] == 'write':
                n, text = op[1], op[2]
                x = getattr(sys, n)
                if n == 'stdout' and not text.endswith('x'): print(text); text += '\n'
                elif n == 'stderr' and text.endswith('x'): print(text, 'b', file=sys.stderr, sep='-', end=''); text += '-b'
                else: x.write(text)
                want[id(x)] += text; stat['writes'] += 1
            elif op[0] == 'raise': raise [Boom, KeyboardInterrupt, SystemExit, GeneratorExit][op[1] % 4]
            elif op[0] == 'return':
                def g():
                    with T.capture(op[1]) as o:
                        print('inside', file=getattr(sys, op[1]))
                        return o
                o = g()
                if o.getvalue() != 'inside\n': raise Violation('%s: %r was collected' % (w, o.getvalue()))
            elif op[0] == 'gen':
                def g():
                    with T.capture(op[1]) as o: yield o
                it = g(); next(it); print('abc', file=getattr(sys, op[1])); it.close()
            elif op[0] == 'replace':
                x = Own(); keep.append(x); want[id(x)] = ''
                setattr(sys, op[1], x); stack[op[1]][-1:] = [x] if len(stack[op[1]]) == 1 else [stack[op[1]][-1]]
                if len(stack[op[1]]) > 1: stack[op[1]].append(x)
            elif op[0] == 'with':
                n = op[1]; stat['contexts'] += 1
                depth = len(stack[n]); before = getattr(sys, n)
                o = None; others = {m: len(s) for m, s in stack.items() if m != n}
                try:
                    with (T.capture() if n == 'stdout' and op[3] else T.capture(n)) as o:
                        if o.getvalue() != '': raise Violation('%s: a new buffer holds %r' % (w, o.getvalue()))
                        keep.append(o); want[id(o)] = ''; stack[n].append(o)
                        check(w)
                        run(op[2], w)
                except (Boom, KeyboardInterrupt, SystemExit, GeneratorExit): pass
                del stack[n][depth:]
                check(w)
                if o.getvalue() != want[id(o)]: raise Violation('%s: collected %r instead of %r' % (w, o.getvalue(), want[id(o)]))
            check(w)
    run(prog, 'capture')
    return stat
