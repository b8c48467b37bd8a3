"""C27: source and names of objects."""
import sys, os, ast, io, types, inspect, importlib, linecache, textwrap, warnings, random
import dill, dill.source as S
import vlib
from vlib import Violation

def find(tree, obj):
    """the node defining obj, by what the compiler recorded"""
    if isinstance(obj, type):
        def walk(body, path):
            got = None
            for n in body:
                if isinstance(n, ast.ClassDef):
                    q = path + n.name
                    if q == obj.__qualname__: got = n
                    else: got = walk(n.body, q + '.') or got
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)): got = walk(n.body, path + n.name + '.<locals>.') or got
                elif isinstance(n, ast.If): got = walk(n.body, path) or walk(n.orelse, path) or got
            return got
        return walk(tree.body, '')
    code = obj.__code__
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == code.co_name and start(n) == code.co_firstlineno: return n
        if isinstance(n, ast.Lambda) and code.co_name == '<lambda>' and n.lineno == code.co_firstlineno: return n

def start(n):
    return min([n.lineno] + [d.lineno for d in getattr(n, 'decorator_list', [])])

def value(f, what, x):
    try: r = f(x)
    except Exception as e: return (type(e).__name__, str(e)[:100])
    return repr(r) if ' at 0x' not in repr(r) else type(r).__name__

def same_text(a, b): return [l.rstrip() for l in a] == [l.rstrip() for l in b]

ARGS = [1, -7, 2.5, 'text', [1], None]

def behaves(orig, new, kind, w):
    if kind == 'class':
        if new.__name__ != orig.__name__ or new.__bases__ != orig.__bases__ and [b.__name__ for b in new.__bases__] != [b.__name__ for b in orig.__bases__]: raise Violation('%s: class %r' % (w, new))
        if new.attr != orig.attr or new.__doc__ != orig.__doc__: raise Violation('%s: attr %r, doc %r instead of %r, %r' % (w, new.attr, new.__doc__, orig.attr, orig.__doc__))
        for n in vars(orig):
            if n.startswith('m') and not isinstance(vars(orig)[n], type):
                for a in ARGS[:3]:
                    x, y = value(getattr(orig(), n), n, a), value(getattr(new(), n), n, a)
                    if x != y: raise Violation('%s: %s(%r) gave %r instead of %r' % (w, n, a, y, x))
        if set(n for n in vars(orig) if n[:2] != '__') != set(n for n in vars(new) if n[:2] != '__'): raise Violation('%s: attributes %r' % (w, sorted(vars(new))))
        return
    for a in ARGS:
        x, y = value(orig, '', a), value(new, '', a)
        if x != y: raise Violation('%s: with %r gave %r instead of %r' % (w, a, y, x))

def simple(obj, kind):
    """may be executed on its own"""
    return kind in ('func', 'lambda', 'class')

def program(src, targets, plan, name, alone):
    warnings.simplefilter('ignore')
    d = vlib.SCRATCH
    if d not in sys.path: sys.path.insert(0, d)
    path = os.path.join(d, name + '.py')
    with open(path, 'w', encoding='utf-8') as f: f.write(src)
    importlib.invalidate_caches()
    mod = importlib.import_module(name)
    lines = src.splitlines(True)
    if lines and not lines[-1].endswith('\n'): lines[-1] += '\n'
    tree = ast.parse(src)
    stat = dict(checks=0, kinds=set())
    for t, what, alias in plan:
        kind, expr = targets[t % len(targets)]
        obj = eval(expr, vars(mod))
        func = obj.__func__ if isinstance(obj, types.MethodType) else obj
        if kind == 'wrapped' and what not in ('lines', 'lstrip', 'code', 'name'): what = 'lines'
        node = find(tree, func)
        w = '%s of %s %s' % (what, kind, expr)
        if node is None: raise RuntimeError('no node for %s' % expr)
        a, z = start(node), node.end_lineno
        if kind == 'lambda': z = max(z, [n.end_lineno for n in ast.walk(tree) if isinstance(n, ast.stmt) and not isinstance(n, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef, ast.If)) and n.lineno <= a <= n.end_lineno][0])
        want = lines[a-1:z]
        stat['kinds'].add('%s:%s' % (what, kind))
        stat['checks'] += 1
        def check(ls, n, want, a):
            if not isinstance(n, int) or n != a - 1: raise Violation('%s: line %r instead of %d' % (w, n, a - 1))
            more = ls[len(want):]                # comments after the end may belong to the block
            if all(not l.strip() or l.lstrip().startswith('#') for l in more) and ls == lines[a-1:a-1+len(ls)]: ls = ls[:len(want)]
            if ''.join(ls) != ''.join(want): raise Violation('%s: %r instead of %r' % (w, ''.join(ls)[-300:], ''.join(want)[-300:]))
        try:
            if what == 'lines':
                ls, n = S.getsourcelines(obj); check(ls, n, want, a)
                if S.getsource(obj) != ''.join(ls): raise Violation('%s: getsource gives %r' % (w, S.getsource(obj)))
                all_, n = S.findsource(obj)
                if n != a - 1 or ''.join(all_) != ''.join(lines): raise Violation('%s: findsource gives line %r of %d' % (w, n, len(all_)))
            elif what == 'code':
                if kind != 'class': check(*S.getsourcelines(func.__code__), want, a)
                else:
                    o = obj(); check(*S.getsourcelines(o), want, a)
            elif what == 'module':
                ls, n = S.getsourcelines(mod); w2 = ''.join(lines)
                if (''.join(ls), n) != (w2, 0): raise Violation('%s: %r, %r' % (w, n, ls))
            elif what == 'lstrip':
                s = S.getsource(obj, lstrip=True)
                if kind != 'lambda':
                    strings = any(isinstance(n, (ast.Constant, ast.JoinedStr)) and n.lineno != n.end_lineno for n in ast.walk(node))
                    if not (strings and node.col_offset):
                        try: m = ast.parse(s).body
                        except SyntaxError as e: raise Violation('%s: %r is no Python: %s' % (w, s, e))
                        if len(m) != 1 or ast.dump(m[0]) != ast.dump(node): raise Violation('%s: %r is something else' % (w, s))
            elif what == 'alias':
                if kind == 'lambda' or node.col_offset and any(isinstance(n, (ast.Constant, ast.JoinedStr)) and n.lineno != n.end_lineno for n in ast.walk(node)): continue
                s = S.getsource(obj, alias=alias or 'other')
                try: m = ast.parse(s).body
                except SyntaxError as e: raise Violation('%s: %r is no Python: %s' % (w, s, e))
                rest = ['%s = %s' % (alias or 'other', func.__name__)] if (alias or 'other') != func.__name__ else []
                if ast.dump(m[0]) != ast.dump(node) or [ast.unparse(x) for x in m[1:]] != rest: raise Violation('%s: %r is not the definition followed by %r' % (w, s, rest))
            elif what == 'name':
                if kind == 'lambda' and '.' in expr: continue
                n = S.getname(obj)
                if n != (expr if kind == 'lambda' else func.__name__): raise Violation('%s: %r' % (w, n))
            elif what == 'import':
                if kind in ('method', 'nested', 'wrapped') or '.' in expr: continue
                for s, b in ((S.getimport(obj, alias=alias), alias or expr), (S.importable(obj, alias=alias, source=False), alias or expr), (S.importable(obj, alias=alias), alias or expr)):
                    ns = {}
                    try: exec(s, ns)
                    except Exception as e: raise Violation('%s: %r raised %r' % (w, s, e))
                    if ns.get(b) is not obj: raise Violation('%s: %r binds %s to %r' % (w, s, b, ns.get(b)))
            elif what == 'source' and alone:
                if kind not in ('func', 'lambda', 'class') or '.' in expr or 'make' in expr: continue
                s = S.importable(obj, alias=alias, source=True)
                ns = {'__name__': 'elsewhere'}
                try: exec(s, ns)
                except Exception as e: raise Violation('%s: %s\nraised %r' % (w, s, e))
                b = alias or expr
                if b not in ns: raise Violation('%s: %s\ndoes not bind %s' % (w, s, b))
                behaves(obj, ns[b], kind, '%s\n%s' % (w, s))
        except Violation: raise
        except Exception as e: raise Violation('%s raised %r' % (w, e))
    stat['kinds'] = sorted(stat['kinds'])
    return stat

def texts(cases):
    n = 0
    for text, spaces in cases:
        k = spaces if isinstance(spaces, int) else len(spaces)
        w = 'indent of %r by %r' % (text, spaces)
        t = S.indent(text, spaces)
        pad = ' ' * spaces if isinstance(spaces, int) else spaces
        ls = text.split('\n')
        want = [pad + l for l in ls]
        if not want[-1].strip(): want[-1] = ''
        if t != '\n'.join(want): raise Violation('%s gives %r' % (w, t))
        back = '\n'.join(ls[:-1] + ([ls[-1]] if ls[-1].strip() else ['']))
        for o in (S.outdent(t), S.outdent(t, k), S.outdent(t, k + 5), S.outdent(t, -1)):
            if o != back: raise Violation('%s and back gives %r' % (w, o))
        if S.outdent(text) != text or S.outdent(text, 0) != text: raise Violation('outdent of the unindented %r gives %r' % (text, S.outdent(text)))
        for j in range(k):
            o = S.outdent(t, j)
            x = '\n'.join(l[j:] for l in t.split('\n'))
            if o != x: raise Violation('%s, outdent by %d gives %r instead of %r' % (w, j, o, x))
        o = S.outdent(t, k, all=False)
        if o != t[k:]: raise Violation('%s, outdent of the first line gives %r' % (w, o))
        n += 1
    return dict(checks=n, kinds=['text'])

STD = ['os.path:join', 'os:getcwd', 'os:path', 'math:floor', 'json:dumps', 'json:JSONDecoder', 'collections:OrderedDict', 'collections:deque', 'collections:namedtuple', 'functools:partial', 'functools:reduce', 'functools:wraps', 'itertools:chain', 'itertools:count',
       're:compile', 're:Pattern', 'string:Template', 'random:Random', 'fractions:Fraction', 'decimal:Decimal', 'datetime:datetime', 'io:StringIO', 'io:BytesIO', 'threading:Thread', 'operator:itemgetter', 'operator:add', 'textwrap:dedent', 'struct:Struct', 'struct:pack', 'ast:parse', 'abc:ABC', 'abc:abstractmethod',
       'builtins:len', 'builtins:int', 'builtins:print', 'builtins:dict', 'builtins:ValueError', 'builtins:object', 'builtins:type', 'builtins:map', 'builtins:isinstance', 'builtins:super', 'builtins:classmethod', 'time:time', 'copy:deepcopy', 'pickle:dumps', 'pickle:Pickler', 'inspect:signature', 'enum:Enum', 'pathlib:Path', 'uuid:UUID', 'logging:Logger', 'logging:getLogger', 'xml.etree.ElementTree:fromstring', 'xml.etree.ElementTree:Element', 'concurrent.futures:Future', 'email.message:Message']

def imports(picks):
    n = 0
    for k, alias, builtin, how in picks:
        m, _, a = STD[k % len(STD)].partition(':')
        obj = getattr(importlib.import_module(m), a)
        if how == 0: s = S.getimport(obj, alias, builtin=builtin)
        elif how == 1: s = S.importable(obj, alias, source=False, builtin=builtin)
        elif how == 2: s = S.getimport(obj, alias=alias, verify=False, builtin=builtin)
        else: s = S.importable(obj, alias, builtin=builtin)
        ns = {}
        w = 'import of %s (alias %r, builtin=%r): %r' % (STD[k % len(STD)], alias, builtin, s)
        try: exec(s, ns)
        except Exception as e: raise Violation('%s raised %r' % (w, e))
        if alias: got = ns.get(alias)
        else:
            ns.pop('__builtins__', None)
            got = list(ns.values())[0] if ns else eval(s, {})
        if got is not obj: raise Violation('%s gives %r' % (w, got))
        n += 1
    return dict(checks=n, kinds=['std'])
