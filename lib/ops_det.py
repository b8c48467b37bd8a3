"""C25: what dill.detect says about functions, compared with the symbol tables of the source."""
import sys, os, types, symtable, ast, builtins, warnings
import dill, dill.detect as D
import vlib
from ops import make_module, run_src
from vlib import Violation

def walk(t):
    yield t
    for c in t.get_children(): yield from walk(c)

def table(root, path):
    t = root
    for name, line in path:
        ms = [c for c in t.get_children() if c.get_name() == name and c.get_lineno() == line]
        if len(ms) != 1: raise RuntimeError('table %s at %r: %r' % (name, line, [(c.get_name(), c.get_lineno()) for c in t.get_children()]))
        t = ms[0]
    return t

def global_sets(t, deep=True):
    """(names that are certainly global references, names that may also be those of a class body)"""
    sure, maybe = set(), set()
    for s in (walk(t) if deep else [t]):
        cls = s.get_type() in ('class', symtable.SymbolTableType.CLASS if hasattr(symtable, 'SymbolTableType') else 'class')
        for y in s.get_symbols():
            if y.is_global() and (y.is_referenced() or y.is_assigned()): sure.add(y.get_name())
            elif y.is_global(): maybe.add(y.get_name())
            elif cls and y.is_local() and y.is_referenced(): maybe.add(y.get_name())
        if cls: sure.add('__name__'); maybe |= {'__annotations__', '__module__', '__qualname__'}
    return sure, maybe

COMP = ('listcomp', 'setcomp', 'dictcomp')

def inlined(t): return t.get_name() in COMP

def nested(t, deep, direct=True):
    """names of the code objects made inside"""
    out = []
    for c in t.get_children():
        if c.get_name() in COMP: out += nested(c, deep)          # python 3.12 has these inlined
        else:
            n = {'lambda': '<lambda>', 'genexpr': '<genexpr>'}.get(c.get_name(), c.get_name())
            out.append(n)
            if deep: out += nested(c, deep)
    return out

def locals_of(t):
    """(locals and arguments, those used by inner scopes, tolerated)"""
    params = [y.get_name() for y in t.get_symbols() if y.is_parameter()]
    cells = set()
    mine = {y.get_name() for y in t.get_symbols() if y.is_local()}
    tol = set()
    for c in t.get_children():
        for y in c.get_symbols():
            if y.is_free() and y.get_name() in mine: cells.add(y.get_name())
    return set(params), mine, cells, tol

def check(src, modname, targets, frees, extra):
    """targets: [expr, path in the symbol table, kind]; frees: closure variables of expr with the values they have."""
    warnings.simplefilter('ignore')
    for n, s in extra: make_module(n, s)
    if modname == '__main__':
        ns = sys.modules['__main__'].__dict__; run_src(src, ns)
    else: ns = make_module(modname, src).__dict__
    root = symtable.symtable(src, '<src>', 'exec')
    comps = {n.id for x in ast.walk(ast.parse(src)) if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp)) for g in x.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}      # inlined by python 3.12
    tab = {}
    funcs, wrapped = {}, {}
    for t in targets:
        try: f = eval(t['expr'], ns)
        except Exception as e: raise RuntimeError('%s: %r\n%s' % (t['expr'], e, src))
        g = f.__func__ if isinstance(f, types.MethodType) else f
        if t['path'] is None:
            # a wrapper of another module: its own globals first, then those of the function that it wraps
            wrapped[t['expr']] = f; continue
        tab[g.__code__] = table(root, [tuple(x) for x in t['path']])
        funcs[t['expr']] = f
    MISSING = object()
    def plain(f): return f.__func__ if isinstance(f, types.MethodType) else f
    def contents(g):
        for c in g.__closure__ or ():
            try: yield c.cell_contents
            except ValueError: pass
    def model(f, recurse, builtin, most):
        """what has to be reported; what may be reported"""
        out, seen, todo = {}, set(), [plain(f)]
        while todo:
            g = todo.pop()
            if id(g) in seen: continue
            seen.add(id(g))
            if g.__globals__ is not ns:                   # other modules: the names that both have for one object may be reported
                if most or recurse:
                    for n in D.nestedglobals(g):
                        v = g.__globals__.get(n, vars(builtins).get(n, MISSING) if builtin else MISSING)
                        if v is MISSING: continue
                        if ns.get(n, vars(builtins).get(n) if builtin else MISSING) is v and (most or n in ns): out[n] = v      # builtins of another module may be left out
                        if recurse and isinstance(v, (types.FunctionType, types.MethodType)): todo.append(plain(v))
                    todo += [plain(v) for v in contents(g) if isinstance(v, (types.FunctionType, types.MethodType))]
                continue
            if g.__code__ not in tab: raise RuntimeError('no table for %r' % g)
            sure, maybe = global_sets(tab[g.__code__], recurse)
            for n in sure | maybe if most else sure:
                v = ns.get(n, vars(builtins).get(n, MISSING) if builtin else MISSING)
                if v is MISSING: continue
                out[n] = v
                if recurse and isinstance(v, (types.FunctionType, types.MethodType)): todo.append(plain(v))
            if most or recurse: todo += [plain(v) for v in contents(g) if isinstance(v, (types.FunctionType, types.MethodType))]
        return out
    counts = dict(functions=0, globals=0, frees=0)
    for x, f in wrapped.items():
        o = f.__globals__
        for rec in (True, False):
            try: r = D.globalvars(f, rec)
            except Exception as e: raise Violation('globalvars of the wrapper %s raised %r' % (x, e))
            direct = model(f.__wrapped__, False, False, False); direct.update(G1=o['G1'], X=o['X'])
            if not rec: direct = dict(G1=o['G1'], X=o['X'])
            least, most = model(f.__wrapped__, rec, False, False), model(f.__wrapped__, rec, False, True)
            for n, v in direct.items():
                if n not in r or r[n] is not v: raise Violation('globalvars(recurse=%s) of the wrapper %s gives %r for %s instead of %r' % (rec, x, r.get(n, 'nothing'), n, v))
            if rec and not set(least) <= set(r): raise Violation('globalvars(recurse=%s) of the wrapper %s misses %r' % (rec, x, sorted(set(least) - set(r))))
            for n, v in r.items():              # transitive names of the two modules: the object of either
                if not (n in most and most[n] is v or n in ('G1', 'X') and o[n] is v or rec and n in ('G0', 'G2', 'G4', 'of1', 'of2') and o[n] is v):
                    raise Violation('globalvars(recurse=%s) of the wrapper %s gives %r for %s' % (rec, x, v, n))
    for t in targets:
        if t['path'] is None: continue
        f = funcs[t['expr']]; g = plain(f); tb = tab[g.__code__]
        w = 'of %s ' % t['expr']
        def call(fn, *a, **k):
            try: return fn(*a, **k)
            except Exception as e: raise Violation('%s %s raised %r' % (fn.__name__, w, e))
        # code
        for x in (f, g, g.__code__):
            if call(D.code, x) is not g.__code__: raise Violation('code %sis %r' % (w, D.code(x)))
        # nestedglobals
        sure, maybe = global_sets(tb)
        for x in (f, g.__code__):
            for rec in (True, False):
                r = call(D.nestedglobals, x, rec)
                if len(set(r)) != len(r): raise Violation('nestedglobals %shas duplicates: %r' % (w, sorted(r)))
                if not sure <= set(r): raise Violation('nestedglobals %s misses %r' % (w, sorted(sure - set(r))))
                if not set(r) <= sure | maybe: raise Violation('nestedglobals %s has %r too much' % (w, sorted(set(r) - sure - maybe)))
        # globalvars
        for rec in (True, False):
            for bi in (False, True):
                least, most = model(f, rec, bi, False), model(f, rec, bi, True)
                r = call(D.globalvars, f, rec, bi)
                miss = [n for n in least if n not in r]; more = [n for n in r if n not in most]
                if miss: raise Violation('globalvars(recurse=%s, builtin=%s) %smisses %r' % (rec, bi, w, sorted(miss)))
                if more: raise Violation('globalvars(recurse=%s, builtin=%s) %shas %r too much' % (rec, bi, w, sorted(more)))
                for n in r:
                    if r[n] is not ns.get(n, vars(builtins).get(n) if bi else None): raise Violation('globalvars %sgives another object for %s: %r' % (w, n, r[n]))
                if set(call(D.referredglobals, f, rec, bi)) != set(r): raise Violation('referredglobals %sdiffers from globalvars' % w)
                counts['globals'] += len(r)
        # freevars
        r = call(D.freevars, f)
        syms = set(tb.get_frees()) - {'__class__'}
        if t.get('frees') is not None:
            want = {n: frees[v] if v in frees else v for n, v in t['frees'].items()}
            got = {n: v for n, v in r.items() if n in want}
            if set(r) != {n for n in syms if n not in t['empty']}: raise Violation('freevars %sare %r instead of %r' % (w, sorted(r), sorted(syms)))
            for n, v in want.items():
                if n in syms and n not in t['empty'] and not (r[n] == v): raise Violation('freevars %s: %s is %r instead of %r' % (w, n, r[n], v))
        elif not set(r) <= syms: raise Violation('freevars %sare %r instead of %r' % (w, sorted(r), sorted(syms)))
        counts['frees'] += len(r)
        # varnames
        vn, cn = call(D.varnames, f)
        params, mine, cells, tol = locals_of(tb)
        tol |= comps
        if set(cn) - {'__class__'} - tol != cells - tol: raise Violation('varnames %s: variables of inner functions are %r instead of %r' % (w, sorted(cn), sorted(cells)))
        want = (mine - cells) | params
        if not want - tol <= set(vn) or not set(vn) <= want | tol: raise Violation('varnames %s: %r instead of %r' % (w, sorted(vn), sorted(want)))
        if call(D.varnames, g.__code__) != (vn, cn): raise Violation('varnames of the code differ')
        # nestedcode
        for rec in (True, False):
            r = call(D.nestedcode, f, rec)
            if any(not isinstance(c, types.CodeType) for c in r): raise Violation('nestedcode %s: %r' % (w, r))
            if sorted(c.co_name for c in r) != sorted(nested(tb, rec)): raise Violation('nestedcode(recurse=%s) %s: %r instead of %r' % (rec, w, sorted(c.co_name for c in r), sorted(nested(tb, rec))))
        # outermost
        if modname != '__main__' and t.get('outer'):
            o = call(D.outermost, f)
            want = eval(t['outer'], ns)
            if o is not want: raise Violation('outermost %s is %r instead of %r' % (w, o, want))
        counts['functions'] += 1
    for x in (3, None, 'f', len, int):
        if D.code(x) is not None or D.freevars(x) != {} or D.nestedcode(x) != [] or D.globalvars(x) != {} or D.nestedglobals(x) != [] or D.varnames(x) != (): raise Violation('something is found in %r' % (x,))
    return counts
