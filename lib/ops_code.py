import sys, types, pickle, warnings
import dill, vdesc
from ops import opts_of, tolerant_dumps, tolerant_loads, GenError
from vlib import Violation, b64, unb64

def codes(c):
    out = [c]
    for k in c.co_consts:
        if type(k) is types.CodeType: out += codes(k)
    return out

def make(src, mode, filename, flags, optimize, changes, pick):
    try: top = compile(src, filename, mode, flags, True, optimize)
    except SyntaxError as e: raise GenError('%r\n%s' % (e, src))
    cs = codes(top)
    out = []
    for i in pick: out.append(cs[i % len(cs)])
    for i, ch in enumerate(changes):
        c = out[i % len(out)]
        kw = dict(ch)
        if 'consts' in kw: kw['co_consts'] = c.co_consts + tuple(eval(e) for e in kw.pop('consts'))
        if 'stack' in kw: kw['co_stacksize'] = c.co_stacksize + kw.pop('stack')
        out[i % len(out)] = c.replace(**kw)
    return out

def roundtrip(opts, **kw):
    warnings.simplefilter('error')            # storing code must not warn
    cs = make(**kw)
    try: data = dill.dumps(cs, **opts_of(opts))
    except BaseException as e: raise Violation('dumps raised %r' % e)
    new = tolerant_loads(data, {})
    warnings.simplefilter('ignore')
    if len(new) != len(cs): raise Violation('other number of code objects')
    a, b = vdesc.describe(cs), vdesc.describe(new)
    if a != b: raise Violation('code differs: ' + vdesc.first_diff(a, b))
    for x, y in zip(cs, new):
        if x.co_lnotab != y.co_lnotab: raise Violation('line table differs')
        nan = 'float:nan' in str(a)
        if x != y and not nan: raise Violation('the code objects do not compare equal')
        if list(x.co_lines()) != list(y.co_lines()): raise Violation('lines differ')
    return len(cs)

FIELDS = {
    '18': 'argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name qualname firstlineno linetable exceptiontable freevars cellvars',
    '17': 'argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name qualname firstlineno linetable freevars cellvars',
    '16': 'argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name firstlineno linetable freevars cellvars',
    '15': 'argcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name firstlineno lnotab freevars cellvars',
    '20': 'argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name qualname firstlineno linetable endlinetable columntable exceptiontable freevars cellvars',
}
def legacy(layout, lead, astext, protocol, **kw):
    """A stored argument list of another Python version loads as a code object with the fields it carries."""
    warnings.simplefilter('ignore')
    for c in make(**kw):
        names = FIELDS[layout].split()
        vals = {}
        for n in names:
            if n == 'endlinetable' or n == 'columntable': vals[n] = b'abc'
            elif n == 'lnotab': vals[n] = c.co_lnotab
            else: vals[n] = getattr(c, 'co_' + n)
        if any(type(k) is types.CodeType for k in vals['consts']): vals['consts'] = tuple(None if type(k) is types.CodeType else k for k in vals['consts'])
        stored = dict(vals)
        if astext:
            for n in ('code', 'linetable', 'exceptiontable', 'lnotab'):
                if n in stored:
                    try: stored[n] = stored[n].decode('ascii')
                    except UnicodeDecodeError: pass
        args = tuple(stored[n] for n in names)
        if lead: args = (c.co_lnotab,) + args
        data = b'\x80\x03cdill._dill\n_create_code\n' + pickle.dumps(args, protocol)[2:-1] + b'R.'
        new = tolerant_loads(data, {})
        if type(new) is not types.CodeType: raise Violation('not a code object: %r' % (new,))
        want = dict(vals)
        want.pop('lnotab', None); want.pop('endlinetable', None); want.pop('columntable', None)
        want.setdefault('posonlyargcount', 0)
        want.setdefault('qualname', c.co_name)
        want.setdefault('exceptiontable', b'')
        want.setdefault('linetable', b'')
        for n, v in want.items():
            got = getattr(new, 'co_' + n)
            if vdesc.describe(got) != vdesc.describe(v): raise Violation('layout %s: co_%s is %r, stored was %r' % (layout, n, got, v))
    return True
