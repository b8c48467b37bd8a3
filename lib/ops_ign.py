"""C20: the ignore option."""
import sys, io, warnings, types
import dill
from dill.settings import settings
import vdesc, vlib
from ops import run_src, main_ns, GenError, opts_of
from vlib import Violation

def names_of(cls):
    n = []
    for c in cls.__mro__:
        s = c.__dict__.get('__slots__', ())
        for x in ((s,) if isinstance(s, str) else s):
            if x in ('__dict__', '__weakref__'): continue
            if x.startswith('__') and not x.endswith('__'): x = '_' + c.__name__.lstrip('_') + x
            n.append((c, x))
    return n

def raw_state(o, skip=()):
    """Everything stored in an object, looked up behind its hooks; inner objects as they are."""
    out = {}
    try: d = object.__getattribute__(o, '__dict__')
    except AttributeError: d = None
    if isinstance(o, type): d = {k: v for k, v in type.__dict__['__dict__'].__get__(o).items() if k not in ('__dict__', '__weakref__', '__slotnames__')}
    if d is not None: out['dict'] = list(dict.items(d))
    if not isinstance(o, type):
        for c, x in names_of(type(o)):
            try: out['slot ' + x] = c.__dict__[x].__get__(o)
            except AttributeError: out['slot ' + x] = 'unset'
    for base in (list, tuple, set, frozenset):
        if isinstance(o, base): out['items'] = list(base.__iter__(o))
    if isinstance(o, dict): out['pairs'] = list(dict.items(o))
    for base in (int, str, float, bytes):
        if isinstance(o, base): out['value'] = (base.__repr__(o))
    if isinstance(o, BaseException): out['args'] = BaseException.args.__get__(o)
    def mark(v):
        if v is o: return '<itself>'
        if type(v) is list and any(x is o for x in v): return [mark(x) for x in v]
        if type(v) is tuple and len(v) == 2: return tuple(mark(x) for x in v)
        return v
    return {k: [mark(x) for x in v] if type(v) is list else mark(v) for k, v in out.items()}

def ignore(v1, v2, opts, how, value, setting=None):
    warnings.simplefilter('ignore')
    main = main_ns()
    pristine = dict(main)
    run_src(v1, main, 'version 1')
    orig = main['OBJ']
    same = v2 is None
    data = dill.dumps(orig, **opts_of(opts))
    if not same:
        for k in list(main):
            if k not in pristine: del main[k]
        run_src(v2, main, 'version 2')
    before = dict(main)
    m = sys.modules['__main__']
    def get(val, how):
        if how == 'loads': return dill.loads(data, ignore=val)
        if how == 'load': return dill.load(io.BytesIO(data), ignore=val)
        if how == 'unpickler': return dill.Unpickler(io.BytesIO(data), ignore=val).load()
        if how == 'copy' and same: return dill.copy(orig, ignore=val, **opts_of(opts))
        old = settings['ignore']
        settings['ignore'] = val
        try: return dill.loads(data) if how != 'settings_none' else dill.loads(data, ignore=None)
        finally: settings['ignore'] = old
    def attempt(val, how):
        old = settings['ignore']
        if setting is not None: settings['ignore'] = setting     # an argument goes before it
        try: return get(val, how)
        except Exception as e: raise Violation('loading with ignore=%r (%s) raised %r' % (val, how, e))
        finally: settings['ignore'] = old
    kept = attempt(True, how)
    twin = attempt(True, 'loads')
    got = attempt(value, how)
    if set(main) != set(before) or any(main[k] is not before[k] for k in before): raise Violation('loading changed the main script')
    K = type(kept)
    # the stored class: rebuilt, or found by name when stored by reference
    a, b, c = raw_state(kept), raw_state(got), raw_state(twin)
    da, db = vdesc.describe(a), vdesc.describe(b)
    want = K
    is_main = K.__module__ == '__main__'
    label = 'not a class of main'
    if is_main:
        x = m.__dict__.get(K.__qualname__.split('.')[0], None)
        found = K.__qualname__.split('.')[0] in m.__dict__
        for p in K.__qualname__.split('.')[1:]:
            if found and p in getattr(x, '__dict__', {}): x = x.__dict__[p]
            else: found = False
        if not found: label = 'absent'
        elif not isinstance(x, type): label = 'not a class'
        else:
            try:
                (type if isinstance(twin, type) else object).__setattr__(twin, '__class__', x)
                want, label = x, 'compatible'
            except TypeError: label = 'incompatible'
            if x is K: label = 'by reference'
    if 'v' in K.__dict__ and not (same and label == 'by reference') and K.__dict__['v'] != 0: raise Violation('with ignore=True the class is not the stored one but one with v = %r' % (K.__dict__['v'],))
    if value:
        if type(got).__qualname__ != K.__qualname__: raise Violation('with ignore=True the class is %r, then %r' % (K, type(got)))
        if any(type(got) is v for v in before.values()) and label != 'by reference' and is_main: raise Violation('with ignore=True the object has the class of the main script')
        if raw_class_desc(type(got)) != raw_class_desc(K): raise Violation('with ignore=True the stored class came back differently')
    elif want is K:
        if type(got).__qualname__ != K.__qualname__ or raw_class_desc(type(got)) != raw_class_desc(K): raise Violation('with ignore=False the class is %r instead of the stored one (%s in the main script)' % (type(got), label))
    elif type(got) is not want: raise Violation('with ignore=False the class is %r (%#x) instead of that of the main script, %r (%#x)' % (type(got), id(type(got)), want, id(want)))
    if da != db: raise Violation('the state differs between ignore=True and ignore=%r: %s' % (value, vdesc.first_diff(da, db)))
    return label

def raw_class_desc(c):
    return sorted(k for k in c.__dict__ if k not in ('__slotnames__',)), [b.__qualname__ for b in c.__mro__]
