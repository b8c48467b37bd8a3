"""Canonical descriptions of Python object graphs, written without any help from dill.

describe(root) returns JSON data: a list of nodes in the order in which they are met.  Two graphs
have equal descriptions exactly if they have the same types, the same contents in the same order,
the same sharing and the same cycles.  Things found by name in an imported module are described as
references; things of the main script (or found under no name) are described by their anatomy.
"""
import sys, types, gc, functools, operator, collections, weakref, threading, dis, array, abc, random, builtins

MISSING = '<missing>'
_dead = '<dead>'

def atom(o):
    """Text for immutable leaf values, None for anything else."""
    t = type(o)
    if o is None or o is Ellipsis or o is NotImplemented: return repr(o)
    if t is bool: return 'bool:%s' % o
    if t is int: return 'int:%x' % o
    if t is float: return 'float:nan' if o != o else 'float:' + o.hex()
    if t is complex: return 'complex:%s,%s' % (atom(o.real), atom(o.imag))
    if t is str: return 'str:' + o
    if t is bytes: return 'bytes:' + o.hex()
    return None

def resolve(mod, qual):
    m = sys.modules.get(mod)
    if m is None: return MISSING
    o = m
    for part in qual.split('.'):
        try:
            d = object.__getattribute__(o, '__dict__')
            o = d[part] if part in d else getattr(o, part)
        except Exception:
            return MISSING
    return o

def sortkey(o, depth=3):
    a = atom(o)
    if a is not None: return a
    t = type(o)
    if t is range: return repr(o)
    if t is tuple: return 't(' + ','.join(sortkey(x, depth-1) for x in o) + ')'
    if t is frozenset: return 'fs(' + ','.join(sorted(sortkey(x, depth-1) for x in o)) + ')'
    if isinstance(o, type) or t in (types.FunctionType, types.BuiltinFunctionType):
        return 'q:%s.%s' % (o.__module__, o.__qualname__)
    tn = 'o:%s.%s' % (t.__module__, t.__qualname__)
    if depth <= 0: return tn
    try:
        d = object.__getattribute__(o, '__dict__')
        parts = ['%s=%s' % (k, atom(v)) for k, v in sorted(d.items()) if atom(v) is not None]
    except Exception:
        parts = []
    for c in t.__mro__:
        for k, v in vars(c).items():
            if type(v) is types.MemberDescriptorType and not issubclass(c, (types.SimpleNamespace,)) \
                    and c.__module__ != 'builtins':
                try: x = atom(v.__get__(o))
                except Exception: continue
                if x is not None: parts.append('%s=%s' % (k, x))
    if isinstance(o, (int, str, float, bytes, complex, tuple)):
        for b in (int, str, float, bytes, complex):
            if isinstance(o, b): parts.append(atom(b.__call__(o) if b is not str else str.__str__(o)) or '')
    elif tn in ('o:re.Pattern',) or t.__module__ in ('datetime', 'decimal', 'fractions', 'uuid', 'pathlib'):
        parts.append(repr(o))
    return tn + '{' + ','.join(parts) + '}'

# attributes of classes which the interpreter makes for itself
CLASS_SKIP = {'__dict__', '__weakref__', '_abc_impl', '__abstractmethods__', '__slotnames__'}
CODE_FIELDS = ('co_argcount', 'co_posonlyargcount', 'co_kwonlyargcount', 'co_nlocals', 'co_stacksize',
               'co_flags', 'co_code', 'co_names', 'co_varnames', 'co_filename', 'co_name', 'co_qualname',
               'co_firstlineno', 'co_linetable', 'co_exceptiontable', 'co_freevars', 'co_cellvars')

def global_names(code, seen=None):
    """Names which the code, or code nested in it, reads, writes or deletes as globals."""
    out = set()
    todo = [code]
    while todo:
        c = todo.pop()
        for ins in dis.get_instructions(c):
            if ins.opname in ('LOAD_GLOBAL', 'LOAD_NAME'):
                out.add(ins.argval)
        todo += [k for k in c.co_consts if type(k) is types.CodeType]
    return out

class Describer:
    def __init__(self, home=('__main__',), gmode='mod', classdict_order=True, code_names=True, own=None, ownrefs=(['own', 'mod'], ['own', 'dict'])):
        self.own = own                  # the module that the graph belongs to, when it is not in sys.modules
        self.ownrefs = ownrefs
        self.home = set(home)
        self.gmode = gmode
        self.nodes = []
        self.ids = {}
        self.keep = []
        self.todo = []
        self.objs = []

    # --- references
    def inline(self, o):
        """Immutable containers of leaves are values: their identity is not observable in a useful way."""
        a = atom(o)
        if a is not None: return a
        t = type(o)
        if t is tuple and len(o) <= 64:
            parts = []
            for x in o:
                p = self.inline_leaf(x, 3)
                if p is None: return None
                parts.append(p)
            return ['t'] + parts
        if t is frozenset: return self.inline_leaf(o, 3)
        return None

    def inline_leaf(self, o, depth):
        a = atom(o)
        if a is not None: return a
        if depth and type(o) is tuple and len(o) <= 64:
            parts = []
            for x in o:
                p = self.inline_leaf(x, depth-1)
                if p is None: return None
                parts.append(p)
            return ['t'] + parts
        if depth and t_frozen(o) and len(o) <= 64:
            parts = []
            for x in sorted(o, key=sortkey):
                p = self.inline_leaf(x, depth-1)
                if p is None: return None
                parts.append(p)
            return ['fs'] + parts
        return None

    def ref(self, o):
        v = self.inline(o)
        if v is not None: return v
        if type(o) in (weakref.ref, weakref.ProxyType, weakref.CallableProxyType):      # there is one per object
            self.keep.append(o)
            return self.EXACT[type(o)](self, o)
        r = self.byname(o)
        if r is not None: return r
        if type(type(o)).__name__ == '_DTypeMeta': return self.dtype_value(o)
        k = id(o)
        if k not in self.ids or type(o).__module__ == 'typing' and type(o).__name__.endswith('Alias'):   # typing keeps these in a cache: identity says nothing
            self.ids[k] = len(self.nodes)
            self.nodes.append(None)
            self.keep.append(o)
            self.todo.append(o)
        return ['n', self.ids[k]]

    def byname(self, o):
        t = type(o)
        if self.own is not None:
            if o is self.own: return self.ownrefs[0]
            if o is self.own.__dict__: return self.ownrefs[1]
        if isinstance(o, types.ModuleType):
            if sys.modules.get(o.__name__) is o: return ['mod', o.__name__]
            return None
        if t is dict:
            n = o.get('__name__')
            if type(n) is str:
                m = sys.modules.get(n)
                if m is not None and getattr(m, '__dict__', None) is o: return ['moddict', n]
            return None
        if isinstance(o, type) or t in (types.FunctionType, types.BuiltinFunctionType):
            if t is types.BuiltinFunctionType and o.__self__ is not None and not isinstance(o.__self__, types.ModuleType):
                return None
            mod, q = getattr(o, '__module__', None), getattr(o, '__qualname__', None)
            if type(mod) is str and type(q) is str and mod not in self.home and resolve(mod, q) is o:
                return ['ref', mod, q]
            if t is types.BuiltinFunctionType:
                return ['builtin', mod or getattr(o.__self__, '__name__', None), o.__name__]
            if isinstance(o, type) and mod == 'builtins': return ['ref', mod, q]
            if isinstance(o, type):
                for m in ('types', 'typing', 'collections', '_thread', 'threading', 'numpy'):
                    for k, v in list(vars(sys.modules.get(m, types)).items()):
                        if v is o: return ['ref', m, k]
        return None

    def items(self, d):
        return [[self.ref(k), self.ref(v)] for k, v in d]

    def run(self, root):
        r = self.ref(root)
        i = 0
        while i < len(self.todo):
            o = self.todo[i]
            self.nodes[i] = self.node(o)
            i += 1
        return [r] + self.nodes

    # --- nodes
    def setnode(self, o):
        return [self.ref(x) for x in sorted(set.__iter__(o) if isinstance(o, set) else frozenset.__iter__(o), key=sortkey)]

    def node(self, o):
        t = type(o)
        f = self.EXACT.get(t)
        if f is not None: return f(self, o)
        if isinstance(t, type) and issubclass(t, type): return self.klass(o)
        for m in MODULES:
            r = m(self, o)
            if r is not None: return r
        return self.instance(o)

    def n_list(self, o): return ['list'] + [self.ref(x) for x in o]
    def n_tuple(self, o): return ['tuple'] + [self.ref(x) for x in o]
    def n_dict(self, o): return ['dict'] + self.items(o.items())
    def n_set(self, o): return ['set'] + self.setnode(o)
    def n_frozenset(self, o): return ['frozenset'] + self.setnode(o)
    def n_bytearray(self, o): return ['bytearray', o.hex()]
    def n_slice(self, o): return ['slice', self.ref(o.start), self.ref(o.stop), self.ref(o.step)]
    def n_range(self, o): return ['range', self.ref(o.start), self.ref(o.stop), self.ref(o.step)]
    def n_cell(self, o):
        try: v = o.cell_contents
        except ValueError: return ['cell', 'EMPTY']
        return ['cell', self.ref(v)]
    def n_code(self, o):
        out = ['code']
        for f in CODE_FIELDS: out.append([f, self.ref(getattr(o, f))])
        out.append(['co_consts', [self.ref(x) for x in o.co_consts]])
        out.append(['positions', [list(p) for p in o.co_positions()]])
        return out
    def n_function(self, o):
        out = ['function', ['name', self.ref(o.__name__)], ['qualname', self.ref(o.__qualname__)],
               ['module', self.ref(o.__module__)], ['doc', self.ref(o.__doc__)],
               ['code', self.ref(o.__code__)],
               ['defaults', None if o.__defaults__ is None else [self.ref(x) for x in o.__defaults__]],
               ['kwdefaults', None if o.__kwdefaults__ is None else self.items(o.__kwdefaults__.items())],
               ['annotations', self.items(o.__annotations__.items())],
               ['dict', self.items(o.__dict__.items())],
               ['closure', None if o.__closure__ is None else [self.ref(c) for c in o.__closure__]]]
        if getattr(o, '__type_params__', ()):
            out.append(['type_params', [self.ref(x) for x in o.__type_params__]])
        out.append(['globals', self.globs(o)])
        return out
    def globs(self, o):
        g = o.__globals__
        if self.own is not None and g is self.own.__dict__: return self.ownrefs[1]
        m = sys.modules.get(o.__module__)
        # a wrapper made in one module that carries the __module__ of another: dill gives it a copy of the globals
        if self.gmode == 'names' or self.gmode == 'mod' and (g.get('__name__') != o.__module__ or m is not None and m.__dict__ is not g):
            out = []
            for n in sorted(global_names(o.__code__)):
                if n in g and g[n] is not getattr(builtins, n, MISSING): out.append([n, self.ref(g[n])])
            return out
        if self.gmode == 'none': return None
        r = self.byname(g)
        if r is not None: return r
        n = g.get('__name__')
        return ['dict', [[self.ref(k), self.ref(v)] for k, v in sorted(g.items(), key=lambda i: str(i[0])) if k != '__builtins__']]
    def n_method(self, o): return ['method', self.ref(o.__func__), self.ref(o.__self__)]
    def n_builtin(self, o): return ['bmeth', self.ref(o.__self__), o.__name__]
    def n_mwrapper(self, o): return ['mwrap', self.ref(o.__self__), o.__name__]
    def n_descr(self, o): return ['descr', type(o).__name__, self.ref(o.__objclass__), o.__name__]
    def n_partial(self, o):
        return ['partial', self.ref(type(o)), self.ref(o.func), [self.ref(x) for x in o.args], self.items(o.keywords.items()), self.ref(dict(o.__dict__)) if o.__dict__ else None]
    def n_lru(self, o):
        return ['lru', self.ref(o.__wrapped__), self.ref((o.cache_info().maxsize, o.cache_parameters()['typed']))]
    def n_property(self, o): return ['property', self.ref(o.fget), self.ref(o.fset), self.ref(o.fdel), self.ref(o.__doc__)]
    def n_static(self, o): return [type(o).__name__, self.ref(o.__func__)]
    def n_mproxy(self, o):
        ref = gc.get_referents(o)
        return ['mappingproxy', self.ref(ref[0])] if ref else ['mappingproxy', self.ref(dict(o))]
    def n_view(self, o):
        return ['view', t_name(o), self.ref(gc.get_referents(o)[0])]
    def n_super(self, o): return ['super', self.ref(o.__thisclass__), self.ref(o.__self__), self.ref(o.__self_class__)]
    def n_weakref(self, o):
        x = o()
        return ['weakref', t_name(o), _dead if x is None else self.ref(x)]
    def n_weakproxy(self, o):
        t = repr(o).rstrip('>').split(' to ')[-1].split(' at ')
        if t[0] == 'NoneType' or '; dead' in repr(o): return ['weakproxy', t_name(o), _dead]
        import ctypes
        return ['weakproxy', t_name(o), self.ref(ctypes.cast(int(t[-1], 16), ctypes.py_object).value)]
    def n_lock(self, o): return ['lock', o.locked()]
    def n_rlock(self, o): return ['rlock', o._recursion_count() if hasattr(o, '_recursion_count') else repr(o).split('count=')[1].split()[0], o._is_owned()]
    def n_module(self, o): return ['module', o.__name__, [[self.ref(k), self.ref(v)] for k, v in sorted(o.__dict__.items()) if k not in ('__builtins__',)]]
    def n_alias(self, o): return ['alias', self.ref(o.__origin__), [self.ref(a) for a in o.__args__], bool(getattr(o, '__unpacked__', False))]
    def n_union(self, o): return ['union', [self.ref(a) for a in o.__args__]]
    def n_pattern(self, o): return ['pattern', self.ref(o.pattern), o.flags]
    def n_deque(self, o): return ['deque', self.ref(o.maxlen)] + [self.ref(x) for x in o]
    def n_odict(self, o): return ['odict'] + self.items(o.items())
    def n_defaultdict(self, o): return ['defaultdict', self.ref(o.default_factory)] + self.items(o.items())
    def n_array(self, o): return ['array', o.typecode, o.tobytes().hex()]
    def n_simplens(self, o): return ['ns'] + self.items(o.__dict__.items())
    def n_weakset(self, o): return ['weakset'] + [self.ref(x) for x in sorted(o, key=sortkey)]
    def n_weakval(self, o): return ['weakval'] + self.items(sorted(o.items(), key=lambda i: sortkey(i[0])))
    def n_weakkey(self, o): return ['weakkey'] + self.items(sorted(o.items(), key=lambda i: sortkey(i[0])))

    def typing_obj(self, o):
        t = type(o)
        if t.__module__ != 'typing': return None
        if t.__name__ in ('TypeVar', 'ParamSpec', 'TypeVarTuple'):
            return ['typevar', t.__name__, o.__name__, o.__module__,
                    [self.ref(getattr(o, k, None)) for k in ('__bound__', '__constraints__', '__covariant__', '__contravariant__')]]
        if hasattr(o, '__origin__') and hasattr(o, '__args__'):
            return ['talias', t.__name__, getattr(o, '_name', None), self.ref(o.__origin__), [self.ref(a) for a in o.__args__],
                    [self.ref(a) for a in getattr(o, '__metadata__', ())]]
        return ['typing', t.__name__, repr(o)]

    def numpy_obj(self, o):
        np = sys.modules.get('numpy')
        if np is None: return None
        t = type(o)
        if isinstance(o, np.ndarray):
            base = np.ndarray.view(o, np.ndarray)
            if base.dtype.names is None and not base.dtype.isnative: base = base.astype(base.dtype.newbyteorder('='))   # NumPy loads these in native order
            out = ['ndarray', self.ref(t), self.ref(base.dtype), list(o.shape),
                   'F' if o.flags.f_contiguous and not o.flags.c_contiguous else 'C']       # pickles of others are C
            if o.dtype.hasobject: out.append([self.ref(x) for x in base.ravel('C').tolist()])
            elif base.dtype.names is not None or base.dtype.char in 'gG': out.append(repr(base.ravel('C').tolist()))    # the bytes between the fields are undefined
            elif base.dtype.kind == 'T': out.append([self.ref(x) for x in base.ravel('C').tolist()])
            else: out.append(base.tobytes('C').hex())
            d = getattr(o, '__dict__', None) or {}
            if 'numpy.ma' in sys.modules and isinstance(o, np.ma.MaskedArray):
                if o is np.ma.masked: return ['masked']
                out = ['ma', self.ref(t), self.ref(np.asarray(o.data)), repr(np.ma.getmaskarray(o).tolist()), repr(o.fill_value)]
                d = {k: v for k, v in d.items() if k not in np.ma.array([1]).__dict__}
            if d: out.append(self.items(d.items()))
            return out
        if isinstance(o, np.dtype): return self.dtype_value(o)
        if isinstance(o, np.generic):
            return ['npscalar', t.__name__, repr(o.dtype), self.ref(o.item()) if o.dtype.hasobject else repr(o) if o.dtype.char in 'gG' or o.dtype.names is not None else o.tobytes().hex()]
        if isinstance(o, np.ufunc): return ['ufunc', o.__name__, o.nin, o.nout, o is getattr(np, o.__name__, None)]
        return None

    def dtype_value(self, o):
        out = ['dtype', type(o).__name__, repr(o), o.itemsize, o.alignment, o.isalignedstruct, o.byteorder if o.byteorder != '=' else '<',
               [[repr(k), self.inline(v) or repr(v)] for k, v in sorted(o.metadata.items())] if o.metadata else None]
        if o.names is not None: out.append([[n, self.dtype_value(o.fields[n][0]), o.fields[n][1], repr(o.fields[n][2:])] for n in o.names])
        if o.subdtype is not None: out.append([self.dtype_value(o.subdtype[0]), list(o.subdtype[1])])
        return out

    def klass(self, c):
        out = ['class', ['name', c.__name__], ['qualname', c.__qualname__], ['module', self.ref(c.__dict__.get('__module__', MISSING))],
               ['meta', self.ref(type(c))], ['bases', [self.ref(b) for b in c.__bases__]]]
        own = type.__dict__['__dict__'].__get__(c)
        ents = []
        for k in sorted(own, key=str):
            v = own[k]
            if k in CLASS_SKIP or k in ('__module__', '__qualname__'): continue
            if type(v) is types.GetSetDescriptorType and k in ('__dict__', '__weakref__'): continue
            if type(v) is types.MemberDescriptorType and v.__objclass__ is c:
                ents.append([k, ['slot']])
                continue
            if k == '__new__' and '_fields' in own and c.__bases__ == (tuple,):
                f = getattr(v, '__func__', v)        # generated by namedtuple(); its annotations and globals are not kept
                ents.append([k, [list(f.__code__.co_varnames), None if not f.__defaults__ else [self.ref(x) for x in f.__defaults__]]])
                continue
            ents.append([k, self.ref(v)])
        out.append(['own', ents])
        out.append(['dictoffset', c.__dictoffset__ != 0, c.__weakrefoffset__ != 0])
        if isinstance(c, abc.ABCMeta):
            out.append(['abstract', sorted(c.__dict__.get('__abstractmethods__', ()))])
            try:
                reg = abc._get_dump(c)[0]
            except Exception:
                reg = ()
            live = [x for x in (r() for r in reg) if x is not None]
            live = [x for x in live if not any(y is not x and y in type.mro(x) for y in live)]   # implied ones may be left out
            out.append(['virtual', [self.ref(x) for x in sorted([x for x in live if x is not None], key=sortkey)]])
        if getattr(c, '__type_params__', ()) and '__type_params__' in own:
            pass
        return out

    def instance(self, o):
        t = type(o)
        out = ['obj', self.ref(t)]
        handled = True
        if isinstance(o, collections.OrderedDict): out.append(['odict'] + self.items(collections.OrderedDict.items(o)))
        elif isinstance(o, collections.defaultdict): out.append(['defaultdict', self.ref(o.default_factory)] + self.items(dict.items(o)))
        elif isinstance(o, dict): out.append(['dict'] + self.items(dict.items(o)))
        elif isinstance(o, list): out.append(['list'] + [self.ref(x) for x in list.__iter__(o)])
        elif isinstance(o, tuple): out.append(['tuple'] + [self.ref(x) for x in tuple.__iter__(o)])
        elif isinstance(o, (set, frozenset)): out.append(['set'] + self.setnode(o))
        elif isinstance(o, collections.deque): out.append(['deque', self.ref(o.maxlen)] + [self.ref(x) for x in collections.deque.__iter__(o)])
        elif isinstance(o, bool): out.append(atom(bool(o)))
        elif isinstance(o, int): out.append(atom(int.__int__(o)))
        elif isinstance(o, float): out.append(atom(float.__float__(o)))
        elif isinstance(o, complex): out.append(atom(complex.__complex__(o)))
        elif isinstance(o, str): out.append(atom(str.__str__(o)))
        elif isinstance(o, bytes): out.append(atom(bytes.__getitem__(o, slice(None))))
        elif isinstance(o, bytearray): out.append(bytes(bytearray.__getitem__(o, slice(None))).hex())
        elif isinstance(o, array.array): out.append([o.typecode, array.array.tobytes(o).hex()])
        elif isinstance(o, BaseException): out.append([self.ref(x) for x in o.args])
        elif isinstance(o, functools.partial):
            out.append([self.ref(o.func), [self.ref(x) for x in o.args], self.items(o.keywords.items())])
        elif isinstance(o, property): out.append(self.n_property(o))
        elif isinstance(o, (staticmethod, classmethod)): out.append(self.ref(o.__func__))
        elif isinstance(o, weakref.ref): out.append(self.n_weakref(o))
        elif isinstance(o, types.ModuleType): return self.n_module(o)
        else: handled = False
        if t.__module__ == 'pathlib': return out + [repr(o)]
        if isinstance(o, random.Random): out.append(repr(o.getstate()))
        slots = []
        for c in t.__mro__:
            if c.__module__ in ('builtins', 'types') and not c.__flags__ & (1 << 9): continue
            for k, v in c.__dict__.items():
                if type(v) is types.MemberDescriptorType and k not in ('__weakref__', '__dict__') and c.__flags__ & (1 << 9):
                    try: slots.append([c.__qualname__, k, self.ref(v.__get__(o))])
                    except AttributeError: slots.append([c.__qualname__, k, MISSING])
        slots.sort(key=lambda s: (s[0], s[1]))
        d = None
        try: d = object.__getattribute__(o, '__dict__')
        except Exception: pass
        if type(d) is not dict: d = None
        heap_py = bool(slots) or d is not None or any(isinstance(c.__dict__.get('__module__'), str) and c.__flags__ & (1 << 9) and c.__dictoffset__ for c in t.__mro__)
        if not handled and (t.__flags__ & (1 << 9) == 0 or not (heap_py or '__slots__' in t.__dict__)):
            red = None
            try:
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    if type(o).__reduce_ex__ is not object.__reduce_ex__ or type(o).__reduce__ is not object.__reduce__:
                        red = o.__reduce_ex__(2)
            except Exception:
                red = None
            if type(red) is str: out.append(['reduce', red])
            elif type(red) is tuple:
                self.keep.append(red)
                lst = [self.ref(red[0]), [self.ref(x) for x in red[1]]]
                if len(red) > 2: lst.append(self.ref(red[2]) if type(red[2]) is not dict else self.items(red[2].items()))
                if len(red) > 3 and red[3] is not None: lst.append([self.ref(x) for x in red[3]])
                if len(red) > 4 and red[4] is not None: lst.append(self.items(list(red[4])))
                out.append(['reduce', lst])
            elif t is not object:
                out.append(['opaque'])
        if d is not None: out.append(['dict'] + self.items(d.items()))
        if slots: out.append(['slots'] + slots)
        return out

def t_frozen(o): return type(o) is frozenset
def t_name(o):
    return type(o).__name__

D = Describer
Describer.EXACT = {
    list: D.n_list, tuple: D.n_tuple, dict: D.n_dict, set: D.n_set, frozenset: D.n_frozenset,
    bytearray: D.n_bytearray, slice: D.n_slice, range: D.n_range, types.CellType: D.n_cell,
    types.CodeType: D.n_code, types.FunctionType: D.n_function, types.MethodType: D.n_method,
    types.BuiltinFunctionType: D.n_builtin, types.MethodWrapperType: D.n_mwrapper,
    types.WrapperDescriptorType: D.n_descr, types.MethodDescriptorType: D.n_descr,
    types.ClassMethodDescriptorType: D.n_descr,
    types.GetSetDescriptorType: D.n_descr, types.MemberDescriptorType: D.n_descr,
    functools.partial: D.n_partial, type(functools.lru_cache()(len)): D.n_lru,
    property: D.n_property, staticmethod: D.n_static, classmethod: D.n_static,
    types.MappingProxyType: D.n_mproxy, type({}.keys()): D.n_view, type({}.values()): D.n_view,
    type({}.items()): D.n_view, super: D.n_super, weakref.ref: D.n_weakref,
    type(collections.OrderedDict().keys()): D.n_view, type(collections.OrderedDict().values()): D.n_view,
    type(collections.OrderedDict().items()): D.n_view,
    weakref.ProxyType: D.n_weakproxy, weakref.CallableProxyType: D.n_weakproxy,
    type(threading.Lock()): D.n_lock, type(threading.RLock()): D.n_rlock,
    types.ModuleType: D.n_module, types.GenericAlias: D.n_alias, types.UnionType: D.n_union,
    type(__import__('re').compile('')): D.n_pattern, collections.deque: D.n_deque,
    collections.OrderedDict: D.n_odict, collections.defaultdict: D.n_defaultdict, array.array: D.n_array,
    types.SimpleNamespace: D.n_simplens, weakref.WeakSet: D.n_weakset,
    weakref.WeakValueDictionary: D.n_weakval, weakref.WeakKeyDictionary: D.n_weakkey,
}
MODULES = (Describer.typing_obj, Describer.numpy_obj)

def describe(o, **kw):
    return Describer(**kw).run(o)

def first_diff(a, b):
    """A short account of the first place at which two descriptions differ."""
    def short(x):
        s = repr(x)
        return s if len(s) < 300 else s[:140] + ' ... ' + s[-140:]
    def walk(x, y, path):
        if x == y: return None
        if type(x) is list and type(y) is list:
            for i, (p, q) in enumerate(zip(x, y)):
                r = walk(p, q, path + [i])
                if r: return r
            return '%s: lengths %d and %d: %s / %s' % (path, len(x), len(y), short(x), short(y))
        return '%s: %s / %s' % (path, short(x), short(y))
    return walk(a, b, []) or 'equal'
