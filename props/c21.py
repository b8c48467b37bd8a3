from hypothesis import strategies as st
from gen import B, opts
from driver import Skip, Violation
from props.c17 import SRCS
from props import c09
import vdesc, os

WHEEL = '/opt/veriftools/wheels/dill-0.4.1-py3-none-any.whl'
BUDGET = {'quick': dict(cases=2600, seconds=240), 'thorough': dict(cases=40000, seconds=800)}
RULE = ('A case is a graph from the generators of C01, C02, C03, C05, C06, C07, C10, C11 or C13, or of locks, handles and buffers, stored by the released dill 0.4.1 in a process of its own; or a hand-made pickle that calls the historical helpers (28 names, every argument layout, under dill._dill and under the older dill.dill) or names every type of the type map; or a session of 0.4.1. '
        'It is loaded by 0.4.1 and by the current tree, each in a fresh process; the two objects must have the same description, unless the current tree restores the original and 0.4.1 did not. Non-trivial: more than 150 bytes, or a helper call.')
ASSUMPTIONS = ['what 0.4.1 itself cannot load, or does not restore, is not covered']

VAL = ['1', '"s"', '[1, [2]]', '{"a": 1}', 'None', '(1, 2)', '2.5', 'True', 'b"xy"']
CODE = ['code("def f(a, b=1): return a")', 'code("def f(*a, k=2, **kw):\\n    return [a, k, kw]")', 'code("def f(x):\\n    try: return 1 // x\\n    except ZeroDivisionError: return len")', 'code("def f():\\n    yield glob")', 'code("async def f(): return 1")', 'code("def f(a, /, b): return a + b")']
def glob(b): return b.choice(['{}', '{"__name__": "gm"}', '{"glob": 5, "__builtins__": Name("builtins", "__dict__")}', '{"glob": [1]}', '{"__name__": "__main__"}'])
def helper(b):
    v = lambda: b.choice(VAL)
    name = lambda m, n: 'Name(%r, %r)' % (m, n)
    k = b.choice(['type', 'func', 'func', 'func2', 'code', 'cell', 'lock', 'rlock', 'wref', 'wproxy', 'stringi', 'stringo', 'evalrepr', 'array', 'nt', 'ctype', 'ftype', 'typing', 'getattr', 'get_attr', 'import', 'file', 'setitems', 'unmarshal', 'none', 'shim', 'celldata', 'dtype', 'mproxy', 'getattr2', 'main', 'module', 'method', 'partial', 'capsule'])
    if k == 'type': e = 'Call("_load_type", [%r])' % b.choice(TYPES)
    elif k == 'func':
        n = b.int(2, 7)
        args = [b.choice(CODE), glob(b), b.choice(['None', '"f"', '"other"']), b.choice(['None', '(1,)', '(None,)', '()']), 'None', b.choice(['None', '{}', '{"attr": 1}', '{"__module__": "mm"}']), b.choice(['None', '{"k": 3}', '{}'])][:n]
        e = 'Call("_create_function", [%s])' % ', '.join(args)
    elif k == 'func2':
        c = 'code("def o():\\n    x = 1\\n    def f(): return x\\n    return f").args[7][2]' if False else 'code("def f(): return 4")'
        st = b.choice(['(None, {"__doc__": "d"})', '({"a": 1}, {})', '(None, {"__qualname__": "A.f", "__module__": "mm", "__annotations__": {"a": 1}})', '({"z": [1]}, {"__kwdefaults__": {"k": 1}, "__defaults__": (1,)})', '{"p": 1}', '(None, {})'])
        e = 'Call("_create_function", [%s, %s, "f", None, None], %s)' % (c, glob(b), st)
    elif k == 'code': e = b.choice(CODE)
    elif k == 'cell': e = 'Call("_create_cell", [%s])' % b.choice(['', v(), 'Name("dill._dill", "_CELL_REF")'])
    elif k == 'celldata': e = 'Call("_create_cell", [%s], %s)' % (b.choice(['None', '5']), b.choice(['(None, {"cell_contents": 7})', '(None, {"cell_contents": [1]})', '{"cell_contents": 7}']))
    elif k == 'lock': e = 'Call("_create_lock", [%s])' % b.choice(['True', 'False', 'True, 1', 'False, True, 2', '0', '1'])
    elif k == 'rlock': e = 'Call("_create_rlock", [%s])' % b.choice(['0, 0', '0, 0, True', '0, None', '0, 5', '1, 99', '2, 3, 4'])
    elif k == 'wref': e = 'Call("_create_weakref", [%s])' % b.choice(['None', name('builtins', 'int'), name('collections', 'OrderedDict'), 'None, 1', name('builtins', 'set') + ', None'])
    elif k == 'wproxy': e = 'Call("_create_weakproxy", [%s])' % b.choice(['None', 'None, True', 'None, False, 1', name('collections', 'OrderedDict') + ', True', name('json', 'JSONDecoder') + ', True', name('re', 'purge') + ', True, 1', name('re', 'purge')])
    elif k == 'stringi': e = 'Call("_create_stringi", [%s, %d, %s])' % (b.choice(['b"abc"', 'b""', '"abc"', 'b"a\\nb"']), b.int(0, 4), b.choice(['True', 'False', '0']))
    elif k == 'stringo': e = 'Call("_create_stringo", [%s, %d, %s])' % (b.choice(['b"abc"', 'b""', '"abc"']), b.int(0, 4), b.choice(['True', 'False']))
    elif k == 'evalrepr': e = 'Call("_eval_repr", [%r])' % b.choice(['1', '[1, 2]', 'int', 'len', '"a".join', 'slice(1, 2)', 'bad name', 'range(3)'])
    elif k == 'array': e = 'Call("_create_array", [%s, %s, %s%s])' % (name('numpy.core.multiarray', '_reconstruct'), '(%s, (0,), b"b")' % name('numpy', 'ndarray'), '(1, (2,), Name("builtins", "dict"), False, b"ab")'.replace('Name("builtins", "dict")', b.choice(['Call(("numpy", "dtype"), ["i1"])', 'Call(("numpy", "dtype"), ["u1"])'])), b.choice(['', ', None', ', {}', ', {"extra": 1}']))
    elif k == 'nt': e = 'Call("_create_namedtuple", [%s])' % b.choice(['"Nt", ("a", "b"), "mm"', '"Nt", ("a", "b"), "mm", (1,)', '"Nt", (), "__main__"', '"Nt", ["a"], "mm", [5]', '"Match", ("a", "b", "size"), "difflib"', '"Nt", ("_1", "b"), "mm"', '"Nt", ("a",), "mm", None', '"Nt", ("a", "b"), None', '"Nt", "a b", "mm"'])
    elif k == 'ctype': e = 'Call("_create_type", [%s, %s, (%s,), %s])' % (name('builtins', 'type'), b.choice(['"Cl"', '"Other"']), b.choice([name('builtins', 'object'), name('builtins', 'list'), name('collections', 'OrderedDict')]), b.choice(['{}', '{"a": 1, "__module__": "mm"}', '{"__doc__": "d", "f": %s}' % 'Call("_create_function", [%s, {}, "f"])' % CODE[0], '{"__slots__": ("s",)}', '{"__module__": "__main__", "__qualname__": "O.Cl"}']))
    elif k == 'ftype': e = 'Call("_create_ftype", [%s, %s, %s, %s])' % (name('functools', 'partial'), name('builtins', 'print'), b.choice(['()', '(1, 2)']), b.choice(['{}', '{"sep": ""}']))
    elif k == 'typing': e = 'Call("_create_typing_tuple", [%s])' % b.choice(['()', '(%s,)' % name('builtins', 'int'), '(%s, %s)' % (name('builtins', 'int'), name('builtins', 'str')), '((),)'])
    elif k == 'getattr': e = 'Call("_getattr", [%s])' % b.choice([name('builtins', 'dict') + ', "keys", "<method>"', name('builtins', 'list') + ', "append", "x"', name('builtins', 'int') + ', "real", "<attribute>"', name('builtins', 'dict') + ', "nokey", "1 + 1"', name('builtins', 'dict') + ', "__dict__", "d"'])
    elif k == 'getattr2': e = 'Call(("builtins", "getattr"), [%s])' % b.choice([name('builtins', 'dict') + ', "fromkeys"', name('builtins', 'str') + ', "join"', '"x", "join"', '[1], "append"'])
    elif k == 'get_attr': e = 'Call("_get_attr", [%s])' % b.choice([name('collections', 'OrderedDict') + ', "move_to_end"', 'Call("_import_module", ["json"]), "loads"', '[], "append"', '{"__name__": 1}, "keys"'])
    elif k == 'import': e = 'Call("_import_module", [%s])' % b.choice(['"json"', '"os.path"', '"json.decoder"', '"json.decoder.JSONDecoder"', '"nosuch", True', '"nosuch.sub", True', '"nosuch"', '"collections.OrderedDict"', '"collections.abc"', '"__main__"', '"math", False', '"xml.dom.minidom"', '"datetime.datetime"', '"pprint.pprint", True', '"builtins.int"', '"__runtime__.mm"', '"json.nothing", True', '"concurrent.futures.thread"', '"email.mime.text.MIMEText"'])
    elif k == 'file': e = 'Call("_create_filehandle", [%r, %r, %d, %s, %s, %s, %d, %s])' % (b.choice(['f1', 'f2', 'missing']), b.choice(['r', 'w', 'a', 'r+', 'rb', 'w+', 'ab']), b.int(0, 12), b.choice(['False', 'False', 'True']), name('io', 'open'), b.choice(['False', 'False', 'True']), b.int(0, 2), b.choice(['None', '"new text"', '""']))
    elif k == 'setitems': e = '[Call("_setitems", [{}, %s]), 1]' % b.choice(['{}', '{"a": 1}', '{1: {2: 3}}'])
    elif k == 'unmarshal': e = 'Call("_unmarshal", [%r])' % __import__('marshal').dumps(b.choice([1, 'a', (1, 2), None]))
    elif k == 'none': e = b.choice(['[Name("__builtin__", "NoneType")]', 'Name("types", "NoneType")', '[Name("__builtin__", "NoneType"), Name("enum", "EnumMeta"), Name("threading", "ExceptHookArgs")]', 'Call(("builtins", "type"), [NotImplemented])'.replace('NotImplemented', name('builtins', 'NotImplemented')), 'Call(("builtins", "type"), [%s])' % name('builtins', 'Ellipsis')])
    elif k == 'shim': e = b.choice(['Name("dill._dill", "_CELL_REF")', 'Name("dill._dill", "_CELL_EMPTY")', 'Name("dill._dill", "_setattr")', 'Name("dill._dill", "_delattr")', 'Name("dill._dill", "_getattribute")', 'Name("dill._shims", "_import_module")', 'Call(("dill._shims", "_import_module"), ["json"])', 'Call("_getattribute", [%s, "a.b"])' % name('builtins', 'int'), 'Call("_getattribute", [%s, "keys"])' % name('builtins', 'dict')])
    elif k == 'dtype': e = b.choice(['Call("_create_dtypemeta", [%s])' % name('numpy', 'int8'), 'Call("_create_dtypemeta", [%s])' % name('numpy', 'str_'), 'Call("_create_dtypemeta", [None])'])
    elif k == 'mproxy': e = b.choice(['Call(("types", "MappingProxyType"), [{1: 2}])', 'Call("DictProxyType", [{1: 2}])'])
    elif k == 'main': e = b.choice(['[Name("__builtin__", "__main__"), 1]'])
    elif k == 'module': e = 'Call("_import_module", [%s], %s)' % (b.choice(['"json"', '"zipapp"', '"__runtime__.mm"', '"__main__"']), b.choice(['{"extra": 1}', '{}', '{"a": [1], "__doc__": "d"}']))
    elif k == 'method': e = 'Call(%s, [%s, %s])' % (b.choice(['"MethodType"', '("types", "MethodType")']), name('builtins', 'print'), v())
    elif k == 'partial': e = 'Call(("functools", "partial"), [%s], (%s, (1,), {}, None))' % (name('builtins', 'print'), name('builtins', 'print'))
    else: e = 'Call("_create_capsule", [None, None, None, None])'
    if b.chance(25): e = '[%s, %s]' % (v(), e)
    return k, e
TYPES = []
LOCKS = '''
import threading, io, types, json, queue, os, tempfile
def hold(l, n=1):
    for _ in range(n): l.acquire()
    return l
class K:
    def __init__(self, x): self.x = x
'''
@st.composite
def strat(draw):
    b = B(draw)
    kind = b.weighted([(10, 'graph'), (6, 'helper'), (1, 'misc'), (1, 'types'), (2, 'session')])
    if kind == 'graph':
        g = b.choice(sorted(SRCS)); case = draw(SRCS[g]())
        if 'np.random' in case['src']: g = 'c01'; case = draw(SRCS[g]())     # its description holds an address
        return dict(kind=kind, gen=g, src=case['src'], opts=case['opts'], modules=case.get('modules'), where=case.get('ns', 'main') if case.get('ns') in ('main', 'fake') else 'main')
    if kind == 'helper':
        k, e = helper(b)
        return dict(kind=kind, which=k, expr=e, modname=b.choice(['dill._dill', 'dill._dill', 'dill.dill']), protocol=b.int(2, 3))
    if kind == 'types': return dict(kind=kind, modname=b.choice(['dill._dill', 'dill.dill']), protocol=b.int(0, 3))
    if kind == 'misc':
        xs = [b.choice(['threading.Lock()', 'hold(threading.Lock())', 'threading.RLock()', 'threading.Event()', 'threading.Condition()', 'threading.Semaphore(2)', 'io.BytesIO(b"abc")', 'io.StringIO("ab")', 'json', 'types', 'os.path', 'slice(1, 2)', '[].append', 'K([1]).__init__', 'queue.Queue()', 'range(3)', 'types.SimpleNamespace(a=1)', 'types.MappingProxyType({1: 2})', 'type(None)', 'Ellipsis', 'NotImplemented', 'K', 'type(lambda: 0)', 'type(lambda: 0).__code__', 'memoryview', 'int.__add__', '(1).__add__', 'dict.fromkeys', 'super(K, K(1))', 'property(len)', 'staticmethod(len)', 'globals()']) for _ in range(b.int(1, 5))]
        return dict(kind='graph', gen='misc', src=LOCKS + 'OBJ = [%s]\n' % ', '.join(xs), opts=opts(b), modules=None, where=b.choice(['main', 'fake']))
    g = b.choice(['c01', 'c02', 'c03', 'c05', 'c06', 'c07', 'c10'])
    case = draw(SRCS[g]())
    return dict(kind='session', src=case['src'] + 'EXTRA = [OBJ, 1]\n', where=b.choice(['main', 'main', 'runtime']), opts=dict(refimported=b.bool()) if b.bool() else {})

def cases(tier): return strat()

def verdict(orig, old, new, ctx):
    if 'error' in old:
        ctx.label('0.4.1 cannot load it')
        if 'error' not in new and orig is not None and new['desc'] != orig: ctx.label('now loads, not as the original')
        return
    if 'error' in new: raise Violation('a pickle of 0.4.1, which loads there, raises %s' % new['error'])
    if old['desc'] == new['desc']: return
    if orig is not None and new['desc'] == orig: ctx.label('now restored'); return
    if orig is not None and old['desc'] != orig:
        ctx.label('differs both ways'); return
    raise Violation('a pickle of 0.4.1 loads differently (0.4.1 / now) at %s' % vdesc.first_diff(old['desc'], new['desc']))

def run(case, ctx):
    mods = ('stockreg', 'vlib', 'vdesc', 'ops_old', 'numpy', 'numpy.ma', 'numpy.rec')
    old = ctx.zygote('old', mods=mods, pythonpath=[WHEEL])
    new = ctx.zygote('new', mods=mods)
    if not TYPES: TYPES.extend(old.call('ops_old', 'typenames'))
    k = case['kind']; ctx.label(k)
    if k == 'graph':
        ctx.label('gen:' + case['gen'])
        a = old.call('ops_old', 'dump', src=case['src'], opts=case['opts'], where=case['where'], modules=case['modules'])
        if 'skip' in a: raise Skip(a['skip'])
        ctx.nontrivial(a['size'] > 150)
        o = old.call('ops_old', 'load', data=a['data'], modules=case['modules'])
        n = new.call('ops_old', 'load', data=a['data'], modules=case['modules'])
        return verdict(a['desc'], o, n, ctx)
    ctx.nontrivial()
    if k in ('helper', 'types'):
        exprs = [case['expr']] if k == 'helper' else ['[%s]' % ', '.join('Call("_load_type", [%r])' % t for t in TYPES)]
        if k == 'helper': ctx.label('helper:' + case['which'])
        files = {'f1': 'some text', 'f2': ''}
        for e in exprs:
            a = old.call('ops_old', 'helper', expr=e, modname=case['modname'], protocol=case['protocol'])
            o = old.call('ops_old', 'load', data=a['data'], files=files)
            n = new.call('ops_old', 'load', data=a['data'], files=files)
            if 'error' not in o: ctx.label('loads')
            verdict(None, o, n, ctx)
        return
    a = old.call('ops_old', 'session_dump', src=case['src'], kind=case['where'], opts=case['opts'])
    if 'skip' in a: raise Skip('session: 0.4.1 cannot store it')
    o = old.call('ops_old', 'session_load', data=a['data'], kind=case['where'], names=['OBJ', 'EXTRA'])
    n = new.call('ops_old', 'session_load', data=a['data'], kind=case['where'], names=['OBJ', 'EXTRA'])
    verdict(None, o, n, ctx)
