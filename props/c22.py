from hypothesis import strategies as st
from gen import B
from driver import Violation, Skip
from rt import compare
from props import c01, c02, c03, c05, c07, c10

BUDGET = {'quick': dict(cases=2600, seconds=240), 'thorough': dict(cases=40000, seconds=800)}
RULE = ('A case is a module (the main script, an importable module or submodule or package with state beyond its file, or a run-time module object) whose namespace holds a program of the generators of C01, C02, C03, C05, C07 or C10 and 2-12 further names: values and aliases, functions and classes that use each other through globals, instances, closures, self-references to the module and its dictionary, '
        'imported modules, submodules, functions, classes and data under their own and other names. It is saved by name, as object or by default to five kinds of target, refimported on, off or left out, at a drawn protocol, and loaded from seven kinds of source in a fresh process or, after 0-8 changes to the names (rebound, deleted, mutated, added) and up to twice, in the same one. '
        'The joint description of all names (values, sharing, code, classes), the identity of self-references, imported objects, aliases and globals of functions, sys.modules and the behaviour of the functions must be as before. Non-trivial: at least three kinds of additional names.')
ASSUMPTIONS = ['names added after the module was saved are not part of its state', 'with refimported, imported data is not also referred to by other data of the module', 'user modules that are imported are stored with their state by design, unless refimported is on']
SRCS = dict(c01=c01.strat, c02=c02.strat, c03=c03.strat, c05=c05.strat, c07=c07.strat, c10=c10.strat)

IMPORTS = [('import json', 'json', '__import__("json")'), ('import json as jj', 'jj', '__import__("json")'), ('import os.path as osp', 'osp', '__import__("os").path'), ('from math import sin', 'sin', '__import__("math").sin'), ('from math import cos as cosine', 'cosine', '__import__("math").cos'), ('from collections import OrderedDict', 'OrderedDict', '__import__("collections").OrderedDict'),
    ('from collections import OrderedDict as OD', 'OD', '__import__("collections").OrderedDict'), ('from json import decoder', 'decoder', '__import__("json").decoder'), ('import xml.dom', 'xml', '__import__("xml")'), ('from xml.dom import minidom as md', 'md', '__import__("xml.dom.minidom").dom.minidom'), ('import decimal, fractions', 'fractions', '__import__("fractions")'), ('from json import dumps as jd', 'jd', '__import__("json").dumps'), ('import numpy as np', 'np', '__import__("numpy")'), ('from functools import partial', 'partial', '__import__("functools").partial'),
    ('import usermod', 'usermod', 'sys.modules["usermod"]'), ('import usermod as um', 'um', 'sys.modules["usermod"]'), ('from usermod import ufunc', 'ufunc', 'sys.modules["usermod"].ufunc'), ('from usermod import UClass as UC', 'UC', 'sys.modules["usermod"].UClass'), ('import userpkg.inner', 'userpkg', 'sys.modules["userpkg"]'), ('from userpkg import inner as inn', 'inn', 'sys.modules["userpkg.inner"]'), ('from userpkg.inner import deep', 'deep', 'sys.modules["userpkg.inner"].deep')]
IMPREF = [('from usermod import data', 'data', 'sys.modules["usermod"].data'), ('from usermod import inst', 'inst', 'sys.modules["usermod"].inst'), ('from html.entities import html5', 'html5', '__import__("html.entities").entities.html5'), ('from string import ascii_letters', 'ascii_letters', '__import__("string").ascii_letters'), ('from usermod import table as table', 'table', 'sys.modules["usermod"].table'), ('from typing import List', 'List', '__import__("typing").List'), ('from typing import Any as Anything', 'Anything', '__import__("typing").Any')]
LOOK = [('data = {"a": [1, 2]}', 'data', 'sys.modules["usermod"].data'), ('table = [3, 4]', 'table', 'sys.modules["usermod"].table'), ('val = [5]', 'val', 'sys.modules["userpkg.inner"].val'), ('import json.decoder; BACKSLASH = dict(json.decoder.BACKSLASH)', 'BACKSLASH', '__import__("json.decoder").decoder.BACKSLASH'), ('def ufunc(x=1): return [x, 0]', 'ufunc', 'sys.modules["usermod"].ufunc'), ('sep = "".join(["/"])', 'sep', '0')]
MODS = [('usermod', 'data = {"a": [1, 2]}\ntable = [3, 4]\ndef ufunc(x=1): return [x, data]\nclass UClass:\n    def m(self): return 1\ninst = UClass()\n'), ('userpkg.inner', 'def deep(): return 3\nval = [5]\n')]

@st.composite
def strat(draw, gens=True, names=None):
    b = B(draw)
    kind = names[0] if names else b.weighted([(4, 'main'), (3, 'import'), (1, 'package'), (3, 'runtime')])
    name = names[1] if names else {'main': '__main__', 'import': b.choice(['modname', 'pk.modname', 'pk.sub.m', 'zlib_']), 'package': 'packname', 'runtime': b.choice(['runmod', 'rtmod', 'dotted.name', 'json_x'])}[kind]
    ref = b.choice([None, False, True])
    spec = dict(self=[], dict=[], ident=[], ident_ref=[], funcs=[], alias=[], own=[])
    lines, probe, gen = [], None, None
    if gens and b.chance(50):
        gen = b.choice([g for g in sorted(SRCS) if kind != 'runtime' or g != 'c07']); case = draw(SRCS[gen]())
        if not case.get('modules') and '"saved"' not in case['src'] and 'futures' not in case['src'] and 'from __future__' not in case['src']:
            lines.append(case['src'].rstrip('\n'))
            if gen in ('c02',) : probe = case.get('probe')
        else: gen = None
    kinds = set()
    vals = []
    for i in range(b.int(2, 12)):
        k = b.choice(['val', 'val', 'alias', 'func', 'func', 'class', 'inst', 'clos', 'self', 'dict', 'import', 'import', 'impref', 'look', 'none', 'const', 'nested', 'doc', 'ann', 'iself', 'meth', 'lam', 'fattr'])
        kinds.add(k); n = 'q%d' % i
        if k == 'val': lines.append('%s = %s' % (n, b.choice(['[1, [2]]', '{"a": {1, 2}}', '5', '"text"', '(1, [2])', '1.5', 'bytearray(b"a")', 'range(3)']))); vals.append(n)
        elif k == 'alias' and vals: v = b.choice(vals); lines.append('%s = %s' % (n, v)); spec['alias'].append([n, v]); vals.append(n)
        elif k == 'nested' and vals: v = b.choice(vals); lines.append('%s = [%s, {"k": %s}]' % (n, v, v)); spec['alias'].append([n + '[0]', v]); spec['alias'].pop(); vals.append(n)
        elif k == 'func': lines.append('def %s(x=%s):\n    global cnt%d\n    return [x, %s, %s]' % (n, b.choice(vals or ['1']), i, b.choice(vals or ['__name__']), b.choice(spec['funcs'] or ['len']))); spec['funcs'].append(n); vals.append(n)
        elif k == 'lam': lines.append('%s = lambda: (%s, __name__)' % (n, b.choice(vals or ['2']))); spec['funcs'].append(n); vals.append(n)
        elif k == 'fattr' and spec['funcs']: lines.append('%s.extra = [%s]' % (b.choice(spec['funcs']), b.choice(vals)))
        elif k == 'class': lines.append('class %s%s:\n    a = %s\n    def m(self): return [%s, %s]' % (n, '(%s)' % b.choice([c for c in vals if c.startswith('cls')]) if any(c.startswith('cls') for c in vals) else '', b.choice(vals or ['3']), b.choice(vals or ['4']), n)); lines.append('cls%d = %s' % (i, n)); spec['alias'].append(['cls%d' % i, n]); vals += [n, 'cls%d' % i]
        elif k == 'inst' and any(c.startswith('cls') for c in vals): c = b.choice([c for c in vals if c.startswith('cls')]); lines.append('%s = %s(); %s.v = [%s]' % (n, c, n, b.choice(vals))); vals.append(n)
        elif k == 'iself' and any(c.startswith('cls') for c in vals): c = b.choice([c for c in vals if c.startswith('cls')]); lines.append('%s = %s(); %s.me = %s' % (n, c, n, n)); vals.append(n)
        elif k == 'meth' and any(c.startswith('cls') for c in vals): c = b.choice([c for c in vals if c.startswith('cls')]); lines.append('%s = %s().m' % (n, c)); vals.append(n)
        elif k == 'clos': lines.append('def mk%s(c):\n    def inner(): return [c, %s]\n    return inner\n%s = mk%s([%d])' % (n, b.choice(vals or ['6']), n, n, i)); spec['funcs'] += ['mk' + n, n]; vals.append(n)
        elif k == 'self' and kind != 'runtime': lines.append('import sys; %s = sys.modules[__name__]' % n); spec['self'].append(n)
        elif k == 'dict': lines.append('%s = globals()' % n); spec['dict'].append(n)
        elif k == 'import': l, nm, e = b.choice(IMPORTS); lines.append(l); spec['ident'].append([nm, e])
        elif k == 'impref': l, nm, e = b.choice(IMPREF); lines.append(l); spec['ident_ref'].append([nm, e])
        elif k == 'look':
            l, nm, e = b.choice(LOOK); lines += [l, '%s = %s' % (n, nm)]; spec['own'].append([nm, e]); vals.append(n)
            if b.bool(): vals.append(nm)
        elif k == 'none': lines.append('%s = %s' % (n, b.choice(['None', 'True', 'False', '...', 'NotImplemented'])))
        elif k == 'const': lines.append('%s = %s' % (n, b.choice(['len', 'int', 'type(None)', 'print', 'dict.fromkeys', 'ValueError', '"".join'])))
        elif k == 'doc': lines.append('__doc__ = "the doc"')
        elif k == 'ann': lines.append('%s: int = 3' % n)
    src = '\n'.join(lines) + '\n'
    o = {}
    if b.chance(40): o['protocol'] = b.int(0, 5)
    if gen in ('c06', 'c05', 'c07', 'c01', 'c10') and o.get('protocol', 4) < 2: o['protocol'] = b.int(2, 5)
    changes = []
    allnames = [n for n in vals if not n.startswith('cls')] + spec['self'] + spec['dict'] + [n for n, e in spec['ident']]
    for _ in range(b.int(0, 8)):
        c = b.choice(['set', 'del', 'mut', 'add', 'clsattr', 'setdict'])
        n = b.choice(allnames or ['zz'])
        if c == 'set': changes.append('%s = %s' % (n, b.choice(['1', 'None', '"changed"', '[]', 'len'])))
        elif c == 'del': changes.append('globals().pop(%r, None)' % n)
        elif c == 'mut': changes.append('try: %s.append(9)\nexcept Exception: pass' % n)
        elif c == 'add': changes.append('added%d = 1' % b.int(0, 3))
        elif c == 'clsattr': changes.append('try: %s.a = 77\nexcept Exception: pass' % n)
        else: changes.append('try: %s.v = 77\nexcept Exception: pass' % n)
    return dict(src=src, kind=kind, name=name, ref=ref, spec=spec, opts=o, probe=probe, gen=gen, how=b.choice(['obj', 'name', 'default']) if kind == 'main' else b.choice(['obj', 'name']), via=b.choice(['bytes', 'path', 'pathlib', 'file', 'old']), lhow=b.choice(['obj', 'name', 'default']), lvia=b.choice(['bytes', 'path', 'pathlib', 'file', 'raw', 'seek', 'stream', 'old']),
                changes='\n'.join(changes) + '\n', where=b.choice(['fresh', 'same', 'same']), rounds=b.weighted([(4, 1), (1, 2)]), other=b.bool(), kinds=sorted(kinds))

def cases(tier): return strat()

def run(case, ctx):
    z = ctx.zygote(mods=('vlib', 'vdesc', 'ops_sess', 'numpy', 'numpy.ma'))
    ctx.label(case['kind'], case['where'], 'ref%s' % case['ref'], 'gen:%s' % case['gen'], 'via:' + case['via'], 'lvia:' + case['lvia'], *['has:' + k for k in case['kinds']])
    ctx.nontrivial(len(case['kinds']) >= 3)
    fsrc = 'BASE = 1\n'
    spec = dict(case['spec'])
    # the last import or assignment of a name decides
    seen = {}
    for n, e in spec['ident'] + spec['ident_ref'] + [[n, 'not ' + e] for n, e in spec['own']]: seen.setdefault(n, set()).add(e)
    spec['ident'] = [x for x in spec['ident'] if len(seen[x[0]]) == 1]; spec['ident_ref'] = [x for x in spec['ident_ref'] if len(seen[x[0]]) == 1]
    spec['own'] = [x for x in spec['own'] if len(seen[x[0]]) == 1]
    kw = dict(kind=case['kind'], name=case['name'], fsrc=fsrc, spec=spec, ref=case['ref'], modules=MODS)
    opts = {k: v for k, v in case['opts'].items()}
    proto = opts.pop('protocol', None)
    kw2 = dict(opts=opts)
    if case['where'] == 'same':
        r = z.call('ops_sess', 'same', src=setproto(proto) + case['src'], how=case['how'], via=case['via'], lhow=case['lhow'], lvia=case['lvia'], changes=case['changes'], rounds=case['rounds'], other=case['other'], **kw, **kw2)
        if r.get('skip'): raise Skip(r['skip'])
        return
    a = z.call('ops_sess', 'save', src=setproto(proto) + case['src'], how=case['how'], via=case['via'], probe=case['probe'], **kw, **kw2)
    if a.get('skip'): raise Skip(a['skip'])
    b = z.call('ops_sess', 'restore', data=a['data'], how=case['lhow'], via=case['lvia'], probe=case['probe'], **kw)
    if a['names'] != b['names']: raise Violation('the names differ: %r' % sorted(set(a['names']) ^ set(b['names'])))
    compare(a['desc'], b['desc'], 'the module')
    if case['probe']: compare(a['probe'], b['probe'], 'behaviour')

def setproto(p): return '' if p is None else 'import dill as dill_; dill_.settings["protocol"] = %d; del dill_\n' % p
