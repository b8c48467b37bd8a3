import copy, sys, warnings
import dill, vdesc
from ops import setup, tolerant_dumps, tolerant_loads, GenError
from vlib import Violation, b64, unb64

def dump(src, opts, where, same, modules=None, gmode='none', lopts={}):
    """Describes what copy.deepcopy makes of the object (the same hooks, another implementation) and dumps it."""
    warnings.simplefilter('ignore')
    ns = setup(src, modules, where)
    obj = ns.pop('OBJ')
    try: exp = copy.deepcopy(obj)
    except RecursionError as e: return dict(skip='deepcopy recursion')
    except BaseException as e: raise GenError('deepcopy: %r\n%s' % (e, src))
    data = tolerant_dumps(obj, opts)
    out = dict(data=b64(data), exp=vdesc.describe(exp, gmode=gmode))
    if same:
        new = tolerant_loads(data, lopts)
        out['got'] = vdesc.describe(new, gmode=gmode); out['gotrel'] = relations(new)
    out['rel'] = relations(exp)     # after storing, as it fills caches of abstract classes
    return out

def relations(objs):
    """isinstance of all items of a list with all classes among them (in the order they are found)"""
    classes = []
    for o in objs:
        for c in [o] if isinstance(o, type) else type(o).__mro__:
            if not any(c is x for x in classes): classes.append(c)
    return [''.join('01'[isinstance(o, c)] for c in classes) for o in objs]

def load(data, lopts={}):
    warnings.simplefilter('ignore')
    obj = tolerant_loads(unb64(data), lopts)
    return dict(desc=vdesc.describe(obj, gmode='none'), rel=relations(obj))
