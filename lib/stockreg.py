"""Python's own registry as it is before dill is imported (imported first by the zygote)."""
import sys, pickle
assert 'dill' not in sys.modules
STOCK = dict(pickle._Pickler.dispatch)
PARENTS = {t: f.__module__ for t, f in STOCK.items()}
