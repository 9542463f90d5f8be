RULES = {}
def prop(pid):
    def d(f):
        RULES[pid] = f
        return f
    return d
import importlib, pkgutil
for _m in sorted(x.name for x in pkgutil.iter_modules(__path__)):
    if _m.startswith('r_'): importlib.import_module(__name__ + '.' + _m)
