RULES = {}


def rule(pid):
    def deco(f):
        RULES[pid] = f
        return f
    return deco


from . import phys  # noqa
for _m in ('data', 'covar', 'api', 'kin', 'bind', 'opts', 'scale', 'books', 'serial', 'local', 'pool', 'ratio'):
    import importlib, os
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), _m + '.py')):
        importlib.import_module('rules.' + _m)
