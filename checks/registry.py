"""property id -> check function"""
import importlib
CHECKS = {}
def _load():
    import os
    d = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(d)):
        if f.startswith('c_') and f.endswith('.py'):
            m = importlib.import_module(f[:-3]); CHECKS.update(m.CHECKS)
_load()
