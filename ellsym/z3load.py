"""Load the z3 Python bindings shipped with the tooling venv into the interpreter of the repository (PyPy)."""
import importlib.util
import sys
import glob

_CAND = ['/opt/veriftools/pyvenv/lib/python3.12/site-packages'] + \
    sorted(glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages'))


def load():
    if 'z3' in sys.modules:
        return sys.modules['z3']
    for base in _CAND:
        path = base + '/z3/__init__.py'
        try:
            open(path).close()
        except OSError:
            continue
        spec = importlib.util.spec_from_file_location('z3', path, submodule_search_locations=[base + '/z3'])
        mod = importlib.util.module_from_spec(spec)
        sys.modules['z3'] = mod
        spec.loader.exec_module(mod)
        return mod
    raise RuntimeError('z3 python bindings not found')


z3 = load()
