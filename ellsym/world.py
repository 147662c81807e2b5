"""Two copies of the code under test.

The real one is an ordinary import of ellipy from /repo/products.  The symbolic one is compiled from the same
source files, read again on every run, and executed with numpy, scipy and math replaced by stand-ins that work
on symbolic values; nothing else about it is changed.
"""
import builtins
import os
import sys
import types

REPO = os.environ.get('ELLSYM_REPO', '/repo')
SRC = os.path.join(REPO, 'products')
PKG = 'ellipy'


def add_path():
    if SRC not in sys.path:
        sys.path.insert(0, SRC)


def real_module(name):
    add_path()
    return __import__(name, fromlist=['_'])


class SymWorld(object):
    def __init__(self):
        from . import symnp
        import scipy, scipy.linalg, scipy.special, scipy.spatial, scipy.sparse, numpy.matlib   # noqa
        self.mods = {}
        self.proxy = symnp.build()
        self.files = {}
        self.old_import = builtins.__import__
        self.inject = {'float': symnp.BUILTIN_FLOAT, '__symworld__': True}
        w = self

        def hook(name, globals=None, locals=None, fromlist=(), level=0):
            if globals is not None and globals.get('__symworld__'):
                return w.do_import(name, globals, fromlist, level)
            return w.old_import(name, globals, locals, fromlist, level)
        self.hook = hook
        builtins.__import__ = hook

    # ------------------------------------------------------------------
    def do_import(self, name, globals, fromlist, level):
        if level:
            base = globals.get('__package__') or globals['__name__'].rpartition('.')[0]
            for _ in range(level - 1):
                base = base.rpartition('.')[0]
            name = base + ('.' + name if name else '')
        if name == PKG or name.startswith(PKG + '.'):
            m = self.load(name)
            if not fromlist:
                return self.mods[PKG]
            for f in fromlist:
                if f != '*' and not hasattr(m, f) and hasattr(m, '__path__'):
                    try:
                        self.load(name + '.' + f)
                    except ImportError:
                        pass
            return m
        top = name.split('.')[0]
        if top in ('numpy', 'scipy', 'math', 'inspect', 're'):
            if not fromlist:
                self.old_import(name)
                return self.proxy[top]
            if name in self.proxy:
                return self.proxy[name]
            real = self.old_import(name, None, None, ['_'])
            if top in ('numpy', 'scipy'):
                from . import symnp
                return symnp.ModProxy(real)
            return real
        return self.old_import(name, globals, None, fromlist, 0)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parent, _, leaf = name.rpartition('.')
        if parent:
            self.load(parent)
        rel = os.path.join(SRC, *name.split('.'))
        if os.path.isdir(rel):
            path = os.path.join(rel, '__init__.py')
            pkg = True
        else:
            path = rel + '.py'
            pkg = False
        if not os.path.exists(path) and not pkg:
            raise ImportError('No module named %r' % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [rel]
        m.__dict__.update(self.inject)
        self.mods[name] = m
        try:
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    src = f.read()
                self.files[name] = path
                code = compile(src, path, 'exec', dont_inherit=True)
                exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if parent:
            setattr(self.mods[parent], leaf, m)
        return m


_W = None


def sym_world():
    global _W
    if _W is None:
        _W = SymWorld()
    return _W


class Code(object):
    """uniform access to the functions under test in one of the two worlds"""
    MODS = {
        'Ellipsoid': 'ellipy.elltool.core.ellipsoid.Ellipsoid',
        'AEllipsoid': 'ellipy.elltool.core.aellipsoid.AEllipsoid',
        'ABasicEllipsoid': 'ellipy.elltool.core.abasicellipsoid.ABasicEllipsoid',
        'Hyperplane': 'ellipy.elltool.core.hyperplane.Hyperplane',
        'core': 'ellipy.elltool.core.core',
        'Properties': 'ellipy.elltool.conf.properties.Properties',
        '_ParseProp': 'ellipy.elltool.conf.properties._ParseProp',
        'la': 'ellipy.gras.la.la', 'gen': 'ellipy.gras.gen.gen', 'geom': 'ellipy.gras.geom.geom',
        'ell': 'ellipy.gras.geom.ell.ell', 'sup': 'ellipy.gras.geom.sup.sup', 'tri': 'ellipy.gras.geom.tri.tri',
        'sym': 'ellipy.gras.sym.sym', 'common': 'ellipy.gen.common.common', 'dict': 'ellipy.gen.dict.dict',
    }

    def __init__(self, symbolic):
        self.symbolic = symbolic

    def mod(self, key):
        name = self.MODS[key]
        if self.symbolic:
            return sym_world().load(name)
        return real_module(name)

    def __getattr__(self, key):
        if key.startswith('_') and key != '_ParseProp':
            raise AttributeError(key)
        m = self.mod(key)
        if key in ('Ellipsoid', 'AEllipsoid', 'ABasicEllipsoid', 'Hyperplane', 'Properties'):
            m = getattr(m, key)
        setattr(self, key, m)
        return m
