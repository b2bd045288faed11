"""Load the sources of /repo/heat_load_calc for symbolic execution (fresh from the working tree on every run) and,
separately, the real unmodified package for concrete replay."""
import builtins
import importlib
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import shims

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'heat_load_calc'


class SymWorld:
    """Registry of modules loaded with the symbolic shims."""

    def __init__(self, native=()):
        self.vfs = shims.VFS()
        self.mods = {}
        self.native = set(native)
        np = shims.NumpyShim()
        np.vfs = self.vfs
        sp = shims.make_scipy()
        self.ext = {
            'numpy': np, 'numpy.linalg': np.linalg, 'math': shims.make_math(), 'json': shims.make_json(self.vfs),
            'csv': shims.make_csv(self.vfs), 'pandas': shims.PandasShim(self.vfs), 'scipy': sp,
            'scipy.optimize': sp.optimize,
        }
        self.builtins = dict(vars(builtins))
        self.builtins['__import__'] = self._import
        self.builtins['open'] = self.vfs.open
        self.builtins['float'] = shims.FloatShim
        self.builtins['int'] = shims.IntShim
        self.builtins['round'] = shims.py_round
        self.builtins['max'] = shims.py_max
        self.builtins['min'] = shims.py_min
        self.builtins['print'] = lambda *a, **k: None
        self.native_builtins = dict(vars(builtins))
        self.native_builtins['__import__'] = self._import_native
        self.native_builtins['print'] = lambda *a, **k: None

    def _find(self, name):
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            return os.path.join(base, '__init__.py'), True
        if os.path.isfile(base + '.py'):
            return base + '.py', False
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
        path, ispkg = self._find(name)
        if path is None:
            raise ImportError(name)
        m = types.ModuleType(name)
        m.__file__ = path
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = parent
        native = name in self.native
        m.__dict__['__builtins__'] = self.native_builtins if native else self.builtins
        self.mods[name] = m
        if parent:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        if os.path.exists(path):
            with open(path, encoding='utf-8') as f:
                src = f.read()
            code = compile(src, path, 'exec')
            exec(code, m.__dict__)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - level + 1])
            name = base + ('.' + name if name else '')
        if name in self.ext:
            if not fromlist and '.' in name:
                return self.ext[name.split('.')[0]]
            return self.ext[name]
        if name == PKG or name.startswith(PKG + '.'):
            m = self.load(name)
            if fromlist:
                for a in fromlist:
                    if not hasattr(m, a) and hasattr(m, '__path__'):
                        self.load(name + '.' + a)
                return m
            return self.mods[PKG]
        # modules imported by bare name from inside the package directory are left to the real importer
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _import_native(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level or name == PKG or name.startswith(PKG + '.'):
            return self._import(name, globals, locals, fromlist, level)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def mod(self, name):
        return self.load(PKG + '.' + name)

    def sources(self):
        return sorted(self.mods)


class _Loader(importlib.machinery.SourceFileLoader):
    """The source of the working tree decides, never a compiled file left beside it."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(name, init, loader=_Loader(name, init), submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(name, base + '.py', loader=_Loader(name, base + '.py'))
        return None


class RealWorld:
    """The unmodified package, imported normally."""

    def __init__(self):
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        if _Finder not in sys.meta_path:
            sys.meta_path.insert(0, _Finder)

    def mod(self, name):
        return importlib.import_module(PKG + '.' + name)
