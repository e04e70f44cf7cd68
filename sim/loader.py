"""Loads the code under test from the working tree, afresh for every simulated process."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
PACKAGE = 'factorio_sat'


class RepoFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root):
        self.root = root
        self.code = {}      # module name -> (code or None, filename, is package)
        self.installed = None       # where the code believes to be, if not in the tree
        base = os.path.join(root, PACKAGE)
        for top, dirs, names in os.walk(base):
            dirs[:] = [d for d in dirs if d != '__pycache__']
            package = os.path.relpath(top, root).replace(os.sep, '.')
            init = os.path.join(top, '__init__.py')
            self.code[package] = (self._compile(init) if os.path.exists(init) else None, init, True)
            for name in sorted(names):
                if name.endswith('.py') and name != '__init__.py':
                    filename = os.path.join(top, name)
                    self.code[f'{package}.{name[:-3]}'] = (self._compile(filename), filename, False)

    @staticmethod
    def _compile(filename):
        with open(filename, 'rb') as f:
            return compile(f.read(), filename, 'exec', dont_inherit=True)

    def find_spec(self, name, path=None, target=None):
        entry = self.code.get(name)
        if entry is None:
            return None
        _, filename, is_package = entry
        if self.installed is not None:
            filename = os.path.join(self.installed, os.path.relpath(filename, self.root))
        spec = importlib.machinery.ModuleSpec(name, self, origin=filename, is_package=is_package)
        if is_package:
            spec.submodule_search_locations = [os.path.dirname(filename)]
        spec.has_location = True
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code, _, _ = self.code[module.__name__]
        if code is not None:
            exec(code, module.__dict__)


_finder = None


def install():
    global _finder
    sys.dont_write_bytecode = True
    _finder = RepoFinder(REPO)
    sys.meta_path.insert(0, _finder)


def installed_at(root):
    """Code loaded from now on finds itself (`__file__`) below that directory."""
    _finder.installed = root


def purge():
    for name in [n for n in sys.modules if n == PACKAGE or n.startswith(PACKAGE + '.')]:
        del sys.modules[name]


def load(name):
    if name not in sys.modules and _spares.get(name):
        sys.modules.update(_spares[name].pop())
    return importlib.import_module(name)


_spares = {}


def preload(name, copies):
    """Imports fresh copies ahead of time: every forked run starts with them unused,
    so that each simulated process still gets modules of its own."""
    for _ in range(copies):
        purge()
        importlib.import_module(name)
        _spares.setdefault(name, []).append({n: m for n, m in sys.modules.items() if n == PACKAGE or n.startswith(PACKAGE + '.')})
    purge()


def digest():
    import hashlib
    h = hashlib.sha256()
    for name, (_, filename, _) in sorted(_finder.code.items()):
        if os.path.exists(filename):
            with open(filename, 'rb') as f:
                h.update(name.encode() + b'\0' + f.read())
    return h.hexdigest()[:16]
