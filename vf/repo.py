"""Puts the code under test on sys.path, from source, ignoring any stale
bytecode.  Import this before importing commonmark."""
import os
import sys
import tempfile
import shutil
import atexit

REPO = os.environ.get('VERIF_REPO', '/repo')

sys.dont_write_bytecode = True
# A path that does not exist: nothing cached can be read, nothing is written.
sys.pycache_prefix = os.path.join(tempfile.gettempdir(),
                                  'vf-no-pycache-%d' % os.getpid())
sys.path.insert(0, REPO)

_scratch = None


def scratch():
    """A private scratch directory of this process, removed at exit."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        d = tempfile.mkdtemp(prefix='vf-scratch-')
        _scratch = (os.getpid(), d)
        atexit.register(_rm, os.getpid(), d)
    return _scratch[1]


def _rm(pid, d):
    if os.getpid() == pid and os.path.basename(d).startswith('vf-scratch-'):
        shutil.rmtree(d, ignore_errors=True)


_code = {}


def pristine():
    """A newly imported copy of the package, sharing no state with any other
    (nor with earlier calls); sys.modules is left as it was."""
    import importlib.util
    import importlib.abc

    class Loader(importlib.abc.Loader):
        def __init__(self, name, path):
            self.name, self.path = name, path

        def create_module(self, spec):
            return None

        def exec_module(self, module):
            if self.path not in _code:
                with open(self.path, encoding='utf-8') as f:
                    _code[self.path] = compile(f.read(), self.path, 'exec')
            exec(_code[self.path], module.__dict__)

    class Finder(importlib.abc.MetaPathFinder):
        def find_spec(self, name, path=None, target=None):
            if name.split('.')[0] != 'commonmark':
                return None
            base = os.path.join(REPO, *name.split('.'))
            if os.path.isfile(os.path.join(base, '__init__.py')):
                f = os.path.join(base, '__init__.py')
                return importlib.util.spec_from_file_location(
                    name, f, loader=Loader(name, f),
                    submodule_search_locations=[base])
            if os.path.isfile(base + '.py'):
                return importlib.util.spec_from_file_location(
                    name, base + '.py', loader=Loader(name, base + '.py'))
            return None

    def ours():
        return [k for k in sys.modules if k.split('.')[0] == 'commonmark']

    old = {k: sys.modules.pop(k) for k in ours()}
    finder = Finder()
    sys.meta_path.insert(0, finder)
    try:
        import commonmark
        import commonmark.blocks  # noqa: F401
        return commonmark
    finally:
        sys.meta_path.remove(finder)
        for k in ours():
            del sys.modules[k]
        sys.modules.update(old)
