"""Import set-up: which malstroem tree is imported, and in which form its compiled modules are present."""
import importlib.abc
import importlib.machinery
import os
import sys

sys.set_int_max_str_digits(0)      # values of wide floats have long numerators

REPO = os.environ.get('VERIF_REPO', '/repo')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
SPEED = 'malstroem.algorithms.speedups'
TRANSLATED = {}


def paths():
    if VT not in sys.path:
        sys.path.append(VT)


def pyx_modules(root):
    d = os.path.join(root, 'malstroem')
    out = {}
    for base, dirs, files in os.walk(d):
        for fn in sorted(files):
            if fn.endswith('.pyx'):
                rel = os.path.relpath(os.path.join(base, fn), root)
                out[rel[:-4].replace(os.sep, '.')] = rel
    return out


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root, mods):
        self.root = root
        self.mods = mods

    def find_spec(self, name, path=None, target=None):
        if name in self.mods:
            return importlib.machinery.ModuleSpec(name, self, origin=self.mods[name])
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import cyfront
        name = module.__name__
        src, fns = cyfront.translate(self.mods[name], name, self.root)
        fn = os.path.join(self.root, self.mods[name])
        TRANSLATED[name] = (src, fns)
        exec(compile(src, fn + '.translated', 'exec'), module.__dict__)


class _Block(importlib.abc.MetaPathFinder):
    def __init__(self, mods):
        self.mods = mods

    def find_spec(self, name, path=None, target=None):
        if name in self.mods:
            raise ImportError('compiled module %s is not used in this run' % name)
        return None


def setup(impl, root=None):
    """impl: 'py' (no compiled modules), 'cy' (translated from the .pyx sources), 'so' (built extensions below root)"""
    root = root or REPO
    paths()
    sys.dont_write_bytecode = True
    if root in sys.path:
        sys.path.remove(root)
    sys.path.insert(0, root)
    mods = pyx_modules(root)
    if impl == 'py':
        sys.meta_path.insert(0, _Block(mods))
    elif impl == 'cy':
        sys.meta_path.insert(0, _Finder(root, mods))
    import warnings
    warnings.simplefilter('ignore')
    import malstroem
    import malstroem.algorithms.speedups as sp
    f = os.path.realpath(malstroem.__file__)
    if not f.startswith(os.path.realpath(root) + os.sep):
        raise RuntimeError('imported malstroem from %s' % f)
    if impl != 'py' and not sp.available:
        raise RuntimeError('compiled modules are not available: %s' % getattr(sp, 'import_error_msg', None))
    return sp
