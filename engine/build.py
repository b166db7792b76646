"""Scratch build of the compiled modules from /repo's current tree (for validation and replay)."""
import concurrent.futures
import os
import shutil
import subprocess
import sys
import tempfile
from . import env


def ext_suffix():
    import sysconfig
    return sysconfig.get_config_var('EXT_SUFFIX')


def _one(job):
    rel, name, root, bound = job
    import sysconfig
    import numpy as np
    base = os.path.join(root, rel[:-4])
    cfile = base + '.c'
    kind = []
    with open(os.path.join(root, rel)) as fh:
        for ln in fh:
            if ln.startswith('# distutils: language = c++'):
                kind = ['--cplus']
                cfile = base + '.cpp'
                break
    ex = []
    if bound:
        ex = ['-X', 'boundscheck=True', '-X', 'wraparound=False']
    r = subprocess.run([sys.executable, '-m', 'cython'] + kind + ex + ['-I', root, rel, '-o', cfile], cwd=root, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('cython %s: %s' % (rel, r.stderr[-2000:]))
    cc = 'g++' if kind else 'gcc'
    cmd = [cc, '-O0', '-w', '-fPIC', '-shared', '-fwrapv', '-I', sysconfig.get_paths()['include'], '-I', np.get_include(), cfile,
           '-o', base + ext_suffix(), '-lm']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('compiling %s: %s' % (rel, r.stderr[-2000:]))


class Scratch(object):
    """a private copy of /repo's package with freshly built extensions; removed by close()"""

    def __init__(self, bound=False):
        self.dir = tempfile.mkdtemp(prefix='verif_build_')
        try:
            src = os.path.join(env.REPO, 'malstroem')
            shutil.copytree(src, os.path.join(self.dir, 'malstroem'),
                            ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.c', '*.cpp', 'build'))
            mods = env.pyx_modules(self.dir)
            jobs = [(rel, name, self.dir, bound) for name, rel in mods.items()]
            with concurrent.futures.ThreadPoolExecutor(4) as ex:
                list(ex.map(_one, jobs))
        except BaseException:
            self.close()
            raise

    def close(self):
        if self.dir and os.path.basename(self.dir).startswith('verif_build_'):
            shutil.rmtree(self.dir, ignore_errors=True)
        self.dir = None
