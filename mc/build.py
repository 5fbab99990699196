"""Build a private copy of igakit from /repo's current working tree.

Nothing is taken from /opt/igakit-build: the Python sources are copied and the
Fortran extension is regenerated (f2py) and compiled into a scratch directory.
"""
import atexit
import glob
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('IGAKIT_REPO', '/repo')
PY = '/opt/venv/bin/python'
SITE = '/opt/venv/lib/python3.12/site-packages'

_owner = os.getpid()


def scratch(prefix='igamc-'):
    d = tempfile.mkdtemp(prefix=prefix)
    def _rm():
        if os.getpid() == _owner:
            shutil.rmtree(d, ignore_errors=True)
    atexit.register(_rm)
    return d


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stderr.write('build step failed: %s\n%s\n' % (' '.join(cmd), r.stdout))
        raise SystemExit(3)
    return r.stdout


def includes():
    inc = ['/usr/include/python3.12', '/usr/include/x86_64-linux-gnu/python3.12',
           os.path.join(SITE, 'numpy/_core/include'), os.path.join(SITE, 'numpy/f2py/src')]
    return ['-I' + d for d in inc]


def build(fflags=('-O2',), name='pkg', link=(), extra=None, python=True):
    """Return a directory that holds package `igakit` (sources + extension)."""
    top = scratch()
    pkg = os.path.join(top, 'igakit')
    os.makedirs(pkg)
    for f in glob.glob(os.path.join(REPO, 'igakit', '*.py')):
        shutil.copy(f, pkg)
    work = os.path.join(top, 'work')
    os.makedirs(work)
    shutil.copy(os.path.join(REPO, 'igakit', 'igalib.pyf'), work)
    shutil.copy(os.path.join(REPO, 'igakit', 'igalib.f90'), work)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    env.pop('PYTHONPATH', None)
    _run([PY, '-S', '-c', "import sys; sys.path.insert(0,%r); import numpy.f2py; numpy.f2py.main()" % SITE,
          '--build-dir', work, os.path.join(work, 'igalib.pyf')], env=env, cwd=work)
    src = os.path.join(SITE, 'numpy/f2py/src/fortranobject.c')
    cflags = ['-fPIC', '-DNDEBUG', '-O0', '-w'] + includes()
    procs = []
    jobs = [
        ['gcc', '-c'] + cflags + ['igalibmodule.c', '-o', 'igalibmodule.o'],
        ['gcc', '-c'] + cflags + [src, '-o', 'fortranobject.o'],
        ['gfortran', '-c', '-fPIC', '-w'] + list(fflags) + ['igalib.f90', '-o', 'igalib.o'],
    ]
    for j in jobs:
        procs.append((j, subprocess.Popen(j, cwd=work, stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT, text=True)))
    objs = ['igalibmodule.o', 'fortranobject.o', 'igalib.o']
    for j, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            sys.stderr.write('build step failed: %s\n%s\n' % (' '.join(j), out))
            raise SystemExit(3)
    for w in glob.glob(os.path.join(work, '*-f2pywrappers*.f*')):
        o = os.path.basename(w) + '.o'
        _run(['gfortran', '-c', '-fPIC', '-w'] + list(fflags) + [w, '-o', o], cwd=work)
        objs.append(o)
    so = os.path.join(pkg, 'igalib.cpython-312-x86_64-linux-gnu.so')
    _run(['gfortran', '-shared', '-o', so] + objs + list(link) + ['-lm'], cwd=work)
    return top


def activate(top):
    """Make `import igakit` resolve to the freshly built copy, and check that it does."""
    sys.dont_write_bytecode = True
    if SITE not in sys.path:
        sys.path.append(SITE)
    sys.meta_path[:] = [m for m in sys.meta_path if 'editable' not in type(m).__module__.lower()]
    sys.path.insert(0, top)
    import igakit
    import igakit.igalib
    assert igakit.__file__.startswith(top), igakit.__file__
    assert igakit.igalib.__file__.startswith(top), igakit.igalib.__file__
