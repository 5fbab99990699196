"""A write that returns normally has stored the complete file, at every fault point."""
import os
import resource
import signal
import numpy as np
from mc import ref, spaces as sp, lib, fmt
from checks.p01 import table

ID = 'P30'
LEVEL = 'fault_enumeration'
TECHNIQUE = 'model checking: exhaustive enumeration of storage faults (the device fails at every byte) on the real writers'
RULE = ('for each writer (objects, vectors, visualization files) and file of the alphabet, the storage refuses every byte from the n-th on, for '
        'every n, for good or for one write only (file size limit, and a full device): the call must raise, or the complete file must be there; the object is unchanged and '
        'the same call succeeds once the fault is gone; non-trivial: the fault lies inside the file')
BOUNDS = {'quick': '6 objects x 8 formats, every byte', 'thorough': '12 objects x 8 formats x options, every byte; files of several buffers'}
CASE_TIMEOUT = 600


def cases(tier):
    objs = [[0], [1], [2], [0, 3], [1, 0], [0, 1, 0]]
    if tier == 'thorough':
        objs += [[7], [10, 2], [4, 4], [3, 1, 0], [5, 5], [13]]
    for o in objs:
        for k in range(len(fmt.FORMATS)):
            for nf in (0, 2):
                yield dict(kind='iga', obj=o, fmt=k, nf=nf)
            yield dict(kind='vec', obj=o, fmt=k)
        for v in range(5):
            yield dict(kind='vtk', obj=o, variant=v)
    # larger than the usual buffers: fault points around the buffer boundaries and every 61st byte
    yield dict(kind='vec', big=3000, fmt=0)
    yield dict(kind='big', fmt=0)
    yield dict(kind='bigvtk')


def run(case, ctx):
    from igakit.io import PetIGA, VTK
    from igakit import cad
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    step = None
    nrb = None
    if 'obj' in case:
        al = [table()[i] for i in case['obj']]
        nrb = lib.build([p for p, U in al], [U for p, U in al], 1, 0 if case.get('nf') == 0 else 2, 1)
    if case['kind'] == 'iga':
        io = PetIGA(*fmt.FORMATS[case['fmt']])
        w = lambda f: io.write(f, nrb)
    elif case['kind'] == 'vec':
        io = PetIGA(*fmt.FORMATS[case['fmt']])
        A = sp.gen((case['big'],), 1) if nrb is None else sp.gen(nrb.shape + (2,), 1)
        if nrb is None:
            step = 61
        w = lambda f: io.write_vec(f, A, nrb)
    elif case['kind'] == 'big':
        io = PetIGA(*fmt.FORMATS[case['fmt']])
        nrb = cad.grid([18, 17, 5])
        step = 97
        w = lambda f: io.write(f, nrb)
    elif case['kind'] == 'bigvtk':
        nrb = cad.grid([18, 17, 5])
        step = 97
        w = lambda f: VTK().write(f, nrb)
    else:
        v = case['variant']
        kw = [dict(), dict(control=False), dict(fields=True, scalars=[('a', 0), ('b', 1)]),
              dict(fields=True, vectors={'v': [0, 1]}), dict(control=False, fields=True, scalars=dict(s=1), vectors=[('w', [1, 0])])][v]
        w = lambda f: VTK().write(f, nrb, **kw)
    s0 = None if nrb is None else lib.snap(nrb)
    INF = resource.RLIM_INFINITY
    with fmt.Scratch() as S:
        f = S.path()
        w(f)
        full = open(f, 'rb').read()
        pts = range(len(full) + 1)
        if step:
            near = {b * 4096 + d for b in range(len(full) // 4096 + 2) for d in (-9, -8, -1, 0, 1, 8)}
            pts = sorted({n for n in range(0, len(full) + 1, step)} | {n for n in near if 0 <= n <= len(full)} | {len(full) - 1, len(full)})
        for n, lasting in [(n, True) for n in pts] + [(n, False) for n in pts]:
            # a fault that does not last: the limit is lifted by the signal of the first write that meets it
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN if lasting else lambda *a: resource.setrlimit(resource.RLIMIT_FSIZE, (INF, INF)))
            os.unlink(f)
            err = None
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, INF))
            try:
                w(f)
            except Exception as e:
                err = e
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (INF, INF))
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            ctx.ev()
            if 0 < n < len(full):
                ctx.distinct((repr(case), n, lasting))
            there = open(f, 'rb').read() if os.path.exists(f) else None
            if err is None:
                ctx.check(there == full, 'write reports success, but the file is incomplete or has holes', case=case, fault_at=n, lasting=lasting,
                          size=None if there is None else len(there), of=len(full))
            ctx.check(n < len(full) or err is None, 'write fails without a fault', case=case, error=repr(err))
            ctx.outcome((case['kind'], err is None, type(err).__name__))
            ctx.check(nrb is None or lib.snap(nrb) == s0, 'writing changed the object')
            if not os.path.exists(f):
                open(f, 'wb').close()
        # a full device
        ctx.check(lib.raises(w, '/dev/full'), 'write to a full device reports success', case=case)
        ctx.check(lib.raises(w, S.path('missing/dir/x')), 'write to a missing directory reports success')
        ctx.ev(2)
        w(f)
        ctx.check(open(f, 'rb').read() == full, 'the same write gives another file after faults', case=case)
        # rewriting replaces what was there
        open(f, 'wb').write(b'x' * (len(full) + 1000))
        w(f)
        ctx.check(open(f, 'rb').read() == full, 'rewriting leaves old bytes behind', case=case)
        ctx.sample(dict(case=case, bytes=len(full)))
