"""Concurrent calls under a controlled scheduler: all interleavings up to a preemption bound."""
import ctypes
import itertools
import os
import shutil
import sys
import tempfile
import threading
import numpy as np
from mc import build, spaces as sp, lib, opset, ref

ID = 'P27'
LEVEL = 'model_checking'
TECHNIQUE = 'stateless model checking of the real code under a controlled scheduler: all interleavings up to a preemption bound'
RULE = ('pairs of calls run in two real threads under a scheduler that owns every preemption point (each line of the Python sources, and each basic '
        'block of the compiled kernels that run without the interpreter lock): for every pair, every schedule within the preemption bound is executed; '
        'each call must return, byte for byte, what it returns alone, the objects shared by the two must not change, and both must end; '
        'a state is a pair with its preemption points')
BOUNDS = {'quick': 'one preemption at any line: all 61x61 pairs of calls on a shared curve, 77 x 9 pairs on a shared surface (calls of more than 250 lines: with 9 and 3 partners); one preemption at any kernel block: queries and '
                   'modifiers against themselves and 8 kernels; two preemptions at lines: calls of at most 90 lines against themselves, queries of at most 60 against modifiers of a clone',
          'thorough': 'one preemption: all pairs on curves, surfaces and volumes (calls of more than 2500 lines: with 9 and 3 partners); two preemptions at lines: calls of at most 420 lines; two at kernel blocks: at most 1200 blocks; '
                      'three at lines: calls of at most 70 lines against themselves'}
ASSUMPTIONS = ['preemption inside NumPy or the C wrappers is not explored: they hold the interpreter lock', 'memory accesses inside one basic block are not interleaved']
CASE_TIMEOUT = 800
LIB = None


def BUILD():
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc')
    d = build.scratch()
    subprocess_call(['gcc', '-c', '-O2', '-fPIC', os.path.join(here, 'sched.c'), '-o', os.path.join(d, 'sched.o')])
    return build.build(fflags=('-O2', '-fsanitize-coverage=trace-pc'), link=(os.path.join(d, 'sched.o'),))


def subprocess_call(cmd):
    import subprocess
    subprocess.check_call(cmd)


def calls(kind):
    """(name, make) : make(env) -> function without arguments; whatever it modifies belongs to it."""
    out = []
    dim = dict(c=1, s=2, v=3)[kind]
    for n, q in opset.queries(dim):
        out.append((n, 'q', lambda e, q=q: lambda: q(e.o)))
    for n, f in opset.inplace(dim):
        out.append((n, 'm', lambda e, f=f: (lambda t: lambda: f(t))(e.o.clone())))
    for n, f in opset.derived(dim):
        if n in ('clone', 'copy'):
            f = (lambda o, n=n: getattr(o, n)())
        out.append((n, 'd', lambda e, f=f: lambda: f(e.o)))
    out.append(('call mapped', 'q', lambda e: lambda: e.o.gradient(e.o.array[..., 0], mapped=True) if e.o.dim > 1 else e.o.gradient()))
    out.append(('transform shared', 'm', lambda e: (lambda t: lambda: t.transform(e.T))(e.o.clone())))
    if dim == 1:
        from igakit import cad
        out += [
            ('circle', 'f', lambda e: lambda: cad.circle(1.5, (1, 2), (0.1, 4.0))),
            ('circle full', 'f', lambda e: lambda: cad.circle()),
            ('line', 'f', lambda e: lambda: cad.line((0, 1), (2, 3, 4))),
            ('bilinear', 'f', lambda e: lambda: cad.bilinear(e.P4)),
            ('grid', 'f', lambda e: lambda: cad.grid([3, 2], [2, 1], 0, (0, 2))),
            ('grid wrap', 'f', lambda e: lambda: cad.grid([3], 2, None, (0, 2), True)),
            ('remove redundant', 'm', lambda e: (lambda t: lambda: t.remove(0, e.rv, 2))(e.r.clone())),
            ('compat other', 'd', lambda e: lambda: cad.compat(e.o, e.c2)),
            ('ruled other', 'd', lambda e: lambda: cad.ruled(e.o, e.c2)),
            ('join other', 'd', lambda e: lambda: cad.join(e.o, e.c2, 0)),
            ('sweep other', 'd', lambda e: lambda: cad.sweep(e.c2, e.o)),
            ('compose', 'q', lambda e: (lambda t: lambda: np.asarray(t.translate(1.0).rotate(0.3, (1, 2, 2)).scale([2, 3, 4]).invert()))(e.T.copy())),
            ('inverse', 'q', lambda e: lambda: np.asarray(e.T.inverse())),
            ('apply', 'q', lambda e: lambda: e.T(e.o.control)),
        ]
    if dim == 2:
        from igakit import cad
        out += [
            ('coons', 'd', lambda e: lambda: cad.coons(e.B)),
            ('write', 'w', lambda e: lambda: write(e, e.io)),
            ('write32', 'w', lambda e: lambda: write(e, e.io32)),
            ('read', 'w', lambda e: lambda: e.io.read(e.stored)),
            ('write_vec', 'w', lambda e: lambda: write_vec(e)),
            ('vtk', 'w', lambda e: lambda: vtk(e)),
        ]
    return out


def fresh(e):
    e.k += 1
    return os.path.join(e.dir, '%d-%d' % (threading.get_ident() % 9973, e.k))


def slurp(f):
    with open(f, 'rb') as h:
        b = h.read()
    os.unlink(f)
    return np.frombuffer(b, 'u1')


def write(e, io):
    f = fresh(e)
    io.write(f, e.o)
    return slurp(f)


def write_vec(e):
    f = fresh(e)
    e.io.write_vec(f, e.o.array[..., :2].copy(), e.o)
    r = e.io.read_vec(f, e.o)
    return [slurp(f), r]


def vtk(e):
    f = fresh(e)
    e.vtk.write(f, e.o)
    return slurp(f)


class Env:
    """What the two calls share."""
    def __init__(self, kind):
        from igakit.nurbs import transform
        from igakit.io import PetIGA, VTK
        c, u = sp.clamped, sp.open_ends
        spec = dict(c=([2], [c(2, (1,), 'off')]), s=([2, 1], [c(2, (1,), 'unit'), c(1, (), 'off')]), v=([1, 2, 1], [c(1, (1,)), c(2, ()), c(1, ())]))[kind]
        self.o = lib.build(spec[0], spec[1], 1, 1)
        self.c2 = lib.build([1], [c(1, (1,), 'third')], 1, 1, 5)
        self.T = transform().translate([1, 2, 3]).rotate(0.4, 1)
        if kind == 'c':
            b = ref.breaks(2, spec[1][0])
            self.rv = b[0] + 0.375 * (b[1] - b[0])
            self.r = self.o.clone().insert(0, self.rv, 2)
        self.P4 = sp.gen((2, 2, 3), 4)
        if kind == 's':
            self.B = [[self.o.boundary(i, 0), self.o.boundary(i, 1)] for i in (0, 1)]
            self.B = [[type(b)(b.knots, b.array[..., :4].copy()) for b in row] for row in self.B]
        self.io, self.io32, self.vtk = PetIGA(), PetIGA('single', 'real', '32bit'), VTK()
        self.k = 0
        self.dir = tempfile.mkdtemp(prefix='igathr-')
        if kind == 's':
            self.stored = os.path.join(self.dir, 'stored')
            self.io.write(self.stored, self.o)
        self.shared = [self.o, self.c2] + sum(self.B if kind == 's' else [], [])

    def snap(self):
        return [lib.snap(x) for x in self.shared] + [np.asarray(self.T).tobytes(), self.P4.tobytes()]


def ncalls(kind):
    return len(calls(kind))


REPS = ['attrs', 'call', 'derivative3', 'elevate0', 'unclamp0', 'refine', 'ruled', 'write', 'circle']
KERN = ['derivative3', 'elevate0', 'remove0', 'remove redundant', 'insert0', 'refine0', 'clamp0', 'extract0', 'call']


def cases(tier):
    """The long ones first."""
    return sorted(_cases(tier), key=lambda c: (c['kind'] == 'c', 'coons compat ruled join'.find(calls(c['kind'])[c['a']][0][:4]) < 0))


def _cases(tier):
    q = tier == 'quick'
    for kind in 'cs' if q else 'csv':
        C = calls(kind)
        for i in range(len(C)):
            # one preemption at a line: partners
            if C[i][0] == 'coons' and q:
                for j in [i] + [k for k in range(len(C)) if C[k][0] in REPS[:4]]:
                    yield dict(kind=kind, a=i, mode='lines1', partners=[j])
                continue
            yield dict(kind=kind, a=i, mode='lines1', partners='all' if kind == 'c' or not q else 'reps', long=250 if q else 2500)
            if C[i][1] in 'qm' or C[i][0][:5] in ('slice', 'extra', 'bound'):
                # one preemption inside a kernel
                if kind == 'c' or not q:
                    yield dict(kind=kind, a=i, mode='blocks1', partners='kernels')
                elif i % 13 in (6, 8, 9, 11):
                    yield dict(kind=kind, a=i, mode='blocks1', partners='self')
    for kind in 'c' if q else 'cs':
        C = calls(kind)
        for i in range(len(C)):
            yield dict(kind=kind, a=i, mode='lines2', partners='self', most=90 if q else 420)
            if C[i][1] == 'q':
                yield dict(kind=kind, a=i, mode='lines2', partners='modifiers', most=60 if q else 420)
            if not q and C[i][1] in 'qm':
                yield dict(kind=kind, a=i, mode='blocks2', partners='self', most=1200)
                yield dict(kind=kind, a=i, mode='lines3', partners='self', most=70)


class Runner:
    def __init__(self):
        import igakit.igalib as g
        top = os.path.dirname(g.__file__) + os.sep
        so = g.__file__
        L = self.L = ctypes.CDLL(so)
        L.sched_count.restype = ctypes.c_long
        L.sched_at.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_long]
        self.quick = ctypes.PyDLL(so)
        point = L.sched_point

        def local(frame, event, arg):
            if event == 'line':
                point()
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(top) else None
        self.glob = glob
        self.job = None
        self.out = None
        L.sched_register(1)
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        L = self.L
        L.sched_register(2)
        while True:
            L.sched_start(2)
            f = self.job
            if self.trace2:
                sys.settrace(self.glob)
            try:
                r = f()
            except Exception as e:
                r = e
            sys.settrace(None)
            self.out = r
            L.sched_finish(2)

    def both(self, f, g, at1, at2, lines=True):
        """Run f in this thread and g in the other one. Returns results, and False when they do not end."""
        L = self.L
        self.quick.sched_reset()
        for k, v in enumerate(at1):
            self.quick.sched_at(1, k, v)
        for k, v in enumerate(at2):
            self.quick.sched_at(2, k, v)
        self.job, self.out, self.trace2 = g, None, lines and bool(at2)
        if lines:
            sys.settrace(self.glob)
        try:
            r = f()
        except Exception as e:
            r = e
        sys.settrace(None)
        self.n1 = L.sched_count(1)
        if g is None:
            return r, None, True
        ok = L.sched_join(1)
        self.n2 = self.quick.sched_count(2)
        return r, self.out, bool(ok)


def flat(r):
    from igakit.nurbs import NURBS
    if r is None:
        return [b'none']
    if isinstance(r, Exception):
        return [repr(type(r)).encode()]
    if isinstance(r, (tuple, list)):
        return sum((flat(x) for x in r), [])
    if isinstance(r, NURBS):
        return flat(list(r.knots)) + flat(r.array)
    r = np.ascontiguousarray(r)
    return [repr(r.shape).encode() + r.tobytes()]


RUN = None


def runner():
    global RUN
    if RUN is None or RUN.t is None or not RUN.t.is_alive() or RUN.pid != os.getpid():
        RUN = Runner()
        RUN.pid = os.getpid()
    return RUN


def run(case, ctx):
    R = runner()
    env = Env(case['kind'])
    try:
        explore(case, ctx, R, env)
    finally:
        shutil.rmtree(env.dir, ignore_errors=True)


def explore(case, ctx, R, env):
    C = calls(case['kind'])
    s0 = env.snap()
    mode = case['mode']

    def alone(k):
        C[k][2](env)()                      # first call: imports
        r, _, _ = R.both(C[k][2](env), None, [], [])
        return flat(r), R.n1

    def where(k):
        """Preemption points of a call."""
        L = points(R, C[k][2], env)
        if mode.startswith('lines'):
            return L
        return sorted(set(range(1, alone(k)[1] + 1)) - set(L))

    i = case['a']
    na, ka, ma = C[i]
    wa, pa = alone(i)
    others = case['partners'] if isinstance(case['partners'], list) else dict(all=range(len(C)), self=[i],
                  reps=[j for j, c in enumerate(C) if j == i or c[0] in REPS],
                  kernels=[j for j, c in enumerate(C) if j == i or c[0] in KERN],
                  modifiers=[j for j, c in enumerate(C) if c[1] == 'm' and c[0][:4] in ('clam', 'refi', 'reve', 'elev', 'tran')])[case['partners']]
    ctx.check(env.snap() == s0, na + ' alone changes what it shares')
    A = where(i)
    if case.get('long') and len(A) > case['long']:
        others = [j for j in others if j == i or C[j][0] in (REPS if len(A) < 5 * case['long'] else REPS[:3])]
        ctx.n('long_calls_with_fewer_partners')
    for j in others:
        nb, kb, mb = C[j]
        wb, pb = alone(j)

        def one(at1, at2):
            f, g = ma(env), mb(env)
            x, y, ok = R.both(f, g, at1, at2)
            ctx.trans(len(at1) + len(at2) + 1)
            ctx.trace()
            ctx.n('schedules')
            sched = dict(first=na, second=nb, preempt_first=at1, preempt_second=at2)
            if not ok:
                ctx.fail('the two calls do not end', **sched)
            if flat(x) != wa:
                ctx.fail('%s returns something else when %s runs in between' % (na, nb), **sched)
            if flat(y) != wb:
                ctx.fail('%s returns something else when %s runs in between' % (nb, na), **sched)
            if env.snap() != s0:
                ctx.fail('%s and %s together change a shared object' % (na, nb), **sched)

        B = where(j) if mode[-1] != '1' else []
        if mode[-1] != '1' and max(len(A), len(B)) > case['most']:
            ctx.n('pairs_with_more_points_than_the_bound')
            continue
        for t in A:
            if mode[-1] == '1':
                one([t], [])
                continue
            for u in B:
                if mode[-1] == '2':
                    one([t], [u])
                else:
                    for v in A:
                        if v > t:
                            one([t, v], [u])
        ctx.state((case['kind'], mode, i, j, len(A), len(B)))
    ctx.sample(dict(call=na, mode=mode, points=len(A), partners=len(list(others))))


def points(R, make, env):
    """The numbers of the preemption points that are lines of Python."""
    out = []
    f = make(env)
    R.quick.sched_reset()
    g0 = R.glob
    count = R.quick.sched_count
    L = R.L
    def local(frame, event, arg):
        if event == 'line':
            L.sched_point()
            out.append(count(1))
        return local
    def glob(frame, event, arg):
        return local if g0(frame, event, arg) is not None else None
    sys.settrace(glob)
    try:
        f()
    except Exception:
        pass
    sys.settrace(None)
    return out
