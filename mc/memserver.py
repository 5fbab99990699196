"""Executes call spaces on an instrumented build (P26). Run: python memserver.py TOP VERIF LABELFILE; JSON cases on stdin, digests on stdout.

The process runs with the address sanitizer preloaded, so that a memory error ends it; the label of the call in progress
is in LABELFILE.  All array memory comes uncached from malloc (see poison.c) and is filled with a byte chosen by the caller."""
import hashlib
import itertools
import json
import mmap
import os
import sys

TOP, VERIF, LABEL = sys.argv[1:4]
sys.path.insert(0, VERIF)
from mc import build
sys.path.append(build.SITE)
sys.path.insert(0, TOP)
import poison
import numpy as np
poison.install()
build.activate(TOP)
from igakit import cad, igalib
from igakit.nurbs import NURBS
from mc import ref, spaces as sp, opset, lib
bsp, iga = igalib.bsp, igalib.iga
np.seterr(all='ignore')

lab = None


def mark(s):
    b = s.encode()[:1000].ljust(1000)
    lab[:1000] = b


def flat(r):
    if r is None:
        return [None]
    if isinstance(r, (tuple, list)):
        return sum((flat(x) for x in r), [])
    if isinstance(r, NURBS):
        return flat(list(r.knots)) + [r.array]
    return [np.asarray(r)]


def digest(r):
    h = hashlib.blake2b(digest_size=8)
    for x in flat(r):
        if x is not None:
            h.update(repr((x.shape, x.dtype.str)).encode())
            if x.dtype.kind != 'O':
                h.update(np.ascontiguousarray(x).tobytes())
    return h.hexdigest()


SKIP = ()


def do(out, name, f):
    if name in SKIP:
        return
    mark(name)
    try:
        r = f()
    except Exception as e:
        d = type(e).__name__
        del e
    else:
        d = digest(r)
    out.append((name, d))


def arr(x):
    """A fresh exact-size array."""
    return np.array(x, dtype='d')


def probes(p, U):
    return sp.params(p, U)


def k1(out, p, U, comps, tier):
    U = list(U)
    n = len(U) - p - 1
    a, b = U[p], U[-p - 1]
    br = ref.breaks(p, U)
    us = probes(p, U)
    A = lambda: arr(U)
    full = U
    for d in comps:
        U = full
        n = len(U) - p - 1
        P = sp.gen((n, d), d)
        Pw = lambda: arr(P)
        last = d == comps[-1]
        for u in us:
            mult = U.count(u)
            if last:
                do(out, 'FindSpan(%r)' % u, lambda: bsp.FindSpan(p, A(), u))
                do(out, 'FindMult(%r)' % u, lambda: bsp.FindMult(p, A(), u))
                do(out, 'FindMult(%r,span)' % u, lambda: bsp.FindMult(p, A(), u, bsp.FindSpan(p, A(), u)))
                do(out, 'FindSpanMult(%r)' % u, lambda: bsp.FindSpanMult(p, A(), u))
                do(out, 'EvalBasisFuns(%r)' % u, lambda: bsp.EvalBasisFuns(p, A(), u))
                do(out, 'EvalBasisFuns(%r,span)' % u, lambda: bsp.EvalBasisFuns(p, A(), u, bsp.FindSpan(p, A(), u)))
                for k in range(p + 1):
                    do(out, 'EvalBasisFunsDers(%r,%d)' % (u, k), lambda: bsp.EvalBasisFunsDers(p, A(), u, k))
            do(out, 'Extract(%r)' % u, lambda: bsp.Extract(p, A(), Pw(), u))
            for r in range(0, p - mult + 1):
                do(out, 'InsertKnot(%r,%d)' % (u, r), lambda: bsp.InsertKnot(p, A(), Pw(), u, r))
            if a < u < b:
                for r in range(0, min(mult, p) + 1):
                    for tol in (0.0, 1e-9, 1e300):
                        do(out, 'RemoveKnot(%r,%d,%r)' % (u, r, tol), lambda: bsp.RemoveKnot(p, A(), Pw(), u, tol, r))
        if not (U[p] < U[p + 1] and U[-p - 2] < U[-p - 1]):
            # the methods hand only what acts on the domain to these kernels
            U = U[sum(1 for x in U if x <= a) - 1 - p:]
            U = U[:len(U) - (sum(1 for x in U if x >= b) - 1 - p)]
            n = len(U) - p - 1
            P = sp.gen((n, d), d)
        for l, r in itertools.product((0, 1), repeat=2):
            do(out, 'Clamp(%d,%d)' % (l, r), lambda: bsp.Clamp(p, A(), Pw(), l, r))
            V, Q = bsp.Clamp(p, A(), Pw(), 1, 1)
            for C in range(0, p):
                do(out, 'Unclamp(%d,%d,%d)' % (C, l, r), lambda: bsp.Unclamp(p, arr(V), arr(Q), C, l, r))
        # the kernel is given a clamped vector, as the public methods do
        V, Q = bsp.Clamp(p, A(), Pw(), 1, 1)
        V, Q = np.array(V), np.array(Q)
        mids = [x + (y - x) * 0.5 for x, y in zip(br[:-1], br[1:])]
        room = {x: p - list(V).count(x) for x in br[1:-1] + mids}
        Xs = [[]] + [[x] * k for x in room for k in range(1, room[x] + 1)]
        Xs += [sorted(s + t) for s, t in itertools.combinations([x for x in Xs if x], 2) if s[0] != t[0]]
        Xs.append(sorted(sum(([x] * room[x] for x in room), [])))
        for X in Xs:
            do(out, 'RefineKnotVector(%r)' % X, lambda: bsp.RefineKnotVector(p, arr(V), arr(Q), arr(X)))
        for t in range(0, 5):
            do(out, 'DegreeElevate(%d)' % t, lambda: bsp.DegreeElevate(p, arr(V), arr(Q), t))
        for X in ([], us[:1], us):
            do(out, 'Evaluate1[%d]' % len(X), lambda: bsp.Evaluate1(p, A(), Pw(), arr(X)))
            W = arr(np.concatenate([sp.gen((n, 3), 1), 0.5 + np.abs(sp.gen((n, 1), 2))], 1))
            for fn in ('Gradient1', 'Hessian1', 'ThirdDer1', 'FourthDer1'):
                for m in ((0, 1) if fn == 'Gradient1' else (0,)):
                    do(out, '%s[%d](map=%d)' % (fn, len(X), m), lambda: getattr(bsp, fn)(m, p, A(), arr(W), Pw(), arr(X)))
    do(out, 'SpanIndex', lambda: bsp.SpanIndex(p, A()))
    do(out, 'Greville', lambda: bsp.Greville(p, A()))
    do(out, 'iga.Greville', lambda: iga.Greville(p, A()))
    for d in range(p + 1):
        for q in range(1, 11) if d == p else (1, p + 1):
            do(out, 'BasisData(%d,%d)' % (d, q), lambda: iga.BasisData(p, A(), d, q))
        for X in (us[:1], us):
            do(out, 'BasisDataCol(%d)[%d]' % (d, len(X)), lambda: iga.BasisDataCol(p, A(), arr(X), d))


def kn(out, ws, d):
    """Tensor kernels of several directions."""
    dim = len(ws)
    ps = [p for p, U in ws]
    Us = [list(U) for p, U in ws]
    shape = tuple(len(U) - p - 1 for p, U in ws)
    P = sp.gen(shape + (d,), d)
    W = np.concatenate([sp.gen(shape + (3,), 1), 0.5 + np.abs(sp.gen(shape + (1,), 2))], -1)
    sets = [[[ref.domain(p, U)[1]], sp.params(p, U, False)] for p, U in ws]
    for X in itertools.product(*sets):
        head = lambda: [y for p, U in zip(ps, Us) for y in (p, arr(U))]
        do(out, 'Evaluate%d' % dim, lambda: getattr(bsp, 'Evaluate%d' % dim)(*(head() + [arr(P)] + [arr(x) for x in X])))
        for fn in ('Gradient', 'Hessian', 'ThirdDer', 'FourthDer'):
            for m in ((0, 1) if fn == 'Gradient' else (0,)):
                do(out, '%s%d(map=%d)' % (fn, dim, m),
                   lambda: getattr(bsp, fn + str(dim))(*([m] + head() + [arr(W), arr(P)] + [arr(x) for x in X])))


def pub(out, ws, wk, nf):
    """Public methods with all small arguments on one object."""
    o = lib.build([p for p, U in ws], [U for p, U in ws], wk, nf)
    for ax, (p, U) in enumerate(ws):
        br = ref.breaks(p, list(U))
        a, b = br[0], br[-1]
        us = sp.params(p, list(U), len(ws) == 1)
        for u in us:
            for t in [None] + list(range(0, p + 2)):
                do(out, 'insert(%d,%r,%r)' % (ax, u, t), lambda: o.copy().insert(ax, u, t))
                do(out, 'remove(%d,%r,%r)' % (ax, u, t), lambda: o.copy().remove(ax, u, t, 1e300))
                do(out, 'remove exact(%d,%r,%r)' % (ax, u, t), lambda: o.copy().remove(ax, u, t))
                if t:
                    do(out, 'refine(%d,%r,%r)' % (ax, u, t), lambda: o.copy().refine(ax, [u, 0.5 * (a + b)] * t))
            do(out, 'extract(%d,%r)' % (ax, u), lambda: o.extract(ax, u))
            for v in us:
                do(out, 'slice(%d,%r,%r)' % (ax, u, v), lambda: o.slice(ax, u, v))
        for side in (None, 0, 1, 2):
            do(out, 'clamp(%d,%r)' % (ax, side), lambda: o.copy().clamp(ax, side))
            do(out, 'boundary(%d,%r)' % (ax, side), lambda: o.boundary(ax, side))
            for c in [None, -1] + list(range(p + 2)):
                do(out, 'unclamp(%d,%r,%r)' % (ax, side, c), lambda: o.copy().unclamp(ax, side, c))
                do(out, 'unclamp(%d,%r,%r) elevate' % (ax, side, c), lambda: o.copy().unclamp(ax, side, c).elevate(ax, 1))
        for t in range(-1, 4):
            do(out, 'elevate(%d,%d)' % (ax, t), lambda: o.copy().elevate(ax, t))
        for k in (-2, -1, len(ws)):
            do(out, 'elevate axis %d' % k, lambda: o.copy().elevate(k, 1))
        from igakit import cad
        for n in (1, 2, 3):
            do(out, 'cad.refine(%d)' % n, lambda: cad.refine(o, n))
            do(out, 'cad.refine(%d,p+1)' % n, lambda: cad.refine(o, n, [p + 1 for p, U in ws], 0))
        do(out, 'join(%d)' % ax, lambda: cad.join(o, o.copy().reverse(ax), ax))
        do(out, 'compat(%d)' % ax, lambda: cad.compat(o, o.copy().insert(ax, 0.5 * (br[0] + br[1])).elevate(ax, 1).clamp(ax)))
    X = [sp.params(p, list(U), False) for p, U in ws]
    q = dict(zip('uvw', X))
    do(out, 'call', lambda: o(*X, fields=True))
    for f in (None, o.array[..., 0].copy(), o.array.copy()):
        do(out, 'evaluate', lambda: o.evaluate(f, **q))
        for m in (False, True):
            do(out, 'gradient %r' % m, lambda: o.gradient(f, mapped=m, **q))
            do(out, 'hessian %r' % m, lambda: o.hessian(f, mapped=m, **q))
            for k in (1, 2, 3, 4):
                do(out, 'derivative %d %r' % (k, m), lambda: o.derivative(k, f, mapped=m, **q))
    do(out, 'queries', lambda: [list(o.spans()), list(o.breaks()), list(o.greville()), list(o.lagrange())])


def factories(out):
    rt = (1.0, [0.5], (2.0, 1.0), [1.0, -1.0, 2.0])
    for r in (1, 0.5):
        for c in (None, 1.0, (1, 2), (1, 2, 3)):
            for a in (None, 0.1, 1.6, 3.2, 4.8, -2.0, (0.1, 2.0), (1.0, -1.0), 2 * np.pi, 0.0, 7.0, (1, 1), (None, 1), (0, None), float('nan'), float('inf')):
                do(out, 'circle(%r,%r,%r)' % (r, c, a), lambda: cad.circle(r, c, a))
    for p in rt:
        do(out, 'line(%r)' % (p,), lambda: cad.line(p, (0, 1)))
    do(out, 'bilinear', lambda: cad.bilinear())
    do(out, 'trilinear', lambda: cad.trilinear())
    for dim in (1, 2, 3):
        for n in (2, 3):
            do(out, 'bilinear(%d,%d)' % (dim, n), lambda: cad.bilinear(sp.gen((2, 2, dim), n)))
            do(out, 'trilinear(%d,%d)' % (dim, n), lambda: cad.trilinear(sp.gen((2, 2, 2, dim), n)))
        for n in (1, 2, 5):
            for p in (1, 2, 3):
                for C in [None] + list(range(p)):
                    for w in (False, True):
                        do(out, 'grid(%d,%d,%d,%r,%r)' % (dim, n, p, C, w), lambda: cad.grid([n] * dim, p, C, [(0, 2)] * dim, w))
                        do(out, 'grid(%d,%d,%d,%r,%r) default limits' % (dim, n, p, C, w), lambda: cad.grid([n] * dim, p, C, wrap=w))
    W = [(2, sp.clamped(2, (1,), 'off')), (1, sp.clamped(1, (1,), 'third')), (3, sp.open_ends(sp.clamped(3, (2,), 'third'), 3, 1, 1))]
    C = [lib.build([p], [U], 1, 0, i) for i, (p, U) in enumerate(W)]
    S = [lib.build([p, q], [U, V], 1, 0, i) for i, ((p, U), (q, V)) in enumerate(itertools.product(W, W))]
    for x in C + S:
        for d in (1.0, (1, 2), (0.5, 1, 2)):
            do(out, 'extrude', lambda: cad.extrude(x, d))
            do(out, 'extrude axis', lambda: cad.extrude(x, 2.0, 1))
        for pt in (0, (1, 2), (1, 2, 3)):
            for ax in (0, 1, 2, (1, 0), (0, 0, -1), (1, 2, -2)):
                for a in (None, 1.0, (0.5, -2.0)):
                    do(out, 'revolve(%r,%r,%r)' % (pt, ax, a), lambda: cad.revolve(x, pt, ax, a))
    for x, y in itertools.product(C, C):
        do(out, 'ruled', lambda: cad.ruled(x, y))
        do(out, 'join', lambda: cad.join(x, y, 0))
        do(out, 'compat', lambda: cad.compat(x, y))
        for t in C:
            do(out, 'sweep', lambda: cad.sweep(cad.ruled(x, y), t))
    for x, y in itertools.product(S, S):
        do(out, 'ruled surfaces', lambda: cad.ruled(x, y))
        do(out, 'compat surfaces', lambda: cad.compat(x, y))
    for s in S:
        b = [[s.boundary(i, 0), s.boundary(i, 1)] for i in (0, 1)]
        do(out, 'coons', lambda: cad.coons(b))


def construct(out, dim):
    """Every form of the constructor; attributes of the result."""
    W = [(2, sp.clamped(2, (1,), 'off')), (1, sp.clamped(1, (), 'third')), (3, sp.open_ends(sp.clamped(3, (2,), 'third'), 3, 1, 1)), (2, sp.clamped(2, (), 'int'))]
    for ws in itertools.product(W if dim < 3 else W[:3], repeat=dim):
        knots = lambda: [arr(U) for p, U in ws]
        shape = tuple(len(U) - p - 1 for p, U in ws)
        w = np.abs(sp.gen(shape, 3)) + 0.5
        see = lambda o: [o.array, list(o.knots), o.points, o.weights, o.fields]
        name = 'NURBS(%s)' % (shape,)
        do(out, name, lambda: see(NURBS(knots())))
        for d in (1, 2, 3, 4, 5):
            P = sp.gen(shape + (d,), d)
            for F in (None, sp.gen(shape, 4), sp.gen(shape + (3,), 5)):
                f = None if F is None else F.ndim - dim
                do(out, name + ' %d coordinates, fields %r' % (d, f), lambda: see(NURBS(knots(), P.copy(), F)))
                do(out, name + ' %d coordinates, fields %r, weights' % (d, f), lambda: see(NURBS(knots(), P.copy(), F, w)))
                do(out, name + ' %d coordinates, fields %r, pair' % (d, f), lambda: see(NURBS(knots(), (P.copy(), w), F)))
        do(out, name + ' fields only', lambda: see(NURBS(knots(), None, sp.gen(shape, 4))))


def affine(out, dim):
    from igakit.transform import transform
    o = lib.build([2, 1, 1][:dim], [sp.clamped(2, (1,), 'off'), sp.clamped(1, (), 'third'), sp.clamped(1, (), 'int')][:dim], 1, 1)
    vals = [2.0, 0.0, [], [1.5], [1.5, -2.0], [1.5, -2.0, 3.0], [1.0] * 4, [[1.0, 2.0]], float('nan')]
    axes = [None, 0, 1, 2, -1, 3, [0], [0, 2], [2, 1, 0], [0.0, 0.0, 0.0], [1.0, 2.0], [1, 1, 1, 1], [], 'x']
    for v, ax in itertools.product(vals, axes):
        for fn in ('translate', 'move', 'scale', 'rotate'):
            name = '%s(%r,%r)' % (fn, v, ax)
            do(out, name, lambda: getattr(transform(), fn)(v, ax).matrix)
            do(out, 'object ' + name, lambda: getattr(o.copy(), fn)(v, ax))
    for M in (np.eye(4), np.eye(3), np.zeros((4, 4)), np.eye(2), 1.0, None, np.arange(16.0).reshape(4, 4)):
        do(out, 'transform', lambda: o.copy().transform(M))
        do(out, 'compose', lambda: transform().compose(M).matrix)
        do(out, 'invert', lambda: transform(M).invert().matrix)


def files(out, dim):
    from igakit.io import PetIGA, VTK
    def slurp(name):
        with open(name, 'rb') as h:
            b = h.read()
        os.unlink(name)
        return np.frombuffer(b, 'u1')
    degs, knots = [2, 1, 1][:dim], [sp.clamped(2, (1,), 'off'), sp.clamped(1, (1,), 'third'), sp.clamped(1, (), 'int')][:dim]
    for prec, scal, idx in itertools.product(('single', 'double'), ('real', 'complex'), ('32bit', '64bit')):
        io = PetIGA(prec, scal, idx)
        for nf in (0, 1, 3):
            o = lib.build(degs, knots, 1, nf)
            for control, fields, nsd in itertools.product((True, False), (True, False), (None, 1, 2, 3)):
                name = 'PetIGA(%s,%s,%s) fields %d (%r,%r,%r) ' % (prec, scal, idx, nf, control, fields, nsd)
                do(out, name + 'write', lambda: io.write('o.dat', o, control, fields, nsd))
                if os.path.exists('o.dat'):
                    do(out, name + 'read', lambda: io.read('o.dat'))
                    do(out, name + 'bytes', lambda: slurp('o.dat'))
        o = lib.build(degs, knots, 1, 0)
        for n in (1, 2, 4):
            def vec():
                io.write_vec('v.dat', sp.gen(o.shape + (n,), n), o)
                r = [io.read_vec('v.dat'), io.read_vec('v.dat', o)]
                return r + [slurp('v.dat')]
            do(out, 'vector of %d' % n, vec)
    o = lib.build(degs, knots, 1, 4)
    for control, smp in itertools.product((True, False), (None, lambda u: np.linspace(u[0], u[-1], 4))):
        for sc, ve in itertools.product(((), {'a': 1}, [('b c', 3), (None, 0)]), ((), {'v': [0]}, {'v': [0, 1]}, [('', [0, 1, 2]), ('z', [3, 0])], {'v': [0, 1, 2, 3]})):
            def vtk():
                VTK().write('o.vtk', o, control, None, sc, ve, smp)
                return slurp('o.vtk')
            do(out, 'VTK(%r,%r,%r)' % (control, sc, ve), vtk)


def plots(out, dim):
    from igakit.plot import Plotter
    class Sink:
        _resolution = {1: 5, 2: 4, 3: 3}
        def __init__(self):
            self.got = []
        def __getattr__(self, name):
            if name[-2:] != '3d':
                raise AttributeError(name)
            def f(*args, **kw):
                self.got.extend(np.array(x) for x in flat([args, kw.get('lines', ()), kw.get('surfs', ())]))
            return f
    o = lib.build([2, 1, 1][:dim], [sp.clamped(2, (1,), 'off'), sp.clamped(1, (1,), 'third'), sp.clamped(1, (), 'int')][:dim], 1, 1)
    def draw(f):
        p = Plotter()
        p._backend = s = Sink()
        f(p)
        return s.got
    for nm in ('cpoint', 'cwire', 'kpoint', 'kwire', 'ksurf', 'curve', 'surface', 'volume', 'plot', 'cplot', 'kplot'):
        do(out, 'plot ' + nm, lambda: draw(lambda p: getattr(p, nm)(o)))
    for d in (1, 2, 3, 4):
        X = sp.gen((3, d), 2)
        do(out, 'plot points %d' % d, lambda: draw(lambda p: p.points(X)))
        do(out, 'plot point %d' % d, lambda: draw(lambda p: p.points(X[0])))
        for e in (1, 2, 3):
            do(out, 'plot quiver %d %d' % (d, e), lambda: draw(lambda p: p.quiver(X, sp.gen((3, e), 5))))
            do(out, 'plot arrow %d %d' % (d, e), lambda: draw(lambda p: p.quiver(X[0], sp.gen((e,), 5))))


def kiga(out, p):
    for q in range(-1, 13):
        do(out, 'GaussLegendreRule(%d)' % q, lambda: iga.GaussLegendreRule(q))
        do(out, 'GaussLobattoRule(%d)' % q, lambda: iga.GaussLobattoRule(q))
    for E in range(0, 8):
        for C in range(-1, p + 1):
            for wrap in (0, 1):
                for lim in ((0, 1), (-2.5, 7)):
                    do(out, 'KnotVector(%d,%d,%d,%r,%d)' % (E, p, C, lim, wrap), lambda: iga.KnotVector(E, p, C, lim[0], lim[1], wrap))


def objs(out, spec, ops, invalid):
    degs, knots, wk, nf = spec
    o = lib.build(degs, knots, wk, nf)

    def visit(o, path, left):
        if o.dim == 0:
            return
        for name, q in opset.queries(o.dim):
            do(out, path + ':' + name, lambda: q(o))
        if invalid:
            for name, f in opset.invalid(o.dim):
                do(out, path + ':' + name, lambda: f(o.copy()))
        if not left:
            return
        alph = opset.inplace(o.dim) + opset.derived(o.dim)
        for i, (name, f) in enumerate(alph):
            if left[0] not in (i, -1):
                continue
            t = o.copy()
            mark(path + '/' + name)
            try:
                r = f(t)
            except Exception as e:
                out.append((path + '/' + name, type(e).__name__))
                continue
            out.append((path + '/' + name, digest(r)))
            visit(r, path + '/' + name, left[1:])
    visit(o, '', ops)


def bad(out, fn):
    """One argument of a valid call replaced by something unsuitable."""
    p, U = 2, [0, 0, 0, .5, 1, 1, 1]
    P1 = sp.gen((4, 3), 1)
    W1 = np.abs(sp.gen((4, 4), 1)) + 1
    X = [0.25, 0.75]
    head = dict(FindSpan=[p, U, 0.3], FindMult=[p, U, 0.3], FindSpanMult=[p, U, 0.3], EvalBasisFuns=[p, U, 0.3],
                EvalBasisFunsDers=[p, U, 0.3, 2], SpanIndex=[p, U], Greville=[p, U], InsertKnot=[p, U, P1, 0.3, 1],
                RemoveKnot=[p, U, P1, 0.5, 1e-9, 1], Clamp=[p, U, P1, 1, 1], Unclamp=[p, U, P1, 1, 1, 1],
                RefineKnotVector=[p, U, P1, [0.25, 0.5]], DegreeElevate=[p, U, P1, 1], Extract=[p, U, P1, 0.3],
                Evaluate0=[[1., 2, 3]], Evaluate1=[p, U, P1, X], BasisData=[p, U, 2, 3], BasisDataCol=[p, U, X, 2],
                KnotVector=[3, 2, 1, 0.0, 1.0, 0], GaussLegendreRule=[3], GaussLobattoRule=[3])
    for nm in ('Gradient', 'Hessian', 'ThirdDer', 'FourthDer'):
        head[nm + '1'] = [0, p, U, W1, P1, X]
        head[nm + '2'] = [0, p, U, p, U, W1[:, None] + np.zeros((4, 4, 4)), P1[:, None] + np.zeros((4, 4, 3)), X, X]
        head[nm + '3'] = [0, p, U, p, U, p, U, np.abs(sp.gen((4, 4, 4, 4), 2)) + 1, sp.gen((4, 4, 4, 3), 2), X, X, X]
    head['Evaluate2'] = [p, U, p, U, sp.gen((4, 4, 3), 2), X, X]
    head['Evaluate3'] = [p, U, p, U, p, U, sp.gen((4, 4, 4, 3), 2), X, X, X]
    mod = bsp if hasattr(bsp, fn) else iga
    f = getattr(mod, fn)
    args = head[fn]
    do(out, fn, lambda: f(*args))
    for i, x in enumerate(args):
        if np.ndim(x):
            # shapes and types are checked on entry; sorted knots and their multiplicities are a precondition
            x = np.array(x, 'd')
            reps = [x[:1], x[:0], x[..., :-1], x[None], x[..., None], 0.5, 'x', x[::2]]
            if x.ndim > 1:
                reps += [x[:-1], x.reshape(-1), np.concatenate([x, x]), x * np.nan, x.astype('i'), x[::-1], None]
            elif x is not U and len(x) < 5 and fn != 'RefineKnotVector':
                reps += [x[::-1], np.concatenate([x, x]), x + 100, x - 100]
        elif isinstance(x, float):
            reps = ['x', np.zeros((2, 2)), [], 7.0, -7.0, float('inf')]
            if fn in ('InsertKnot', 'RemoveKnot'):
                reps = reps[:1] + reps[3:]
        elif i == 0 and fn[:-1] in ('Hessian', 'ThirdDer', 'FourthDer'):
            reps = [None, 'x', []]          # the kernels have no mapped form, which is refused by the methods that call them
        elif fn == 'Unclamp' and i == 3:
            reps = [None, 'x', 0, 1]
        else:
            reps = [None, 'x', 0.5, -1, 0, 1, 3, 4, 5, 6, 7, 100]
        for r in reps:
            a = list(args)
            a[i] = r
            do(out, '%s: argument %d = %.60r' % (fn, i, r), lambda: f(*a))
    do(out, fn + ': no argument', lambda: f())
    do(out, fn + ': one less', lambda: f(*args[:-1]))
    do(out, fn + ': one more', lambda: f(*(args + [1, 1, 1])))


FORMS = dict(construct=construct, affine=affine, files=files, plots=plots)


def run(case):
    global SKIP
    SKIP = case.get('skip', ())
    out = []
    k = case['kind']
    if k == 'k1':
        k1(out, case['p'], case['U'], case['comps'], None)
    elif k == 'kn':
        kn(out, case['ws'], case['d'])
    elif k == 'iga':
        kiga(out, case['p'])
    elif k == 'obj':
        objs(out, opset.objects(case['tier'])[case['obj']], case['ops'], case['invalid'])
    elif k == 'pub':
        pub(out, case['ws'], case['wk'], case['nf'])
    elif k == 'cad':
        factories(out)
    elif k in FORMS:
        FORMS[k](out, case['dim'])
    elif k == 'bad':
        bad(out, case['fn'])
    return out


def main():
    global lab
    fd = os.open(LABEL, os.O_RDWR)
    lab = mmap.mmap(fd, 4096)
    sys.stdout.write('ready\n')
    sys.stdout.flush()
    for line in sys.stdin:
        out = run(json.loads(line))
        h = hashlib.blake2b(repr(out).encode(), digest_size=8).hexdigest()
        sys.stdout.write(json.dumps(dict(n=len(out), h=h, out=out)) + '\n')
        sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
