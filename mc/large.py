"""Large sizes and high degrees: objects with many spans, many control points, many parameters.

The exhaustive alphabets are small; behaviour that starts at a size (blocks, buffers, tables) is reached by a short
list of large objects on which each property is decided with the models of its own check."""
import itertools
import os
import numpy as np
from . import ref, spaces as sp, lib

CURVES = [(2, 300, 'c'), (3, 70, 'u'), (1, 130, 'c'), (3, 1040, 'c'), (8, 3, 'c'), (9, 1, 'c'), (6, 37, 'u'), (7, 2, 'l')]
SURFACES = [((2, 40, 'c'), (1, 33, 'c')), ((7, 1, 'c'), (2, 12, 'u')), ((1, 1, 'c'), (2, 270, 'c')), ((2, 66, 'r'), (3, 3, 'c'))]
VOLUMES = [((2, 9, 'c'), (1, 10, 'c'), (2, 8, 'u')), ((1, 1, 'c'), (1, 2, 'c'), (2, 140, 'c'))]


def knots(p, n, end='c'):
    """n spans of irregular length, a few breaks with higher multiplicity."""
    gaps = [1.0 + ((i * 7) % 5) / 8.0 + (i % 3) / 16.0 for i in range(n)]
    b = np.concatenate([[0.0], np.cumsum(gaps)]) / 4.0 - 3.0
    U = [float(b[0])] * (p + 1)
    for i in range(1, n):
        m = 1 if i % 11 != 1 else min(p, 2) if i % 2 else p
        U += [float(b[i])] * m
    U += [float(b[n])] * (p + 1)
    if end != 'c':
        U = sp.open_ends(U, p, 1 if end in 'ul' else p + 1, 1 if end in 'ur' else p + 1, 0.4)
    return [float(x) for x in U]


def spec(i):
    """(degrees, knots) of the i-th object."""
    t = ([(c,) for c in CURVES] + SURFACES + VOLUMES)[i]
    return [p for p, n, e in t], [knots(*c) for c in t]


def cases(which=None):
    n = len(CURVES) + len(SURFACES) + len(VOLUMES)
    for i in range(n) if which is None else which:
        yield dict(kind='large', obj=i)


C1 = range(len(CURVES))
C2 = range(len(CURVES), len(CURVES) + len(SURFACES))
C3 = range(len(CURVES) + len(SURFACES), len(CURVES) + len(SURFACES) + len(VOLUMES))


def some(p, U, n):
    """About n parameters: the first and last spans, and every k-th one; interior points and breaks."""
    bs = ref.breaks(p, U)
    m = len(bs) - 1
    step = max(1, m // n)
    ix = sorted(set(list(range(0, m, step)) + [0, 1, m - 1, max(0, m - 2)]) & set(range(m)))
    out = [bs[0], bs[-1]]
    for j, i in enumerate(ix):
        t = (0.5, 0.21, 0.83)[j % 3]
        out.append(bs[i] + (bs[i + 1] - bs[i]) * t)
        if j % 3 == 0:
            out.append(bs[i])
    return np.array(sorted(set(out)))


def spread(degs, kn, ns):
    """ns[i] parameters per direction, in no order."""
    out = []
    for p, U, n in zip(degs, kn, ns):
        a, b = ref.domain(p, U)
        out.append(a + (b - a) * (((np.arange(n) * 7919) % n) + 0.25) / n)
    return out


def grid(degs, kn):
    return [some(p, U, {1: 120, 2: 14, 3: 6}[len(degs)]) for p, U in zip(degs, kn)]


# ---- derivatives -----------------------------------------------------------

def p02(case, ctx, pack):
    if 'batch' in case:
        degs, kn = case['degs'], case['knots']
        x = spread(degs, kn, case['batch'])
        orders, tol = (1, 2, 3, 4), 1e-9
    else:
        degs, kn = spec(case['obj'])
        x = grid(degs, kn)
        orders, tol = ((1, 2, 3, 4) if len(degs) < 3 and max(degs) < 6 else (1, 2)), 1e-7
    dim = len(degs)
    o = lib.build(degs, kn, 1, 0)
    w = lib.hom(o)[..., 3]
    X = lib.hom(o)[..., :3] / w[..., None]
    s = sp.gen(o.shape, 29)
    D = ref.rational_ders(degs, kn, w, np.concatenate([X, s[..., None]], -1), x, max(orders))
    ctx.distinct(case)
    kw = dict(zip('uvw', x))
    for r in orders:
        if dim == 1 and r == 4:
            continue                # the listed finding
        want = pack(D, dim, r, tuple(len(u) for u in x) + (4,))
        sc = max(1.0, np.abs(want).max())
        for what, got, ref_ in [('scalar field', o.derivative(r, s, **kw), want[(slice(None),) * dim + (3,)]),
                                ('geometry', o.derivative(r, **kw), want[(slice(None),) * dim + (slice(0, 3),)])] + \
                ([('gradient', o.gradient(s, **kw), want[(slice(None),) * dim + (3,)])] if r == 1 else []) + \
                ([('hessian', o.hessian(s, **kw), want[(slice(None),) * dim + (3,)])] if r == 2 else []):
            ctx.ev()
            if not ref.close(got, ref_, tol, sc):
                ctx.fail('order-%d derivative (%s) of a large case' % (r, what), err=ref.err(got, ref_), scale=sc)


def batches():
    U2, U1 = sp.clamped(2, (1, 2), 'off'), sp.clamped(1, (1,))
    for n in (255, 257, 513, 1025, 2100, 16500):
        yield dict(kind='large', batch=[n], degs=[2], knots=[U2])
    for n in ((33, 17), (1, 700), (700, 1), (129, 8), (131, 67), (66, 258)):
        yield dict(kind='large', batch=list(n), degs=[2, 1], knots=[U2, U1])
    for n in ((1, 1, 600), (1, 300, 2), (600, 1, 1), (11, 12, 13), (27, 29, 28)):
        yield dict(kind='large', batch=list(n), degs=[2, 1, 1], knots=[U2, U1, U1])


# ---- insertion, removal, elevation, ends -----------------------------------

def mids(U, n):
    """n values strictly inside spans, spread over all of them."""
    bs = sorted(set(U))
    p = sum(1 for x in U if x == U[0]) - 1
    bs = [x for x in bs if U[p] <= x <= U[len(U) - p - 1]]
    out = []
    k = 0
    while len(out) < n:
        for a, b in zip(bs[:-1], bs[1:]):
            out.append(a + (b - a) * ((0.5, 0.25, 0.75, 0.375, 0.625, 0.125)[k % 6]))
        k += 1
        if k == 6:
            break
    return out[:n]


def p04(case, ctx, verify, expected):
    degs, kn = spec(case['obj'])
    dim = len(degs)
    init = lib.build(degs, kn, 1, 1)
    pts = grid(degs, kn)
    base = lib.geom_at(init, pts)
    ctx.state(case)
    for ax in range(dim):
        p, U = degs[ax], kn[ax]
        a, b = ref.domain(p, U)
        bs = ref.breaks(p, U)
        inner = [x + 0.5 * (y - x) for x, y in zip(bs, bs[1:])]
        quarter = [x + 0.25 * (y - x) for x, y in zip(bs, bs[1:])]
        sets = [inner, inner[::-1] + quarter, inner[-3:] + inner[:3] + bs[1:-1][:1] * (p - U.count(bs[1]) if len(bs) > 2 else 0),
                [v for v in inner[:5] for _ in range(p)], [inner[len(inner) // 2]] * p]
        for k, vs in enumerate(sets):
            want = expected(p, U, vs)
            if want is None:
                continue
            K = list(kn)
            K[ax] = want
            r = init.clone().refine(ax, vs)
            ctx.trans()
            verify(ctx, 'refine (large)', r, degs, K, base, pts, axis=ax, values=len(vs), set=k)
            ctx.state((case, ax, k))
        for v in (inner[0], inner[len(inner) // 2], inner[-1], bs[len(bs) // 2] if len(bs) > 2 else inner[0]):
            for t in (1, None):
                tt = p - U.count(v) if t is None else t
                want = expected(p, U, [v] * tt)
                if want is None or tt < 1:
                    continue
                K = list(kn)
                K[ax] = want
                r = init.clone().insert(ax, v, t)
                ctx.trans()
                verify(ctx, 'insert (large)', r, degs, K, base, pts, axis=ax, value=v, times=tt)


def p05(case, ctx, verify, expected, less):
    degs, kn = spec(case['obj'])
    dim = len(degs)
    init = lib.build(degs, kn, 1, 1)
    pts = grid(degs, kn)
    base = lib.geom_at(init, pts)
    ctx.state(case)
    for ax in range(dim):
        p, U = degs[ax], kn[ax]
        bs = ref.breaks(p, U)
        inner = [x + 0.5 * (y - x) for x, y in zip(bs, bs[1:])]
        use = inner[:2] + inner[len(inner) // 2:len(inner) // 2 + 2] + inner[-2:]
        use = sorted(set(use))
        full = expected(p, U, [v for v in use for _ in range(min(p, 2))])
        r = init.clone().refine(ax, [v for v in use for _ in range(min(p, 2))])
        K = list(kn)
        K[ax] = full
        for k, v in enumerate(use[::2] + use[1::2]):
            t = None if k % 2 else 1
            r.remove(ax, v, t)
            ctx.trans()
            K[ax] = less(K[ax], v, min(p, 2) if t is None else 1)
            verify(ctx, 'remove (large)', r, degs, K, base, pts, axis=ax, value=v, times=t)
            ctx.state((case, ax, k))
        if p > 2:                   # as many knots as the degree, at once
            v = inner[len(inner) // 2]
            for t in (None, p, p - 1):
                r = init.clone().insert(ax, v, p).remove(ax, v, t)
                K = list(kn)
                K[ax] = expected(p, U, [v] * (t == p - 1))
                ctx.trans()
                verify(ctx, 'remove (large, many times)', r, degs, K, base, pts, axis=ax, value=v, times=t)
        for v in (bs[1:-1][:1] + bs[1:-1][-1:] + bs[1:-1][len(bs) // 2:len(bs) // 2 + 1]):
            r = init.clone().remove(ax, v, None)
            ctx.trans()
            verify(ctx, 'remove (large, nothing redundant)', r, degs, kn, base, pts, axis=ax, value=v)


def p06(case, ctx, verify):
    degs, kn = spec(case['obj'])
    dim = len(degs)
    init = lib.build(degs, kn, 1, 1)
    pts = grid(degs, kn)
    base = lib.geom_at(init, pts)
    ctx.state(case)
    for ax in range(dim):
        for t in (1, 2) if degs[ax] < 9 else (1,):
            r = init.clone().elevate(ax, t)
            ctx.trans()
            verify(ctx, 'elevate (large)', r, degs, kn[ax], ax, t, kn, base, pts, 1e-8 if max(degs) < 5 else 1e-6, along=ax, times=t)
            ctx.state((case, ax, t))


def p07(case, ctx, verify, ops, model, apply):
    degs, kn = spec(case['obj'])
    dim = len(degs)
    init = lib.build(degs, kn, 1, 1)
    pts = grid(degs, kn)
    base = lib.geom_at(init, pts)
    ctx.state(case)
    for ax in range(dim):
        for op in ops(degs[ax]):
            w = model(degs[ax], kn[ax], op)
            if any(x > y for x, y in zip(w, w[1:])):
                continue
            K = list(kn)
            K[ax] = w
            r = apply(init.clone(), ax, op)
            ctx.trans()
            verify(ctx, op[0] + ' (large)', r, degs, K, base, pts, 1.0, axis=ax, op=op)
            ctx.state((case, ax, repr(op)))


def p08(case, ctx, model_slice):
    degs, kn = spec(case['obj'])
    dim = len(degs)
    init = lib.build(degs, kn, 1, 1)
    s = lib.snap(init)
    ctx.state(case)
    for ax in range(dim):
        p, U = degs[ax], kn[ax]
        bs = ref.breaks(p, U)
        m = len(bs) - 1
        at = sorted({bs[0], bs[0] + 0.3 * (bs[1] - bs[0]), bs[m // 2], bs[m // 2] + 0.6 * (bs[m // 2 + 1] - bs[m // 2]), bs[-1] - 0.2 * (bs[-1] - bs[-2]), bs[-1]})
        for a, b in itertools.combinations(at, 2):
            r = init.slice(ax, a, b)
            ctx.trans()
            lib.wellformed(r, ctx, 'slice (large)')
            for i in range(dim):
                lib.same_knots(ctx, 'slice (large)', r.knots[i], model_slice(p, U, a, b) if i == ax else kn[i], knots_axis=i, start=a, end=b)
            x = [some(q, V, {1: 60, 2: 12, 3: 5}[dim]) for q, V in zip(r.degree, r.knots)]
            lib.same_geometry(ctx, 'slice (large)', lib.geom_at(r, x), lib.geom_at(init, x), 1e-9 if max(degs) < 6 else 1e-7, axis=ax, start=a, end=b)
            ctx.trace()
            ctx.state((case, ax, a, b))
        for v in at:
            e = init.extract(ax, v)
            ctx.trans()
            x = grid(degs, kn)
            x[ax] = np.array([v])
            want = np.take(lib.geom_at(init, x), 0, ax)
            got = ref.tensor(e.degree, e.knots, lib.hom(e), [u for i, u in enumerate(x) if i != ax])
            lib.same_geometry(ctx, 'extract (large)', got, want, 1e-9, axis=ax, value=v)
            for i, q in enumerate(k for k in range(dim) if k != ax):
                lib.same_knots(ctx, 'extract (large)', e.knots[i], kn[q], knots_axis=q)
    ctx.check(lib.snap(init) == s, 'slicing changed the object')


def p09(case, ctx):
    degs, kn = spec(case['obj'])
    dim = len(degs)
    init = lib.build(degs, kn, 1, 1)
    x = grid(degs, kn)
    base = lib.geom_at(init, x)
    ctx.state(case)
    for ax in range(dim):
        a, b = ref.domain(degs[ax], kn[ax])
        r = init.clone().reverse(ax)
        ctx.trans()
        lib.wellformed(r, ctx, 'reverse (large)')
        V = np.array([a + b - u for u in kn[ax]][::-1])
        lib.same_knots(ctx, 'reverse (large)', r.knots[ax], V, 1e-13 * (1 + np.abs(V).max()), knots_axis=ax)
        y = list(x)
        y[ax] = np.clip(a + b - x[ax], a, b)
        lib.same_geometry(ctx, 'reverse (large)', lib.geom_at(r, y), base, 1e-9, axis=ax)
        for c, d in ((0.0, 1.0), (-5.0, 1e3)):
            r = init.clone().remap(ax, c, d)
            ctx.trans()
            lib.wellformed(r, ctx, 'remap (large)')
            V = c + (np.array(kn[ax]) - a) * ((d - c) / (b - a))
            lib.same_knots(ctx, 'remap (large)', r.knots[ax], V, 1e-12 * (1 + np.abs(V).max()), knots_axis=ax)
            y = list(x)
            y[ax] = np.clip(c + (x[ax] - a) * ((d - c) / (b - a)), c, d)
            lib.same_geometry(ctx, 'remap (large)', lib.geom_at(r, y), base, 1e-9, axis=ax)
        ctx.trace()
        ctx.state((case, ax))
    for perm in itertools.permutations(range(dim)):
        r = init.clone().transpose(perm)
        ctx.trans()
        ctx.check([list(U) for U in r.knots] == [list(kn[i]) for i in perm], 'transpose (large): knots', perm=perm)
        ctx.check(np.array_equal(lib.hom(r), lib.hom(init).transpose(list(perm) + [dim])), 'transpose (large): control points', perm=perm)
        ctx.trace()
        ctx.state((case, perm))


def p10(case, ctx, tr):
    degs, kn = spec(case['obj'])
    init = lib.build(degs, kn, 1, 2)
    A = lib.hom(init)
    M = np.array([[0.8, -0.5, 0.1, 2], [0.7, 1.1, -0.3, -1], [0.2, 0.4, 1.5, 0.5], [0, 0, 0, 1]])
    t = np.eye(4)
    t[:3, 3] = (1.5, -2, 0.25)
    s = np.diag([2.0, 2.0, 2.0, 1])
    c, z = np.cos(0.7), np.sin(0.7)
    R = np.array([[c, -z, 0, 0], [z, c, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1.0]])
    for what, f, B in (('transform', lambda o: o.transform(M), M), ('translate', lambda o: o.translate([1.5, -2, 0.25]), t), ('scale', lambda o: o.scale(2.0), s),
                       ('rotate', lambda o: o.rotate(0.7), R), ('all', lambda o: o.transform(tr(M)).translate([1.5, -2, 0.25]).rotate(0.7).scale(2.0), s @ R @ t @ M)):
        o = init.clone()
        f(o)
        ctx.trans()
        want = A.copy()
        want[..., :4] = A[..., :4] @ B.T
        ctx.check(ref.close(lib.hom(o), want, 1e-13), what + ' (large): control points', err=ref.err(lib.hom(o), want))
        ctx.check([U.tobytes() for U in o.knots] == [U.tobytes() for U in init.knots], what + ' (large): knots')
        ctx.state((case, what)), ctx.trace()
    ctx.check(np.array_equal(lib.hom(init), A), 'the source of a clone changed')


# ---- constructions ---------------------------------------------------------

def p16(case, ctx, cad):
    degs, kn = spec(case['obj'])
    a = lib.build(degs, kn, 1, 0, 0)
    b = lib.build(degs, kn, 1, 0, 5)
    sib = [np.array(U) for U in kn]
    T = lib.build([2], [sp.clamped(2, (1,), 'off')], 1, 0, 7)
    small = lib.build(degs, [sp.clamped(p, (), 'neg') for p in degs], 0, 0, 9)
    x = grid(degs, kn)
    v = np.array([0, 0.3, 1.0])
    ctx.distinct(case)
    E = cad.extrude(a, [1.0, -2, 0.5])
    C = lib.cart(lib.geom_at(a, x))[..., :3]
    ctx.ev(3)
    want = C[..., None, :] + v[:, None] * np.array([1.0, -2, 0.5])
    ctx.check(ref.close(E(*(x + [v])), want, 1e-9), 'extrude (large)')
    S = cad.sweep(a, T)
    y = ref.per_span_points(2, T.knots[0], 2)
    want = C[..., None, :] + lib.cart(lib.geom_at(T, [y]))[..., :3]
    ctx.check(ref.close(S(*(x + [y])), want, 1e-9), 'sweep (large)')
    for o in (b, small):
        R = cad.ruled(a, o)
        lib.wellformed(R, ctx, 'ruled (large)')
        D = [ref.domain(p, U) for p, U in zip(R.degree, R.knots)][:-1]
        z = [some(p, U, {1: 60, 2: 10, 3: 4}[len(degs)]) for p, U in zip(R.degree[:-1], R.knots[:-1])]
        Hs = []
        for q in (a, o):
            d = [ref.domain(p, U) for p, U in zip(q.degree, q.knots)]
            Hs.append(lib.geom_at(q, [np.clip(e[0] + (t - f[0]) * ((e[1] - e[0]) / (f[1] - f[0])), *e) for t, e, f in zip(z, d, D)]))
        H = Hs[0][..., None, :] * (1 - v)[:, None] + Hs[1][..., None, :] * v[:, None]
        ctx.check(ref.close(R(*(z + [v])), H[..., :3] / H[..., 3:4], 1e-8), 'ruled (large)')


def p15(case, ctx, revolve, rodrigues, vec):
    degs, kn = spec(case['obj'])
    o = lib.build(degs, kn, 1, 0)
    x = grid(degs, kn)
    C = lib.cart(lib.geom_at(o, x))[..., :3]
    ctx.distinct(case)
    for axis, pt, ang in ((2, 0, None), ((1, -2, 2.0), (0.5, 1, -3), 2.0), (0, (2, -1), -4.0)):
        p = vec(pt)
        k = np.eye(3)[axis] if np.ndim(axis) == 0 else np.array(axis) / np.linalg.norm(axis)
        S = revolve(o, pt, axis, ang)
        ctx.ev()
        lib.wellformed(S, ctx, 'revolve (large)')
        t = np.array(ref.breaks(S.degree[-1], S.knots[-1]))
        want = np.stack([(C - p) @ rodrigues(k, (2 * np.pi if ang is None else ang) * u).T + p for u in t], axis=-2)
        ctx.check(ref.close(S(*(x + [t])), want, 1e-10, np.abs(want).max()), 'revolve (large)', axis=axis)


def p17(case, ctx, cad):
    """Many operands, and operands with many knots."""
    if 'close' in case:
        return p17_close(case, ctx, cad)
    if 'many' in case:
        n = case['many']
        objs = [lib.build([1 + i % 4], [sp.clamped(1 + i % 4, (1 + i % 2 if i % 4 else 1,) * (i % 3), 'unit')], i % 2, 0, i) for i in range(n)]
    else:
        degs, kn = spec(case['obj'])
        objs = [lib.build(degs, kn, 1, 1, 0), lib.build(degs, [sp.clamped(p, (1,), 'neg') for p in degs], 1, 1, 4), lib.build(degs, kn, 0, 1, 5)]
    before = [lib.snap(o) for o in objs]
    out = cad.compat(*objs)
    ctx.trans()
    ctx.check(len(out) == len(objs) and [lib.snap(o) for o in objs] == before, 'operands changed')
    dim = objs[0].dim
    for ax in range(dim):
        doms = [ref.domain(o.degree[ax], o.knots[ax]) for o in objs]
        D = (min(d[0] for d in doms), max(d[1] for d in doms))
        p = max(o.degree[ax] for o in objs)
        need = 0
        for r in out:
            ctx.check(r.degree[ax] == p and ref.domain(p, r.knots[ax]) == D, 'degree or domain is not the common one', axis=ax)
            lib.same_knots(ctx, 'results differ', r.knots[ax], out[0].knots[ax], 1e-15 * max(map(abs, D)), knots_axis=ax)
        # every knot is one of an operand
        tol = 1e-12 * max(1.0, max(map(abs, D)))
        src = np.concatenate([D[0] + (np.array(ref.breaks(o.degree[ax], o.knots[ax])) - d[0]) * ((D[1] - D[0]) / (d[1] - d[0])) for o, d in zip(objs, doms)])
        got = np.array(ref.breaks(p, out[0].knots[ax]))
        ctx.check(max(np.abs(src - x).min() for x in got) <= tol and max(np.abs(got - x).min() for x in src) <= tol, 'breaks are not the union', axis=ax)
    for o, r in zip(objs, out):
        lib.wellformed(r, ctx, 'compat (large)')
        x = [some(p, U, {1: 60, 2: 10, 3: 4}[dim]) for p, U in zip(r.degree, r.knots)]
        xo = []
        for ax in range(dim):
            d, D = ref.domain(o.degree[ax], o.knots[ax]), ref.domain(r.degree[ax], r.knots[ax])
            xo.append(np.clip(d[0] + (x[ax] - D[0]) * ((d[1] - d[0]) / (D[1] - D[0])), d[0], d[1]))
        w, g = lib.cart(lib.geom_at(o, xo)), lib.cart(lib.geom_at(r, x))
        ctx.check(ref.close(g, w, 1e-8), 'map changed (large)', err=ref.err(g, w))
        ctx.trace()
    ctx.state(repr(case))


def p17_close(case, ctx, cad):
    """Many breaks, some of them almost the same in the two operands: all of them are kept, exactly."""
    n, e = case['breaks'], case['close']
    degs = case['degs']
    kn = []
    for k, p in enumerate(degs):
        x = np.arange(1, n) / n
        if k % 2:
            x = x + e * (np.arange(1, n) % 3 - 1)
        kn.append([0.0] * (p + 1) + x.tolist() + [1.0] * (p + 1))
    surf = case.get('surface')
    objs = []
    for k, (p, U) in enumerate(zip(degs, kn)):
        D, K = [p], [U]
        if surf:
            D, K = ([1, p], [[0., 0, .5, 1, 1], U]) if surf == 2 else ([p, 1], [U, [0., 0, .25, 1, 1]])
        objs.append(lib.build(D, K, 1, 0, k))
    ax = 1 if surf == 2 else 0
    out = cad.compat(*objs)
    ctx.trans()
    top = max(degs)
    inner = {}
    for p, U in zip(degs, kn):
        for x in U[p + 1:-p - 1]:
            inner[x] = max(inner.get(x, 0), 1 + top - p)
    want = [0.0] * (top + 1) + sorted(x for x, m in inner.items() for _ in range(m)) + [1.0] * (top + 1)
    for o, r in zip(objs, out):
        lib.wellformed(r, ctx, 'compat (close breaks)')
        ctx.check(r.knots[ax].tolist() == want, 'knots are not the union (close breaks)', got=len(r.knots[ax]), want=len(want))
        x = [some(p, U, 60 if o.dim == 1 else 12) for p, U in zip(o.degree, o.knots)]
        w, g = lib.cart(lib.geom_at(o, x)), lib.cart(lib.geom_at(r, x))
        ctx.check(ref.close(g, w, 1e-9), 'map changed (close breaks)', err=ref.err(g, w))
        ctx.trace()
    ctx.state(repr(case))


def p18(case, ctx, cad):
    """A long object cut in many pieces and joined again, left to right and in pairs."""
    degs, kn = spec(case['obj'])
    o = lib.build(degs, kn, 1, 1)
    dim = len(degs)
    for ax in range(dim):
        a, b = ref.domain(degs[ax], kn[ax])
        bs = ref.breaks(degs[ax], kn[ax])
        n = min(12, 2 * len(bs))
        cuts = [a] + [a + (b - a) * (i + 0.37) / n for i in range(1, n - 1)] + [b]
        pieces = [o.slice(ax, x, y) for x, y in zip(cuts, cuts[1:])]
        left = pieces[0]
        for q in pieces[1:]:
            left = cad.join(left, q, ax)
            ctx.trans()
        todo = list(pieces)
        while len(todo) > 1:
            todo = [cad.join(todo[i], todo[i + 1], ax) if i + 1 < len(todo) else todo[i] for i in range(0, len(todo), 2)]
            ctx.trans()
        x = grid(degs, kn)
        w = lib.geom_at(o, x)
        for what, J in (('left to right', left), ('in pairs', todo[0])):
            lib.wellformed(J, ctx, 'join (large)')
            at = {}
            rest = []
            tol = 1e-12 * max(1, abs(a), abs(b))
            for u in map(float, J.knots[ax]):
                near = [c for c in cuts[1:-1] if abs(c - u) <= tol]
                if near:
                    at[near[0]] = at.get(near[0], 0) + 1
                elif a < u < b:
                    rest.append(u)
            lib.same_knots(ctx, 'pieces joined ' + what, rest, [u for u in kn[ax] if a < u < b], tol, knots_axis=ax)
            m = 1 if dim == 1 and degs[ax] < 4 else degs[ax]
            ctx.check(max(at.values(), default=0) <= m, 'redundant knots at the junctions (large)', got=at, most=m)
            y = [np.clip(t, *ref.domain(p, U)) for t, p, U in zip(x, J.degree, J.knots)]
            lib.same_geometry(ctx, 'pieces joined ' + what, lib.geom_at(J, y), w, 1e-7, axis=ax)
            ctx.trace()
        ctx.state((case, ax))


def p19(case, ctx, check_grid, verify, model, words):
    from igakit import cad
    if 'grid' in case:
        E, P, C, w = case['grid'], case['deg'], case['cont'], case['wrap']
        lims = [(0.0, 1.0), (-1.0, 2.0), (3.0, 3.75)][:len(E)]
        check_grid(ctx, cad.grid(E, P, C, lims, w), tuple(E), tuple(P), tuple(C), tuple(lims), tuple(w), 'large')
        return
    degs, kn = spec(case['obj'])
    o = lib.build(degs, kn, 1, 1)
    x = grid(degs, kn)
    base = lib.geom_at(o, x)
    W = words(o)
    n = [len(b) - 1 for _, b, _ in W]
    big = max(n) > 100
    for f, d, c in [(2, None, None), (1 if big else 3, max(degs) + 1 if max(degs) < 6 else None, 0 if max(degs) < 6 else None),
                    ([[1 + (i * 5 + k) % 3 for i in range(m)] for k, m in enumerate(n)], None, None)] + \
            ([(40, None, 0), ([[(5, 45, 101, 33)[(i + k) % 4] for i in range(m)] for k, m in enumerate(n)], None, None)] if max(n) < 5 else []):
        if len(degs) == 3 and (f, d) != (2, None):
            continue
        ff = f if isinstance(f, list) else [f] * len(degs)
        r = cad.refine(o, f, d, c)
        verify(ctx, r, [model(a, b, d, c) for a, b in zip(W, ff)], base, x, ['large', 'list' if isinstance(f, list) else f, d, c])
        ctx.state((case, repr(f), d, c))


# ---- files -----------------------------------------------------------------

def p20(case, ctx, PetIGA, fmt):
    degs, kn = spec(case['obj'])
    with fmt.Scratch() as S:
        f = S.path()
        for nf in (0, 3):
            o = lib.build(degs, kn, 1, nf)
            for F in fmt.FORMATS:
                io = PetIGA(precision=F[0], scalar=F[1], indices=F[2])
                io.write(f, o)
                data = open(f, 'rb').read()
                ctx.state(data)
                r = io.read(f)
                ctx.trans(2), ctx.trace()
                one = (lambda x: np.asarray(x, 'f4').astype('d')) if F[0] == 'single' else np.asarray
                ctx.check(r.degree == o.degree and r.shape == o.shape, 'structure (large)')
                for U, V in zip(r.knots, o.knots):
                    lib.same_knots(ctx, 'read (large)', U, one(V), format=F)
                n = o.dim
                H = np.zeros(o.shape + (4,))
                H[..., :n] = one(o.control[..., :n])
                H[..., 3] = one(o.weights)
                ctx.check(np.array_equal(r.control, H), 'control points differ (large)', format=F)
                if nf:
                    ctx.check(r.fields is not None and np.abs(r.fields - o.fields).max() <= (1e-6 if F[0] == 'single' else 1e-14) * 4, 'fields differ (large)', format=F)
                else:
                    ctx.check(r.fields is None, 'fields appear (large)')
                # vectors on the same net
                A = sp.gen(o.shape + (2,), 3)
                io.write_vec(f, A, o)
                B = io.read_vec(f, o)
                ctx.check(B.dtype.isnative and r.array.dtype.isnative, 'byte order of another machine (large)', format=F)
                ctx.trans(2)
                ctx.check(B.shape == A.shape and np.abs(B - A).max() <= (1e-6 if F[0] == 'single' else 0), 'vector on a large net', format=F)


def p21(case, ctx, PetIGA, fmt):
    with fmt.Scratch() as S:
        f = S.path()
        if 'n' in case:
            n = case['n']
            for F in fmt.FORMATS if n < 9999 else fmt.FORMATS[::3]:
                io = PetIGA(*F)
                v = sp.gen((n,), 3)
                if F[1] == 'complex':
                    v = v + 1j * sp.gen((n,), 4)
                if F[0] == 'single':
                    v = v.astype('c8' if F[1] == 'complex' else 'f4')
                data = fmt.encode_vec(list(v), F)
                open(f, 'wb').write(data)
                got = io.read_vec(f)
                ctx.check(got.shape == (n,) and np.array_equal(got, v), 'long vector: values', format=F)
                ctx.check(got.dtype.isnative, 'long vector: byte order of another machine', format=F)
                io.write_vec(f, v)
                ctx.check(open(f, 'rb').read() == data, 'long vector: bytes', format=F)
                # band matrix with n rows
                rows = [[(j, 0.5 * i - j + (1j * j if F[1] == 'complex' else 0)) for j in (i - 1, i, i + 3) if 0 <= j < n and (i % 5 or j == i)] for i in range(n)]
                data = fmt.encode_mat(n, n, rows, F)
                open(f, 'wb').write(data)
                (m, k), (ai, aj, av) = io.read_mat(f)
                ctx.check((m, k) == (n, n) and list(ai) == list(np.cumsum([0] + [len(r) for r in rows])) and list(aj) == [c for r in rows for c, v in r], 'large matrix: structure', format=F)
                ctx.check(np.array_equal(np.asarray(av, 'c16'), np.array([v for r in rows for c, v in r], 'c16')), 'large matrix: values', format=F)
                ctx.trans(4), ctx.trace(), ctx.state((n, F))
            return
        degs, kn = spec(case['obj'])
        o = lib.build(degs, kn, 1, 2)
        for F in fmt.FORMATS:
            io = PetIGA(*F)
            io.write(f, o)
            data = open(f, 'rb').read()
            ctx.trans(), ctx.state(data)
            try:
                d = fmt.decode_iga(data, F)
            except (ValueError, AssertionError) as e:
                ctx.fail('large file does not follow the format: %s' % e, format=F)
            one = (lambda x: float(np.float32(x))) if F[0] == 'single' else float
            ctx.check(tuple(d['degree']) == o.degree and tuple(d['shape']) == o.shape, 'degrees or sizes (large)', format=F)
            for U, V in zip(d['knots'], o.knots):
                ctx.check(U == [one(x) for x in V], 'knots (large)', format=F)
            H, X, n = o.control, o.fields, o.dim
            ctx.check(d.get('nsd') == n and d.get('npd') == 2, 'contents (large)', format=F)
            ctx.check(all(v == one(H[i[:-1] + (3 if i[-1] == n else i[-1],)]) for i, v in d['control'].items()), 'control values (large)', format=F)
            ctx.check(all(abs(v - X[i]) <= (1e-6 if F[0] == 'single' else 1e-14) for i, v in d['fields'].items()), 'field values (large)', format=F)
            ctx.trace()


def p22(case, ctx, PetIGA, fmt, refused):
    """Every cut near a multiple of 512 bytes, and every 97th byte, of larger files."""
    k = case['fmt']
    F = fmt.FORMATS[k]
    io = PetIGA(*F)
    with fmt.Scratch() as S:
        f = S.path()
        o = lib.build(*spec(case['obj']), 1, 2)
        io.write(f, o)
        data = open(f, 'rb').read()
        vec = fmt.encode_vec(list(sp.gen((3000,), 2)), F)
        for what, full, read in (('object', data, io.read), ('vector', vec, io.read_vec)):
            ok = read
            at = {b * 512 + d for b in range(len(full) // 512 + 1) for d in (-8, -4, 0, 4, 8)} | set(range(0, len(full), 97)) | {len(full) - d for d in range(1, 70)}
            for n in sorted(at):
                if 0 <= n < len(full):
                    refused(ctx, 'truncated large ' + what, read, f, full[:n], (case, what, n), bytes=n, of=len(full))


def p23(case, ctx, VTK, fmt):
    degs, kn = spec(case['obj'])
    dim = len(degs)
    o = lib.build(degs, kn, 1, 4)
    n = {1: [2100], 2: [47, 53], 3: [13, 11, 12]}[dim] if not case.get('dense') else {1: [70001], 2: [263, 251], 3: [43, 41, 39]}[dim]
    dens = {}

    def sampler(u):
        key = (float(u[0]), float(u[-1]), len(u))
        return np.linspace(u[0], u[-1], dens[key])
    full = []
    for (p, U), m in zip(zip(degs, kn), n):
        b = ref.breaks(p, U)
        dens[(b[0], b[-1], len(b))] = m
    for p, U in zip(degs, kn):
        b = ref.breaks(p, U)
        full.append(np.linspace(b[0], b[-1], dens[(b[0], b[-1], len(b))]))
    with fmt.Scratch() as S:
        fn = S.path('l.vtk')
        for control, s in ((True, sampler), (False, sampler), (True, None)) if not case.get('dense') else ((True, sampler), (False, sampler)):
            x = full if s else [np.array(ref.breaks(p, U)) for p, U in zip(degs, kn)]
            VTK().write(fn, o, control=control, scalars=[('a', 1)], vectors=[('v', [3, 0])], sampler=s)
            ctx.ev(), ctx.distinct((case, control, bool(s)))
            try:
                d = fmt.decode_vtk(open(fn, 'rb').read())
            except Exception as e:
                ctx.fail('a large file is not a legacy VTK file: %r' % e, control=control)
                continue
            V = lib.cart(ref.tensor(degs, kn, lib.hom(o), x))
            order = lambda A: np.stack([A[..., c].ravel('F') for c in range(A.shape[-1])], -1)
            F = order(V[..., 3:])
            ctx.check(d['dims'] == [len(u) for u in x] + [1] * (3 - dim), 'dimensions (large)', got=d['dims'])
            if control:
                ctx.check(ref.close(d['points'], order(V[..., :3]), 1e-9), 'points in a large file')
            else:
                ctx.check(d['coords'] == [list(map(float, u)) for u in x] + [[0.0]] * (3 - dim), 'coordinates in a large file')
            ctx.check(ref.close(d['scalars'][0][1], F[:, 1], 1e-9), 'scalar attribute of a large file')
            w = np.zeros((len(F), 3))
            w[:, 0], w[:, 1] = F[:, 3], F[:, 0]
            ctx.check(ref.close(d['vectors'][0][1], w, 1e-9), 'vector attribute of a large file')


# ---- tables ----------------------------------------------------------------

def p24(case, ctx):
    from numpy.polynomial import legendre as L
    from igakit.igalib import iga
    (p,), (U,) = spec(case['obj'])
    A = np.array(U)
    n = len(U) - p - 2
    spn = [k for k in range(p, n + 1) if U[k] < U[k + 1]]
    ctx.distinct(case)
    for q, d in ((p + 1, 1), (2, min(2, p))):
        O, J, W, X, N = iga.BasisData(p, A, q=q, d=d)
        ctx.ev()
        ctx.check(list(O) == [k - p for k in spn] and N.shape == (len(spn), q, p + 1, d + 1), 'offsets or shapes (large)')
        xg, wg = L.leggauss(q)
        for e in sorted(set(list(range(0, len(spn), max(1, len(spn) // 40))) + [0, len(spn) - 1])):
            k = spn[e]
            a, b = U[k], U[k + 1]
            ctx.check(abs(J[e] - (b - a) / 2) < 1e-13 and ref.close(X[e], a + (xg + 1) * (b - a) / 2, 1e-13, max(map(abs, U))), 'points (large)', element=e)
            B = ref.basis(p, U, X[e], d)[:, :, k - p:k + 1]
            for r in range(d + 1):
                ctx.check(ref.close(N[e, :, :, r], B[r], 1e-9, max(1, np.abs(B[r]).max())), 'tabulated basis (large)', element=e, order=r)
        ctx.check(np.all(J > 0) and abs(J.sum() * 2 - (U[n + 1] - U[p])) < 1e-10, 'elements do not cover the domain')
        ctx.check(np.abs(N[..., 0].sum(-1) - 1).max() < 1e-12, 'partition of unity (large)')
    x = some(p, U, 600)
    O, N = iga.BasisDataCol(p, A, x, d=1)
    ks = [ref.span(p, U, u) for u in x]
    ctx.check(list(O) == [k - p for k in ks], 'collocation offsets (large)')
    B = ref.basis(p, U, x, 1)
    for j, k in enumerate(ks):
        for r in (0, 1):
            w = B[r, j, k - p:k + 1]
            ctx.check(ref.close(N[j, :, r], w, 1e-9, max(1, np.abs(w).max())), 'collocation basis (large)', u=x[j], order=r)


def p29(case, ctx):
    import copy
    import pickle
    degs, kn = spec(case['obj'])
    shape = tuple(lib.ncp(p, U) for p, U in zip(degs, kn))
    P, W, F = sp.gen(shape + (3,), 1), sp.weights(shape, 1), sp.gen(shape + (2,), 2)
    H = np.concatenate([P * W[..., None], W[..., None]], -1)
    K = [np.array(U) for U in kn]
    N = lib.N()
    ctx.distinct(case)
    for what, o in (('tuple', N(K, (P, W), F)), ('keyword', N(K, P, fields=F, weights=W)), ('homogeneous', N(K, H, F)), ('fortran', N(K, np.asfortranarray(H), np.asfortranarray(F))),
                    ('list', N([U.tolist() for U in K], H.tolist(), F.tolist()))):
        ctx.ev()
        for nm, d in (('itself', o), ('copy', o.copy()), ('clone', o.clone()), ('deepcopy', copy.deepcopy(o)), ('pickle', pickle.loads(pickle.dumps(o)))):
            ctx.check(d.shape == shape and tuple(d.degree) == tuple(degs), 'structure (large)', form=what, dup=nm)
            ctx.check(all(np.array_equal(a, b) for a, b in zip(d.knots, K)), 'knots (large)', form=what, dup=nm)
            ctx.check(np.array_equal(d.control, H) and np.array_equal(d.weights, W), 'control points (large)', form=what, dup=nm)
            ctx.check(ref.close(d.points, P, 1e-15) and ref.close(d.fields, F, 1e-15), 'points or fields (large)', form=what, dup=nm)
            if nm in ('copy', 'deepcopy', 'pickle'):
                d.array[...] = 3
                for U in d.knots:
                    U[...] = 0
        ctx.check(np.array_equal(o.control, H) and all(np.array_equal(a, b) for a, b in zip(o.knots, K)), 'writing on a duplicate reached the original (large)', form=what)


def p25(case, ctx, queries):
    from igakit.igalib import bsp
    degs, kn = spec(case['obj'])
    o = lib.build(degs, kn, 1, 0)
    ctx.distinct(case)
    for ax in range(len(degs)):
        queries(ctx, o, degs[ax], kn[ax], ax)
    p, U = degs[0], kn[0]
    A = np.array(U)
    bs = ref.breaks(p, U)
    n = len(U) - p - 2
    spn = [k for k in range(p, n + 1) if U[k] < U[k + 1]]
    for k in spn:
        for t in (0.0, 0.37, 1.0 - 2.0 ** -40):
            u = U[k] + (U[k + 1] - U[k]) * t
            ctx.ev()
            ctx.check(bsp.FindSpan(p, A, u) == k, 'FindSpan (large)', u=u, want=k)
            s = U.count(u)
            ctx.check(bsp.FindMult(p, A, u) == s and tuple(bsp.FindSpanMult(p, A, u)) == (k, s), 'multiplicity (large)', u=u)
    x = some(p, U, 40)
    B = ref.basis(p, U, x, p)
    for j, u in enumerate(x):
        k = ref.span(p, U, u)
        ctx.check(ref.close(bsp.EvalBasisFuns(p, A, u), B[0, j, k - p:k + 1], 1e-12), 'basis functions (large)', u=u)
        D = bsp.EvalBasisFunsDers(p, A, u)
        for r in range(p + 1):
            w = B[r, j, k - p:k + 1]
            ctx.check(ref.close(D[r], w, 1e-8, max(1, np.abs(w).max())), 'basis derivatives (large)', u=u, order=r)


def grids():
    for p, C in ((1, 0), (2, 1), (3, 0), (9, 8), (9, 0), (6, 2)):
        for n in (31, 64, 130, 1030):
            for w in (False, True):
                if p < 9 or n < 100:
                    yield dict(kind='large', grid=[n], deg=[p], cont=[C], wrap=[w])
    yield dict(kind='large', grid=[40, 33], deg=[2, 3], cont=[1, 0], wrap=[False, True])
    yield dict(kind='large', grid=[1, 300], deg=[7, 1], cont=[6, 0], wrap=[False, False])
    yield dict(kind='large', grid=[9, 17, 12], deg=[1, 2, 1], cont=[0, 1, 0], wrap=[True, False, False])
