"""Extrusions, rulings, sweeps, (multi)linear patches and Coons patches interpolate what they are built from."""
import itertools
import math
import numpy as np
from mc import ref, spaces as sp, lib, large, args as argforms
from checks.p01 import alpha, table, IMP, TWINS

ID = 'P16'
NETS = (3, lib.nets(('wbig', 'wsmall')))
LEVEL = 'exploration'
RULE = ('all ordered pairs of curves (and pairs of surfaces) from the alphabet of (degree, knots, end condition, domain, weights) '
        'for rulings and sweeps (curves and surfaces swept along a curve), all displacement forms for extrusions, all point shapes for multilinear patches, all '
        'quadruples of boundary curves from the alphabet for Coons patches; compared on the real code with the defining formula; '
        'non-trivial: the two ingredients have different degree, knots or weights')
BOUNDS = {'quick': '14x14 curve pairs x 2 weight classes, 5x5 surface pairs, pairs differing in knot values only (much or by 1e-8 to 1e-6 of the domain), 5^4 Coons quadruples; special control nets in turn, large objects, every form of the arguments; objects with discontinuities or points without support',
          'thorough': '34x34 curve pairs x 4 weight classes, 10x10 surface pairs, 8^4 Coons quadruples; special control nets in turn, large objects, every form of the arguments; objects with discontinuities or points without support'}
TOL = 1e-10


def curves(k):
    return alpha(k)


def scaled(P):
    return max(1.0, float(np.abs(P).max()))


DISPL = [(2.0, None), (1.5, 0), (-1.0, 1), (0.7, 2), (3, -1), ([1.0, 2, -3], None), ((1, -1), None), (np.array([2.5]), None),
         (np.array([0., 0, 4]), None), (np.array(1.25), 2),
         (-0.8, 2), (-1.2, 0), (0.6, -1), (-0.7, -2), (1.1, -3), (np.array([-3.0]), None), ((0, 0, 0), None)]


def disp_vec(d, ax):
    v = np.zeros(3)
    d = np.asarray(d, 'd')
    if d.ndim and ax is None:
        v[:d.size] = d
    else:
        v[0 if ax is None else ax] = d
    return v


def cases(tier):
    yield from large.cases([*large.C1, *large.C2])
    yield from argforms.cases()
    q = tier == 'quick'
    K = 14 if q else 34
    wks = (0, 1) if q else (0, 1, 2)
    yield dict(kind='primitives')
    for i in range(K):
        for wk in wks:
            yield dict(kind='extrude', objs=[i], wk=wk)
    for e in NEARW:
        yield dict(kind='extrude', objs=[2], wk=1, near=e)
        yield dict(kind='extrude', objs=[3, 1], wk=1, near=e)
        yield dict(kind='pair', a=[2], b=[4], w=[1, 1], near=e)
        yield dict(kind='pair', a=[3, 1], b=[1, 0], w=[1, 1], near=e)
    for i in IMP:
        yield dict(kind='extrude', objs=[i], wk=1)
        yield dict(kind='extrude', objs=[i, (41, 0, 43)[i % 3]], wk=1)
        yield dict(kind='pair', a=[i], b=[i], w=[0, 1])
        for j in (0, 2, 41, 43):
            yield dict(kind='pair', a=[i], b=[j], w=[1, 1], sweep=1)
            yield dict(kind='pair', a=[j], b=[i], w=[1, 1], sweep=1)
    for t in TWINS:
        if len(t) == 2:
            yield dict(kind='extrude', objs=list(t), wk=1)
    for i, j in itertools.product(range(8 if q else 14), repeat=2):
        yield dict(kind='extrude', objs=[i, j], wk=1)
    for i, j in itertools.product(range(K), repeat=2):
        for w1, w2 in itertools.product(wks, repeat=2) if not q else [(0, 0), (1, 1), (0, 1)]:
            yield dict(kind='pair', a=[i], b=[j], w=[w1, w2])
    # same degree and number of knots, other knot values
    for i in range(K):
        for w in ((0, 0), (1, 1)):
            yield dict(kind='pair', a=[i], b=[i], w=list(w), sib=[1])
            yield dict(kind='pair', a=[i], b=[i], w=list(w), sib=[2])
            yield dict(kind='pair', a=[i], b=[i], w=list(w), sib=[3])
    for i, j in itertools.product(range(6 if q else 12), repeat=2):
        for sib in ([1, 0], [0, 1], [1, 1], [2, 0], [0, 2], [3, 3]):
            yield dict(kind='pair', a=[i, j], b=[i, j], w=[1, 1], sib=sib)
    n = 5 if q else 10
    for a in itertools.product(range(n), repeat=2):
        for b in itertools.product(range(n), repeat=2) if not q else [(a[1], a[0]), (a[0], (a[1] + 1) % n), ((a[0] + 2) % n, (a[1] + 3) % n)]:
            yield dict(kind='pair', a=list(a), b=list(b), w=[1, 0 if sum(a) % 2 else 1])
    m = 5 if q else 8
    for quad in itertools.product(range(m), repeat=4):
        yield dict(kind='coons', quad=list(quad))


def sibling(p, U, how=1):
    """Same degree, multiplicities and domain; the interior breaks move, much or a little."""
    a, b = ref.domain(p, U)
    t = (np.array(U) - a) / (b - a)
    inside = (t > 0) & (t < 1)
    t[inside] = t[inside] ** 2 * 0.5 + t[inside] * 0.25 if how == 1 else t[inside] * (1 + {2: 4e-6, 3: 1e-8}[how])
    V = a + t * (b - a)
    V[~inside] = np.array(U)[~inside]
    return p, V.tolist()


# weights that are almost one constant
NEARW = (1e-3, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9)


def nearly(o, e):
    A = o.array
    w = 1.75 * (1 + e * sp.gen(o.shape, 5))
    A[..., :3] *= (w / A[..., 3])[..., None]
    A[..., 3] = w
    return o


def obj(ix, wk, key, nf=0, sib=None):
    a = [table()[i] for i in ix]
    if sib:
        a = [sibling(p, U, s) if s else (p, U) for (p, U), s in zip(a, sib)]
    return lib.build([p for p, U in a], [U for p, U in a], wk, nf, key)


def affine(x, d0, d1):
    return d1[0] + (np.asarray(x) - d0[0]) * ((d1[1] - d1[0]) / (d0[1] - d0[0]))


def doms(n):
    return [ref.domain(p, U) for p, U in zip(n.degree, n.knots)]


def at(n, x):
    return lib.cart(lib.geom_at(n, x))[..., :3]


def hom_at(n, x):
    return lib.geom_at(n, x)[..., :4]


def pts(n, k):
    return [ref.per_span_points(p, U, k) for p, U in zip(n.degree, n.knots)]


def clip(x, d):
    return np.clip(x, d[0], d[1])


def run(case, ctx):
    from igakit import cad
    if case.get('kind') == 'args':
        return argforms.run(ID, case, ctx)
    if case.get('kind') == 'large':
        return large.p16(case, ctx, cad)
    ctx.ev()
    k = case['kind']
    if k == 'primitives':
        return primitives(ctx, cad)
    if k == 'extrude':
        o = obj(case['objs'], case['wk'], 0, 1)
        if 'near' in case:
            nearly(o, case['near'])
        x = pts(o, 3)
        C = at(o, x)
        v = np.array([0, 0.25, 0.5, 1.0])
        for d, ax in DISPL:
            E = cad.extrude(o, d) if ax is None else cad.extrude(o, displ=d, axis=ax)
            ctx.ev()
            ctx.distinct((case, repr(d), ax))
            lib.wellformed(E, ctx, 'extrude')
            ctx.check(E.dim == o.dim + 1 and E.degree == o.degree + (1,), 'extrude: structure')
            for i in range(o.dim):
                lib.same_knots(ctx, 'extrude', E.knots[i], o.knots[i], knots_axis=i)
            ctx.check(ref.domain(1, E.knots[-1]) == (0.0, 1.0), 'extrude: domain')
            want = C[..., None, :] + v[:, None] * disp_vec(d, ax)
            got = E(*(x + [v]))
            if not ref.close(got, want, 1e-13 if 'near' in case else TOL, scaled(want)):
                ctx.fail('extruded point is not base + v * displacement', err=ref.err(got, want), displ=d, axis=ax)
        return
    if k == 'pair':
        a, b = obj(case['a'], case['w'][0], 0), obj(case['b'], case['w'][1], 7, sib=case.get('sib'))
        if case['a'] != case['b'] or len(set(case['w'])) > 1 or 'sib' in case:
            ctx.distinct(case)
        if 'near' in case:
            nearly(a, case['near']), nearly(b, case['near'] / 2)
        if 'sweep' in case:
            return swept(case, ctx, cad, a, b)
        R = cad.ruled(a, b)
        lib.wellformed(R, ctx, 'ruled')
        ctx.check(R.dim == a.dim + 1 and R.degree[-1] == 1 and ref.domain(1, R.knots[-1]) == (0.0, 1.0), 'ruled: structure')
        ctx.check(R.degree[:-1] == tuple(max(p, q) for p, q in zip(a.degree, b.degree)), 'ruled: degree', got=R.degree)
        da, db = doms(a), doms(b)
        D = doms(R)[:-1]
        for i in range(a.dim):
            ctx.check(D[i] == (min(da[i][0], db[i][0]), max(da[i][1], db[i][1])), 'ruled: domain', got=D[i])
        x = [ref.per_span_points(p, U, 3) for p, U in zip(R.degree[:-1], R.knots[:-1])]
        xa = [clip(affine(t, D[i], da[i]), da[i]) for i, t in enumerate(x)]
        xb = [clip(affine(t, D[i], db[i]), db[i]) for i, t in enumerate(x)]
        v = np.array([0, 0.3, 0.5, 0.9, 1.0])
        Ha, Hb = hom_at(a, xa), hom_at(b, xb)
        H = Ha[..., None, :] * (1 - v)[:, None] + Hb[..., None, :] * v[:, None]
        want = H[..., :3] / H[..., 3:4]
        got = R(*(x + [v]))
        if not ref.close(got, want, 1e-12 if 'near' in case else 1e-9, scaled(want)):
            ctx.fail('ruled object is not the linear blend of its ends', err=ref.err(got, want))
        swept(case, ctx, cad, a, b)
        return
    coons(case, ctx, cad)


def swept(case, ctx, cad, a, b):
    # sweep: a (curve or surface) is the section, the first direction of b the trajectory
    T = b if b.dim == 1 else obj(case['b'][:1], case['w'][1], 13)
    S = cad.sweep(a, T)
    lib.wellformed(S, ctx, 'sweep')
    ctx.check(S.degree == a.degree + T.degree, 'sweep: degree')
    for U, V in zip(S.knots, a.knots + T.knots):
        lib.same_knots(ctx, 'sweep', U, V)
    x, y = pts(a, 4 if a.dim == 1 else 3), pts(T, 4 if a.dim == 1 else 3)
    want = at(a, x)[..., None, :] + at(T, y)
    got = S(*(x + y))
    if not ref.close(got, want, TOL, scaled(want)):
        ctx.fail('swept point is not section + trajectory', err=ref.err(got, want))


def coons(case, ctx, cad):
    names = [alpha(40)[i] for i in case['quad']]
    P = sp.gen((2, 2, 3), sum(case['quad']) % 7) * 2
    variant = sum(i * k for i, k in zip(case['quad'], (1, 3, 7, 2))) % 3
    size = 2.0 ** (20 if sum(case['quad']) % 4 == 1 else 0)        # a patch of many units
    P = P * size
    W = np.ones((2, 2)) if variant != 1 else 0.5 + (sp.gen((2, 2), 3) + 1.5) / 2

    def curve(k, c0, c1, w0, w1):
        p, U = names[k]
        n = lib.build([p], [U], 1 if variant else 0, 0, 11 + k)
        n.array[..., :3] *= size
        n.clamp(0)          # corners are exact control points
        A = n.array
        A[0, :3], A[0, 3] = c0 * w0, w0
        A[-1, :3], A[-1, 3] = c1 * w1, w1
        if variant == 1 and k % 2:      # corners that agree up to rounding only
            A[[0, -1]] *= 1 + 2e-13 * np.array([[1, -1, 0, 1], [0, 1, 1, -1]])
        if variant == 2:
            n.unclamp(0, side=k % 2, continuity=0)
        return n
    C00 = curve(0, P[0, 0], P[0, 1], W[0, 0], W[0, 1])
    C01 = curve(1, P[1, 0], P[1, 1], W[1, 0], W[1, 1])
    C10 = curve(2, P[0, 0], P[1, 0], W[0, 0], W[1, 0])
    C11 = curve(3, P[0, 1], P[1, 1], W[0, 1], W[1, 1])
    S = cad.coons([(C00, C01), (C10, C11)])
    lib.wellformed(S, ctx, 'coons')
    ctx.distinct(case)
    ctx.check(S.dim == 2, 'coons: dim')
    D = doms(S)
    def remapped(C, t, d):
        dc = doms(C)[0]
        return hom_at(C, [clip(affine(t, d, dc), dc)])
    u, v = pts(S, 3)
    Hu0, Hu1 = remapped(C10, u, D[0]), remapped(C11, u, D[0])
    Hv0, Hv1 = remapped(C00, v, D[1]), remapped(C01, v, D[1])
    s = ((u - D[0][0]) / (D[0][1] - D[0][0]))[:, None, None]
    t = ((v - D[1][0]) / (D[1][1] - D[1][0]))[None, :, None]
    H4 = np.concatenate([P * W[..., None], W[..., None]], -1)
    want = ((1 - t) * Hu0[:, None] + t * Hu1[:, None] + (1 - s) * Hv0[None] + s * Hv1[None]
            - ((1 - s) * (1 - t) * H4[0, 0] + s * (1 - t) * H4[1, 0] + (1 - s) * t * H4[0, 1] + s * t * H4[1, 1]))
    # homogeneous comparison, in the form evaluation delivers it
    got = S(u, v)
    sel = np.abs(want[..., 3]) > 0.05
    w = want[..., :3] / np.where(sel, want[..., 3], 1)[..., None]
    ctx.n('compared_points', int(sel.sum()))
    if not ref.close(got[sel], w[sel], 1e-8, scaled(w[sel])):
        ctx.fail('Coons patch differs from the transfinite blend', err=ref.err(got[sel], w[sel]), quad=case)
    # the boundaries are the four curves, in their places
    for what, g, h in (('v=0', S(u, D[1][0]), Hu0), ('v=1', S(u, D[1][1]), Hu1), ('u=0', S(D[0][0], v), Hv0), ('u=1', S(D[0][1], v), Hv1)):
        c = h[:, :3] / h[:, 3:4]
        if not ref.close(g, c, 1e-9, scaled(c)):
            ctx.fail('Coons boundary %s is not the given curve' % what, err=ref.err(g, c), quad=case)
    # corners that do not meet are refused
    if sum(case['quad']) % 3 == 0:
        bad = C11.copy()
        bad.array[..., :3] += 0.1 * size * bad.array[..., 3:4]
        ctx.check(lib.raises(cad.coons, [(C00, C01), (C10, bad)]), 'coons: curves that do not meet are accepted')
        ctx.ev()
    if variant != 2 and sum(case['quad']) % 2 == 0 and size == 1:
        for e in (0.1, 1e-6):
            for k, end, c in itertools.product(range(4), (0, -1), range(4)):
                q = [C.copy() for C in (C00, C01, C10, C11)]
                q[k].array[end, c] += e
                ctx.check(lib.raises(cad.coons, [(q[0], q[1]), (q[2], q[3])]), 'coons: curves that do not meet at one corner are accepted', curve=k, end=end, by=e, coordinate=c)
                ctx.ev()


def primitives(ctx, cad):
    def ck(what, n, degs, f, dim):
        lib.wellformed(n, ctx, what)
        ctx.ev()
        ctx.distinct(what)
        ctx.check(n.degree == (1,) * dim, what + ': degree')
        t = np.array([0, 0.25, 0.6, 1.0])
        for U in n.knots:
            lib.same_knots(ctx, what, U, [0, 0, 1, 1])
        got = n(*[t] * dim)
        want = f(*np.meshgrid(*[t] * dim, indexing='ij'))
        if not ref.close(got, want, 1e-13, scaled(want)):
            ctx.fail(what + ': not the multilinear interpolant', err=ref.err(got, want))

    def lerp(H):
        """H: (2,)*dim + (4,)"""
        dim = H.ndim - 1
        def f(*T):
            R = 0
            for c in itertools.product((0, 1), repeat=dim):
                w = 1
                for b, t in zip(c, T):
                    w = w * (t if b else 1 - t)
                R = R + w[..., None] * H[c]
            return R[..., :3] / R[..., 3:4]
        return f

    def homog(P):
        P = np.asarray(P, 'd')
        H = np.zeros(P.shape[:-1] + (4,))
        H[..., 3] = 1
        H[..., :P.shape[-1]] = P
        return H
    for m0, m1 in itertools.product((1, 2, 3), repeat=2):
        a, b = sp.gen((m0,), 1), sp.gen((m1,), 2)
        H = np.zeros((2, 4))
        H[:, 3] = 1
        H[0, :m0], H[1, :m1] = a, b
        ck('line(%d,%d)' % (m0, m1), cad.line(a, b), 1, lerp(H), 1)
        ck('line tuples', cad.line(tuple(a), list(b)), 1, lerp(H), 1)
    ck('line()', cad.line(), 1, lerp(homog([[0, 0], [1, 0]])), 1)
    ck('line(scalars)', cad.line(1, 2), 1, lerp(homog([[1, 0], [2, 0]])), 1)
    h = [-0.5, 0.5]
    ck('linear()', cad.linear(), 1, lerp(homog([[x, 0] for x in h])), 1)
    ck('bilinear()', cad.bilinear(), 2, lerp(homog([[[x, y] for y in h] for x in h])), 2)
    ck('trilinear()', cad.trilinear(), 3, lerp(homog([[[[x, y, z] for z in h] for y in h] for x in h])), 3)
    for dim, f in ((1, cad.linear), (2, cad.bilinear), (3, cad.trilinear)):
        for nc in (2, 3, 4):
            for key in range(6):
                Pt = sp.gen((2,) * dim + (nc,), key + 10 * nc)
                if nc == 4:
                    Pt[..., 3] = 1 + np.abs(Pt[..., 3])
                ck('%s(%d)' % (f.__name__, nc), f(Pt), dim, lerp(homog(Pt)), dim)
                ck('%s(list)' % f.__name__, f(Pt.tolist()), dim, lerp(homog(Pt)), dim)
    for dim, f in ((1, cad.linear), (2, cad.bilinear), (3, cad.trilinear)):
        for shp in ((3,) * dim + (3,), (2,) * (dim + 1) + (3,)):
            ctx.check(lib.raises(f, np.zeros(shp)), f.__name__ + ': wrong shape accepted', shape=shp)
