"""Slices, extractions and boundaries are restrictions of the original map."""
import itertools
import numpy as np
from mc import ref, spaces as sp, lib, large, args as argforms
from checks.p01 import alpha, twins

ID = 'P08'
NETS = (3, lib.NETS)
LEVEL = 'model_checking'
RULE = ('every (object, axis, ordered pair of values from the alphabet {open bound, domain ends, breaks, span points, '
        'float neighbours of breaks}) for slicing and every value for extraction, plus nested slices and full '
        'extraction chains in every axis order; every resulting object is compared on the real code with the '
        'restriction of the original map and with the knot model')
BOUNDS = {'quick': 'degree<=4, <=2 breaks, all end conditions; surfaces 8x8, volumes 4^3 alphabets; nesting depth 2; special control nets in turn, large objects, every form of the arguments; interior discontinuities',
          'thorough': 'degree<=6 (<=1 break), <=4 (<=2), <=3 (<=3); surfaces 24x24, volumes 9^3; nesting depth 3; special control nets in turn, large objects, every form of the arguments; interior discontinuities'}
TOL = 1e-9


def cases(tier):
    yield from large.cases()
    yield from argforms.cases()
    if tier == 'quick':
        space = list(sp.knot_vectors(4, 1, ('third',), ('c', 'u', 'l', 'r'))) + \
            list(sp.knot_vectors(3, 2, ('off',), ('c', 'u'))) + list(sp.knot_vectors(2, 2, ('large', 'small', 'tiny', 'huge'), ('c', 'u')))
        k2, k3, depth = 8, 4, 2
    else:
        space = list(sp.knot_vectors(6, 1, ('third', 'off'), ('c', 'u', 'l', 'r'))) + \
            list(sp.knot_vectors(4, 2, ('neg',), ('c', 'u'))) + list(sp.knot_vectors(3, 3, ('int', 'tiny', 'huge'), ('c',)))
        k2, k3, depth = 24, 9, 3
    space += sp.all_words(tier) + sp.broken_words(tier)
    for p, U in space:
        yield dict(kind='curve', p=p, U=list(U), depth=depth)
    for (p, U), (q, V) in itertools.product(alpha(k2), repeat=2):
        yield dict(kind='nd', degs=[p, q], knots=[list(U), list(V)])
    for t in itertools.chain(itertools.product(alpha(k3), repeat=3), twins()):
        yield dict(kind='nd', degs=[p for p, U in t], knots=[list(U) for p, U in t])


def alphabet(p, U, rich=True):
    bs = ref.breaks(p, U)
    out = list(bs)
    for a, b in zip(bs[:-1], bs[1:]):
        out.append(a + (b - a) * 0.375)
    if rich:
        for x in bs[1:-1]:
            out += [float(np.nextafter(x, bs[0])), float(np.nextafter(x, bs[-1]))]
    return sorted(set(out))


def model_slice(p, U, a, b):
    inner = [x for x in U if a < x < b]
    return [a] * (p + 1) + inner + [b] * (p + 1)


def on_sub(p, U, a, b, npts):
    bs = sorted(set([a, b] + [x for x in U if a < x < b]))
    pts = [a]
    for x, y in zip(bs[:-1], bs[1:]):
        pts += [x + (y - x) * (j + 0.5) / npts for j in range(npts)] + [y]
    return [min(max(x, a), b) for x in pts]


def check_slice(ctx, nrb, degs, knots, ax, a, b, own, hist):
    """Slice on the real object and compare; returns the sub-object."""
    p, U = degs[ax], knots[ax]
    dim = len(degs)
    before = lib.snap(nrb)
    sub = nrb.slice(ax, a, b)
    ctx.trans()
    lo, hi = ref.domain(p, U)
    A, B = lo if a is None else a, hi if b is None else b
    det = dict(axis=ax, start=a, end=b, history=hist)
    lib.wellformed(sub, ctx, 'slice')
    ctx.check(lib.snap(nrb) == before, 'slice changed the object', **det)
    ctx.check(tuple(sub.degree) == tuple(degs), 'slice: degree', **det)
    for i in range(dim):
        lib.same_knots(ctx, 'slice', sub.knots[i], model_slice(p, U, A, B) if i == ax else knots[i],
                       0.0, knots_axis=i, **det)
    n = {1: p + 1, 2: 2, 3: 1}[dim]
    pts = [np.array(on_sub(p, U, A, B, n)) if i == ax else ref.per_span_points(q, V, n, ends=(dim < 3))
           for i, (q, V) in enumerate(zip(degs, knots))]
    got = lib.geom_at(sub, pts)
    # at the closing end the sub-object is the limit from inside, which counts where the map is not continuous
    if ref.mult(list(U), B) > p and B < hi:
        pts[ax] = np.minimum(pts[ax], np.nextafter(B, A))
    want = lib.geom_at(nrb, pts)
    lib.same_geometry(ctx, 'slice', got, want, TOL, **det)
    ctx.trace()
    return sub


def run(case, ctx):
    if case.get('kind') == 'args':
        return argforms.run(ID, case, ctx)
    if case.get('kind') == 'large':
        return large.p08(case, ctx, model_slice)
    return dict(curve=curve, nd=nd)[case['kind']](case, ctx)


def curve(case, ctx):
    p, U, depth = case['p'], case['U'], case['depth']
    init = lib.build([p], [U], 1, 'I')
    ctx.state((p, U))
    A = alphabet(p, U)
    for a, b in itertools.combinations(A, 2):
        sub = check_slice(ctx, init, [p], [U], 0, a, b, False, [])
        K = sub.knots[0].tolist()
        ctx.state((p, K))
        if depth >= 2 and b - a > 1e-9 * max(1, abs(a)):
            A2 = [x for x in alphabet(p, U, False) if a <= x <= b]
            for c, d in itertools.combinations(A2, 2):
                s2 = check_slice(ctx, sub, [p], [K], 0, c, d, False, [(a, b)])
                ctx.state((p, s2.knots[0].tolist()))
                if depth >= 3:
                    K2 = s2.knots[0].tolist()
                    for e, f in itertools.combinations([x for x in A2 if c <= x <= d], 2):
                        check_slice(ctx, s2, [p], [K2], 0, e, f, False, [(a, b), (c, d)])
    for v in A:
        if v < A[-1]:
            check_slice(ctx, init, [p], [U], 0, v, None, False, [])
        if v > A[0]:
            check_slice(ctx, init, [p], [U], 0, None, v, False, [])
    check_slice(ctx, init, [p], [U], 0, None, None, False, [])
    for v in A:
        before = lib.snap(init)
        pt = init.extract(0, v)
        ctx.trans()
        ctx.trace()
        ctx.check(lib.snap(init) == before, 'extract changed the object')
        ctx.check(pt.dim == 0 and tuple(pt.shape) == () and tuple(pt.degree) == (), 'extracted point is not a point')
        want = lib.geom_at(init, [np.array([v])])[0]
        lib.same_geometry(ctx, 'extract point', np.asarray(pt.array), want, TOL, value=v)
        got = np.concatenate(pt(fields=True))
        ctx.check(ref.close(got, lib.cart(want), TOL), 'evaluating the extracted point', value=v)
        ctx.check(np.asarray(pt()).shape == (3,), 'point shape')
    # very close to the breaks, yet not at them
    for x, y in itertools.chain(zip(A, A[1:]), zip(A[1:], A)):
        for e in (2.0 ** -24, 2.0 ** -31, 2.0 ** -38):
            v = x + (y - x) * e
            if v in (x, y):
                continue
            want = lib.geom_at(init, [np.array([v])])[0]
            got = np.asarray(init.extract(0, v).array)
            ctx.trans()
            ctx.check(ref.close(got, want, 1e-12 * (1 + p), np.abs(want).max()), 'point very close to a break', value=v, err=ref.err(got, want))
    for side, v in zip((0, 1), ref.domain(p, U)):
        pt = init.boundary(0, side)
        want = lib.geom_at(init, [np.array([v])])[0]
        lib.same_geometry(ctx, 'boundary', np.asarray(pt.array), want, TOL, side=side)
    ctx.sample(dict(p=p, U=U, alphabet=A))


def nd(case, ctx):
    degs, knots = case['degs'], case['knots']
    dim = len(degs)
    init = lib.build(degs, knots, 1, 2)
    ctx.state((degs, knots))
    n = 2 if dim == 2 else 1
    pts = [ref.per_span_points(p, U, n, ends=(dim < 3)) for p, U in zip(degs, knots)]
    mids = []
    for p, U in zip(degs, knots):
        A = alphabet(p, U, False)
        mids.append(A)
    for ax in range(dim):
        A = mids[ax]
        pairs = list(itertools.combinations(A, 2))
        if dim == 3:
            pairs = pairs[:6]
        for a, b in pairs:
            sub = check_slice(ctx, init, degs, knots, ax, a, b, False, [])
            ctx.state(lib.structure(sub))
            # slicing along a different axis afterwards
            bx = (ax + 1) % dim
            B = mids[bx]
            K = [U.tolist() for U in sub.knots]
            check_slice(ctx, sub, degs, K, bx, B[0], B[1], False, [(ax, a, b)])
        for v in A:
            check_extract(ctx, init, degs, knots, ax, v, pts)
        for side, v in zip((0, 1), ref.domain(degs[ax], knots[ax])):
            b = init.boundary(ax - dim, side)
            e = init.extract(ax, v)
            ctx.trans()
            ctx.check(lib.structure(b) == lib.structure(e), 'boundary structure', axis=ax, side=side)
            ctx.check(ref.close(lib.hom(b), lib.hom(e), 1e-12), 'boundary differs from extraction', axis=ax, side=side)
    # extraction chains in every axis order end in the same point
    us = [A[1] for A in mids]
    want = lib.geom_at(init, [np.array([u]) for u in us]).reshape(-1)
    for order in itertools.permutations(range(dim)):
        obj, left = init, list(range(dim))
        for ax in order:
            obj = obj.extract(left.index(ax), us[ax])
            left.remove(ax)
            ctx.trans()
            ctx.check(obj.dim == len(left), 'extract: dimension')
        lib.same_geometry(ctx, 'extraction chain', np.asarray(obj.array), want, TOL, order=order)
        ctx.check(ref.close(np.concatenate(obj(fields=True)), lib.cart(want), TOL), 'point evaluation', order=order)
        ctx.trace()


def check_extract(ctx, nrb, degs, knots, ax, v, pts):
    dim = len(degs)
    before = lib.snap(nrb)
    e = nrb.extract(ax, v)
    ctx.trans()
    det = dict(axis=ax, value=v)
    ctx.check(lib.snap(nrb) == before, 'extract changed the object', **det)
    lib.wellformed(e, ctx, 'extract')
    rest = [i for i in range(dim) if i != ax]
    ctx.check(tuple(e.degree) == tuple(degs[i] for i in rest), 'extract: degree', **det)
    for j, i in enumerate(rest):
        lib.same_knots(ctx, 'extract', e.knots[j], knots[i], knots_axis=j, **det)
    full = [np.array([v]) if i == ax else pts[i] for i in range(dim)]
    want = np.take(lib.geom_at(nrb, full), 0, axis=ax)
    lib.same_geometry(ctx, 'extract', lib.geom_at(e, [pts[i] for i in rest]), want, TOL, **det)
    own = lib.eval_own(e, [pts[i] for i in rest])
    ctx.check(ref.close(own, lib.cart(want), TOL), 'evaluating the extraction', **det)
    ctx.state(lib.structure(e))
    ctx.trace()
