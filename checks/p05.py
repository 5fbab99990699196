"""Knot removal: removes exactly the redundant knots, never moves the geometry beyond the deviation."""
import itertools
import numpy as np
from mc import ref, spaces as sp, lib, large, args as argforms
from checks.p04 import vals, expected

ID = 'P05'
NETS = (3, lib.nets(('small', 'big')))    # lengths of the size of the default deviation, or rounded above it
LEVEL = 'model_checking'
RULE = ('states are knot vectors reached from generic objects by inserting one or two values up to every '
        'multiplicity; transitions are every removal (value, count or all) in every order; each is executed on the '
        'real code with identity fields (all control values at once) and compared with the multiset model and the '
        'initial geometry; plus every (perturbation, deviation) pair on near-removable knots')
BOUNDS = {'quick': 'degree<=4, <=2 breaks, clamped and unclamped; histories insert<=2 values, remove<=2 calls; surfaces, volumes; special control nets in turn, large objects, every form of the arguments; interior discontinuities',
          'thorough': 'degree<=6, <=2 breaks, one/two-sided ends; special control nets in turn, large objects, every form of the arguments; interior discontinuities'}
ASSUMPTIONS = ['redundant knots go when the deviation is above the rounding of the control values (weights and lengths 1e-8 to 1e6)']
TOL = 2e-8


def cases(tier):
    yield from large.cases()
    yield from argforms.cases()
    if tier == 'quick':
        space = list(sp.knot_vectors(4, 1, ('third',), ('c', 'u'))) + list(sp.knot_vectors(3, 2, ('unit',), ('c',)))
        space += list(sp.knot_vectors(5, 0, ('off',), ('c', 'u'))) + list(sp.knot_vectors(3, 1, ('tiny', 'huge'), ('c', 'u')))
    else:
        space = list(sp.knot_vectors(6, 1, ('third', 'neg'), ('c', 'u', 'l', 'r'))) + \
            list(sp.knot_vectors(4, 2, ('unit',), ('c', 'u'))) + list(sp.knot_vectors(3, 3, ('nonuni', 'tiny', 'huge'), ('c',)))
    space += sp.all_words(tier) + sp.broken_words(tier)
    for p, U in space:
        yield dict(kind='hist', p=p, U=list(U))
    for p, U in space:
        if len(ref.breaks(p, U)) < 4:
            yield dict(kind='dev', p=p, U=list(U))
    for p, U in space:
        if U.count(U[0]) == p + 1 == U.count(U[-1]) and len(ref.breaks(p, U)) < 4:
            yield dict(kind='ext', p=p, U=list(U))
    from checks.p01 import alpha, twins
    k2, k3 = (9, 4) if tier == 'quick' else (24, 8)
    for (p, U), (q, V) in itertools.product(alpha(k2), repeat=2):
        yield dict(kind='nd', degs=[p, q], knots=[list(U), list(V)])
    for t in itertools.chain(itertools.product(alpha(k3), repeat=3), twins()):
        yield dict(kind='nd', degs=[p for p, U in t], knots=[list(U) for p, U in t])
    # unclamped directions, whose outer weights are not positive though all weights on the domain are
    for p, q in itertools.product((2, 3) if tier == 'quick' else (2, 3, 4), (1, 2, 3)):
        for key in range(3 if tier == 'quick' else 8):
            for axes in ([0], [1], [0, 1]):
                yield dict(kind='outer', p=p, q=q, key=key, axes=axes)


def outer(case, ctx):
    p, q = case['p'], case['q']
    knots = [sp.clamped(p, (1,), 'off'), sp.clamped(q, (1,), 'unit')]
    w = 1 + 0.9 * np.sign(sp.gen(tuple(len(U) - d - 1 for U, d in zip(knots, (p, q))), case['key']))
    P = sp.gen(w.shape + (3,), 7)
    obj = lib.N()([np.array(U) for U in knots], (P, w))
    for ax in case['axes']:
        obj.unclamp(ax)
    ctx.n('objects_with_outer_weights_not_positive', int(obj.weights.min() <= 0))
    knots = [U.tolist() for U in obj.knots]
    pts = [ref.per_span_points(d, U, 2) for d, U in zip((p, q), knots)]
    base = lib.geom_at(obj, pts)
    for ax, d in ((0, p), (1, q)):
        for v in inner_vals(d, knots[ax]):
            for t in range(1, d - knots[ax].count(v) + 1):
                new = obj.clone().insert(ax, v, t)
                r = new.clone().remove(ax, v, t)
                ctx.trans()
                ctx.state((case, ax, v, t))
                verify(ctx, 'remove (outer weights)', r, (p, q), knots, base, pts, axis=ax, value=v, times=t)
                r.remove(ax, v, 1)
                verify(ctx, 'remove (outer weights, nothing redundant)', r, (p, q), knots, base, pts, axis=ax, value=v, times=t)


def verify(ctx, what, r, degs, want, base, pts, **detail):
    lib.wellformed(r, ctx, what)
    ctx.check(tuple(r.degree) == tuple(degs), what + ': degree changed', **detail)
    for ax, V in enumerate(want):
        lib.same_knots(ctx, what, r.knots[ax], V, knots_axis=ax, **detail)
    lib.same_geometry(ctx, what, lib.geom_at(r, pts), base, TOL, **detail)
    ctx.trace()


def less(U, v, k):
    U = list(U)
    for _ in range(k):
        U.remove(v)
    return U


def run(case, ctx):
    if case.get('kind') == 'args':
        return argforms.run(ID, case, ctx)
    if case.get('kind') == 'large':
        return large.p05(case, ctx, verify, expected, less)
    return dict(hist=hist, dev=dev, ext=ext, nd=nd, outer=outer)[case['kind']](case, ctx)


def inner_vals(p, U):
    a, b = ref.domain(p, U)
    return [v for v in vals(p, U, rich=False) if a < v < b]


def hist(case, ctx):
    p, U = case['p'], case['U']
    init = lib.build([p], [U], 1, 'I')
    A = inner_vals(p, U)
    pts = lib.points_for([p], [sorted(list(U) + [v for v in A if v not in U])], p + 1)
    a, b = ref.domain(p, U)
    pts = [np.array([x for x in pts[0] if a <= x <= b])]
    base = lib.geom_at(init, pts)
    # nothing is redundant in the initial object
    for v in A + [a, b]:
        for t in (1, None):
            r = init.clone().remove(0, v, t)
            ctx.trans()
            verify(ctx, 'remove (nothing redundant)', r, [p], [U], base, pts, value=v, times=t)
    # a value next to a redundant knot is not that knot
    s = min(1.0, abs(b - a))
    for v in A:
        if v in U and U.count(v) >= p:
            continue
        obj = init.clone().insert(0, v)
        full = expected(p, list(U), [v])
        for e in (np.nextafter(v, a) - v, np.nextafter(v, b) - v, 1e-9 * s, -1e-12 * s, 5e-8 * s, -1e-6 * s):
            w = float(v + e)
            if not a < w < b or w in full:
                continue
            for t in (1, None):
                r = obj.clone().remove(0, w, t)
                ctx.trans()
                ctx.check(lib.snap(r) == lib.snap(obj), 'removing a value that is no knot changed the object', value=v, offset=e)
                ctx.trace()
        ctx.state((p, U, v, 'near'))
    combos = [(v,) for v in A] + list(itertools.combinations(A, 2))
    for vs in combos:
        rooms = [range(1, p - U.count(v) + 1) for v in vs]
        for ts in itertools.product(*rooms):
            if len(vs) == 2 and sum(ts) > 3 and ctx.tier == 'quick':
                continue
            full = list(U)
            obj = init.clone()
            for v, t in zip(vs, ts):
                obj.insert(0, v, t)
                full = expected(p, full, [v] * t)
            ctx.state((p, U, full))
            for order in itertools.permutations(range(len(vs))):
                for ks in itertools.product(*[list(range(1, ts[i] + 2)) + [None] for i in order]):
                    if len(vs) == 2 and any(k not in (1, None) for k in ks):
                        continue
                    r = obj.clone()
                    K = list(full)
                    for i, k in zip(order, ks):
                        r2 = r.remove(0, vs[i], k) if k != 1 else r.remove(0, vs[i])
                        ctx.trans()
                        ctx.check(r2 is r, 'remove does not return the object')
                        K = less(K, vs[i], ts[i] if k is None else min(k, ts[i]))
                        ctx.state((p, U, K))
                        verify(ctx, 'remove', r, [p], [K], base, pts, inserted=list(zip(vs, ts)),
                               removed=[(vs[j], kk) for j, kk in zip(order, ks)])
    ctx.sample(dict(p=p, U=U, values=A))


def ext(case, ctx):
    """Ends extrapolated by unclamping may have negative weights: redundant knots still go."""
    p, U = case['p'], case['U']
    for wk, key in itertools.product((1, 2), range(4)):
        for side in (None, 0, 1):
            init = lib.build([p], [U], wk, 1, key).unclamp(0, side=side)
            V = init.knots[0].tolist()
            if init.weights.min() <= 0:
                ctx.n('negative_weights')
            for v in inner_vals(p, U):
                for t in range(1, p - U.count(v) + 1):
                    r = init.clone().insert(0, v, t)
                    pts = lib.points_for([p], [r.knots[0]], 3)
                    base = lib.geom_at(r, pts)
                    scale = np.abs(init.array).max()
                    r.remove(0, v, t, 1e-9 * max(1.0, scale ** 2))
                    ctx.trans()
                    lib.same_knots(ctx, 'remove from an extrapolated object', r.knots[0], V, knots_axis=0, value=v, times=t,
                                   weights=init.weights)
                    lib.same_geometry(ctx, 'remove from an extrapolated object', lib.geom_at(r, pts), base, TOL * max(1, scale))
                    ctx.trace()
                    ctx.state((p, U, wk, key, side, v, t))


def dev(case, ctx):
    """Perturb a control point next to an inserted knot; whatever is removed must respect the deviation."""
    p, U = case['p'], case['U']
    for v in inner_vals(p, U):
        if U.count(v) >= p:
            continue
        for wk, nf in ((0, 0), (1, 0), (1, 2)):
            for eps in (1e-13, 1e-7, 1e-4, 1e-2, 0.3) if nf == 0 else (1e-13, 1e-2, 0.3):
                near(ctx, p, U, v, wk, nf, 'field' if nf else 'point', eps, (1e-9, 1e-5, 1e-3, 1e-1, 10.0), 1)
        # weights and lengths of every size, perturbed points and weights, several removals
        room = p - U.count(v)
        t = min(room, 3)
        for ws, ps in SIZES:
            for what, eps, d in (('point', 1e-13, 1e-4), ('point', 1e-5, 1e-4), ('point', 1e-2, 1e-1), ('weight', 1e-5, 1e-4 / ps),
                                 ('weight', 1e-3, 1e-1)):
                near(ctx, p, U, v, 1, 0, what, eps, (d * ps,), t, ws, ps)


SIZES = [(1e-8, 1.0), (1e-3, 1e3), (1e6, 1.0), (1e3, 1e-3), (1.0, 1e5)]


def near(ctx, p, U, v, wk, nf, what, eps, ds, t, ws=1.0, ps=1.0):
    obj0 = lib.build([p], [U], wk, nf)
    obj0.insert(0, v, t)
    k = int(np.searchsorted(obj0.knots[0], v, 'right')) - 1
    n = obj0.shape[0]
    pts = lib.points_for([p], [obj0.knots[0]], 3 * p)
    for i in range(max(1, k - p), min(n - 1, k + 1)):
        C = np.array(obj0.array)
        C[:, :3] *= ps
        if what == 'point':
            C[i, :3] += eps * ps * C[i, 3] * np.array([0.6, -0.64, 0.48])
        elif what == 'weight':
            C[i, 3] *= 1 + eps
        else:                    # the points are redundant, a field is not
            C[i, 5] += eps * C[i, 3]
        C[:, :4] *= ws
        obj = lib.N()([obj0.knots[0]], C[:, :4])
        if nf:
            obj = lib.N()([obj0.knots[0]], C[:, :4], C[:, 4:] / C[:, 3:4])
        before = lib.cart(lib.geom_at(obj, pts))
        for d in ds:
            for times in (1,) if t == 1 else (1, t, None):
                r = obj.clone().remove(0, v, times, d)
                ctx.trans()
                lib.wellformed(r, ctx, 'remove')
                removed = len(obj.knots[0]) - len(r.knots[0])
                after = lib.cart(lib.geom_at(r, pts))
                e = np.sqrt(((after - before) ** 2).sum(-1)).max()
                det = dict(value=v, i=i, perturbed=what, eps=eps, deviation=d, error=e, times=times, weights=ws, lengths=ps)
                if removed:
                    lib.same_knots(ctx, 'remove', r.knots[0], less(obj.knots[0].tolist(), v, removed), **det)
                    ctx.check(e <= removed * d * (1 + 1e-6) + 1e-12 * ps, 'removal moved the curve beyond the deviation', **det)
                else:
                    ctx.check(lib.snap(r) == lib.snap(obj), 'refused removal changed the object', **det)
                if eps <= 1e-13:
                    ctx.check(removed >= (t if times is None else times), 'redundant knot not removed', **det)
                ctx.trace()
                ctx.state((p, U, v, wk, what, i, eps, d, removed, t, times, ws, ps))


def nd(case, ctx):
    degs, knots = case['degs'], case['knots']
    dim = len(degs)
    for nf in (0, 2):
        init = lib.build(degs, knots, 1, nf)
        pts = [ref.per_span_points(p, U, 2 if dim == 2 else 1) for p, U in zip(degs, knots)]
        base = lib.geom_at(init, pts)
        for ax in range(dim):
            p, U = degs[ax], knots[ax]
            for v in inner_vals(p, U):
                room = p - U.count(v)
                for t in range(1, room + 1):
                    obj = init.clone().insert(ax, v, t)
                    full = expected(p, U, [v] * t)
                    for k in list(range(1, t + 1)) + [None]:
                        r = obj.clone().remove(ax if k else ax - dim, v, k)
                        ctx.trans()
                        K = list(knots)
                        K[ax] = less(full, v, t if k is None else k)
                        ctx.state((degs, K))
                        verify(ctx, 'remove', r, degs, K, base, pts, axis=ax, value=v, times=[t, k])
                r = init.clone().remove(ax, v)
                verify(ctx, 'remove (nothing redundant)', r, degs, knots, base, pts, axis=ax, value=v)
            for v in ref.domain(p, U):
                r = init.clone().remove(ax, v)
                verify(ctx, 'remove at an end', r, degs, knots, base, pts, axis=ax, value=v)
