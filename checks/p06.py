"""Degree elevation: geometry, breaks and continuity kept, degree raised by exactly the amount."""
import itertools
import numpy as np
from mc import ref, spaces as sp, lib, large, args as argforms
from checks.p01 import alpha, twins

ID = 'P06'
NETS = (3, lib.NETS)
LEVEL = 'model_checking'
RULE = ('states are (degree, knots) of objects with identity fields (one state = all control values); transitions '
        'are elevations by 0..4 applied in one step and in every split into steps, per axis; each runs on the real '
        'code and is compared with the multiset model of the knots and with the initial geometry')
BOUNDS = {'quick': 'degree<=5 (<=1 break) and <=3 (<=2 breaks), all multiplicities, all end conditions, raise by <=3; special control nets in turn, large objects, every form of the arguments; interior discontinuities',
          'thorough': 'degree<=7 (<=1 break), <=4 (<=3 breaks); raise by <=5; all spacings; special control nets in turn, large objects, every form of the arguments; interior discontinuities'}
ASSUMPTIONS = ['distinct knots are well separated (ratio of neighbouring span lengths below 1e4); the listed finding '
               'covers knots one float apart']


def cases(tier):
    yield from large.cases()
    yield from argforms.cases()
    if tier == 'quick':
        space = list(sp.knot_vectors(5, 1, ('third',), ('c', 'u', 'l', 'r'))) + \
            list(sp.knot_vectors(3, 2, ('off',), ('c', 'u'))) + list(sp.knot_vectors(2, 3, ('unit', 'large'), ('c',))) + list(sp.knot_vectors(3, 1, ('tiny', 'huge'), ('c', 'u')))
        tmax, k2, k3 = 3, 12, 6
    else:
        space = list(sp.knot_vectors(7, 1, ('third', 'neg'), ('c', 'u', 'l', 'r'))) + \
            list(sp.knot_vectors(4, 3, ('off',), ('c',))) + list(sp.knot_vectors(3, 3, tuple(sp.EMBED), ('c',))) + \
            list(sp.knot_vectors(4, 2, ('nonuni',), ('c', 'u', 'l', 'r')))
        tmax, k2, k3 = 5, 26, 11
    space += sp.all_words(tier) + sp.broken_words(tier)
    for p, U in space:
        yield dict(kind='curve', p=p, U=list(U), tmax=tmax)
    for p in range(1, 5 if tier == 'quick' else 8):
        for ms in ((), (p,), (1,), (p + 1,), (max(1, p - 1), 1), (1, p)):
            U = sp.clamped(p, ms, 'off')
            for t in (5, 8, 13, 24, 30, 40) if tier == 'quick' else tuple(range(5, 41)) + (50, 64):
                yield dict(kind='high', p=p, U=list(U), t=t)
    for (p, U), (q, V) in itertools.product(alpha(k2), repeat=2):
        yield dict(kind='nd', degs=[p, q], knots=[list(U), list(V)])
    for t in itertools.chain(itertools.product(alpha(k3), repeat=3), twins()):
        yield dict(kind='nd', degs=[p for p, U in t], knots=[list(U) for p, U in t])
    for p in (3, 4, 5):
        yield dict(kind='ulp', p=p, U=[0.0] * (p + 1) + [0.3, float(np.nextafter(0.3, 1))] + [1.0] * (p + 1))
        yield dict(kind='near', p=p, U=[0.0] * (p + 1) + [0.3, 0.3001] + [1.0] * (p + 1))


def inner(p, U):
    a, b = ref.domain(p, U)
    return [x for x in U if a < x < b]


def verify(ctx, what, r, degs, U0, axis, t, knots, base, pts, tol, **detail):
    lib.wellformed(r, ctx, what)
    want = list(degs)
    want[axis] += t
    ctx.check(tuple(r.degree) == tuple(want), what + ': degree', got=r.degree, want=want, **detail)
    p = degs[axis]
    V = r.knots[axis].tolist()
    q = p + t
    ctx.check(ref.domain(q, V) == ref.domain(p, U0), what + ': domain', got=V, **detail)
    exp = sorted(inner(p, U0) + [x for x in set(inner(p, U0))] * t)
    ctx.check(inner(q, V) == exp, what + ': interior knots', got=inner(q, V), want=exp, **detail)
    if U0[0] == U0[p] and U0[-1] == U0[-p - 1]:
        a, b = ref.domain(p, U0)
        ctx.check(V[:q + 1] == [a] * (q + 1) and V[-q - 1:] == [b] * (q + 1), what + ': clamped ends', got=V, **detail)
    for ax, W in enumerate(knots):
        if ax != axis:
            lib.same_knots(ctx, what, r.knots[ax], W, knots_axis=ax, **detail)
    got = lib.geom_at(r, pts)
    lib.same_geometry(ctx, what, got, base, tol, **detail)
    ctx.trace()


def splits(t):
    if t == 0:
        yield []
    for k in range(1, t + 1):
        for rest in splits(t - k):
            yield [k] + rest


def run(case, ctx):
    if case.get('kind') == 'args':
        return argforms.run(ID, case, ctx)
    if case.get('kind') == 'large':
        return large.p06(case, ctx, verify)
    return dict(curve=curve, high=high, nd=nd, ulp=ulp, near=near)[case['kind']](case, ctx)


def curve(case, ctx):
    p, U = case['p'], case['U']
    init = lib.build([p], [U], 1, 'I')
    pts = [ref.per_span_points(p, U, p + case['tmax'] + 1)]
    base = lib.geom_at(init, pts)
    ctx.state((p, U))
    r = init.clone()
    ctx.check(r.elevate(0, 0) is r and lib.snap(r) == lib.snap(init), 'elevate by 0 is not a no-op')
    for t in range(1, case['tmax'] + 1):
        for steps in splits(t):
            r = init.clone()
            for k in steps:
                r2 = r.elevate(0, k) if k != 1 else r.elevate(0)
                ctx.trans()
                ctx.check(r2 is r, 'elevate does not return the object')
            verify(ctx, 'elevate', r, [p], U, 0, t, [U], base, pts, 1e-8, steps=steps)
            ctx.state((p + t, r.knots[0].tolist()))
    ctx.sample(dict(p=p, U=U))


def high(case, ctx):
    """Large degrees, at once and in two steps."""
    p, U, t = case['p'], case['U'], case['t']
    init = lib.build([p], [U], 1, 2)
    pts = [ref.per_span_points(p, U, 4)]
    base = lib.geom_at(init, pts)
    for steps in ([t], [t - 2, 2], [3, t - 3]):
        r = init.clone()
        for k in steps:
            r.elevate(0, k)
            ctx.trans()
        verify(ctx, 'elevate to a large degree', r, [p], U, 0, t, [U], base, pts, 1e-8, steps=steps)
        ctx.state((r.degree, r.knots[0].tolist()))


def nd(case, ctx):
    degs, knots = case['degs'], case['knots']
    dim = len(degs)
    init = lib.build(degs, knots, 1, 2)
    m = 2 if dim == 3 else 3
    pts = [ref.per_span_points(p, U, m) for p, U in zip(degs, knots)]
    base = lib.geom_at(init, pts)
    ctx.state((degs, knots))
    for ax in range(dim):
        for t in (1, 2):
            r = init.clone().elevate(ax if t == 1 else ax - dim, t)
            ctx.trans()
            verify(ctx, 'elevate', r, degs, knots[ax], ax, t, knots, base, pts, 1e-8, along=ax, times=t)
            ctx.state(lib.structure(r))
    r = init.clone()
    for ax in range(dim):
        r.elevate(ax, 1)
        ctx.trans()
    lib.wellformed(r, ctx, 'elevate all')
    ctx.check(tuple(r.degree) == tuple(p + 1 for p in degs), 'elevate all: degree')
    lib.same_geometry(ctx, 'elevate all', lib.geom_at(r, pts), base, 1e-8)


def near(case, ctx):
    p, U = case['p'], case['U']
    init = lib.build([p], [U], 0, 0)
    pts = [ref.per_span_points(p, U, p + 3)]
    base = lib.geom_at(init, pts)
    r = init.clone().elevate(0, 1)
    ctx.trans()
    verify(ctx, 'elevate, close knots', r, [p], U, 0, 1, [U], base, pts, 1e-3)


def ulp(case, ctx):
    """Listed finding: interior knots one float apart."""
    p, U = case['p'], case['U']
    init = lib.build([p], [U], 0, 0)
    pts = [ref.per_span_points(p, U, p + 2)]
    base = lib.cart(lib.geom_at(init, pts))
    r = init.clone().elevate(0, 1)
    ctx.trans()
    lib.wellformed(r, ctx, 'elevate')
    got = lib.cart(lib.geom_at(r, pts))
    if not ref.close(got, base, 1e-6):
        ctx.known('ulp-knots-degree%d' % p, 'elevation with interior knots one float apart loses the geometry')
