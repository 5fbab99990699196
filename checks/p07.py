"""Clamping and unclamping: geometry on the domain kept, end knots as specified, mutually inverse."""
import itertools
import numpy as np
from mc import ref, spaces as sp, lib, large, args as argforms
from checks.p01 import alpha, twins

ID = 'P07'
NETS = (3, lib.NETS)
LEVEL = 'model_checking'
RULE = ('explicit-state exploration of {clamp, unclamp} x side x continuity sequences from every (degree, knots, end '
        'condition); states are knot vectors (identity fields make one state stand for all control values); every '
        'transition runs on the real code and is compared with the knot model and the initial geometry')
BOUNDS = {'quick': 'degree<=4, <=2 breaks (all multiplicities), sequences of length 2; surfaces and volumes per axis; special control nets in turn, large objects, every form of the arguments; interior discontinuities',
          'thorough': 'degree<=6 (<=1 break), <=4 (<=3 breaks), sequences of length 3; special control nets in turn, large objects, every form of the arguments; interior discontinuities'}


def cases(tier):
    yield from large.cases()
    yield from argforms.cases()
    if tier == 'quick':
        space = list(sp.knot_vectors(4, 1, ('third',), ('c', 'u', 'l', 'r'))) + \
            list(sp.knot_vectors(3, 2, ('int',), ('c', 'u'))) + list(sp.knot_vectors(5, 0, ('off', 'large'), ('c', 'u'))) + \
            list(sp.knot_vectors(3, 1, ('tiny', 'huge'), ('c', 'u')))
        depth, k2, k3 = 2, 9, 5
    else:
        space = list(sp.knot_vectors(6, 1, ('third', 'int'), ('c', 'u', 'l', 'r'))) + \
            list(sp.knot_vectors(4, 3, ('int',), ('c',))) + list(sp.knot_vectors(4, 2, ('off', 'tiny', 'huge'), ('c', 'u', 'l', 'r')))
        depth, k2, k3 = 3, 24, 10
    space += sp.all_words(tier) + sp.broken_words(tier)
    for p, U in space:
        yield dict(kind='seq', p=p, U=list(U), depth=depth)
    for (p, U), (q, V) in itertools.product(alpha(k2), repeat=2):
        yield dict(kind='nd', degs=[p, q], knots=[list(U), list(V)])
    for t in itertools.chain(itertools.product(alpha(k3), repeat=3), twins()):
        yield dict(kind='nd', degs=[p for p, U in t], knots=[list(U) for p, U in t])


def model_clamp(p, U, side):
    """The end value is there p+1 times (control points that do not act on the domain are gone)."""
    U = list(U)
    if side in (None, 0):
        U = U[sum(1 for u in U if u <= U[p]) - 1 - p:]
    if side in (None, 1):
        U = U[:len(U) - (sum(1 for u in U if u >= U[-p - 1]) - 1 - p)]
    m = len(U) - 1
    if side in (None, 0):
        U[:p] = [U[p]] * p
    if side in (None, 1):
        U[m - p + 1:] = [U[m - p]] * p
    return U


def model_unclamp(p, U, side, cont):
    """Periodic continuation: the c+1 outermost knots repeat the knots at the other end, one period away."""
    c = p - 1 if cont is None else cont
    U = model_clamp(p, U, side)
    m = len(U) - 1
    n = m - p - 1
    T = U[n + 1] - U[p]
    if side in (None, 0):
        for j in range(c + 1):
            U[c - j] = U[n - j] - T
    if side in (None, 1):
        for j in range(c + 1):
            U[m - c + j] = U[p + 1 + j] + T
    return U


def ops(p):
    for side in (None, 0, 1):
        yield ('clamp', side, None)
        for c in [None] + list(range(p)):
            yield ('unclamp', side, c)


def apply(nrb, axis, op):
    k, side, c = op
    if k == 'clamp':
        return nrb.clamp(axis, side) if side is not None else nrb.clamp(axis)
    kw = {}
    if side is not None:
        kw['side'] = side
    if c is not None:
        kw['continuity'] = c
    return nrb.unclamp(axis, **kw)


def model(p, U, op):
    k, side, c = op
    return model_clamp(p, U, side) if k == 'clamp' else model_unclamp(p, U, side, c)


def verify(ctx, what, r, degs, want, base, pts, scale0, **detail):
    lib.wellformed(r, ctx, what)
    ctx.check(tuple(r.degree) == tuple(degs), what + ': degree', **detail)
    for ax, (p, V) in enumerate(zip(degs, want)):
        s = max(abs(x) for x in V)
        lib.same_knots(ctx, what, r.knots[ax], V, 1e-12 * s, knots_axis=ax, **detail)
        ctx.check(ref.domain(p, r.knots[ax]) == ref.domain(p, V), what + ': domain moved', **detail)
    got = lib.geom_at(r, pts)
    # extrapolated control points may be large: homogeneous comparison scaled by them
    scale = max(1.0, np.abs(lib.hom(r)).max(), scale0)
    if not ref.close(got, base, 1e-10, scale):
        ctx.fail(what + ': geometry differs', err=ref.err(got, base), scale=scale, **detail)
    ctx.trace()
    return scale


def run(case, ctx):
    if case.get('kind') == 'args':
        return argforms.run(ID, case, ctx)
    if case.get('kind') == 'large':
        return large.p07(case, ctx, verify, ops, model, apply)
    return dict(seq=seq, nd=nd)[case['kind']](case, ctx)


def seq(case, ctx):
    p, U = case['p'], case['U']
    init = lib.build([p], [U], 1, 'I')
    pts = [ref.per_span_points(p, U, p + 1)]
    base = lib.geom_at(init, pts)
    ctx.state((p, U))
    clamped0 = model_clamp(p, U, None)
    c0 = init.clone().clamp(0)
    seen = {tuple(U)}
    frontier = [(init, list(U), [], 1.0)]
    for d in range(case['depth']):
        nxt = []
        for nrb, K, hist, sc in frontier:
            for op in ops(p):
                want = model(p, K, op)
                if any(x > y for x, y in zip(want, want[1:])):
                    continue        # the continuation would not be a knot vector
                r = nrb.clone()
                r2 = apply(r, 0, op)
                ctx.trans()
                ctx.check(r2 is r, op[0] + ' does not return the object')
                h = hist + [op]
                sc2 = verify(ctx, op[0], r, [p], [want], base, pts, sc, history=h)
                # normal form: clamping both ends undoes any sequence
                back = r.clone().clamp(0)
                lib.same_knots(ctx, 'clamp after ' + op[0], back.knots[0], clamped0, 0.0, history=h)
                if not ref.close(lib.hom(back), lib.hom(c0), 1e-9, max(sc2, 1.0)):
                    ctx.fail('clamping does not undo %s' % op[0], err=ref.err(lib.hom(back), lib.hom(c0)), history=h)
                k = tuple(want)
                if k not in seen:
                    seen.add(k)
                    ctx.state((p, U, k))
                    nxt.append((r, r.knots[0].tolist(), h, sc2))
        frontier = nxt
    ctx.sample(dict(p=p, U=U, reachable=len(seen)))


def nd(case, ctx):
    degs, knots = case['degs'], case['knots']
    dim = len(degs)
    init = lib.build(degs, knots, 1, 2)
    pts = [ref.per_span_points(p, U, 2 if dim == 2 else 1) for p, U in zip(degs, knots)]
    base = lib.geom_at(init, pts)
    ctx.state((degs, knots))
    for ax in range(dim):
        for op in ops(degs[ax]):
            w = model(degs[ax], knots[ax], op)
            if any(x > y for x, y in zip(w, w[1:])):
                continue
            K = list(knots)
            K[ax] = w
            r = init.clone()
            apply(r, ax if op[1] is None else ax - dim, op)
            ctx.trans()
            ctx.state((degs, K))
            verify(ctx, op[0], r, degs, K, base, pts, 1.0, axis=ax, op=op)
    r, K = init.clone(), list(knots)
    for ax in range(dim):
        w = model(degs[ax], K[ax], ('unclamp', None, None))
        if any(x > y for x, y in zip(w, w[1:])):
            continue
        apply(r, ax, ('unclamp', None, None))
        K[ax] = w
        ctx.trans()
    sc = verify(ctx, 'unclamp all', r, degs, K, base, pts, 1.0)
    for ax in range(dim):
        r.clamp(ax)
        K[ax] = model_clamp(degs[ax], K[ax], None)
        ctx.trans()
    verify(ctx, 'clamp all', r, degs, K, base, pts, sc)
