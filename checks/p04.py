"""Knot insertion and refinement: geometry kept, knots exactly the requested multiset union."""
import itertools
import numpy as np
from mc import ref, spaces as sp, lib, large, args as argforms

ID = 'P04'
NETS = (3, lib.NETS)
LEVEL = 'model_checking'
RULE = ('explicit-state exploration: states are (degree, knots, control map) of curves carrying identity fields '
        '(so one state stands for all control values); transitions are every feasible insert/refine of a value '
        'from the alphabet {domain ends, breaks, span points, float neighbours of breaks}; every transition runs on '
        'the real code and is compared with the knot-multiset model and with the geometry of the initial state')
BOUNDS = {'quick': 'degree<=4 (depth 2), all end conditions; bulk refinement up to 3 values; surfaces/volumes: '
                   'every axis, every pair of alphabets; special control nets in turn, large objects, every form of the arguments; interior discontinuities',
          'thorough': 'degree<=5, depth 3, bulk refinement up to 4 values; special control nets in turn, large objects, every form of the arguments; interior discontinuities'}
TOL = 1e-9


def vals(p, U, rich=True):
    """Alphabet of values, simplest first."""
    bs = ref.breaks(p, U)
    out = []
    for a, b in zip(bs[:-1], bs[1:]):
        out.append(a + (b - a) * 0.5)
    out += bs
    if rich:
        a, b = bs[0], bs[1]
        out += [a + (b - a) / 3, float(np.nextafter(b, a)), float(np.nextafter(a, b))]
        if len(bs) > 2:
            out.append(float(np.nextafter(b, bs[-1])))
    return out


def expected(p, U, add):
    """Model of refinement: multiset union; end values displace outer knots.  None: infeasible."""
    U = list(U)
    a, b = U[p], U[-p - 1]
    for v in add:
        if v < a or v > b:
            return None
    for v in set(add):
        m = U[1:-1].count(v) + list(add).count(v)
        if m > p:
            return None
    l = sum(1 for v in add if v == a)
    r = sum(1 for v in add if v == b)
    V = sorted(U + list(add))
    return V[l:len(V) - r] if r else V[l:]


def cases(tier):
    yield from large.cases()
    yield from argforms.cases()
    if tier == 'quick':
        space = list(sp.knot_vectors(3, 2, ('third',), ('c', 'u'), maxm=3)) + \
            list(sp.knot_vectors(5, 1, ('off',), ('c', 'u', 'l', 'r'))) + list(sp.knot_vectors(3, 1, ('tiny', 'huge'), ('c', 'u')))
        depth, bulk = 2, 3
    else:
        space = list(sp.knot_vectors(4, 2, ('third',), ('c', 'u', 'l', 'r'))) + \
            list(sp.knot_vectors(5, 1, ('off', 'neg', 'large'), ('c', 'u', 'l', 'r'))) + \
            list(sp.knot_vectors(2, 3, ('small', 'unit'), ('c', 'u'))) + list(sp.knot_vectors(4, 2, ('tiny', 'huge'), ('c', 'u')))
        depth, bulk = 3, 4
    space += sp.all_words(tier) + sp.broken_words(tier)
    for p, U in space:
        yield dict(kind='bfs', p=p, U=list(U), depth=depth)
        yield dict(kind='bulk', p=p, U=list(U), k=bulk)
    from checks.p01 import alpha, twins
    k2, k3 = (9, 5) if tier == 'quick' else (26, 11)
    for (p, U), (q, V) in itertools.product(alpha(k2), repeat=2):
        yield dict(kind='nd', degs=[p, q], knots=[list(U), list(V)])
    for t in itertools.chain(itertools.product(alpha(k3), repeat=3), twins()):
        yield dict(kind='nd', degs=[p for p, U in t], knots=[list(U) for p, U in t])


def verify(ctx, what, nrb, degs, wantknots, base, pts, **detail):
    lib.wellformed(nrb, ctx, what)
    ctx.check(tuple(nrb.degree) == tuple(degs), what + ': degree changed', **detail)
    for ax, V in enumerate(wantknots):
        lib.same_knots(ctx, what, nrb.knots[ax], V, knots_axis=ax, **detail)
    lib.same_geometry(ctx, what, lib.geom_at(nrb, pts), base, TOL, **detail)
    ctx.trace()


def apply(nrb, op, axis=0):
    kind, v, t = op
    if kind == 'insert':
        return nrb.insert(axis, v, t)
    return nrb.refine(axis, v)


def run(case, ctx):
    if case.get('kind') == 'args':
        return argforms.run(ID, case, ctx)
    if case.get('kind') == 'large':
        return large.p04(case, ctx, verify, expected)
    if case['kind'] == 'bfs':
        return bfs(case, ctx)
    if case['kind'] == 'bulk':
        return bulk(case, ctx)
    return nd(case, ctx)


def bfs(case, ctx):
    p, U, depth = case['p'], case['U'], case['depth']
    init = lib.build([p], [U], 1, 'I')
    A = vals(p, U)
    # decisive points: per-span on the finest arrangement of all values that may be inserted
    allpts = sorted(set(ref.breaks(p, U)) | set(A))
    pts = []
    for a, b in zip(allpts[:-1], allpts[1:]):
        if b - a > 1e-9 * max(allpts[-1] - allpts[0], abs(a)):
            pts += [a + (b - a) * (j + 0.5) / (p + 1) for j in range(p + 1)]
    pts = [np.array(sorted(pts + allpts))]
    base = lib.geom_at(init, pts)
    ctx.state((p, U))
    seen = {tuple(U)}
    frontier = [(init, tuple(U), [])]
    for d in range(depth):
        nxt = []
        for nrb, key, hist in frontier:
            for v in A:
                for kind, t in (('insert', 1), ('insert', 2), ('insert', None), ('refine', 1)):
                    m = min(list(key).count(v), p)
                    tt = p - m if t is None else t
                    want = expected(p, key, [v] * tt) if tt else list(key)
                    if want is None:
                        continue
                    if d and kind == 'insert' and t != 1:
                        continue
                    arg = v if t != 2 else v
                    r = nrb.clone()
                    r2 = apply(r, (kind, [arg] if kind == 'refine' else arg, t))
                    ctx.trans()
                    ctx.check(r2 is r, '%s does not return the object' % kind)
                    h = hist + [(kind, v, t)]
                    verify(ctx, kind, r, [p], [want], base, pts, history=h)
                    k = tuple(want)
                    # both operations must reach the same state (confluence)
                    if k not in seen:
                        seen.add(k)
                        ctx.state((p, U, k))
                        nxt.append((r, k, h))
        frontier = nxt
    ctx.sample(dict(p=p, U=U, reachable=len(seen)))


def bulk(case, ctx):
    p, U = case['p'], case['U']
    init = lib.build([p], [U], 1, 'I')
    A = vals(p, U, rich=False)
    pts = lib.points_for([p], [sorted(list(U) + [v for v in A if v not in U])], p + 1)
    a, b = ref.domain(p, U)
    pts = [np.array([x for x in pts[0] if a <= x <= b])]
    base = lib.geom_at(init, pts)
    for k in range(2, case['k'] + 1):
        for ms in itertools.combinations_with_replacement(A, k):
            want = expected(p, U, ms)
            if want is None:
                continue
            # any order of the values, any container
            forms = [list(ms), tuple(reversed(ms)), np.array(ms[1:] + ms[:1])]
            for f in forms if k == 2 else forms[:1]:
                r = init.clone().refine(0, f)
                ctx.trans()
                verify(ctx, 'refine', r, [p], [want], base, pts, values=ms)
            ctx.state((p, U, want))


def nd(case, ctx):
    degs, knots = case['degs'], case['knots']
    dim = len(degs)
    init = lib.build(degs, knots, 1, 2)
    pts = []
    for p, U in zip(degs, knots):
        A = vals(p, U, False)
        V = sorted(list(U) + [v for v in A if v not in U])
        a, b = ref.domain(p, U)
        x = [x for x in ref.per_span_points(p, V, 1 if dim == 3 else 2) if a <= x <= b]
        pts.append(np.array(x))
    base = lib.geom_at(init, pts)
    ctx.state((degs, knots))
    for ax in range(dim):
        p, U = degs[ax], knots[ax]
        A = vals(p, U, False)
        for v, w in itertools.combinations_with_replacement(A, 2):
            want = expected(p, U, [v, w])
            if want is not None:
                K = list(knots)
                K[ax] = want
                r = init.clone().refine(ax, [w, v])
                ctx.trans()
                verify(ctx, 'refine', r, degs, K, base, pts, axis=ax, values=[w, v])
                ctx.state((degs, K))
        for v in A:
            want = expected(p, U, [v])
            if want is None:
                continue
            K = list(knots)
            K[ax] = want
            r = init.clone().insert(ax - dim, v)
            ctx.trans()
            verify(ctx, 'insert', r, degs, K, base, pts, axis=ax - dim, value=v)
            r = init.clone().insert(ax, v, 1)
            verify(ctx, 'insert', r, degs, K, base, pts, axis=ax, value=v)
    for ax in range(dim):
        r = init.clone()
        ctx.check(r.refine(ax, None) is r and lib.snap(r) == lib.snap(init), 'refine(None) is not a no-op')
        ctx.check(r.refine(ax, []) is r and lib.snap(r) == lib.snap(init), 'refine([]) is not a no-op')
