"""Making objects compatible: one common domain, degree and knot vector; every map kept."""
import itertools
import numpy as np
from mc import ref, spaces as sp, lib, large, args as argforms
from checks.p01 import alpha

ID = 'P17'
NETS = (3, lib.NETS)
LEVEL = 'model_checking'
RULE = ('states are tuples of (degree, knots) of the operands; every ordered pair and selected triples of the alphabet, every '
        'subset of axes for surfaces and volumes, every calling form; each transition (the call) runs on the real code and is '
        'compared with the model of domains, degrees and knot multisets, and every result with the affinely reparametrised '
        'operand; a second application must change nothing')
BOUNDS = {'quick': '26x26 curve pairs, 8^3 curve triples, 6x6 surface pairs x all axis subsets, 4x4 volume pairs; special control nets in turn, large objects, every form of the arguments',
          'thorough': '60x60 curve pairs, 14^3 curve triples, 14x14 surface pairs, 8x8 volume pairs; special control nets in turn, large objects, every form of the arguments'}


def curves():
    """Operands whose domains map onto one another without rounding (powers of two), then the general alphabet."""
    out = []
    for a, s in ((0.0, 1.0), (0.0, 2.0), (1.0, 4.0), (-2.0, 1.0)):
        for p, ms in ((1, (1,)), (2, (1,)), (2, (2, 1, 1)), (3, (1, 3, 1)), (3, ())):
            n = 4
            U = [a] * (p + 1)
            for i, m in enumerate(ms):
                U += [a + s * (i + 1) / n] * m
            U += [a + s] * (p + 1)
            out.append((p, U))
    p, U = 2, [-0.5, -0.25, 0, 0.25, 0.5, 0.5, 1, 1.25, 1.5]
    out.append((p, U))
    out.append((3, [-0.75, -0.5, -0.25, 0, 0.25, 0.75, 1, 1.25, 1.5, 1.75]))
    out.append((2, [0, 0, 0, 0.25, 0.5, 0.75, 1, 1.25, 1.5]))
    out.append((1, [-1, 0, 0.5, 1, 2]))
    exact = len(out)
    return out, exact


def table(tier):
    ex, n = curves()
    return ex + [(p, list(U)) for p, U in alpha(40)] + NEAR, n


# breaks that almost coincide
NEAR = [(p, [0.0] * (p + 1) + [x] * m + [1.0] * (p + 1)) for p, x, m in
        ((2, 0.5, 1), (2, 0.5 + 2.0 ** -30, 1), (2, 0.5 - 2.0 ** -28, 2), (2, 0.5 + 2.0 ** -53, 1), (1, 0.5 + 2.0 ** -32, 1), (3, 0.5 + 2.0 ** -27, 1))]


def cases(tier):
    yield from large.cases()
    yield from argforms.cases()
    yield from (dict(kind='large', many=n) for n in (2, 5, 9, 17, 33))
    for n in (4, 13, 16, 40):
        for e in (1e-6, 1e-8, 1e-9, 1e-10, 1e-12, 2.0 ** -50):
            for degs in ([2, 2], [1, 1], [3, 3, 3], [2, 3]):
                if degs == [2, 3] and e < 1e-7:
                    continue
                yield dict(kind='large', close=e, breaks=n, degs=degs)
                if n < 40:
                    yield dict(kind='large', close=e, breaks=n, degs=degs, surface=1 + n % 2)
    t, n = table(tier)
    K = n + (6 if tier == 'quick' else 36)
    for i, j in itertools.product(range(K), repeat=2):
        yield dict(objs=[[i], [j]], axes='all')
    N = range(len(t) - len(NEAR), len(t))
    for i, j in itertools.product(N, repeat=2):
        yield dict(objs=[[i], [j]], axes='all')
        yield dict(objs=[[i, 0], [j, 7]], axes='all')
    for i, j, k in itertools.product(N[:4], repeat=3):
        yield dict(objs=[[i], [j], [k]], axes='all')
    T = list(range(0, n, 3)) if tier == 'quick' else list(range(0, n + 4, 2))
    for tr in itertools.product(T, repeat=3):
        yield dict(objs=[[i] for i in tr], axes='all')
    for m in (5, 6, 7, 9, 12):          # many operands
        for k in range(6 if tier == 'quick' else 24):
            for r in range(m if k < 2 or tier != 'quick' else 1):
                ix = [(k + 5 * i * (1 + k % 3)) % n for i in range(m)]
                yield dict(objs=[[i] for i in ix[r:] + ix[:r]], axes='all')
        yield dict(objs=[[(3 * i) % n, (7 * i + m) % n] for i in range(m)], axes=[1, 0][:m % 2 + 1])
    S = list(itertools.product((0, 7, 20, 23) if tier == 'quick' else (0, 2, 7, 12, 20, 23, 24), repeat=2))
    for a in S:
        for b in (S[::3] if tier == 'quick' else S):
            for ax in (None, 0, 1, (0,), (1, 0), [-1], (), (0, -1), [-2, 1], (-2,)):
                yield dict(objs=[list(a), list(b)], axes=ax)
    V = [(0, 7, 21), (20, 5, 3), (13, 23, 0), (8, 1, 22)] + ([] if tier == 'quick' else [(3, 12, 20), (22, 22, 22), (0, 0, 0), (25, 4, 17)])
    for a, b in itertools.product(V, repeat=2):
        for ax in (None, (0, 2), 1, [2], [1, -1], (-1, 0), (-2, 2), [2, 0, -2], (-3, -1)):
            yield dict(objs=[list(a), list(b)], axes=ax)


def run(case, ctx):
    from igakit import cad
    if case.get('kind') == 'args':
        return argforms.run(ID, case, ctx)
    if case.get('kind') == 'large':
        return large.p17(case, ctx, cad)
    t, nexact = table(ctx.tier)
    objs = []
    for k, ix in enumerate(case['objs']):
        a = [t[i] for i in ix]
        objs.append(lib.build([p for p, U in a], [U for p, U in a], k % 2 if len(ix) > 1 else 1, 1, k))
    dim = objs[0].dim
    before = [lib.snap(o) for o in objs]
    axes = case['axes']
    if axes == 'all':
        axes = None
    call = (lambda *o: cad.compat(*o)) if axes is None else (lambda *o: cad.compat(*o, axes=axes))
    out = call(*objs)
    ctx.trans()
    ctx.check(isinstance(out, list) and len(out) == len(objs), 'result is not a list of the operands')
    ctx.check([lib.snap(o) for o in objs] == before, 'operands changed')
    ctx.check(all(x is not y for x in out for y in objs), 'an operand itself is returned')
    act = list(range(dim)) if axes is None else sorted({range(dim)[a] for a in np.ravel(np.asarray(axes, dtype=int))})
    for ax in range(dim):
        doms = [ref.domain(o.degree[ax], o.knots[ax]) for o in objs]
        if ax not in act:
            for o, r in zip(objs, out):
                ctx.check(r.degree[ax] == o.degree[ax], 'axis that was not asked for changed')
                lib.same_knots(ctx, 'axis that was not asked for', r.knots[ax], o.knots[ax], knots_axis=ax)
            continue
        D = (min(d[0] for d in doms), max(d[1] for d in doms))
        p = max(o.degree[ax] for o in objs)
        U = out[0].knots[ax]
        for r in out:
            ctx.check(r.degree[ax] == p, 'degree is not the greatest one', got=r.degree, axis=ax)
            ctx.check(ref.domain(p, r.knots[ax]) == D, 'domain is not the common one', got=ref.domain(p, r.knots[ax]), want=D)
            lib.same_knots(ctx, 'results differ', r.knots[ax], U, 1e-15 * max(map(abs, D)), knots_axis=ax)
        # model of the interior multiplicities
        inner = {}
        exact = all(ix[ax] < nexact for ix in case['objs'])
        for o, d in zip(objs, doms):
            q, V = o.degree[ax], o.knots[ax]
            for x in {float(x) for x in V if d[0] < x < d[1]}:
                y = D[0] + (x - d[0]) * ((D[1] - D[0]) / (d[1] - d[0]))
                m = min(ref.mult(V, x), q) + p - q
                inner[y] = max(inner.get(y, 0), m)
        got = {}
        for x in U:
            if D[0] < x < D[1]:
                got[float(x)] = got.get(float(x), 0) + 1
        if exact:
            ctx.check(got == inner, 'interior knots are not the union with greatest multiplicities', got=got, want=inner, axis=ax)
            ctx.n('exact_axes')
        else:
            # a value may be represented twice, a rounding error apart
            tol = 1e-13 * max(1.0, max(map(abs, D)))
            for y, m in inner.items():
                ctx.check(any(abs(x - y) <= tol and k >= m for x, k in got.items()), 'a knot of an operand is missing', value=y, mult=m, axis=ax)
            for x, k in got.items():
                ctx.check(any(abs(x - y) <= tol and k <= m for y, m in inner.items()), 'a knot of no operand appears', value=x, mult=k, axis=ax)
    # geometry
    for o, r in zip(objs, out):
        lib.wellformed(r, ctx, 'compat')
        x = [ref.per_span_points(p, U, 3 if dim < 3 else 2) for p, U in zip(r.degree, r.knots)]
        xo = []
        for ax in range(dim):
            d, D = ref.domain(o.degree[ax], o.knots[ax]), ref.domain(r.degree[ax], r.knots[ax])
            xo.append(np.clip(d[0] + (x[ax] - D[0]) * ((d[1] - d[0]) / (D[1] - D[0])), d[0], d[1]))
        want = lib.cart(lib.geom_at(o, xo))
        got = lib.eval_own(r, x)
        if not ref.close(got, want, 1e-9):
            ctx.fail('map changed', err=ref.err(got, want))
        ctx.trace()
    ctx.state(repr((case['objs'], repr(case['axes']))))
    # idempotent, and equal in every calling form
    again = call(*out)
    for r, s in zip(out, again):
        ctx.check(r.shape == s.shape and np.allclose(r.array, s.array, rtol=1e-10, atol=1e-10), 'second application changes the objects')
    ctx.trans()
    if axes is None:
        for form in (cad.compat(objs), cad.compat(tuple(objs))):
            ctx.check([lib.snap(o) for o in form] == [lib.snap(o) for o in out], 'sequence form gives another result')
    one = cad.compat(objs[0])
    ctx.check(len(one) == 1 and one[0] is not objs[0] and lib.snap(one[0]) == before[0], 'single operand')
