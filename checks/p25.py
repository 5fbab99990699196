"""Knot queries and collocation abscissae are consistent with the knot vector."""
import itertools
import numpy as np
from mc import ref, spaces as sp, lib, large, args as argforms
from checks.p01 import alpha

ID = 'P25'
LEVEL = 'exploration'
RULE = ('every knot word: all sequences of multiplicities (up to p, p+1 at clamped ends) of each length, so that values may be repeated '
        'anywhere, across the ends of the domain included, times value embeddings; every query of the object and of the kernel '
        'interface on every word, at all breaks, their floating-point neighbours, and points inside and outside, with every '
        'valid span hint; compared with counting on the sequence; non-trivial: more than one span or unclamped')
BOUNDS = {'quick': 'degree<=4, length<=2p+2+{3,4,3,1} (all words), 4 embeddings; surfaces/volumes: every axis form',
          'thorough': 'degree<=5, length<=2p+2+{5,5,4,3,1}, 10 embeddings'}
EX = {'quick': {1: 3, 2: 4, 3: 3, 4: 1}, 'thorough': {1: 5, 2: 5, 3: 4, 4: 3, 5: 1}}


def cases(tier):
    yield from large.cases()
    yield from argforms.cases()
    embeds = ('int', 'third', 'tiny', 'huge') if tier == 'quick' else tuple(sp.EMBED)
    for p, ex in EX[tier].items():
        for k, (_, U) in enumerate(sp.words(p, ex)):
            for e in embeds:
                yield dict(kind='word', p=p, word=[int(x) for x in U], embed=e)
            yield dict(kind='word', p=p, word=[int(x) for x in U], embed=('ulps', 'pairs', 'close')[k % 3])
    for p, U in sp.broken_words(tier, 'int'):
        for e in embeds:
            yield dict(kind='word', p=p, word=[int(x) for x in U], embed=e)
    for p in range(1, 9 if tier == 'quick' else 13):
        for nb in (0, 1, 2):
            for m in (1, p):
                yield dict(kind='word', p=p, word=[int(x) for x in sp.clamped(p, (m,) * nb)], embed='off')
    for (p, U), (q, V) in itertools.product(alpha(14), repeat=2):
        yield dict(kind='nd', degs=[p, q], knots=[list(U), list(V)])
    for t in itertools.product(alpha(5), repeat=3):
        yield dict(kind='nd', degs=[p for p, U in t], knots=[list(U) for p, U in t])


# breaks a few floats apart are different breaks
E = 2.0 ** -52
CLOSE = dict(ulps=lambda i, n: 1 + i * E, pairs=lambda i, n: 1.0 + i // 2 + (i % 2) * E * 2 ** (i // 2),
             close=lambda i, n: -0.5 + i // 3 + (i % 3) * 3e-15)


def run(case, ctx):
    if case.get('kind') == 'args':
        return argforms.run(ID, case, ctx)
    if case.get('kind') == 'large':
        return large.p25(case, ctx, queries)
    if case['kind'] == 'nd':
        return nd(case, ctx)
    p, w = case['p'], case['word']
    f = CLOSE.get(case['embed']) or sp.EMBED[case['embed']]
    U = [f(i, max(w)) for i in w]
    n = len(U) - p - 2
    o = lib.N()([np.array(U)], sp.gen((n + 1, 3), p))
    ctx.check(o.degree == (p,), 'degree')
    queries(ctx, o, p, U, 0)
    if case['embed'] not in CLOSE:
        kernels(ctx, p, U)
    if len(ref.breaks(p, U)) > 2 or U[0] != U[p]:
        ctx.distinct(case)


def queries(ctx, o, p, U, ax):
    n = len(U) - p - 2
    a, b = U[p], U[n + 1]
    bs = sorted({x for x in U if a <= x <= b})
    spans = [k for k in range(p, n + 1) if U[k] < U[k + 1]]
    scale = max(map(abs, (a, b)))
    ctx.ev()
    s = o.spans(ax)
    ctx.check(list(s) == spans and np.asarray(s).dtype.kind == 'i', 'spans', got=s, want=spans, U=U)
    g = o.breaks(ax)
    ctx.check(list(g) == bs, 'breaks', got=g, want=bs, U=U)
    g, m = o.breaks(ax, mults=True)
    want = [U.count(x) for x in bs]
    want[0], want[-1] = min(want[0], p), min(want[-1], p)
    ctx.check(list(g) == bs and list(m) == want, 'breaks and multiplicities', got=[g, m], want=[bs, want], U=U)
    ctx.check(len(spans) == len(bs) - 1 and all(U[k] == x and U[k + 1] == y for k, x, y in zip(spans, bs, bs[1:])), 'model')
    u = o.greville(ax)
    gw = [sum(U[i + 1:i + p + 1]) / p for i in range(n + 1)]
    ctx.check(ref.close(u, gw, 4e-16 * p, max(map(abs, U))), 'greville', got=u, want=gw, U=U)
    for what, g, x in (('lagrange', o.lagrange(ax), np.arange(p + 1) / float(p)), ('lobatto', o.lobatto(ax), lobatto(p))):
        want = [y + (z - y) * t for y, z in zip(bs, bs[1:]) for t in x[:-1]] + [bs[-1]]
        g = np.asarray(g)
        if what == 'lobatto' and p > 9:         # beyond the tabulated rules
            continue
        ctx.check(g.shape == (len(want),), what + ': count', got=g, want=want, U=U)
        ctx.check(ref.close(g, want, 1e-14, scale), what, got=g, want=want, U=U)
        ctx.check(list(g[::p]) == bs, what + ': breaks are not hit exactly', got=g, U=U)
        if min(np.diff(bs)) > 1e-9 * scale:
            ctx.check(np.all(np.diff(g) > 0), what + ': not increasing', got=g, U=U)


def lobatto(p):
    """Gauss-Lobatto points on [0,1] from the roots of P'_p."""
    from numpy.polynomial import legendre as L
    r = L.legroots(L.legder([0] * p + [1])) if p > 1 else []
    return (np.concatenate([[-1], np.sort(np.real(r)), [1]]) + 1) / 2


def kernels(ctx, p, U):
    from igakit.igalib import bsp
    n = len(U) - p - 2
    A = np.array(U)
    a, b = U[p], U[n + 1]
    h = b - a
    us = sorted(set(sp.params(p, U) + [a - h, b + h] + [x for x in U]))
    for u in us:
        if u <= a:
            k = max(i for i in range(p, n + 1) if U[i] == a)
        elif u >= b:
            k = min(i for i in range(p, n + 1) if U[i + 1] == b)
        else:
            k = ref.span(p, U, u)
        ctx.ev()
        got = bsp.FindSpan(p, A, u)
        ctx.check(got == k, 'FindSpan', got=got, want=k, u=u, U=U)
        if a <= u <= b:
            s = U.count(u)
            ctx.check(bsp.FindMult(p, A, u) == s, 'FindMult', u=u, U=U)
            ctx.check(bsp.FindMult(p, A, u, k) == s, 'FindMult with a span', u=u, U=U)
            ctx.check(tuple(bsp.FindSpanMult(p, A, u)) == (k, s), 'FindSpanMult', u=u, U=U)
            B = ref.basis(p, U, [u], p)
            Bk = B[:, 0, k - p:k + 1]
            for args in ((), (k,)):
                N = bsp.EvalBasisFuns(p, A, u, *args)
                ctx.check(ref.close(N, Bk[0], 1e-12), 'basis functions', u=u, U=U, got=N, want=Bk[0])
            for d in (None,) + tuple(range(p + 1)):
                for kw in ({}, dict(span=k)):
                    D = bsp.EvalBasisFunsDers(p, A, u, **({} if d is None else dict(d=d)), **kw)
                    W = Bk[:p + 1 if d is None else d + 1]
                    ctx.check(D.shape == W.shape, 'derivatives: shape', got=D.shape, want=W.shape)
                    for r in range(len(W)):
                        ctx.check(ref.close(D[r], W[r], 1e-9, max(1, np.abs(W[r]).max())), 'basis derivatives', order=r, u=u, U=U)
    ctx.check(list(bsp.SpanIndex(p, A)) == [k for k in range(p, n + 1) if U[k] < U[k + 1]], 'SpanIndex', U=U)
    ctx.check(ref.close(bsp.Greville(p, A), [sum(U[i + 1:i + p + 1]) / p for i in range(n + 1)], 4e-16 * p, max(map(abs, U))), 'Greville', U=U)


def nd(case, ctx):
    degs, knots = case['degs'], [list(map(float, U)) for U in case['knots']]
    o = lib.build(degs, knots, 1, 0)
    dim = len(degs)
    for ax in range(dim):
        queries(ctx, o, degs[ax], knots[ax], ax)
        queries(ctx, o, degs[ax], knots[ax], ax - dim)
    for f in ('spans', 'breaks', 'greville', 'lagrange', 'lobatto'):
        r = getattr(o, f)()
        ctx.check(isinstance(r, list) and len(r) == dim, f + ': one answer per direction')
        for ax in range(dim):
            ctx.check(np.array_equal(r[ax], getattr(o, f)(ax)), f + ': answers for all directions differ', axis=ax)
        ctx.check(lib.raises(getattr(o, f), dim) and lib.raises(getattr(o, f), -dim - 1), f + ': axis out of range accepted')
    r = o.breaks(mults=True)
    for ax in range(dim):
        s = o.breaks(ax, mults=True)
        ctx.check(np.array_equal(r[ax][0], s[0]) and np.array_equal(r[ax][1], s[1]), 'breaks(mults): answers for all directions differ')
    ctx.distinct(case)
