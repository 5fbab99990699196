"""Quadrature rules, tabulated bases and generated knot vectors."""
import itertools
import numpy as np
from numpy.polynomial import legendre as L
from mc import ref, spaces as sp, lib, large
from checks.p19 import grid_knots, LIMITS
from checks.p25 import lobatto

ID = 'P24'
LEVEL = 'exploration'
RULE = ('all rules; all knot words up to the length (values repeated anywhere) with every number of quadrature points and every '
        'derivative order; every element count, degree, continuity, wrapping and interval for generated knot vectors; oracles: moments '
        'and Legendre roots, Cox-de Boor, and the closed form of the integral of a B-spline; non-trivial: more than one element')
BOUNDS = {'quick': 'q<=10 (all tabulated), words of degree<=4 length<=2p+2+{3,3,2,0}; knot vectors with E<=6, p<=5',
          'thorough': 'words of degree<=5 length<=2p+2+{5,5,3,2,0} and 4 embeddings; E<=12, p<=9'}


def cases(tier):
    yield from large.cases(large.C1)
    q = tier == 'quick'
    for n in range(0, 13):
        yield dict(kind='rule', q=n)
    ex = {1: 3, 2: 3, 3: 2, 4: 0} if q else {1: 5, 2: 5, 3: 3, 4: 2, 5: 0}
    for p, e in ex.items():
        for _, U in sp.words(p, e, 'int'):
            for em in ('third',) if q else ('third', 'tiny', 'huge', 'off'):
                f = sp.EMBED[em]
                yield dict(kind='data', p=p, U=[f(int(x), int(max(U))) for x in U])
    for p, U in sp.broken_words(tier):
        yield dict(kind='data', p=p, U=list(U))
    for p, U in sp.knot_vectors(5 if q else 7, 1, ('off', 'tiny', 'huge'), ('c',)):
        yield dict(kind='data', p=p, U=list(U))
    for p in range(1, 6 if q else 10):
        for C in range(p):
            yield dict(kind='kv', p=p, C=C, E=6 if q else 12)


def run(case, ctx):
    if case.get('kind') == 'large':
        return large.p24(case, ctx)
    return dict(rule=rule, data=data, kv=kv)[case['kind']](case, ctx)


def rule(case, ctx):
    from igakit.igalib import iga
    q = case['q']
    ctx.ev()
    for name, f, lo in (('Gauss-Legendre', iga.GaussLegendreRule, 1), ('Gauss-Lobatto', iga.GaussLobattoRule, 2)):
        if not lo <= q <= 10:
            if not lib.raises(f, q):
                X, W = f(q)
                ctx.fail(name + ': size that is not tabulated is accepted', q=q, X=X)
            continue
        X, W = f(q)
        want = np.sort(L.leggauss(q)[0]) if lo == 1 else 2 * lobatto(q - 1) - 1
        ctx.check(ref.close(X, want, 3e-15, 1.0), name + ': points', q=q, err=ref.err(X, want))
        ctx.check(np.all(W > 0) and np.all(np.diff(X) > 0) and np.array_equal(X, -X[::-1]) and np.array_equal(W, W[::-1]), name + ': symmetry', q=q, X=X, W=W)
        for k in range(0, 2 * q if lo == 1 else 2 * q - 2):
            m = float(np.sum(W * X ** k))
            e = 2.0 / (k + 1) if k % 2 == 0 else 0.0
            ctx.ev()
            ctx.check(abs(m - e) < 4e-15, name + ': not exact', q=q, power=k, got=m, want=e)
        ctx.distinct((name, q))


def data(case, ctx):
    from igakit.igalib import iga
    p, U = case['p'], list(case['U'])
    A = np.array(U)
    n = len(U) - p - 2
    sp_ = [k for k in range(p, n + 1) if U[k] < U[k + 1]]
    if len(sp_) > 1:
        ctx.distinct(case)
    scale = max(map(abs, U))
    Ld = U[n + 1] - U[p]
    for q, d in [(None, None)] + [(q, p) for q in range(1, 11)] + [(p + 1, d) for d in range(p + 1)] + [(1, 0), (10, 0)]:
        kw = {} if q is None else dict(q=q, d=d)
        Q, D = (p + 1, p) if q is None else (q, d)
        O, J, W, X, N = iga.BasisData(p, A, **kw)
        ctx.ev()
        ctx.check(list(O) == [k - p for k in sp_], 'offsets', got=O, U=U, q=Q)
        ctx.check(N.shape == (len(sp_), Q, p + 1, D + 1) and X.shape == (len(sp_), Q) and W.shape == (Q,), 'shapes', got=N.shape)
        xg, wg = L.leggauss(Q)
        ctx.check(ref.close(W, wg, 1e-14, 1.0), 'weights', q=Q)
        for e, k in enumerate(sp_):
            a, b = U[k], U[k + 1]
            ctx.check(abs(J[e] - (b - a) / 2) <= 1e-15 * scale, 'Jacobian', element=e, U=U)
            want = a + (xg + 1) * (b - a) / 2
            ctx.check(ref.close(X[e], want, 3e-15, scale), 'points', element=e, got=X[e], want=want, U=U)
            # both are evaluated at the points the table reports
            B = ref.basis(p, U, X[e], D)[:, :, k - p:k + 1]
            for r in range(D + 1):
                w_ = B[r] * Ld ** r
                ctx.check(ref.close(N[e, :, :, r] * Ld ** r, w_, 1e-9, max(1, np.abs(w_).max())), 'tabulated basis', element=e, order=r, q=Q, U=U)
        if Q >= (p + 2) // 2:
            # integral of each basis function over the domain
            I = np.zeros(n + 1)
            for e, k in enumerate(sp_):
                I[k - p:k + 1] += J[e] * (W @ N[e, :, :, 0])
            for i in range(n + 1):
                if U[i] >= U[p] and U[i + p + 1] <= U[n + 1]:
                    ctx.check(abs(I[i] - (U[i + p + 1] - U[i]) / (p + 1)) <= 1e-13 * Ld, 'integral of a basis function', i=i, q=Q, U=U)
    ctx.check(ref.close(iga.Greville(p, A), [sum(U[i + 1:i + p + 1]) / p for i in range(n + 1)], 4e-16 * p, scale), 'Greville', U=U)
    # collocation tables at every kind of point
    x = sorted(sp.params(p, U))
    x = x + x[::-2] + [x[0]]
    for d in [None] + list(range(p + 1)):
        O, N = iga.BasisDataCol(p, A, np.array(x), **({} if d is None else dict(d=d)))
        D = p if d is None else d
        ctx.ev()
        ks = [ref.span(p, U, u) for u in x]
        ctx.check(list(O) == [k - p for k in ks], 'collocation offsets', got=O, want=ks, U=U)
        ctx.check(N.shape == (len(x), p + 1, D + 1), 'collocation: shape')
        B = ref.basis(p, U, x, D)
        for j, k in enumerate(ks):
            for r in range(D + 1):
                w_ = B[r, j, k - p:k + 1] * Ld ** r
                ctx.check(ref.close(N[j, :, r] * Ld ** r, w_, 1e-9, max(1, np.abs(w_).max())), 'collocation basis', u=x[j], order=r, U=U)
    for bad in (dict(q=0), dict(q=11), dict(d=-1), dict(d=p + 1)):
        ctx.check(lib.raises(iga.BasisData, p, A, **bad), 'BasisData accepts invalid sizes', args=bad)


def kv(case, ctx):
    from igakit.igalib import iga
    p, C = case['p'], case['C']
    for E in range(1, case['E'] + 1):
        for a, b in LIMITS:
            for w in (0, 1):
                U = iga.KnotVector(E, p, C, a, b, w)
                ctx.ev()
                V = grid_knots(E, p, C, a, b, w)
                scale = max(abs(a), abs(b), b - a)
                lib.same_knots(ctx, 'KnotVector', U, V, 4e-15 * scale * (2 + p), E=E, wrap=w)
                ctx.check((U[p], U[-p - 1]) == (a, b), 'KnotVector: domain', E=E, wrap=w)
                ctx.check(np.all(np.diff(U) >= 0), 'KnotVector decreases', U=U)
                vals, ms = np.unique(U[p:-p], return_counts=True)
                ctx.check(len(vals) == E + 1 and list(ms[1:-1]) == [p - C] * (E - 1), 'KnotVector: elements', E=E, U=U)
                if w:
                    # periodic: the basis functions that wrap around have matching knots
                    T, s = b - a, E * (p - C)
                    ctx.check(np.abs(U[s:][:2 * C + 2 + 0] - U[:len(U) - s][:2 * C + 2] - T).max() < 1e-14 * (scale + T) * (2 + p)
                              if len(U) > s else True, 'KnotVector is not periodic', U=U)
                ctx.distinct((p, C, E, a, w))
        ctx.check(np.array_equal(iga.KnotVector(E, p, C), iga.KnotVector(E, p, C, 0.0, 1.0, 0)), 'KnotVector: defaults')
        ctx.check(np.array_equal(iga.KnotVector(E, p), iga.KnotVector(E, p, p - 1)), 'KnotVector: default continuity')
    for bad in ((0, p, C), (1, p, p), (1, p, -1), (1, 0, 0)):
        ctx.check(lib.raises(iga.KnotVector, *bad), 'KnotVector accepts invalid sizes', args=bad)
