"""Partial derivatives of orders 1..4 equal the exact derivatives of the rational map."""
import itertools
import numpy as np
from mc import ref, spaces as sp, lib, large, forms
from checks.p01 import alpha, twins

ID = 'P02'
NETS = (3, lib.nets(('still',)))
LEVEL = 'exploration'
RULE = ('every (degree, knots, end condition, weight class) in the bounds x order 1..4 x field form, at every break '
        'and interior points of every span, against the general Leibniz rule on all multi-indices; non-trivial: '
        'some enumerated derivative of that order is non-zero')
BOUNDS = {'quick': 'curves degree<=5, <=2 breaks; surfaces 10x10, volumes 5^3 alphabets; weights 0/1/2; special control nets in turn, large objects, every form of the arguments',
          'thorough': 'curves degree<=7, <=3 breaks; surfaces 30x30, volumes 12^3 alphabets; special control nets in turn, large objects, every form of the arguments'}
TOL = 2e-9


def cases(tier):
    yield from large.cases()
    yield from large.batches()
    if tier == 'quick':
        cs = itertools.chain(sp.knot_vectors(5, 1, ('int', 'off'), ('c', 'u')),
                             sp.knot_vectors(3, 2, ('third', 'nonuni'), ('c', 'l')))
        k2, k3, wks = 10, 5, (0, 1)
    else:
        cs = itertools.chain(sp.knot_vectors(7, 1, ('int', 'off', 'neg'), ('c', 'u', 'l', 'r')),
                             sp.knot_vectors(4, 3, ('third', 'nonuni'), ('c', 'u')))
        k2, k3, wks = 26, 12, (0, 1)
    for p, U in itertools.chain(cs, sp.all_words(tier), sp.broken_words(tier)[::2], sp.knot_vectors(3, 1, ('tiny', 'huge'), ('c', 'u'))):
        for wk in (0, 1, 2):
            yield dict(degs=[p], knots=[list(U)], wk=wk)
    for (p, U), (q, V) in itertools.product(alpha(k2), repeat=2):
        for wk in wks:
            yield dict(degs=[p, q], knots=[list(U), list(V)], wk=wk)
    for t in itertools.chain(itertools.product(alpha(k3), repeat=3), twins()):
        for wk in wks:
            yield dict(degs=[p for p, U in t], knots=[list(U) for p, U in t], wk=wk)
    # every form of the arguments
    A, k = alpha(10), 1 if tier == 'thorough' else 3
    for t in itertools.chain(((x,) for x in A), itertools.product(A[::k], A[1::2 * k]), itertools.product(A[:4:k], repeat=3)):
        yield dict(kind='forms', degs=[p for p, U in t], knots=[list(U) for p, U in t])


def pack(D, dim, order, base):
    """Dense symmetric array [..., comp, i1..iorder] from multi-index derivatives."""
    out = np.zeros(base + (dim,) * order)
    for idx in itertools.product(range(dim), repeat=order):
        a = tuple(idx.count(d) for d in range(dim))
        out[(Ellipsis,) + idx] = D[a]
    return out


def written(case, ctx):
    """Every form of the arguments."""
    degs, knots = case['degs'], case['knots']
    dim = len(degs)
    nrb = lib.build(degs, knots, 1, 2)
    w = lib.hom(nrb)[..., 3]
    F = lib.hom(nrb)[..., 4:] / w[..., None]
    s = sp.gen(nrb.shape, 29)
    allF = np.concatenate([F, s[..., None]], axis=-1)
    for names in forms.combos(dim):
        a = forms.arguments(nrb, names)
        if a is None:
            continue
        args, vals, drop = a
        D = ref.rational_ders(degs, knots, w, allF, vals, 3)
        base = tuple(len(x) for x in vals) + (3,)
        kw = dict(zip('uvw', args))
        top = 1.0
        for order in (1, 2, 3):
            want = pack(D, dim, order, base)[drop]
            top = max(top, np.abs(want).max())
            sel = (Ellipsis,) + (slice(None),) * order
            W2, W1 = want[(Ellipsis, slice(0, 2)) + sel[1:]], want[(Ellipsis, 2) + sel[1:]]
            got = [('positional', nrb.derivative(order, None, *args), W2), ('keywords', nrb.derivative(order, s, **kw), W1),
                   ('list', nrb.derivative(order, F.tolist(), **kw), W2)]
            f = {1: nrb.gradient, 2: nrb.hessian}.get(order)
            if f:
                got += [('short, positional', f(s, *args), W1), ('short, keywords', f(**kw), W2), ('short, array', f(F, *args), W2)]
            for what, g, x in got:
                ctx.ev()
                ctx.check(np.shape(g) == x.shape, 'shape of the order-%d derivative (%s)' % (order, what), got=np.shape(g), want=x.shape, forms=names)
                if not ref.close(g, x, TOL, top):
                    ctx.fail('order-%d derivative (%s)' % (order, what), err=ref.err(g, x), forms=names)
        ctx.distinct(('forms', degs, knots, names))


def run(case, ctx):
    if case.get('kind') == 'forms':
        return written(case, ctx)
    if case.get('kind') == 'large':
        return large.p02(case, ctx, pack)
    degs, knots, wk = case['degs'], case['knots'], case['wk']
    dim = len(degs)
    nf = 2
    nrb = lib.build(degs, knots, wk, nf)
    bare = lib.build(degs, knots, wk, 0)
    npt = {1: 3, 2: 2, 3: 1}[dim]
    full = [ref.per_span_points(p, U, npt) for p, U in zip(degs, knots)]
    w = lib.hom(nrb)[..., 3]
    X = lib.hom(nrb)[..., :3] / w[..., None]
    F = lib.hom(nrb)[..., 4:] / w[..., None]
    s = sp.gen(nrb.shape, 29)
    allF = np.concatenate([F, X, s[..., None]], axis=-1)
    D = ref.rational_ders(degs, knots, w, allF, full, 4)
    # derivatives are compared in units of the domain, so that its size does not matter
    L = np.array([b - a for a, b in (ref.domain(p, U) for p, U in zip(degs, knots))])
    D = {a: D[a] * np.prod(L ** np.array(a)) for a in D}
    # magnitude of the terms combined by the quotient rule (conditioning)
    for order in (1, 2, 3, 4):
        base = tuple(len(x) for x in full) + (allF.shape[-1],)
        want = pack(D, dim, order, base)
        scale = max(1.0, np.abs(want).max())
        for o in range(order):
            scale = max(scale, max(np.abs(D[a]).max() for a in D if sum(a) == o))
        if np.abs(want).max() > 1e-9:
            ctx.distinct([degs, knots, wk, order])
        unit = np.ones((dim,) * order)
        for j in range(order):
            unit = unit * L.reshape((dim,) + (1,) * (order - 1 - j))
        bad = None
        if dim == 1 and order == 4:
            bad, size = (x * L[0] ** 4 for x in bad4(degs, knots, w, allF, full))
        ax = dim
        def cmp(what, got, sel):
            ctx.ev()
            got = np.asarray(got) * unit
            want_ = want[(slice(None),) * dim + (sel,)]
            if ref.close(got, want_, TOL, scale):
                return
            if bad is not None:
                b = bad[(slice(None),) * dim + (sel,)]
                if ref.close(got, b, TOL, max(scale, size)):
                    ctx.known('curve-order4', 'fourth derivative of a curve is the third basis derivative')
                    return
            ctx.fail('order-%d derivative (%s)' % (order, what), err=ref.err(got, want_), scale=scale)
        kw = dict(zip('uvw', full))
        fsel, xsel, ssel = slice(0, nf), slice(nf, nf + 3), nf + 3
        cmp('own fields', nrb.derivative(order, **kw), fsel)
        cmp('geometry', bare.derivative(order, **kw), xsel)
        cmp('scalar field', bare.derivative(order, s, **kw), ssel)
        cmp('vector field', bare.derivative(order, F, **kw), fsel)
        cmp('vector field of one component', bare.derivative(order, F[..., :1], **kw), slice(0, 1))
        if order == 1:
            cmp('gradient', nrb.gradient(**kw), fsel)
            cmp('gradient, scalar field', bare.gradient(s, **kw), ssel)
            cmp('gradient, geometry', bare.gradient(**kw), xsel)
            cmp('gradient, vector field', nrb.gradient(F, **kw), fsel)
            cmp('gradient, one component', nrb.gradient(F[..., 1:], **kw), slice(1, 2))
        if order == 2:
            cmp('hessian', nrb.hessian(**kw), fsel)
            cmp('hessian, scalar field', bare.hessian(s, **kw), ssel)
            cmp('hessian, geometry', bare.hessian(**kw), xsel)
            cmp('hessian, vector field', nrb.hessian(F, **kw), fsel)
            cmp('hessian, one component', nrb.hessian(F[..., 1:], **kw), slice(1, 2))
        # scalar parameters
        js = [len(x) // 2 for x in full]
        args = {k: x[j] for k, x, j in zip('uvw', full, js)}
        got = np.asarray(bare.derivative(order, F, **args)) * unit
        w0 = want[tuple(js)][fsel]
        ctx.ev()
        if not ref.close(got, w0, TOL, scale):
            if not (bad is not None and ref.close(got, bad[tuple(js)][fsel], TOL, max(scale, size))):
                ctx.fail('order-%d derivative at scalar parameters' % order, err=ref.err(got, w0))
            ctx.known('curve-order4', 'fourth derivative of a curve is the third basis derivative')
    ctx.sample(dict(case=case))


def bad4(degs, knots, w, F, params):
    """The recorded defect: fourth basis derivative replaced by the third (curves only)."""
    H = np.concatenate([w[..., None], w[..., None] * F], axis=-1)
    hom = {(a,): ref.tensor(degs, knots, H, params, (min(a, 3),)) for a in range(5)}
    from math import comb
    W0 = hom[(0,)][..., :1]
    out = {}
    size = 0.0                      # of the terms that are added
    for a in range(5):
        acc = hom[(a,)][..., 1:].copy()
        size = np.abs(acc).max() if a == 4 else size
        for b in range(1, a + 1):
            t = comb(a, b) * hom[(b,)][..., :1] * out[a - b]
            size = max(size, np.abs(t).max()) if a == 4 else size
            acc -= t
        out[a] = acc / W0
    return out[4].reshape(out[4].shape + (1, 1, 1, 1)), size / np.abs(W0).min()
