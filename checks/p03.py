"""Mapped first derivatives are physical gradients; mapped higher ones never kill the process or lie."""
import itertools
import numpy as np
from mc import ref, spaces as sp, lib, large, forms
from checks.p01 import alpha, twins

ID = 'P03'
LEVEL = 'exploration'
RULE = ('every (degree, knots, weight class, map distortion, field form) in the bounds where the geometric map is '
        'regular at every sampled point; the mapped gradient must solve g.J = parametric gradient with J from the '
        'reference definition; non-trivial: J is not diagonal or not constant')
BOUNDS = {'quick': 'curves degree<=4, <=2 breaks; surfaces 12x12, volumes 5^3 alphabets; 2 weight classes; 3 maps; large objects, every form of the arguments',
          'thorough': 'curves degree<=6; surfaces 26x26, volumes 12^3 alphabets; 2 weight classes; 3 maps; large objects, every form of the arguments'}
ASSUMPTIONS = ['the physical space has the parametric dimension; maps whose |det J| falls below 1e-3 of its maximum '
               'at a sampled point are skipped and counted']


def cases(tier):
    if tier == 'quick':
        cs = sp.knot_vectors(4, 2, ('third',), ('c', 'u'), maxm=2)
        k2, k3 = 12, 5
    else:
        cs = sp.knot_vectors(6, 2, ('third', 'off'), ('c', 'u', 'l', 'r'), maxm=3)
        k2, k3 = 26, 12
    maps = (0, 1, 2)
    k = 0
    for p, U in itertools.chain(cs, sp.knot_vectors(3, 1, ('tiny', 'huge', 'small', 'large'), ('c', 'u'))):
        k += 1
        for mp in ODD:
            yield dict(degs=[p], knots=[list(U)], wk=k % 5, map=mp)
        for wk in (0, 1):
            for mp in maps:
                yield dict(degs=[p], knots=[list(U)], wk=wk, map=mp)
    for (p, U), (q, V) in itertools.product(alpha(k2), repeat=2):
        k += 1
        for mp in ODD:
            yield dict(degs=[p, q], knots=[list(U), list(V)], wk=k % 5, map=mp)
        for wk in (0, 1):
            for mp in maps:
                yield dict(degs=[p, q], knots=[list(U), list(V)], wk=wk, map=mp)
    for t in itertools.chain(itertools.product(alpha(k3), repeat=3), twins()):
        k += 1
        for mp in ODD[k % 2::2]:
            yield dict(degs=[p for p, U in t], knots=[list(U) for p, U in t], wk=k % 5, map=mp)
        for wk in (0, 1):
            for mp in maps:
                yield dict(degs=[p for p, U in t], knots=[list(U) for p, U in t], wk=wk, map=mp)


    for c in large.cases():
        degs, knots = large.spec(c['obj'])
        yield dict(degs=degs, knots=knots, wk=1, map=1, at='large')
    for c in large.batches():
        yield dict(degs=c['degs'], knots=c['knots'], wk=1, map=2, at=c['batch'])
    # every form of the arguments
    A, k = alpha(10), 1 if tier == 'thorough' else 3
    for t in itertools.chain(((x,) for x in A), itertools.product(A[::k], A[1::2 * k]), itertools.product(A[:4:k], repeat=3)):
        yield dict(degs=[p for p, U in t], knots=[list(U) for p, U in t], wk=1, map=2, forms=True)


# maps that a test for singular or trivial ones may single out: per-axis sizes, turned and mirrored axes
ODD = (3, 4, 5, 6, 7, 8, 9)
SIZES = {3: (1e-6, 1.0, 1e5), 4: (1e-8, 1e-8, 1e-8), 5: (1e7, 1e7, 1e7), 6: (-1.0, 1.0, 1.0), 7: (1.0, -1.0, 1.0), 8: (-1e3, 1e-3, -1e-3),
         9: (1e-12, 1e-13, 1e-11)}


def sizes(mp):
    return np.array(SIZES.get(mp, (1.0, 1.0, 1.0)))


def make(case):
    degs, knots, wk, mp = case['degs'], case['knots'], case['wk'], case['map']
    dim = len(degs)
    G = [np.array([sum(U[i + 1:i + p + 1]) / p for i in range(len(U) - p - 1)]) for p, U in zip(degs, knots)]
    P = np.zeros(tuple(len(g) for g in G) + (3,))
    for i, m in enumerate(np.meshgrid(*G, indexing='ij')):
        P[..., i] = m / (G[i][-1] - G[i][0])
    if mp == 1:      # rotated, scaled differently per axis
        A = np.array([[0.8, -0.5, 0.1], [0.7, 1.1, -0.3], [0.2, 0.4, 1.5]])
        P[..., :dim] = P[..., :dim] @ A[:dim, :dim].T
    if mp == 2:      # curved
        h = 0.12 / max(len(g) for g in G)
        P[..., :dim] += h * sp.gen(P.shape[:-1] + (dim,), 3)
    if mp > 2:       # curved; the axes in another order, mirrored, each of its size
        h = 0.1 / max(len(g) for g in G)
        P[..., :dim] += h * sp.gen(P.shape[:-1] + (dim,), 3)
        if mp % 2:
            P[..., :dim] = P[..., :dim][..., ::-1].copy()
        P = P * sizes(mp)
    w = sp.weights(P.shape[:-1], min(wk, 1))
    if wk:
        w = 0.85 + 0.15 * w
    if wk > 1:
        w = {2: w * 1e-8, 3: w * 1e8, 4: 1 + 4e-6 * sp.gen(w.shape, 5)}[wk]
    C = np.concatenate([P * w[..., None], w[..., None]], -1)
    s = sp.gen(P.shape[:-1], 8)
    V = sp.gen(P.shape[:-1] + (2,), 9)
    nrb = lib.N()([np.array(U) for U in knots], C, V)
    return nrb, P, w, s, V


def written(case, ctx):
    """Every form of the arguments."""
    degs, knots = case['degs'], case['knots']
    dim = len(degs)
    nrb, P, w, s, V = make(case)
    allF = np.concatenate([P[..., :dim], V, s[..., None]], -1)
    e = [tuple(int(i == j) for j in range(dim)) for i in range(dim)]
    for names in forms.combos(dim):
        a = forms.arguments(nrb, names)
        if a is None:
            continue
        args, vals, drop = a
        D = ref.rational_ders(degs, knots, w, allF, vals, 1)
        Gu = np.stack([D[x] for x in e], -1)
        J = Gu[..., :dim, :]
        det = np.linalg.det(J)
        if np.abs(det).min() < 1e-3 * np.abs(det).max():
            ctx.n('skipped_singular')
            continue
        want = np.einsum('...ci,...ij->...cj', Gu[..., dim:, :], np.linalg.inv(J))[drop]
        W2, W1 = want[..., :2, :], want[..., 2, :]
        kw = dict(zip('uvw', args))
        for what, g, x in (('keywords', nrb.gradient(mapped=True, **kw), W2), ('positional', nrb.gradient(s, *args, mapped=True), W1),
                           ('list', nrb.derivative(1, V.tolist(), mapped=True, **kw), W2)):
            ctx.ev()
            ctx.check(np.shape(g) == x.shape, 'shape of the mapped gradient (%s)' % what, got=np.shape(g), want=x.shape, forms=names)
            if not ref.close(g, x, 1e-8, max(1, np.abs(want).max())):
                ctx.fail('mapped gradient (%s) is not the physical gradient' % what, err=ref.err(g, x), forms=names)
        ctx.distinct(('forms', degs, knots, names))


def run(case, ctx):
    if 'forms' in case:
        return written(case, ctx)
    degs, knots = case['degs'], case['knots']
    dim = len(degs)
    nrb, P, w, s, V = make(case)
    npt = {1: 3, 2: 2, 3: 2}[dim]
    full = [ref.per_span_points(p, U, npt, ends=(dim < 3)) for p, U in zip(degs, knots)]
    if 'at' in case:
        full = large.grid(degs, knots) if case['at'] == 'large' else large.spread(degs, knots, case['at'])
    allF = np.concatenate([P[..., :dim], V, s[..., None]], -1)
    D = ref.rational_ders(degs, knots, w, allF, full, 2)
    e = [tuple(int(i == j) for j in range(dim)) for i in range(dim)]
    Gu = np.stack([D[a] for a in e], -1)          # [..., comp, u_i]
    J = Gu[..., :dim, :]
    det = np.linalg.det(J)
    if np.abs(det).min() < 1e-3 * np.abs(det).max():
        ctx.n('skipped_singular')
        return
    if case['map'] or case['wk']:
        ctx.distinct(case)
    want = np.einsum('...ci,...ij->...cj', Gu[..., dim:, :], np.linalg.inv(J))
    # gradients are compared in units of the object
    L = np.array([np.ptp(P[..., i]) for i in range(dim)])
    unit = L
    scale = max(1.0, np.abs(want * unit).max())
    kw = dict(zip('uvw', full))

    def cmp(what, got, sel):
        ctx.ev()
        w_ = want[(slice(None),) * dim + (sel,)]
        if not ref.close(np.asarray(got) * unit, w_ * unit, 1e-8, scale):
            ctx.fail('mapped gradient (%s) is not the physical gradient' % what, err=ref.err(got, w_), scale=scale)
    cmp('own fields', nrb.gradient(mapped=True, **kw), slice(0, 2))
    cmp('vector field', nrb.gradient(V, mapped=True, **kw), slice(0, 2))
    cmp('scalar field', nrb.gradient(s, mapped=True, **kw), 2)
    cmp('derivative(1)', nrb.derivative(1, s, mapped=True, **kw), 2)
    # of the map itself: the identity
    I = nrb.gradient(np.ascontiguousarray(P[..., :dim]), mapped=True, **kw)
    ctx.ev()
    if not ref.close(I * unit / L[:, None], np.broadcast_to(np.eye(dim), I.shape), 1e-8, scale):
        ctx.fail('mapped gradient of the geometry is not the identity')
    js = [len(x) // 2 for x in full]
    g = nrb.gradient(V, mapped=True, **{k: x[j] for k, x, j in zip('uvw', full, js)})
    ctx.ev()
    if not ref.close(g * unit, want[tuple(js)][0:2] * unit, 1e-8, scale):
        ctx.fail('mapped gradient at scalar parameters')
    # higher orders: either refused by an exception or right (never a dead interpreter)
    small = {k: x[:2] for k, x in kw.items()}
    sub = (slice(0, 2),) * dim
    Ji = np.linalg.inv(J)
    for nm, A, cs in (('scalar', s, [2]), ('own fields', None, [0, 1]), ('vector', V, [0, 1]), ('sequence', V.tolist(), [0, 1]), ('column', s[..., None], [2])):
        for f in (lambda: nrb.hessian(A, mapped=True, **small), lambda: nrb.derivative(2, A, mapped=True, **small)):
            ctx.ev()
            try:
                H = f()
            except Exception:
                continue
            Hu = np.zeros(D[e[0]].shape + (dim, dim))
            for i, j in itertools.product(range(dim), repeat=2):
                Hu[..., i, j] = D[tuple(x + y for x, y in zip(e[i], e[j]))]
            for k, c in enumerate(cs):
                R = Hu[..., dim + c, :, :] - np.einsum('...k,...kij->...ij', want[..., c, :], Hu[..., :dim, :, :])
                R = np.einsum('...ki,...kl,...lj->...ij', Ji, R, Ji)
                got = np.asarray(H) if nm == 'scalar' else np.asarray(H)[..., k, :, :]
                if not ref.close(got, R[sub], 1e-7, max(1, np.abs(R).max())):
                    ctx.fail('mapped second derivative is wrong and was not refused', fields=nm)
        for o in (3, 4):
            ctx.ev()
            try:
                R = nrb.derivative(o, A, mapped=True, **small)
            except Exception:
                continue
            plain = nrb.derivative(o, A, **small)
            if case['map'] and ref.close(R, plain, 1e-9) and np.abs(plain).max() > 1e-6:
                ctx.fail('mapped derivative of order %d silently ignores the map' % o, fields=nm)
    ctx.sample(dict(case=case, det_range=[float(det.min()), float(det.max())]))
