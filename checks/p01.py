"""Evaluation equals the rational B-spline definition."""
import itertools
import numpy as np
from mc import ref, spaces as sp, lib, large, forms

ID = 'P01'
NETS = (3, lib.NETS)
LEVEL = 'exploration'
RULE = ('every combination of degree, interior break count, multiplicity pattern (up to discontinuity), end '
        'condition, break spacing and weight class within the bounds, evaluated through every public evaluation '
        'entry point at all breaks, their floating-point neighbours and interior points of every span; '
        'non-trivial: at least one weight or interior knot makes the object more than one polynomial piece or '
        'rational')
BOUNDS = {'quick': 'curves: degree<=5, <=2 interior breaks; surfaces/volumes: all ordered pairs/triples of a '
                   '14/6-vector alphabet; 3 weight classes; special control nets in turn, large objects, every form of the arguments',
          'thorough': 'curves: degree<=7, <=3 interior breaks (degree<=4), 8 spacings; surfaces/volumes: 40/14 vectors; special control nets in turn, large objects, every form of the arguments'}
TOL = 1e-10


def alpha(k):
    """Small, diverse set of (p,U)."""
    base = [
        (1, sp.clamped(1, ())), (2, sp.clamped(2, (1,), 'nonuni')), (3, sp.open_ends(sp.clamped(3, (2,)), 3, 1, 1)),
        (1, sp.clamped(1, (1, 1), 'off')), (2, sp.open_ends(sp.clamped(2, ()), 2, 1, 2)), (4, sp.clamped(4, (), 'neg')),
        (2, sp.clamped(2, (2,), 'third')), (3, sp.clamped(3, (3, 1), 'unit')), (5, sp.clamped(5, ())),
        (1, sp.open_ends(sp.clamped(1, (1,)), 1, 1, 1)), (2, sp.open_ends(sp.clamped(2, (1, 2), 'neg'), 2, 3, 1)),
        (3, sp.open_ends(sp.clamped(3, (), 'large'), 3, 2, 4)), (4, sp.clamped(4, (4,), 'small')),
        (3, sp.clamped(3, (1, 1, 1), 'off')),
    ]
    if k <= len(base):
        return base[:k]
    more = [(p, list(U)) for p, U in sp.knot_vectors(3, 1, ('third',), ('c', 'u'))]
    return base + more[:k - len(base)]


# discontinuities, empty first and last spans, points without support
IMPROPER = [(p, [0.75 * x - 0.5 for x in w]) for p, w in [
    (1, [0, 0, 1, 1, 2, 2]), (2, [0, 0, 0, 1, 1, 1, 2, 2, 2]), (3, [0, 0, 0, 0, 1, 1, 1, 1, 2, 3, 3, 3, 3]),
    (2, [0, 0, 0, 0, 1, 2, 2, 2, 2]), (1, [0, 0, 0, 1, 1, 2, 2, 2, 2]), (1, [0, 0, 1, 1, 1, 2, 2]),
    (2, [0, 1, 1, 1, 1, 3, 4, 4]), (3, [-1, 0, 0, 0, 0, 1, 1, 2, 2, 2, 2, 2, 3]), (2, [0, 0, 0, 1, 1, 1, 1, 2, 2, 3, 3, 3]),
    (1, [-1, 0, 1, 1, 2, 3])]]


def table():
    """The alphabet of objects: 40 knot vectors, then the improper ones."""
    return alpha(40) + IMPROPER + SIBLINGS


IMP = range(40, 50)


def bent(p, U):
    a, b = ref.domain(p, U)
    return p, [a + (b - a) * (0.3 * t + 0.7 * t * t) if 0 < t < 1 else x for x in U for t in [(x - a) / (b - a)]]


# the domain, degree and multiplicities of another vector; only the values inside differ
SIBLINGS = [bent(*alpha(40)[i]) for i in (1, 3, 7, 10)]


def curve_space(tier):
    if tier == 'quick':
        yield from sp.knot_vectors(5, 1, ('int', 'off'), ('c', 'u', 'l', 'r'))
        yield from sp.knot_vectors(3, 2, ('third',), ('c', 'u'))
        yield from sp.knot_vectors(2, 3, ('neg', 'small', 'large', 'tiny', 'huge'), ('c', 'u'))
    else:
        yield from sp.knot_vectors(7, 1, tuple(sp.EMBED), ('c', 'u', 'l', 'r'))
        yield from sp.knot_vectors(4, 3, ('nonuni', 'off'), ('c', 'u', 'l', 'r'))
        yield from sp.knot_vectors(2, 4, ('third', 'large'), ('c', 'u'))
    yield from sp.all_words(tier)


# directions of the same shape with different knots (and degrees): nothing but the knots tells them apart
TWINS = [(1, 23), (23, 1), (0, 14), (11, 3), (3, 1), (1, 23, 24), (23, 1, 1), (1, 1, 23), (1, 23, 1), (11, 3, 1), (1, 11, 3), (0, 14, 15), (4, 18, 4), (4, 4, 0),
         (1, 50), (51, 3), (1, 50, 1), (50, 1, 1), (3, 3, 51), (7, 52), (53, 10)]


def twins():
    return [tuple(table()[i] for i in t) for t in TWINS]


def cases(tier):
    for p, U in curve_space(tier):
        for wk in (0, 1, 2):
            yield dict(degs=[p], knots=[list(U)], wk=wk)
    # interior knots of full multiplicity p+1 (broken curves)
    for p in range(1, 4 if tier == 'quick' else 6):
        for ms in itertools.product(range(1, p + 2), repeat=2):
            if max(ms) == p + 1:
                yield dict(degs=[p], knots=[sp.clamped(p, ms, 'off')], wk=1)
    k2, k3 = (14, 6) if tier == 'quick' else (40, 14)
    for (p, U), (q, V) in itertools.product(alpha(k2), repeat=2):
        for wk in (0, 1, 2):
            yield dict(degs=[p, q], knots=[list(U), list(V)], wk=wk)
    for t in itertools.chain(itertools.product(alpha(k3), repeat=3), twins()):
        for wk in (0, 1):
            yield dict(degs=[p for p, U in t], knots=[list(U) for p, U in t], wk=wk)
    # every form of the arguments
    A, k = alpha(14), 1 if tier == 'thorough' else 2
    for t in itertools.chain(((x,) for x in A), itertools.product(A[::k], A[::2 * k]), itertools.product(A[:6:2 * k], repeat=3)):
        yield dict(forms=True, batch=[], degs=[p for p, U in t], knots=[list(U) for p, U in t])
    # objects with many spans, or of high degree
    for c in large.cases():
        degs, knots = large.spec(c['obj'])
        yield dict(degs=degs, knots=knots, wk=1, at='large')
    for e in ('tiny', 'huge', 'small'):
        yield dict(batch=[300], degs=[3], knots=[sp.clamped(3, (1, 2, 1), e)])
        yield dict(batch=[130, 3], degs=[2, 1], knots=[sp.clamped(2, (1,), e), sp.clamped(1, (1,), 'tiny')])
        yield dict(batch=[1, 140, 2], degs=[1, 2, 1], knots=[sp.clamped(1, ()), sp.clamped(2, (2,), e), sp.clamped(1, (), 'off')])
    # large batches of parameters, around every power of two
    for n in ((255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 1500, 4097) if tier == 'quick' else range(2, 1100)):
        yield dict(batch=[n], degs=[2], knots=[sp.clamped(2, (1, 2), 'off')])
    for n in (16385, 33000, 70000):
        yield dict(batch=[n], degs=[2], knots=[sp.clamped(2, (1, 2), 'off')])
    # many fields at once
    for nf in (1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 65, 130):
        for d in (1, 2, 3):
            yield dict(batch=[9, 7, 5][:d], nf=nf, degs=[2, 1, 1][:d],
                       knots=[sp.clamped(2, (1,), 'off'), sp.clamped(1, (1,)), sp.clamped(1, ())][:d])
    for n in ((33, 17), (1, 700), (700, 1), (40, 40), (129, 8), (130, 130), (257, 9), (300, 230)):
        yield dict(batch=list(n), degs=[2, 1], knots=[sp.clamped(2, (1,), 'off'), sp.clamped(1, (1,))])
    for n in ((1, 1, 600), (1, 600, 1), (600, 1, 1), (11, 12, 13), (65, 2, 33), (31, 33, 35), (40, 41, 42), (130, 5, 131)):
        yield dict(batch=list(n), degs=[2, 1, 1], knots=[sp.clamped(2, (1,), 'off'), sp.clamped(1, (1,)), sp.clamped(1, ())])


def written(case, ctx):
    """Every form of the arguments."""
    degs, knots = case['degs'], case['knots']
    dim = len(degs)
    nrb = lib.build(degs, knots, 1, 2)
    H = lib.hom(nrb)
    X, Y = sp.gen(nrb.shape, 41), sp.gen(nrb.shape + (3,), 43)
    w = H[..., 3:4]
    G = np.concatenate([H, w * X[..., None], w * Y], -1)
    for names in forms.combos(dim):
        a = forms.arguments(nrb, names)
        if a is None:
            continue
        args, vals, drop = a
        W = ref.tensor(degs, knots, G, vals)
        W = (W / W[..., 3:4])[drop]
        P, F, x, y = W[..., :3], W[..., 4:6], W[..., 6:7], W[..., 7:10]
        kw = dict(zip('uvw', args))
        got = [('points', nrb(*args), P), ('keywords', nrb(**kw), P)]
        for nm, f, want in ((True, True, F), ('scalar', X, x), ('vector', Y, y), ('list', Y.tolist(), y)):
            C, V = nrb(*args, fields=f)
            got += [('points with fields %s' % nm, C, P), ('fields %s' % nm, V, want)]
        got += [('evaluate', nrb.evaluate(None, *args), F), ('evaluate scalar', nrb.evaluate(X, **kw), x[..., 0]),
                ('evaluate vector', nrb.evaluate(Y, *args), y), ('evaluate column', nrb.evaluate(Y[..., :1], **kw), y[..., :1])]
        for what, g, want in got:
            ctx.ev()
            ctx.check(np.shape(g) == want.shape, 'shape of the result (%s)' % what, got=np.shape(g), want=want.shape, forms=names)
            if not ref.close(g, want, TOL):
                ctx.fail('evaluation (%s) differs from the definition' % what, err=ref.err(g, want), forms=names)
        ctx.distinct(('forms', degs, knots, names))


def batch(case, ctx):
    degs, knots, ns = case['degs'], case['knots'], case['batch']
    nf = case.get('nf', 2)
    nrb = lib.build(degs, knots, 1, nf)
    full = []
    for p, U, n in zip(degs, knots, ns):
        a, b = ref.domain(p, U)
        full.append(a + (b - a) * ((np.arange(n) * 7919) % n + 0.25) / n)
    P, F = ref.evaluate(degs, knots, lib.hom(nrb), full)
    C, G = nrb(*full, fields=True)
    ctx.ev()
    ctx.distinct(('batch', ns, nf))
    if not ref.close(C, P, TOL) or not ref.close(G, F, TOL):
        ctx.fail('evaluation of a large batch differs from the definition', sizes=ns)
    if not ref.close(nrb(*full), P, TOL):
        ctx.fail('evaluation of a large batch differs from the definition', sizes=ns)
    if nf != 2:
        X = sp.gen(nrb.shape + (nf,), 47)
        H = lib.hom(nrb)
        W = ref.tensor(degs, knots, np.concatenate([H[..., 3:4], H[..., 3:4] * X], -1), full)
        want = W[..., 1:] / W[..., :1]
        for g in (nrb(*full, fields=X)[1], nrb.evaluate(X, *full)):
            if not ref.close(g, want, TOL):
                ctx.fail('evaluation of many fields differs from the definition', sizes=ns, fields=nf)
    G = nrb.evaluate(None, **dict(zip('uvw', full)))
    if not ref.close(G, F, TOL):
        ctx.fail('evaluation of a large batch differs from the definition', sizes=ns)


def run(case, ctx):
    if 'forms' in case:
        return written(case, ctx)
    if 'batch' in case:
        return batch(case, ctx)
    degs, knots, wk = case['degs'], case['knots'], case['wk']
    dim = len(degs)
    nrb = lib.build(degs, knots, wk, 2)
    H = lib.hom(nrb)
    full = [sp.params(p, U) for p, U in zip(degs, knots)]
    if dim == 2:
        full = [x[::2] + [x[-1]] for x in full]
    if dim == 3:
        full = [x[::3] + [x[-1]] for x in full]
    if 'at' in case:
        full = [list(x) for x in large.grid(degs, knots)]
    P, F = ref.evaluate(degs, knots, H, full)
    key = [degs, knots, wk]
    if wk or any(len(U) > 2 * p + 2 for p, U in zip(degs, knots)):
        ctx.distinct(key)

    def cmp(what, got, want):
        got = np.asarray(got)
        ctx.ev()
        if not ref.close(got, want, TOL):
            ctx.fail('evaluation (%s) differs from the definition' % what, err=ref.err(got, want), at=full)

    cmp('points', nrb(*full), P)
    C2, F2 = nrb(*full, fields=True)
    cmp('points with fields', C2, P)
    cmp('own fields', F2, F)
    X = sp.gen(nrb.shape, 41)
    Y = sp.gen(nrb.shape + (3,), 43)
    w = H[..., 3:4]
    for fld in (X, Y, Y * 0):
        G = fld[..., None] if fld.ndim == dim else fld
        W = ref.tensor(degs, knots, np.concatenate([w, w * G], -1), full)
        want = W[..., 1:] / W[..., :1]
        C3, F3 = nrb(*full, fields=fld)
        cmp('points with given fields', C3, P)
        cmp('given fields', F3, want)
        kw = dict(zip('uvw', full))
        e = nrb.evaluate(fld, **kw)
        cmp('evaluate(fields)', e, want[..., 0] if fld.ndim == dim else want)
    e = nrb.evaluate(None, **dict(zip('uvw', full)))
    cmp('evaluate()', e, F)
    # scalar arguments drop the axis
    for mask in itertools.product((0, 1), repeat=dim):
        if not any(mask):
            continue
        args, want = [], P
        for ax in range(dim):
            j = (len(full[ax]) * 2) // 3
            args.append(full[ax][j] if mask[ax] else full[ax])
        idx = tuple(((len(full[ax]) * 2) // 3) if mask[ax] else slice(None) for ax in range(dim))
        cmp('scalar arguments', nrb(*args), P[idx])
        C4, F4 = nrb(*args, fields=True)
        cmp('scalar arguments, fields', F4, F[idx])
        cmp('evaluate, scalar arguments', nrb.evaluate(None, **dict(zip('uvw', args))), F[idx])
    # unordered and repeated parameters
    perm = [list(reversed(x)) + [x[0]] for x in full]
    Pp, _ = ref.evaluate(degs, knots, H, perm)
    cmp('reordered parameters', nrb(*perm), Pp)
    # default parameters
    g = [np.asarray(nrb.greville(i)) for i in range(dim)]
    if all(np.all((x >= U[p]) & (x <= U[len(U) - p - 1])) for x, p, U in zip(g, degs, knots)):
        Pg, Fg = ref.evaluate(degs, knots, H, g)
        cmp('default parameters', nrb(), Pg)
        cmp('default parameters, evaluate', nrb.evaluate(), Fg)
    ctx.sample(dict(case=case, points=len(full[0]), first=P.reshape(-1, 3)[0]))
