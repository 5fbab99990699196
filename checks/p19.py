"""Grids are identity maps of the stated spaces; global refinement keeps the map and gives the stated space."""
import itertools
import numpy as np
from mc import ref, spaces as sp, lib, large, args as argforms
from checks.p01 import alpha, IMPROPER

ID = 'P19'
NETS = (3, lib.NETS)
LEVEL = 'model_checking'
RULE = ('grids: all combinations of dimension, spans, degree, continuity (also counted from the degree), limits, wrapping and '
        'calling form; refinement: states are (degrees, break/multiplicity words) reached by one or two global refinements with '
        'every (factor form, degree, continuity) from the initial alphabet; each call runs on the real code, its knots are '
        'compared with the model of breaks and multiplicities and its geometry with the initial object')
BOUNDS = {'quick': 'grid 1-D: spans<=5, degree<=5, all continuities; 2-D/3-D combos; refine: 30 curves, 6x6 surfaces, 4 volumes; depth 2 for curves; special control nets in turn, large objects, every form of the arguments; objects with discontinuities or points without support',
          'thorough': 'grid 1-D: spans<=9, degree<=8; refine: 90 curves, 14x14 surfaces, 27 volumes; depth 2 throughout, 3 for curves; special control nets in turn, large objects, every form of the arguments; objects with discontinuities or points without support'}
TOL = 1e-9
LIMITS = [(0.0, 1.0), (-1.0, 2.0), (3.0, 3.75), (1e3, 1e3 + 1), (0.1, 0.7), (-5e-6, 5e-6), (-1e9, 2e9), (-2e-11, 3e-11), (0.0, 2 + 3e-11)]


def cases(tier):
    yield from large.cases()
    yield from argforms.cases()
    yield from large.grids()
    q = tier == 'quick'
    P, E = (5, 5) if q else (8, 9)
    for p in range(1, P + 1):
        for C in list(range(p)) + list(range(-p, 0)) + [None]:
            for w in (0, 1):
                yield dict(kind='grid1', p=p, C=C, w=w, E=E)
    opts = [(1, 0), (2, -1), (3, 0), (3, -1)] if q else [(1, 0), (2, 1), (2, -1), (3, 0), (3, -1), (4, 2)]
    for dim in (2, 3):
        for t in itertools.product(range(len(opts)), repeat=dim):
            for w in itertools.product((0, 1), repeat=dim):
                yield dict(kind='gridn', opts=[opts[i] for i in t], w=list(w))
    n1 = 30 if q else 90
    for i in range(n1):
        yield dict(kind='refine', objs=[i], depth=2 if q else 3 if i < 20 else 2)
    for i in (-1, -2, -3, -4, -5, -7, -8, -10):
        yield dict(kind='refine', objs=[i], depth=1)
    for t in ([-10, 0], [2, -2], [-2, -10], [-10, 0, -2]):
        yield dict(kind='refine', objs=t, depth=1)
    for i in range(-len(EVEN), 0):
        yield dict(kind='refine', objs=[i - 100], depth=1)
    for ij in itertools.product(range(6 if q else 14), repeat=2):
        yield dict(kind='refine', objs=list(ij), depth=1 if q else 2)
    V = [(0, 1, 2), (2, 0, 3), (3, 4, 0), (4, 2, 1)] if q else list(itertools.product((0, 2, 4), repeat=3))
    for t in V + TWINS2:
        yield dict(kind='refine', objs=list(t), depth=1)


# directions of the same shape, of other degrees
TWINS2 = [(1, 3, 11), (11, 3), (3, 1), (11, 1, 3)]


# breaks that are almost equally spaced
EVEN = [(p, [0.0] * (p + 1) + [x / 4 + e * y for x, y in ((1, 1), (2, -1), (3, 0.5))] + [1.0] * (p + 1)) for p, e in ((1, 1e-4), (2, 1e-6), (3, 1e-8), (2, 1e-10))]


def table():
    out = [(p, list(U)) for p, U in alpha(14)]
    out += [(p, list(U)) for p, U in sp.knot_vectors(4, 2, ('third', 'off'), ('c',))][::2]
    out += [(p, list(U)) for p, U in sp.knot_vectors(3, 1, ('tiny', 'huge', 'neg'), ('u', 'l', 'r'))]
    return out


def grid_knots(E, p, C, a, b, w):
    h = (b - a) / E
    k = p - C
    inner = [a + i * h for i in range(1, E) for _ in range(k)]
    if not w:
        return [a] * (p + 1) + inner + [b] * (p + 1)
    U = [a] * k + inner + [b] * k
    i = 0
    left = []
    while len(left) < C + 1:
        i -= 1
        left += [a + i * h] * k
    right, i = [], E
    while len(right) < C + 1:
        i += 1
        right += [a + i * h] * k
    return left[:C + 1][::-1] + U + right[:C + 1]


def check_grid(ctx, g, shape, deg, cont, limits, wrap, form):
    ctx.ev(), ctx.trans(), ctx.trace()
    lib.wellformed(g, ctx, 'grid')
    ctx.check(tuple(g.degree) == tuple(deg), 'grid: degree', form=form)
    ctx.check(g.fields is None and np.all(g.weights == 1), 'grid: weights')
    x = []
    for ax, (E, p, C, (a, b), w) in enumerate(zip(shape, deg, cont, limits, wrap)):
        V = grid_knots(E, p, C, a, b, w)
        scale = max(abs(a), abs(b), abs(b - a))
        lib.same_knots(ctx, 'grid', g.knots[ax], V, 4e-15 * scale * (2 + p), knots_axis=ax, form=form)
        ctx.check(ref.domain(p, g.knots[ax]) == (a, b), 'grid: domain is not the limits', form=form, axis=ax)
        # multiplicities are exact, not only close
        bs, ms = g.breaks(ax, mults=True)
        ctx.check(len(bs) == E + 1 and (C == p - 1 and w or list(ms[1:-1]) == [p - C] * (E - 1)), 'grid: spans', got=[bs, ms], form=form)
        x.append(ref.per_span_points(p, g.knots[ax], 2 if len(shape) > 1 else 4))
    pts = g(*x)
    M = np.stack(np.meshgrid(*x, indexing='ij'), -1)
    for ax, (a, b) in enumerate(limits):
        e = np.abs(pts[..., ax] - M[..., ax]).max()
        if e > 1e-13 * max(abs(a), abs(b)) * (1 + deg[ax]):
            ctx.fail('grid is not the identity map', axis=ax, err=e, form=form, shape=shape, degree=deg)
    ctx.check(np.all(pts[..., len(limits):] == 0), 'grid: extra coordinates', form=form)
    ctx.state((shape, deg, cont, limits, wrap))


def run(case, ctx):
    if case.get('kind') == 'args':
        return argforms.run(ID, case, ctx)
    if case.get('kind') == 'large':
        return large.p19(case, ctx, check_grid, verify, model, words)
    return dict(grid1=grid1, gridn=gridn, refine=refine)[case['kind']](case, ctx)


def grid1(case, ctx):
    from igakit import cad
    p, C, w = case['p'], case['C'], case['w']
    Cv = p - 1 if C is None else C if C >= 0 else C + p
    for E in range(1, case['E'] + 1):
        for lim in LIMITS:
            forms = [lambda: cad.grid(E, p, C, lim, bool(w)), lambda: cad.grid([E], [p], C, [lim], [bool(w)])]
            if C is None:
                forms.append(lambda: cad.grid((E,), p, limits=np.array(lim), wrap=w))
            else:
                forms.append(lambda: cad.grid(np.array([E]), np.array([p]), np.array([C]), np.array([lim]), np.array([w], bool)))
            for k, f in enumerate(forms):
                check_grid(ctx, f(), (E,), (p,), (Cv,), (lim,), (w,), k)
        if C is None and not w and p == 2:
            check_grid(ctx, cad.grid([E]), (E,), (2,), (1,), ((0.0, 1.0),), (0,), 'default')


def gridn(case, ctx):
    from igakit import cad
    opts, w = [tuple(o) for o in case['opts']], case['w']
    dim = len(opts)
    deg = tuple(p for p, C in opts)
    cont = tuple(C if C >= 0 else C + p for p, C in opts)
    raw = [C for p, C in opts]
    for shape in ((1, 2, 3), (3, 1, 2), (2, 4, 1), (3, 3, 3), (4, 4, 2)):
        shape = shape[:dim]
        for k in range(3):
            lims = tuple(LIMITS[(k + 2 * i) % len(LIMITS)] for i in range(dim))
            check_grid(ctx, cad.grid(shape, deg, raw, lims, w), shape, deg, cont, lims, tuple(w), 'all')
        check_grid(ctx, cad.grid(list(shape), deg, raw, LIMITS[1], w), shape, deg, cont, (LIMITS[1],) * dim, tuple(w), 'common limits')
        if len(set(w)) == 1:
            check_grid(ctx, cad.grid(shape, deg, raw, wrap=bool(w[0])), shape, deg, cont, ((0.0, 1.0),) * dim, tuple(w), 'common wrap')
        if not any(w) and len(set(opts)) == 1:
            check_grid(ctx, cad.grid(shape, deg[0], raw[0]), shape, deg, cont, ((0.0, 1.0),) * dim, tuple(w), 'common values')
            check_grid(ctx, cad.grid(shape, deg[0]), shape, deg, tuple(p - 1 for p in deg), ((0.0, 1.0),) * dim, tuple(w), 'no continuity')


def words(o):
    """(degree, breaks, multiplicities) in the model of one direction; ends always full."""
    out = []
    for p, U in zip(o.degree, o.knots):
        U = list(map(float, U))
        a, b = ref.domain(p, U)
        bs = ref.breaks(p, U)
        out.append((int(p), [float(x) for x in bs], [U.count(x) for x in bs]))
    return out


def model(word, factor, degree, cont):
    p, bs, ms = word
    P = max(p, degree) if degree is not None else p
    ms = [m + P - p for m in ms]
    C = P - 1 if cont is None else cont if cont >= 0 else cont + P
    n = len(bs) - 1
    f = [1] * n if factor is None else [factor] * n if np.ndim(factor) == 0 else list(factor)
    nb, nm = [], []
    for i in range(n):
        nb.append(bs[i])
        nm.append(max(ms[i], P - C) if i else P + 1)
        for j in range(1, f[i]):
            nb.append(bs[i] + j * ((bs[i + 1] - bs[i]) / f[i]))
            nm.append(P - C)
    return P, nb + [bs[-1]], nm + [P + 1]


def verify(ctx, r, want, base, pts, call):
    ctx.trans(), ctx.trace(), ctx.ev()
    lib.wellformed(r, ctx, 'refine')
    for ax, (P, bs, ms) in enumerate(want):
        ctx.check(r.degree[ax] == P, 'refine: degree', got=r.degree, want=P, call=call)
        V = np.repeat(bs, ms)
        scale = max(abs(bs[0]), abs(bs[-1]))
        lib.same_knots(ctx, 'refine', r.knots[ax], V, 1e-14 * scale, knots_axis=ax, call=call)
        got = words(r)[ax]
        ctx.check(got[2] == ms, 'refine: multiplicities', got=got[2], want=ms, call=call)
    lib.same_geometry(ctx, 'refine', lib.geom_at(r, pts), base, TOL, call=call)


def per_axis(x, dim, d):
    return list(x) if isinstance(x, list) and not d else [x] * dim


def calls(o, rich):
    """(label, args, per-axis factor, degree, continuity)."""
    dim = o.dim
    ns = [len(b) - 1 for _, b, _ in words(o)]
    out = []
    def spread(v):
        return v if isinstance(v, list) else [v] * dim
    facs = [None, 1, 2, 3]
    seqs = [[(1 + (i + k) % 3) for i in range(n)] for k, n in enumerate(ns)]
    lists = [[2 + k % 2 for k in range(dim)], [None if k else 2 for k in range(dim)], seqs,
             [np.array(s) for s in seqs], [[(9, 1, 12, 2, 10)[(i + k) % 5] for i in range(n)] for k, n in enumerate(ns)],
             [11 + k for k in range(dim)], [[4 - k] * n for k, n in enumerate(ns)]]
    if dim > 1:
        lists += [[3 if k else seqs[0] for k in range(dim)], [None if k else seqs[0] for k in range(dim)]]
    degs = [None] + sorted({1, max(o.degree), max(o.degree) + 1}) + [[p + k for k, p in enumerate(o.degree)], [None if k else p + 2 for k, p in enumerate(o.degree)]]
    for f in facs + lists:
        for d in degs if rich else degs[::2]:
            D = [max(p, x or 0) for p, x in zip(o.degree, spread(d))]
            conts = [None] + sorted(range(min(D)), reverse=True)[:3] + [-1]
            if min(D) > 1:
                conts += [-2]
            if dim > 1:
                conts += [[p - 1 - (k % 2) * (p > 1) for k, p in enumerate(D)], [None if k else 0 for k in range(dim)]]
            else:
                conts += [[0]]
            for c in conts if rich else conts[:2] + conts[-2:]:
                out.append(((f, d, c), spread(f), spread(d), spread(c)))
    return out


def refine(case, ctx):
    from igakit import cad
    T = table()
    a = [T[i % len(T)] if i >= 0 else EVEN[i + 100] if i < -99 else IMPROPER[-i - 1] for i in case['objs']]
    dim = len(a)
    o = lib.build([p for p, U in a], [U for p, U in a], 1, 1 if dim < 3 else 0)
    pts = [ref.per_span_points(p, U, 3 if dim == 1 else 1) for p, U in a]
    base = lib.geom_at(o, pts)
    snap = lib.snap(o)

    def visit(o, depth, path):
        W = words(o)
        for label, f, d, c in calls(o, rich=not path and dim < 3):
            r = cad.refine(o, *label)
            hist = path + [label]
            want = [model(w, ff, dd, cc) for w, ff, dd, cc in zip(W, f, d, c)]
            verify(ctx, r, want, base, pts, hist)
            if ctx.state((case['objs'], want)) and depth > 1 and max(len(w[1]) for w in want) <= 13 and max(w[0] for w in want) <= 7:
                visit(r, depth - 1, hist)
        # keyword forms and defaults
        if not path:
            verify(ctx, cad.refine(o), [model(w, None, None, None) for w in W], base, pts, 'default')
            verify(ctx, cad.refine(o, continuity=0, factor=2), [model(w, 2, None, 0) for w in W], base, pts, 'keywords')
    visit(o, case['depth'], [])
    ctx.check(lib.snap(o) == snap, 'refine changed its argument')
    ctx.sample(dict(objs=a, depth=case['depth']))
