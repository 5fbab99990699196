"""Joining: the first object, then the second one shifted, over one domain; redundant knots at the junction go."""
import itertools
import numpy as np
from mc import ref, spaces as sp, lib, large, args as argforms
from checks.p01 import alpha, table, IMP, TWINS

ID = 'P18'
NETS = (3, lib.nets(('big',)))    # rounding of large lengths exceeds the deviation of the removal at the junction
LEVEL = 'model_checking'
RULE = ('every pair of curves from the alphabet made to meet, and every object cut at every alphabet value into two or three '
        'pieces whose representation is then changed by every operation of a list (elevate, refine, unclamp, shift or stretch of '
        'the domain, weight factor, other-axis refinement) before joining them again, in every association order; each join '
        'runs on the real code and is compared with the piecewise model of map, domain, knots and continuity')
BOUNDS = {'quick': '18x18 curve pairs x 2 fields; almost smooth junctions (kinks of 1e-2 to 1e-8 in each derivative); cuts of 10 curves, 8 surfaces (2 axes), 3 volumes (3 axes) x 9 changes of each piece; special control nets in turn, large objects, every form of the arguments; objects with discontinuities or points without support',
          'thorough': '40x40 curve pairs; cuts of 30 curves, 36 surfaces, 12 volumes x all pairs of 9 changes; special control nets in turn, large objects, every form of the arguments; objects with discontinuities or points without support'}
ASSUMPTIONS = ['the end of the first object and the start of the second one coincide (up to a constant weight factor)']


def cases(tier):
    yield from large.cases()
    yield from argforms.cases()
    K = 18 if tier == 'quick' else 40
    for i, j in itertools.product(range(K), repeat=2):
        yield dict(kind='pair', a=i, b=j)
    imp = [i for i in IMP if i not in (45, 48)]         # elevation refuses points without support
    for i, j in itertools.product([0, 2, 7] + imp, imp):
        yield dict(kind='pair', a=i, b=j)
        yield dict(kind='pair', a=j, b=i)
    for i in imp:
        yield dict(kind='cut', obj=[i], axis=0)
        yield dict(kind='cut', obj=[0, i], axis=0)
    for i in range(12 if tier == 'quick' else 40):
        yield dict(kind='kink', a=i)
    n = 10 if tier == 'quick' else 30
    for i in range(n):
        yield dict(kind='cut', obj=[i], axis=0)
    m = (0, 1, 4, 7) if tier == 'quick' else (0, 1, 2, 4, 7, 10)
    for a in TWINS:
        for ax in range(len(a)):
            yield dict(kind='cut', obj=list(a), axis=ax)
    for a in itertools.product(m, repeat=2):
        if tier == 'quick' and (a[0] + a[1]) % 2:
            continue
        for ax in range(2):
            yield dict(kind='cut', obj=list(a), axis=ax)
    V = [(1, 0, 4), (4, 1, 0), (0, 7, 1)] + ([] if tier == 'quick' else list(itertools.permutations((0, 1, 10)))[:6] + [(1, 1, 1), (6, 3, 0), (2, 9, 0)])
    for a in V:
        for ax in range(3):
            yield dict(kind='cut', obj=list(a), axis=ax)


def changes(ax, dim, end):
    """Representation changes of a piece; end: the end that is joined (1 for the first piece, 0 for the second)."""
    out = [('none', lambda o: o)]
    out.append(('elevate', lambda o: o.elevate(ax, 1)))
    def ref_(o):
        a, b = ref.domain(o.degree[ax], o.knots[ax])
        return o.refine(ax, [a + 0.31 * (b - a), a + 0.62 * (b - a)])
    out.append(('refine', ref_))
    out.append(('unclamp', lambda o: o.unclamp(ax)))
    out.append(('unclamp0', lambda o: o.unclamp(ax, side=end, continuity=0)))
    def shift(o, s=1.0, d=3.25):
        a, b = ref.domain(o.degree[ax], o.knots[ax])
        return o.remap(ax, a + d, a + d + s * (b - a))
    out.append(('shift', shift))
    out.append(('stretch', lambda o: shift(o, 2.0, -1.5)))
    def wf(o):
        o = o.copy()
        o.array[...] *= 1.75
        return o
    out.append(('weights', wf))
    def wn(o):
        o = o.copy()
        o.array[...] *= 1 + 1e-5
        return o
    out.append(('almost equal weights', wn))
    def wm(o):
        o = o.copy()
        o.array[...] *= 1 - 6e-8
        return o
    out.append(('nearly equal weights', wm))
    out.append(('shift a little', lambda o: shift(o, 1.0, 1e-7)))
    out.append(('shift back a little', lambda o: shift(o, 1.0, -2e-10)))
    def other(o):
        for k in range(dim):
            if k != ax:
                o.elevate(k, 1)
                a, b = ref.domain(o.degree[k], o.knots[k])
                o.insert(k, a + 0.43 * (b - a))
        return o
    if dim > 1:
        out.append(('other axes', other))
    else:
        out.append(('shift to zero', lambda o: shift(o, 1.0, -ref.domain(o.degree[0], o.knots[0])[0])))
    return out


def check_join(ctx, J, a, b, ax, what, removable=None):
    dim = a.dim
    lib.wellformed(J, ctx, what)
    p = max(a.degree[ax], b.degree[ax])
    ctx.check(J.degree[ax] == p, what + ': degree', got=J.degree)
    da, db = ref.domain(a.degree[ax], a.knots[ax]), ref.domain(b.degree[ax], b.knots[ax])
    D = ref.domain(p, J.knots[ax])
    u = da[1]
    sc = max(1.0, abs(D[0]), abs(D[1]))
    ctx.check(D[0] == da[0] and abs(D[1] - (u + (db[1] - db[0]))) <= 1e-13 * sc, what + ': domain', got=D, first=da, second=db)
    # interior knots
    want = []
    q = a.degree[ax]
    ia = [x for x in a.knots[ax] if da[0] < x < da[1]]
    want += sorted(ia + list(set(ia)) * (p - q))
    U = [float(x) for x in J.knots[ax]]
    left = [x for x in U if D[0] < x < u]
    lib.same_knots(ctx, what + ' (first)', left, want, 1e-13 * sc, knots_axis=ax)
    q = b.degree[ax]
    ib = [x for x in b.knots[ax] if db[0] < x < db[1]]
    ib = sorted(ib + list(set(ib)) * (p - q))
    right = [x for x in U if u < x < D[1]]
    lib.same_knots(ctx, what + ' (second)', right, [u + (x - db[0]) for x in ib], 1e-13 * sc, knots_axis=ax)
    mid = sum(1 for x in U if x == u)
    ctx.check(0 <= mid <= p, what + ': junction multiplicity', got=mid)
    ctx.check(mid >= 1 or p > 0, what + ': junction')
    if removable is not None:
        ctx.check(mid == removable, what + ': redundant knots at the junction', got=mid, want=removable)
    # map on both sides
    for o, d, lo in ((a, da, True), (b, db, False)):
        pars, po = [], []
        for k in range(dim):
            if k == ax:
                x = np.unique(np.concatenate([ref.per_span_points(o.degree[k], o.knots[k], o.degree[k] + 1 if dim == 1 else 3)]))
                y = x if lo else u + (x - d[0])
                po.append(x)
                pars.append(np.clip(y, D[0], D[1]))
            else:
                x = ref.per_span_points(J.degree[k], J.knots[k], 3 if dim < 3 else 2)
                dk, Dk = ref.domain(o.degree[k], o.knots[k]), ref.domain(J.degree[k], J.knots[k])
                po.append(np.clip(dk[0] + (x - Dk[0]) * ((dk[1] - dk[0]) / (Dk[1] - Dk[0])), *dk))
                pars.append(x)
        w = lib.cart(lib.geom_at(o, po))
        g = lib.eval_own(J, pars)
        s = max(1.0, np.abs(w).max())
        if not ref.close(g, w, 1e-8, s):
            ctx.fail('%s: the %s object is not reproduced' % (what, 'first' if lo else 'second'), err=ref.err(g, w))
    ctx.trace()


def meet(a, b, nf):
    """Make the start of b meet the end of a (curves), with another weight scale."""
    e = a.boundary(0, 1).array if a.dim == 1 else None
    b = b.copy().clamp(0, 0)
    b.array[0, :] = np.ravel(lib.geom_at(a, [np.array([ref.domain(a.degree[0], a.knots[0])[1]])])) * 1.0
    b.array[...] *= 1.0
    return b


def run(case, ctx):
    from igakit import cad
    if case.get('kind') == 'args':
        return argforms.run(ID, case, ctx)
    if case.get('kind') == 'large':
        return large.p18(case, ctx, cad)
    if case['kind'] == 'pair':
        (p, U), (q, V) = table()[case['a']], table()[case['b']]
        for nf in (0, 2):
            a = lib.build([p], [U], 1, nf, 0)
            b = meet(a, lib.build([q], [V], 1, nf, 9), nf)
            for f in (1.0, 0.4):
                c = b.copy()
                c.array[...] *= f
                sa, sc = lib.snap(a), lib.snap(c)
                J = cad.join(a, c, 0)
                ctx.trans()
                ctx.check(lib.snap(a) == sa and lib.snap(c) == sc, 'operands changed')
                check_join(ctx, J, a, c, 0, 'join')
                ctx.state(repr((case['a'], case['b'], nf, f)))
        ctx.check(lib.raises(cad.join, a, b, 1), 'bad axis accepted')
        return
    if case['kind'] == 'kink':
        # the second object almost continues the first one
        p, U = alpha(40)[case['a']]
        for t in range(3):
            o = lib.build([p + t], [sp.clamped(p + t, ())], 1, 1, 5)
            o.remap(0, *ref.domain(p, U))
            lo, hi = ref.domain(p, U)
            v = 0.5 * (lo + hi)
            for e in range(2, 9):
                for r in range(1, p + t + 1):       # in the derivative of this order
                    a, b = o.slice(0, None, v), o.slice(0, v, None)
                    b.array[r, :3] += 10.0 ** -e * np.array([1, -2, 0.5]) * b.array[r, 3]
                    J = cad.join(a, b, 0)
                    ctx.trans()
                    check_join(ctx, J, a, b, 0, 'join with a kink of 1e-%d in derivative %d' % (e, r))
                    ctx.state(repr((case, t, e, r)))
        return
    ax = case['axis']
    al = [table()[i] for i in case['obj']]
    dim = len(al)
    o = lib.build([p for p, U in al], [U for p, U in al], 1, 1, 3)
    p = o.degree[ax]
    d = ref.domain(p, o.knots[ax])
    bs = ref.breaks(p, o.knots[ax])
    vals = [bs[0] + (bs[1] - bs[0]) * 0.5, bs[-2] + (bs[-1] - bs[-2]) * 0.75] + bs[1:-1]
    vals = [v for v in vals if ref.mult(o.knots[ax], v) <= p]      # not a jump
    if dim == 3:
        vals = vals[:1] + bs[1:2] if len(bs) > 2 else vals[:1]
    ch1 = changes(ax, dim, 1)
    ch2 = changes(ax, dim, 0)
    for v in vals:
        if not d[0] < v < d[1]:
            continue
        m = min(ref.mult(o.knots[ax], v), p)
        for (n1, f1), (n2, f2) in itertools.product(ch1, ch2):
            if dim > 1 and ctx.tier == 'quick' and n1 != 'none' and n2 != 'none' and n1 != n2:
                continue
            a = f1(o.slice(ax, None, v))
            b = f2(o.slice(ax, v, None))
            sa, sb = lib.snap(a), lib.snap(b)
            J = cad.join(a, b, ax)
            ctx.trans()
            ctx.check(lib.snap(a) == sa and lib.snap(b) == sb, 'operands changed')
            rem = None
            if 'stretch' not in (n1, n2) and m < p:
                e = 1 if 'elevate' in (n1, n2) else 0
                # removable down to the multiplicity of the original (plus what elevation adds)
                rem = m + e if m else (e if e else 0)
                rem = max(rem, 0)
                P = p + e
                # join() keeps at least one knot at the junction
                rem = max(rem, 1) if P >= 1 else rem
            check_join(ctx, J, a, b, ax, 'join %s/%s' % (n1, n2), rem if dim == 1 else None)
            ctx.state(repr((case, v, n1, n2)))
    # three pieces, both association orders
    if len(vals) >= 2 and dim < 3:
        x, y = sorted(vals[:2])
        if d[0] < x < y < d[1]:
            A, B, C = o.slice(ax, None, x), o.slice(ax, x, y), o.slice(ax, y, None)
            L = cad.join(cad.join(A, B, ax), C, ax)
            R = cad.join(A, cad.join(B, C, ax), ax)
            ctx.trans(4)
            for J in (L, R):
                x = [ref.per_span_points(q, U, 3) for q, U in zip(o.degree, o.knots)]
                w = lib.cart(lib.geom_at(o, x))
                x[ax] = np.clip(x[ax], *ref.domain(J.degree[ax], J.knots[ax]))
                g = lib.eval_own(J, x)
                if not ref.close(g, w, 1e-8):
                    ctx.fail('joining three slices does not give the original', err=ref.err(g, w))
    ctx.sample(case)
