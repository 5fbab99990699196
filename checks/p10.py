"""Affine transformations act on every point of the object exactly as the stated matrix algebra."""
import itertools
import math
import numpy as np
from mc import ref, spaces as sp, lib, large, huge, args as argforms

ID = 'P10'
NETS = (3, lib.NETS)
LEVEL = 'model_checking'
RULE = ('every sequence of primitive operations (translate/move/scale/rotate/compose/invert in every argument form) up '
        'to the depth, on transformation objects and on curves/surfaces/volumes; each prefix is compared with 4x4 '
        'matrix products computed independently; states are accumulated matrices')
BOUNDS = {'quick': '50 primitives; sequences <=2 on transforms (+ pairs x invert), <=2 on objects; special control nets in turn, large objects, every form of the arguments and nets of up to 70000 points',
          'thorough': '50 primitives; sequences <=3 on transforms, <=2 on four objects of each dimension; special control nets in turn, large objects, every form of the arguments and nets of up to 70000 points'}

PI = math.pi


def prims():
    out = []
    for k in ('translate', 'move'):
        out += [(k, ([0.5, -1.25, 2.0],), {}), (k, ((0.3,),), {}), (k, ((0.3, -0.7),), {}), (k, (1.5,), {}),
                (k, (-2,), {'axis': 1}), (k, (0.75,), {'axis': -1}), (k, ([1.0, 2.0],), {'axis': [0, 2]})]
    out += [('translate', ((1e-9, 0, 0),), {}), ('move', (-5e-9,), {'axis': 1})]
    out += [('scale', (2.0,), {}), ('scale', (0.5, 1), {}), ('scale', ((2, 3),), {}), ('scale', ([0.5, 1.5, -1],), {}),
            ('scale', (3,), {'axis': -1}), ('scale', ([2.0, 0.5],), {'axis': [2, 0]}), ('scale', ([1.5],), {}), ('scale', (1 + 2e-9,), {}), ('translate', ((1e-9, 3e-7, -2e6),), {})]
    for ang in (PI / 2, -PI / 3, 2.5, 0.0, PI, 2 * PI + 0.25, 2 * PI, 2 * PI + 5e-10, PI / 2 + 1e-9, -PI - 1e-8):
        out.append(('rotate', (ang,), {}))
    out += [('rotate', (0.7, 0), {}), ('rotate', (0.7, 1), {}), ('rotate', (0.7, 2), {}), ('rotate', (-1.1,), {'axis': -2}),
            ('rotate', (1.2, (1, 2, -2)), {}), ('rotate', (PI, (0, 3, 4)), {}), ('rotate', (0.4, (0, 0, -5)), {}),
            ('rotate', (0.9, (2,)), {}), ('rotate', (-0.8, (1, 1)), {}), ('rotate', (4e-7,), {}), ('rotate', (-3e-9, (1, 2, -2)), {}), ('rotate', (2.2, [0.0, -1.0, 0.0]), {}),
            ('rotate', (2.9, (1, 5e-4, 0)), {}), ('rotate', (-2.6, [0.6 + 4e-7, 0.8, 0.0]), {}), ('rotate', (1.9, (1 - 2e-9, 0, 0)), {})]
    return out


EXTRA = ['compose3', 'compose4', 'composeT', 'composeself', 'invert', 'inverse', 'copy', 'clone']
M3 = [[0.8, -0.5, 0.1], [0.7, 1.1, -0.3], [0.2, 0.4, 1.5]]
M4 = [[0.8, -0.5, 0.1, 2], [0.7, 1.1, -0.3, -1], [0.2, 0.4, 1.5, 0.5], [0, 0, 0, 1]]


def matrix(op):
    """Independent matrix of a primitive."""
    k, args, kw = op
    M = np.identity(4)
    a = args[0]
    ax = args[1] if len(args) > 1 else kw.get('axis')
    if k in ('translate', 'move'):
        if np.ndim(a) and ax is None:
            for i, v in enumerate(a):
                M[i, 3] = v
        elif ax is None:
            M[0, 3] = a
        elif np.ndim(ax):
            for i, v in zip(ax, a):
                M[i, 3] = v
        else:
            M[range(3)[ax], 3] = a
    elif k == 'scale':
        if np.ndim(a) and ax is None:
            for i, v in enumerate(a):
                M[i, i] = v
        elif ax is None:
            for i in range(3):
                M[i, i] = a
        elif np.ndim(ax):
            for i, v in zip(ax, a):
                M[i, i] = v
        else:
            i = range(3)[ax]
            M[i, i] = a
    else:
        if ax is None:
            ax = 2
        u = np.zeros(3)
        if np.ndim(ax):
            u[:len(ax)] = ax
        else:
            u[range(3)[ax]] = 1
        u = u / math.sqrt(float((u * u).sum()))
        # Rodrigues: act on each basis vector
        for i in range(3):
            e = np.zeros(3)
            e[i] = 1
            r = e * math.cos(a) + np.cross(u, e) * math.sin(a) + u * float(u @ e) * (1 - math.cos(a))
            M[:3, i] = r
    return M


def all_ops():
    return [('p', i) for i in range(len(prims()))] + [('x', e) for e in EXTRA]


def cases(tier):
    yield from large.cases()
    yield from argforms.cases()
    yield from huge.p10_cases()
    n = len(all_ops())
    d = 2 if tier == 'quick' else 3
    for i in range(n):
        for j in range(n) if d == 3 else [None]:
            yield dict(kind='transform', prefix=[i] if j is None else [i, j], depth=d)
    for dim in (1, 2, 3):
        for v in range(1 if tier == 'quick' else 4):
            for i in range(len(prims())):
                yield dict(kind='object', dim=dim, variant=v, first=i)


def t_apply(t, op, tr):
    """(transform after op, matrix update function)"""
    kind, x = op
    if kind == 'p':
        k, a, kw = prims()[x]
        M = matrix(prims()[x])
        r = getattr(t, k)(*a, **kw)
        return r, lambda A: M @ A, True
    if x == 'compose3':
        M = np.identity(4)
        M[:3, :3] = M3
        return t.compose(M3), lambda A: M @ A, True
    if x == 'compose4':
        return t.compose(np.array(M4)), lambda A: np.array(M4) @ A, True
    if x == 'composeT':
        return t.compose(tr(np.array(M4)[::1])), lambda A: np.array(M4) @ A, True
    if x == 'composeself':
        return t.compose(t), lambda A: A @ A, True
    if x == 'invert':
        return t.invert(), lambda A: np.linalg.inv(A), True
    if x == 'inverse':
        return t.inverse(), lambda A: np.linalg.inv(A), False
    if x == 'copy':
        return t.copy(), lambda A: A, False
    return t.clone(), lambda A: A, False


X = np.concatenate([sp.gen((7, 3), 3), np.array([[1.0], [1], [2], [0.5], [1], [0.25], [3]])], axis=1)


def t_verify(ctx, t, A, hist):
    s = max(1.0, np.abs(A).max())
    ctx.check(ref.close(np.asarray(t.matrix), A, 1e-11, s), 'matrix of the composition', history=hist, got=t.matrix, want=A)
    ctx.check(ref.close(t(X), X @ A.T, 1e-11, s * 4), 'application to homogeneous points', history=hist)
    ctx.check(ref.close(t(X[2]), A @ X[2], 1e-11, s * 4), 'application to one point', history=hist)
    ctx.check(ref.close(np.array(t), A, 1e-11, s), 'conversion to an array', history=hist)
    ctx.trace()
    ctx.state(np.round(A, 9).tolist())


def run(case, ctx):
    from igakit.transform import transform as tr
    if case.get('kind') == 'args':
        return argforms.run(ID, case, ctx)
    if case.get('kind') == 'huge':
        return huge.p10(case, ctx, tr)
    if case.get('kind') == 'large':
        return large.p10(case, ctx, tr)
    if case['kind'] == 'transform':
        ops = all_ops()
        t0, A0, hist = tr(), np.identity(4), []
        for i in case['prefix']:
            before = t0.matrix.copy()
            r, f, inplace = t_apply(t0, ops[i], tr)
            ctx.trans()
            if inplace:
                ctx.check(r is t0, 'operation does not return the object', op=ops[i])
            else:
                ctx.check(r is not t0 and np.array_equal(t0.matrix, before), 'operation changed its source', op=ops[i])
            t0, A0 = r, f(A0)
            hist.append(ops[i])
            t_verify(ctx, t0, A0, hist)
        for j in range(len(ops)):
            src = [t0.copy(), tr(t0), t0.clone(), tr(t0.matrix)][j % 4]
            before = src.matrix.copy()
            keep = t0.matrix.copy()
            r, f, inplace = t_apply(src, ops[j], tr)
            ctx.trans()
            ctx.check(np.array_equal(t0.matrix, keep), 'operating on a copy changed the source', history=hist, op=ops[j])
            if not inplace:
                ctx.check(np.array_equal(src.matrix, before), 'operation changed its source', op=ops[j])
            t_verify(ctx, r, f(A0), hist + [ops[j]])
        ctx.sample(dict(history=hist))
        return
    dim, v = case['dim'], case['variant']
    base = [(2, sp.clamped(2, (1,), 'off')), (3, sp.open_ends(sp.clamped(3, (2,), 'third'), 3, 1, 2)), (1, sp.clamped(1, (1,)))]
    base = base[v % 3:] + base[:v % 3]
    degs = [p for p, U in base[:dim]]
    knots = [U for p, U in base[:dim]]
    obj = lib.build(degs, knots, v % 3 if v else 1, 2)
    pts = [ref.per_span_points(p, U, 2) for p, U in base[:dim]]
    P0, F0 = obj(*pts, fields=True)
    ks = [np.array(U).tobytes() for U in obj.knots]
    P = prims()

    def apply(o, i, form):
        k, a, kw = P[i]
        if form == 0:
            r = getattr(o, k)(*a, **kw)
        elif form == 1:
            r = o.transform(getattr(tr(), k)(*a, **kw))
        else:
            r = o.transform(matrix(P[i]))
        ctx.check(r is o, 'transformation does not return the object')
        return r

    def verify(o, A, hist):
        lib.wellformed(o, ctx, 'transform')
        Pn, Fn = o(*pts, fields=True)
        want = P0 @ A[:3, :3].T + A[:3, 3]
        if not ref.close(Pn, want, 1e-11, max(1.0, np.abs(want).max()) * 4):
            ctx.fail('transformed points', err=ref.err(Pn, want), history=hist)
        ctx.check(ref.close(Fn, F0, 1e-11), 'fields changed by a geometric transformation', history=hist)
        ctx.check([np.array(U).tobytes() for U in o.knots] == ks, 'knots changed', history=hist)
        ctx.trace()
    before = lib.snap(obj)
    A1 = matrix(P[case['first']])
    for form in (0, 1, 2):
        o = apply(obj.clone(), case['first'], form)
        ctx.trans()
        verify(o, A1, [P[case['first']]])
        ctx.state((dim, v, case['first'], form))
        for j in range(len(P)):
            o2 = apply(o.clone(), j, (form + j) % 3)
            ctx.trans()
            verify(o2, matrix(P[j]) @ A1, [P[case['first']], P[j]])
            ctx.state((dim, v, case['first'], form, j))
    ctx.check(lib.snap(obj) == before, 'the source of a clone changed')
