"""Construction and attributes are faithful; copies are equal and independent."""
import copy
import itertools
import pickle
import numpy as np
from mc import ref, spaces as sp, lib, large, huge
from checks.p01 import alpha, table, IMP, TWINS

ID = 'P29'
LEVEL = 'exploration'
RULE = ('all combinations of dimension and knot vectors, number of coordinates, form of the weights (none, keyword, tuple, homogeneous, '
        'constant, negative), form of the fields (none, scalar grid, 1..3 columns) and container (array, nested list, integers, single '
        'precision, Fortran order, strided view, read-only) on the real constructor, compared with the values given; then every way of '
        'duplicating the object, and writes through each duplicate; non-trivial: weights or fields differ from the default')
BOUNDS = {'quick': '14 knot vectors, 12x12 pairs, 4^3 triples; 4 coordinate counts x 8 weight forms x 5 field forms x 8 containers (pairwise for surfaces and volumes); large objects and nets of up to 70000 points; objects with discontinuities or points without support',
          'thorough': '40 knot vectors, 20x20 pairs, 8^3 triples; large objects and nets of up to 70000 points; objects with discontinuities or points without support'}

WF = ('none', 'keyword', 'tuple', 'constant', 'negative', 'list', 'near', 'nearer')
FF = (None, 0, 1, 2, 3)
CT = ('array', 'list', 'int', 'float32', 'fortran', 'strided', 'readonly', 'bigendian', 'tuple')


def cases(tier):
    yield from large.cases()
    yield from huge.p29_cases()
    q = tier == 'quick'
    K = 14 if q else 40
    for i in range(K):
        yield dict(kind='make', objs=[i], part=0)
    for i in IMP:
        yield dict(kind='make', objs=[i], part=0)
        yield dict(kind='make', objs=[i, (41, 0, 43)[i % 3]], part=i % 8)
        for nf in (0, 1) if i in (40, 41, 42, 49) else ():      # elevation refuses points without support
            yield dict(kind='dup', t=[i], nf=nf)
            yield dict(kind='dup', t=[i, (41, 0, 43)[i % 3]], nf=nf)
    for k, t in enumerate(TWINS):
        yield dict(kind='make', objs=list(t), part=k % 8)
    for k, t in enumerate(itertools.product(range(12 if q else 20), repeat=2)):
        yield dict(kind='make', objs=list(t), part=k % 8)
    for k, t in enumerate(itertools.product(range(4 if q else 8), repeat=3)):
        yield dict(kind='make', objs=list(t), part=k % 8)
    for d in (1, 2, 3):
        for t in itertools.product(range(7), repeat=d):
            if d < 3 or len(set(t)) < 3:
                yield dict(kind='default', objs=list(t))
    for d in (1, 2, 3):
        for nf in (0, 1, 3):
            for t in itertools.product(range(14), repeat=1) if d == 1 else itertools.product((0, 1, 2, 4) if d == 2 or not q else (0, 1, 4), repeat=d):
                yield dict(kind='dup', t=list(t), nf=nf)


def contain(a, c):
    if a is None:
        return None
    if c == 'list':
        return a.tolist()
    if c == 'tuple':     # a pair is (control points, weights)
        return totuple(a) if len(a) != 2 else a.tolist()
    if c == 'int':
        return np.rint(a * 3).astype(int) + (np.rint(a * 3) == 0)
    if c == 'float32':
        return a.astype('f')
    if c == 'fortran':
        return np.asfortranarray(a)
    if c == 'strided':
        b = np.full(tuple(2 * n for n in a.shape), 77.0)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if c == 'readonly':
        a = a.copy()
        a.setflags(write=False)
        return a
    if c == 'bigendian':
        return a.astype('>d')
    return a.copy()


def totuple(a):
    return tuple(totuple(x) for x in a) if a.ndim else float(a)


def combos(dim, part):
    every = list(itertools.product((2, 3, 4), WF, FF, CT))
    return every if dim == 1 else every[part::8 if dim == 2 else 24]


def run(case, ctx):
    if case.get('kind') == 'huge':
        return huge.p29(case, ctx)
    if case.get('kind') == 'large':
        return large.p29(case, ctx)
    return dict(make=make, default=default, dup=dup)[case['kind']](case, ctx)


def make(case, ctx):
    T = table()
    a = [T[i] for i in case['objs']]
    dim = len(a)
    degs = [p for p, U in a]
    knots = [np.array(U, 'd') for p, U in a]
    shape = tuple(lib.ncp(p, U) for p, U in zip(degs, knots))
    for nc, wf, ff, ct in combos(dim, case['part']):
        P = contain(sp.gen(shape + (nc,), nc), ct)
        W = None
        if wf != 'none':
            W = sp.weights(shape, 1)
            if wf == 'constant':
                W = np.full(shape, 0.75)
            if wf == 'negative':
                W = -W
            if wf.startswith('near'):     # close to one, not one
                W = 1 + (4e-6 if wf == 'near' else 2e-9) * sp.gen(shape, 3)
            W = contain(W, ct if wf != 'list' else 'list')
        F = None if ff is None else contain(sp.gen(shape + ((ff,) if ff else ()), 9), ct)
        kn = [contain(U, ct if ct not in ('int', 'float32') else 'list') for U in knots]
        Pv = np.asarray(P, 'd')
        Wv = None if W is None else np.asarray(W, 'd')
        if nc == 4:
            if wf == 'negative' or wf == 'none':
                Pv = Pv.copy()
                Pv[..., 3] = 1 if wf == 'none' else -np.abs(Pv[..., 3]) - 0.5
            else:
                Pv = Pv.copy()
                Pv[..., 3] = W if wf.startswith('near') and ct not in ('int', 'float32') else np.abs(Pv[..., 3]) + 0.5
            P = contain(Pv, ct if ct not in ('int', 'float32', 'list') else 'array')
            if ct == 'list':
                P = Pv.tolist()
            kw = {}
            H = Pv
        else:
            H = np.zeros(shape + (4,))
            H[..., :nc] = Pv * (1 if Wv is None else Wv[..., None])
            H[..., 3] = 1 if Wv is None else Wv
            if W is None:
                kw = {}
            elif wf == 'tuple':
                P, kw = (P, W), {}
            else:
                kw = dict(weights=W)
        keep = [np.array(x, 'd').tobytes() for x in kn]
        label = dict(coords=nc, weights=wf, fields=ff, container=ct)
        if ff is None:
            n = lib.N()(kn, P, **kw)
        elif wf in ('constant', 'none'):
            n = lib.N()(tuple(kn), P, F, **kw)
        else:
            n = lib.N()(knots=kn, control=P, fields=F, **kw)
        ctx.ev()
        lib.wellformed(n, ctx, 'constructor')
        ctx.check(n.dim == dim and tuple(n.degree) == tuple(degs) and tuple(n.shape) == shape, 'structure', **label)
        ctx.check(isinstance(n.knots, tuple) and all(np.array_equal(x, U) for x, U in zip(n.knots, knots)), 'knots differ from those given', **label)
        ctx.check([np.array(x, 'd').tobytes() for x in kn] == keep, 'the constructor changed its argument', **label)
        ctx.check(np.asarray(n.control).shape == shape + (4,) and np.array_equal(n.control, H), 'control points differ', **label)
        ctx.check(np.array_equal(n.weights, H[..., 3]), 'weights differ', **label)
        w = H[..., 3:]
        ctx.check(ref.close(n.points, H[..., :3] / w, 4e-16), 'points differ', **label)
        if nc < 4:
            ctx.check(ref.close(n.points[..., :nc], Pv, 4e-16) and np.all(n.points[..., nc:] == 0), 'points are not those given', **label)
        if ff is None:
            ctx.check(n.fields is None and n.array.shape == shape + (4,), 'fields', **label)
        else:
            Fv = np.asarray(F, 'd').reshape(shape + (max(ff, 1),))
            ctx.check(n.fields is not None and n.fields.shape == Fv.shape and ref.close(n.fields, Fv, 4e-16), 'fields differ', **label)
            ctx.check(n.array.shape == shape + (4 + Fv.shape[-1],) and np.array_equal(n.array[..., :4], H), 'array', **label)
            ctx.check(np.array_equal(n.array[..., 4:], Fv * w), 'fields are not stored with weights', **label)
        if wf != 'none' or ff is not None:
            ctx.distinct((case['objs'], label))


def default(case, ctx):
    """Without control points: the identity map on the domain, degree read from clamped knots."""
    K = [(1, sp.clamped(1, ())), (2, sp.clamped(2, (1,), 'off')), (3, sp.clamped(3, (2, 1), 'neg')), (1, sp.clamped(1, (1, 1), 'third')),
         (4, sp.clamped(4, (4,), 'large')), (5, sp.clamped(5, (), 'tiny')), (1, [-1.0, 0.5, 1.25, 2.0, 4.0])]
    a = [K[i] for i in case['objs']]
    dim = len(a)
    for fields in (None, 'scalar', 'vector'):
        knots = [np.array(U) for p, U in a]
        shape = tuple(lib.ncp(p, U) for p, U in a)
        F = None if fields is None else sp.gen(shape + ((2,) if fields == 'vector' else ()), 4)
        n = lib.N()(knots) if F is None else lib.N()(knots, fields=F)
        ctx.ev()
        lib.wellformed(n, ctx, 'default control')
        ctx.check(tuple(n.degree) == tuple(p for p, U in a) and np.all(n.weights == 1), 'default control: structure')
        x = [ref.per_span_points(p, U, 2) for p, U in a]
        M = np.stack(np.meshgrid(*x, indexing='ij'), -1)
        G = n(*x)
        for ax in range(dim):
            ctx.check(ref.close(G[..., ax], M[..., ax], 1e-14, np.abs(M[..., ax]).max() * 8), 'default control is not the identity', axis=ax)
        ctx.check(np.all(G[..., dim:] == 0), 'default control: extra coordinates')
        if F is not None:
            ctx.check(ref.close(n.fields, F.reshape(shape + (-1,)), 4e-16), 'default control: fields')
        ctx.distinct((case, fields))


WAYS = [('copy', lambda o: o.copy()), ('clone', lambda o: o.clone()), ('copy.copy', copy.copy), ('deepcopy', copy.deepcopy),
        ] + [('pickle%d' % k, lambda o, k=k: pickle.loads(pickle.dumps(o, k))) for k in range(pickle.HIGHEST_PROTOCOL + 1)]
EDITS = [('insert', lambda o: o.insert(0, o.breaks(0)[0] + 0.3 * (o.breaks(0)[1] - o.breaks(0)[0]))), ('translate', lambda o: o.translate([1, 2, 3])),
         ('elevate', lambda o: o.elevate(0)), ('reverse', lambda o: o.reverse(0)), ('transpose', lambda o: o.transpose()),
         ('remap', lambda o: o.remap(0, 7, 9)), ('scale', lambda o: o.scale(3.0))]


def dup(case, ctx):
    T = table()
    for t in [case['t']]:
        a = [T[i] for i in t]
        o = lib.build([p for p, U in a], [U for p, U in a], 1, case['nf'])
        s = lib.snap(o)
        x = [ref.per_span_points(p, U, 1) for p, U in a]
        want = lib.eval_own(o, x)
        # every sequence of two ways of duplicating
        for (n1, w1), (n2, w2) in itertools.product(WAYS, repeat=2):
            d1 = w1(o)
            d2 = w2(d1)
            ctx.ev()
            ctx.check(type(d2) is type(o) and d2 is not o and d2 is not d1, 'duplicate', ways=[n1, n2])
            ctx.check(lib.snap(d1) == s and lib.snap(d2) == s, 'duplicate differs from the original', ways=[n1, n2])
            lib.wellformed(d2, ctx, 'duplicate')
            for nm, e in EDITS:
                d3 = w2(d1)
                e(d3)
                ctx.check(lib.snap(o) == s and lib.snap(d1) == s, 'an operation on the duplicate changed the original', ways=[n1, n2], op=nm)
            if n2 in ('copy', 'deepcopy') or n2.startswith('pickle'):
                one = any(np.shares_memory(d1.knots[0], U) for U in d1.knots[1:])      # one array in two directions stays one
                d2.knots[0][...] = 1
                ctx.check(one and n2 != 'copy' or all(np.array_equal(U, V) for U, V in zip(d2.knots[1:], o.knots[1:])),
                          'a write to the knots of one direction changed another', ways=[n1, n2])
                d2.array[...] = 5
                for U in d2.knots:
                    U[...] = 1
                ctx.check(lib.snap(o) == s and lib.snap(d1) == s, 'a write on the duplicate changed the original', ways=[n1, n2])
            d4 = w2(w1(o))
            ctx.check(np.array_equal(lib.eval_own(d4, x), want), 'duplicate evaluates differently', ways=[n1, n2])
            ctx.distinct((case, t, n1, n2))
