"""VTK files hold the sampled geometry and fields."""
import itertools
import numpy as np
from mc import ref, spaces as sp, lib, fmt, large, again
from checks.p01 import table, IMP, TWINS

ID = 'P23'
NETS = (2, lib.NETS)
LEVEL = 'exploration'
RULE = ('all objects of the alphabet in every dimension x kind of grid x sampler x field source x selection of scalar and vector '
        'attributes (forms, order, names, repeated and shuffled columns); the bytes written by the real code are decoded with an '
        'independent strict reader of the legacy format and compared with the reference evaluation at the expected sampling points; '
        'non-trivial: more than one direction, or attributes present')
BOUNDS = {'quick': '14 curves, 7x7 surfaces, 3^3 volumes; 6 samplers; 17 attribute selections; before and after every operation; special control nets in turn, large objects; objects with discontinuities or points without support',
          'thorough': '40 curves, 14x14 surfaces, 6^3 volumes; before and after every operation; special control nets in turn, large objects; objects with discontinuities or points without support'}
TOL = 1e-10

SAMPLERS = {
    'none': None,
    'ends': lambda u: u[[0, -1]],
    'linspace': lambda u: np.linspace(u[0], u[-1], 4),
    'mid': lambda u: np.sort(np.concatenate([u, 0.5 * (u[1:] + u[:-1])])),
    'graded': lambda u: u[0] + (u[-1] - u[0]) * np.array([0.1, 0.15, 0.3, 0.7, 0.9]),
    'reversed': lambda u: u[::-1].copy(),
    'single': lambda u: u[:1] + 0.25 * (u[1] - u[0]),
}
SEL = [
    (dict(), dict()),
    ([('p', 0)], ()),
    ((), [('vel', [1, 2, 3])]),
    ({'b': 1, 'a': 0, 'C': 3}, {}),
    ({}, {'z': [0, 1], 'y': [3, 2, 1]}),
    ([('b', 2), ('a', 0), ('b b', 2)], [('v one', [1]), ('w', (0, 1, 2))]),
    ([('', 3), (None, 1)], [('', [0, 1]), (None, [2, 3, 0])]),
    ((('x', 0),), (('y', [0, 0, 0]),)),
    ({'temperature': 2}, {'velocity': [3, 0]}),
    ([('neg', -1)], [('negs', [-1, -2])]),
    ([(' a', 0), ('b ', 1), (' ', 2), ('c  d', 3)], [(' v  ', [0, 1]), ('_w', [2])]),
    ({'k%d' % i: i for i in range(4)}, {'m%d' % i: [i, (i + 1) % 4, (i + 2) % 4] for i in range(4)}),
]


def cases(tier):
    yield from large.cases()
    for i in (2, 4, 8, 9, 12):
        yield dict(kind='large', obj=i, dense=True)
    for n in (9, 33, 100, 130, 300):
        yield dict(objs=[2], manyf=n)
        yield dict(objs=[0, 3], manyf=n)
    q = tier == 'quick'
    for i in range(14 if q else 40):
        yield dict(objs=[i])
    for t in itertools.product(range(7 if q else 14), repeat=2):
        yield dict(objs=list(t))
    for t in itertools.product(range(3 if q else 6), repeat=3):
        yield dict(objs=list(t))
    for i in IMP:
        yield dict(objs=[i])
        yield dict(objs=[i, (41, 0, 43)[i % 3]])
    yield dict(objs=[41, 43, 40])
    for t in TWINS:
        yield dict(objs=list(t))
    for t in ([2], [3], [0, 5], [2, 4], [1, 2, 0]) if q else [[i] for i in range(10)] + [[i, (i + 3) % 7] for i in range(7)] + [[i, 1, 2] for i in range(4)]:
        yield dict(again=t)


def again_(case, ctx, VTK):
    """Files of one object before and after every operation on it."""
    a = [table()[i] for i in case['again']]
    with fmt.Scratch() as S:
        f, v = S.path(), VTK()

        def observe(o):
            out = []
            for control in (True, False):
                for s in (None, SAMPLERS['mid']):
                    for w in ({}, dict(fields=True, scalars={'a': 0}, vectors={'b': [0, 1]}), dict(fields=np.array(o.weights), scalars={'a': 0})):
                        v.write(f, o, control=control, sampler=s, **w)
                        out.append(open(f, 'rb').read())
            return out
        again.remembered(ctx, lambda: lib.build([p for p, U in a], [U for p, U in a], 1, 2), observe, 'what is written', 2 if len(a) == 1 else 1)
    ctx.ev(), ctx.distinct(case)


def many(case, ctx, VTK):
    """Many fields, and as many attributes."""
    a, n = [table()[i] for i in case['objs']], case['manyf']
    degs, knots = [p for p, U in a], [U for p, U in a]
    o, bare = lib.build(degs, knots, 1, n), lib.build(degs, knots, 1, 0)
    H = lib.hom(bare)
    x = [np.array(ref.breaks(p, U)) for p, U in a]
    order = lambda A: np.stack([A[..., c].ravel('F') for c in range(A.shape[-1])], -1)
    own = lib.hom(o)[..., 4:] / H[..., 3:]
    given = sp.gen(o.shape + (n,), 3)
    sel = sorted({0, 1, n // 2, n - 2, n - 1})
    with fmt.Scratch() as S:
        fn = S.path('m.vtk')
        for obj, fields, vals in ((o, None, own), (o, True, own), (bare, given, given), (o, given, given)):
            V = ref.tensor(degs, knots, np.concatenate([H, H[..., 3:] * vals], -1), x)
            F = order(V[..., 4:] / V[..., 3:4])
            for sc, ve in (([('s%d' % i, i) for i in sel], [('v', [n - 1, 0, n // 2]), ('w', [n - 2])]),
                           ([('t%d' % i, i) for i in range(n)], [('u%d' % i, [i, i - 1, 0]) for i in range(n)]), ([], [('v', [n - 3, n - 2, n - 1])])):
                VTK().write(fn, obj, fields=fields, scalars=sc, vectors=ve)
                ctx.ev(), ctx.distinct((case, fields is None, obj is o, len(sc)))
                d = fmt.decode_vtk(open(fn, 'rb').read())
                ctx.check([k for k, v in d['scalars']] == [k for k, v in sc] and [k for k, v in d['vectors']] == [k for k, v in ve], 'attribute names (many)')
                for (k, got), (_, i) in zip(d['scalars'], sc):
                    ctx.check(ref.close(got, F[:, i], TOL), 'scalar attribute (many)', name=k)
                for (k, got), (_, ix) in zip(d['vectors'], ve):
                    A = np.zeros((len(F), 3))
                    A[:, :len(ix)] = F[:, ix]
                    ctx.check(ref.close(got, A, TOL), 'vector attribute (many)', name=k)


def items(sel, default):
    if isinstance(sel, dict):
        return [(k, sel[k]) for k in sorted(sel)]
    return list(sel)


def label(name, default, i):
    return (name or default + str(i)).replace(' ', '_')


def run(case, ctx):
    from igakit.io import VTK
    if case.get('kind') == 'large':
        return large.p23(case, ctx, VTK, fmt)
    if 'manyf' in case:
        return many(case, ctx, VTK)
    if 'again' in case:
        return again_(case, ctx, VTK)
    T = table()
    a = [T[i] for i in case['objs']]
    dim = len(a)
    degs, knots = [p for p, U in a], [U for p, U in a]
    o = lib.build(degs, knots, 1, 4)
    bare = lib.build(degs, knots, 1, 0)
    snaps = lib.snap(o), lib.snap(bare)
    extra = sp.gen(o.shape + (5,), 3)
    scal = sp.gen(o.shape, 6)
    H = lib.hom(o)
    w = H[..., 3:4]
    bs = [np.array(ref.breaks(p, U)) for p, U in a]
    names = list(SAMPLERS) if dim < 3 else ['none', 'mid', 'graded', 'single']
    with fmt.Scratch() as S:
        for sname in names:
            f = SAMPLERS[sname]
            full = [b if f is None else f(b) for b in bs]
            sources = [('own', o, True, H[..., 4:] / w), ('array', o, extra, extra), ('bare', bare, extra, extra), ('scalar', bare, scal, scal[..., None])]
            for (src, obj, fields, vals), (k, (sc, ve)) in itertools.product(sources, enumerate(SEL)):
                if dim > 1 and (k + len(src) + sum(case['objs'])) % (3 if dim == 2 else 2) and sname != 'graded':
                    continue
                if src == 'scalar':
                    sc, ve = {'s': 0}, {'v': [0]}
                    if k > 1:
                        continue
                have = bool(sc) or bool(ve)
                V = ref.tensor(degs, knots, np.concatenate([H[..., :3], w, w * vals], -1), full)
                P, F = V[..., :3] / V[..., 3:4], V[..., 4:] / V[..., 3:4]
                for control in (True, False):
                    kw = dict(control=control)
                    if have or k % 2:
                        kw.update(fields=fields)
                    if f is not None:
                        kw.update(sampler=f)
                    if sc or k % 2:
                        kw.update(scalars=sc)
                    if ve or k % 2:
                        kw.update(vectors=ve)
                    fn = S.path('g.vtk')
                    if control and k % 3 == 0:          # what is not said has its documented default
                        del kw['control']
                    if src == 'own' and k % 2 and 'fields' in kw:
                        if k % 4 == 1:
                            del kw['fields']
                        else:
                            kw['fields'] = None
                    if k % 5 == 4:
                        r = VTK().write(fn, obj, control, kw.get('fields'), kw.get('scalars', ()), kw.get('vectors', ()), kw.get('sampler'))
                    else:
                        r = VTK().write(fn, obj, **kw)
                    ctx.ev()
                    if dim > 1 or have:
                        ctx.distinct((case, sname, src, k, control))
                    info = dict(sampler=sname, source=src, selection=k, control=control)
                    data = open(fn, 'rb').read()
                    try:
                        d = fmt.decode_vtk(data)
                    except Exception as e:
                        ctx.fail('the file is not a legacy VTK file: %r' % e, **info)
                        continue
                    shape = P.shape[:-1]
                    ctx.check(d['dims'] == list(shape) + [1] * (3 - dim), 'dimensions', got=d['dims'], want=shape, **info)
                    ctx.check(d['dataset'] == ('STRUCTURED_GRID' if control else 'RECTILINEAR_GRID'), 'kind of grid', **info)
                    order = lambda A: np.stack([A[..., c].ravel('F') for c in range(A.shape[-1])], -1)
                    if control:
                        if not ref.close(d['points'], order(P), TOL):
                            ctx.fail('points in the file are not the sampled points', err=ref.err(d['points'], order(P)), **info)
                    else:
                        want = [list(x) for x in full] + [[0.0]] * (3 - dim)
                        ctx.check(d['coords'] == [list(map(float, x)) for x in want], 'coordinates in the file', got=d['coords'], want=want, **info)
                    Fo = order(F)
                    sw = [(label(n, 'scalars', i), Fo[:, ix]) for i, (n, ix) in enumerate(items(sc, 0))]
                    ctx.check([n for n, v in d['scalars']] == [n for n, v in sw], 'scalar names', got=[n for n, v in d['scalars']], **info)
                    for (n, got), (_, want) in zip(d['scalars'], sw):
                        if not ref.close(got, want, TOL):
                            ctx.fail('scalar attribute differs', name=n, err=ref.err(got, want), **info)
                    vw = []
                    for i, (n, ix) in enumerate(items(ve, 0)):
                        A = np.zeros((len(Fo), 3))
                        A[:, :len(ix)] = Fo[:, list(ix)]
                        vw.append((label(n, 'vectors', i), A))
                    ctx.check([n for n, v in d['vectors']] == [n for n, v in vw], 'vector names', got=[n for n, v in d['vectors']], **info)
                    for (n, got), (_, want) in zip(d['vectors'], vw):
                        if not ref.close(got, want, TOL):
                            ctx.fail('vector attribute differs', name=n, err=ref.err(got, want), **info)
        # a second file of another size in the same place replaces the first one; titles
        fn = S.path('t.vtk')
        for t in ('VTK Data', 'x', 'long ' * 60):
            v = VTK()
            v.title = t
            v.write(fn, o, sampler=SAMPLERS['mid'])
            d = fmt.decode_vtk(open(fn, 'rb').read())
            ctx.check(d['title'] == t[:255], 'title', got=d['title'])
            VTK().write(fn, bare)
            d = fmt.decode_vtk(open(fn, 'rb').read())
            ctx.check(d['title'] == 'VTK Data' and d['dims'] == [len(b) for b in bs] + [1] * (3 - dim), 'file written again')
            ctx.ev(2)
    ctx.check((lib.snap(o), lib.snap(bare)) == snaps, 'writing changed the object')
