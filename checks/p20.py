"""PetIGA round trip: what is read is what was written, in every format."""
import itertools
import numpy as np
from mc import ref, spaces as sp, lib, fmt, large, huge, again
from checks.p01 import table, IMP, TWINS

ID = 'P20'
LEVEL = 'model_checking'
RULE = ('every (object of the alphabet, format out of precision x scalar x indices, control/fields option, number of space '
        'coordinates) is written and read back on the real code, twice in a row; states are files (their bytes), transitions '
        'are writes and reads; the result is compared with the object itself')
BOUNDS = {'quick': '14 curves, 6x6 surfaces, 3^3 volumes x 8 formats x all options x 0/1/3 fields, and 12 kinds of special contents, before and after every operation; large objects and nets of up to 70000 points; objects with discontinuities or points without support',
          'thorough': '40 curves, 12x12 surfaces, 5^3 volumes x 8 formats x all options x 0/1/2/3/5 fields, before and after every operation; large objects and nets of up to 70000 points; objects with discontinuities or points without support'}


def cases(tier):
    yield from large.cases()
    yield from huge.cases()
    q = tier == 'quick'
    for i in range(14 if q else 40):
        yield dict(objs=[i])
    for a in itertools.product(range(6 if q else 12), repeat=2):
        yield dict(objs=list(a))
    for a in itertools.product((0, 1, 4) if q else (0, 1, 2, 4, 6), repeat=3):
        yield dict(objs=list(a))
    for i in IMP:
        yield dict(objs=[i])
        yield dict(objs=[i, (41, 0, 43)[i % 3]])
    yield dict(objs=[41, 43, 40])
    for t in TWINS:
        yield dict(objs=list(t))
    yield dict(vec=True)
    for t in ([2], [3], [0, 5], [2, 4], [1, 2, 0]) if q else [[i] for i in range(10)] + [[i, (i + 3) % 7] for i in range(7)] + [[i, 1, 2] for i in range(4)]:
        yield dict(again=t)


CONTENTS = ['null fields', 'null column', 'tiny fields', 'constant fields', 'unit weights', 'planar', 'below', 'point', 'null control', 'subnormal', 'immense', 'negative zero']
DOUBLE = ('subnormal', 'immense')     # beyond single precision


def special(nrb, content):
    """Data that a shortcut may take for absent."""
    A = nrb.array
    if content == 'null fields':
        A[..., 4:] = 0
    elif content == 'null column':
        A[..., -1] = 0
    elif content == 'tiny fields':
        A[..., 4:] *= 1e-20
    elif content == 'constant fields':
        A[..., 4:] = A[..., 3:4]
    elif content == 'unit weights':
        A[..., :3] /= A[..., 3:4]
        A[..., 4:] /= A[..., 3:4]
        A[..., 3] = 1
    elif content == 'planar':
        A[..., 2] = 0
    elif content == 'below':
        A[..., 2] = -np.abs(A[..., 2])
    elif content == 'point':
        A[..., :3] = A[..., 3:4] * np.array([1.0, 0, 2])
    elif content == 'null control':
        A[..., :3] = 0
    elif content == 'subnormal':
        A[..., :3] *= 1e-310
        A[..., 4:] *= 1e-300
    elif content == 'immense':
        A[..., :3] *= 1e300
        A[..., 4:] *= 1e290
    elif content == 'negative zero':
        A[..., 0] = -0.0
        A[..., 4] = -0.0


def rnd(x, prec):
    return np.asarray(x, 'f4').astype('d') if prec == 'single' else np.asarray(x, 'd')


def run(case, ctx):
    from igakit.io import PetIGA
    if case.get('kind') == 'large':
        return large.p20(case, ctx, PetIGA, fmt)
    if case.get('kind') == 'huge':
        return huge.files(case, ctx, PetIGA, fmt)
    if 'vec' in case:
        return vec(ctx)
    if 'again' in case:
        return again_(case, ctx)
    al = [table()[i] for i in case['objs']]
    dim = len(al)
    with fmt.Scratch() as S:
        f = S.path()
        for nf, content in [(k, 'generic') for k in ((0, 1, 3) if ctx.tier == 'quick' else (0, 1, 2, 3, 5))] + \
                [(2, c) for c in CONTENTS[:2 if dim == 3 and ctx.tier == 'quick' else None]]:
            nrb = lib.build([p for p, U in al], [U for p, U in al], 1, nf, nf)
            special(nrb, content)
            s0 = lib.snap(nrb)
            for k, F in enumerate(fmt.FORMATS):
                prec = F[0]
                if prec == 'single' and content in DOUBLE:
                    continue
                io = PetIGA(precision=F[0], scalar=F[1], indices=F[2])
                for control, fields, nsd in itertools.product((True, False), (True, False), [None] + list(range(dim, 4))):
                    if not control and nsd is not None:
                        continue
                    if dim == 3 and ctx.tier == 'quick' and k % 3 and not (control and fields):
                        continue
                    kw = {}
                    if nsd is not None:
                        kw['nsd'] = nsd
                    if not control:
                        kw['control'] = False
                    if not fields:
                        kw['fields'] = False
                    io.write(f, nrb, **kw)
                    ctx.trans()
                    ctx.check(lib.snap(nrb) == s0, 'writing changed the object')
                    data = open(f, 'rb').read()
                    ctx.state(data)
                    r = io.read(f)
                    ctx.trans()
                    ctx.check(open(f, 'rb').read() == data, 'reading changed the file')
                    det = dict(format=F, options=kw, fields=nf)
                    lib.wellformed(r, ctx, 'read')
                    ctx.check(r.dim == dim and r.degree == nrb.degree and r.shape == nrb.shape, 'structure', **det)
                    for U, V in zip(r.knots, nrb.knots):
                        lib.same_knots(ctx, 'read', U, rnd(V, prec), **det)
                        ctx.check(U.dtype.isnative, 'byte order of the knots')
                    n = dim if nsd is None else nsd
                    H = np.zeros(nrb.shape + (4,))
                    tol = 1e-6 if prec == 'single' else 1e-14
                    if control:
                        H[..., :n] = rnd(nrb.control[..., :n], prec)
                        H[..., 3] = rnd(nrb.weights, prec)
                        ctx.check(np.array_equal(r.control, H), 'control points differ', **det)
                    else:
                        g = np.meshgrid(*nrb.greville(), indexing='ij')
                        for i in range(dim):
                            H[..., i] = g[i]
                        H[..., 3] = 1
                        sc = max(1, np.abs(H).max())
                        ctx.check(np.abs(r.control - H).max() <= tol * sc, 'control points are not the Greville grid', **det)
                    ctx.check(r.array.dtype == np.dtype('d') and r.array.dtype.isnative, 'byte order', **det)
                    if fields and nf:
                        ctx.check(r.fields is not None and r.fields.shape == nrb.fields.shape, 'fields missing', **det)
                        ctx.check(np.abs(r.fields - nrb.fields).max() <= tol * 4 * np.abs(nrb.fields).max(), 'fields differ', **det)
                    else:
                        ctx.check(r.fields is None, 'fields appear', **det)
                    # the evaluated map
                    if control and n == 3:
                        x = [ref.per_span_points(p, U, 2) for p, U in zip(nrb.degree, r.knots)]
                        if prec == 'double':
                            ctx.check(ref.close(r(*x), nrb(*x), 1e-12), 'map differs', **det)
                    # writing again what was read gives the same file
                    io.write(f + '2', r, **kw)
                    ctx.trans()
                    d2 = open(f + '2', 'rb').read()
                    if not nf or not fields:
                        ctx.check(d2 == data, 'second generation file differs', **det)
                    else:
                        ctx.check(len(d2) == len(data), 'second generation file has another size', **det)
                    ctx.trace()
    # options are constants of the object: default is double/real/32bit
    ctx.sample(case)


def again_(case, ctx):
    """Files of one object before and after every operation on it."""
    from igakit.io import PetIGA
    a = [table()[i] for i in case['again']]
    with fmt.Scratch() as S:
        f = S.path()
        ios = [PetIGA(), PetIGA('single', 'complex', '64bit')]

        def observe(o):
            out = []
            for io in ios:
                for kw in ({}, dict(nsd=3), dict(control=False), dict(fields=False)):
                    io.write(f, o, **kw)
                    out.append(open(f, 'rb').read())
                    out.append(lib.snap(io.read(f)))
                io.write_vec(f, o.fields[..., :1], o)
                out.append(open(f, 'rb').read())
                out.append(io.read_vec(f, o).tobytes())
            return out
        again.remembered(ctx, lambda: lib.build([p for p, U in a], [U for p, U in a], 1, 2), observe, 'what is written and read', 2 if len(a) == 1 else 1)
    ctx.trace(), ctx.state(str(case))


def vec(ctx):
    from igakit.io import PetIGA
    with fmt.Scratch() as S:
        f = S.path('v')
        for F in fmt.FORMATS:
            io = PetIGA(*F)
            tol = 1e-6 if F[0] == 'single' else 0
            for n in (0, 1, 2, 7):
                A = sp.gen((n,), n) if n else np.zeros(0)
                if F[1] == 'complex':
                    A = A + 1j * sp.gen((n,), n + 1) if n else A.astype(complex)
                io.write_vec(f, A)
                B = io.read_vec(f)
                ctx.trans(2)
                ctx.state(open(f, 'rb').read())
                ctx.check(B.shape == (n,) and np.iscomplexobj(B) == (F[1] == 'complex'), 'vector shape or kind', format=F)
                ctx.check(n == 0 or np.abs(A - B).max() <= tol, 'vector values', format=F)
                ctx.trace()
            for objs in ([0], [1], [2, 1], [1, 0, 4]):
                al = [table()[i] for i in objs]
                nrb = lib.build([p for p, U in al], [U for p, U in al], 1, 0)
                for k in (0, 1, 2, 4):
                    shape = nrb.shape + ((k,) if k else ())
                    A = sp.gen(shape, k)
                    if F[1] == 'complex':
                        A = A + 1j * sp.gen(shape, k + 5)
                    for arr in [A.ravel(), A.tolist(), A.reshape((-1,) + A.shape[nrb.dim:])] + sp.layouts(A):
                        io.write_vec(f, arr, nrb)
                        data = open(f, 'rb').read()
                        B = io.read_vec(f, nrb)
                        ctx.trans(2)
                        ctx.state(data)
                        want = A if k != 1 else A[..., 0]
                        ctx.check(B.shape == want.shape and np.abs(B - want).max() <= tol, 'vector on a net', format=F, shape=shape, got=B.shape)
                        ctx.check(B.flags.c_contiguous, 'result is not contiguous')
                        # layout: component fastest, then the first axis
                        flat = (A if k else A[..., None]).transpose(list(range(nrb.dim))[::-1] + [nrb.dim]).ravel()
                        ctx.check(np.abs(io.read_vec(f) - flat).max() <= tol, 'vector layout', format=F)
                        ctx.trace()
