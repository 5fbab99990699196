"""Objects and arrays of tens of thousands of entries: what starts at the size of a buffer or of a short integer."""
import numpy as np
from . import ref, spaces as sp, lib, large

NETS = [([2], [40000]), ([1, 2], [260, 270]), ([2, 1], [20, 3500]), ([1, 1, 2], [37, 38, 40])]


def uniform(p, n):
    """Clamped knot vector of n control points with breaks at multiples of 1/64."""
    m = n - p
    return [0.0] * (p + 1) + [i / 64.0 for i in range(1, m)] + [m / 64.0] * (p + 1)


def obj(i, nf):
    degs, shape = NETS[i]
    return lib.build(degs, [uniform(p, n) for p, n in zip(degs, shape)], 1, nf)


def order(A):
    """The order of the format: component, first axis, second, third."""
    n = A.ndim - 1
    return np.ascontiguousarray(A.transpose(list(range(n))[::-1] + [n])).ravel()


def dt(F):
    R = {'double': '>f8', 'single': '>f4'}[F[0]]
    return '>i4' if F[2] == '32bit' else '>i8', R, R if F[1] == 'real' else {'double': '>c16', 'single': '>c8'}[F[0]]


def vec_bytes(x, F):
    I, R, S = dt(F)
    return np.array([1211214, x.size], I).tobytes() + x.astype(S).tobytes()


def iga_bytes(o, F):
    I, R, S = dt(F)
    n = o.dim
    X = o.fields
    out = np.array([1211299, 1 if X is None else 3, n], I).tobytes()
    for p, U in zip(o.degree, o.knots):
        out += np.array([p, len(U)], I).tobytes() + U.astype(R).tobytes()
    H = lib.hom(o)
    out += np.array([n], I).tobytes() + vec_bytes(order(H[..., list(range(n)) + [3]]), F)
    if X is not None:
        out += np.array([X.shape[-1]], I).tobytes() + vec_bytes(order(X), F)
    return out


def cases():
    for i in range(len(NETS)):
        for k in range(8):
            yield dict(kind='huge', of=i, fmt=k, nf=(0, 2)[(i + k) % 2])
    for k in range(8):
        for nf in (128, 300):
            yield dict(kind='huge', wide=nf, fmt=k)
        for i in range(len(WIDE)):
            yield dict(kind='huge', vec=i, fmt=k)


WIDE = [((7, 9), 1, 128), ((7, 9), 1, 300), ((5, 4, 6), 1, 10), ((5, 4, 6), 1, 11), ((5, 4, 6), 1, 12), ((5, 4, 6), 1, 40), ((41, 39), 1, 3), ((300,), 2, 16),
        ((257, 256), 1, 1), ((257, 256), 1, 2), ((66000,), 1, 1), ((70000,), 2, 3), ((40, 41, 42), 1, 2), ((5, 700), 1, 20),
        ((32768,), 1, 1), ((65537,), 1, 1), ((256, 256), 1, 1), ((64, 64), 1, 16)]


def near(a, b, tol):
    return a.shape == b.shape and (a.size == 0 or float(np.abs(a - b).max()) <= tol * max(1.0, float(np.abs(b).max())))


def files(case, ctx, PetIGA, fmt, layout=False):
    """What is read back; with layout, the bytes of the file."""
    F = fmt.FORMATS[case['fmt']]
    I, R, S = dt(F)
    io = PetIGA(*F)
    one = (lambda x: np.asarray(x, 'f4').astype('d')) if F[0] == 'single' else np.asarray
    eps = 1e-6 if F[0] == 'single' else 1e-14
    with fmt.Scratch() as Sc:
        f = Sc.path()
        if 'vec' in case:
            shape, p, k = WIDE[case['vec']]
            o = lib.build([p] * len(shape), [uniform(p, n) for n in shape], 0, 0)
            A = sp.gen(shape + (k,), 3)
            if F[1] == 'complex':
                A = A + 1j * sp.gen(shape + (k,), 4)
            want = vec_bytes(order(A), F)
            val = A.astype(S).astype('c16' if F[1] == 'complex' else 'd')
            for how, arr in (('grid', A), ('flat', A.ravel()), ('rows', A.reshape(-1, k)), ('fortran', np.asfortranarray(A)), ('list', A.tolist() if A.size < 50000 else A)):
                io.write_vec(f, arr, o)
                data = open(f, 'rb').read()
                ctx.trans()
                if not layout:
                    B = io.read_vec(f, o)
                    ctx.check(np.array_equal(B, val if k > 1 else val[..., 0]), 'vector written and read (huge)', how=how, shape=shape, components=k, format=F)
                ctx.check(not layout or data == want, 'bytes of a vector on a net (huge)', how=how, shape=shape, components=k, format=F)
            ctx.state(want)
            if layout:
                open(f, 'wb').write(want)
            B = io.read_vec(f, o)
            ctx.trans()
            ctx.check(np.array_equal(B, val if k > 1 else val[..., 0]) and B.dtype.isnative, 'vector read on a net (huge)', shape=shape, components=k, format=F)
            B = io.read_vec(f)
            ctx.check(not layout or np.array_equal(B, order(val)), 'vector read flat (huge)', shape=shape, components=k, format=F)
            io.write_vec(f, B)
            ctx.trans(2), ctx.trace()
            ctx.check(np.array_equal(io.read_vec(f), B) and (not layout or open(f, 'rb').read() == want), 'bytes of a flat vector (huge)', size=A.size, format=F)
            return
        if 'wide' in case:
            o = lib.build([2, 1], [sp.clamped(2, (1,), 'off'), sp.clamped(1, (1,))], 1, 0)
            o = lib.N()(o.knots, o.control, sp.gen(o.shape + (case['wide'],), 5))
        else:
            o = obj(case['of'], case['nf'])
        s0 = lib.snap(o)
        io.write(f, o)
        data = open(f, 'rb').read()
        want = iga_bytes(o, F)
        ctx.trans(), ctx.state(data)
        ctx.check(not layout or len(data) == len(want) and (data == want or o.fields is not None), 'bytes of a huge file', format=F, size=len(data), want=len(want))
        if layout and o.fields is not None:        # fields are quotients: equal up to rounding
            n = o.fields.size
            e = np.dtype(S).itemsize * n
            ctx.check(data[:-e] == want[:-e] and near(np.frombuffer(data[-e:], S), np.frombuffer(want[-e:], S), eps), 'bytes of a huge file', format=F, size=len(data))
        ctx.check(lib.snap(o) == s0, 'writing changed the object')
        if layout:
            open(f, 'wb').write(want)
        r = io.read(f)
        ctx.trans(), ctx.trace()
        n = o.dim
        H = np.zeros(o.shape + (4,))
        H[..., :n] = one(lib.hom(o)[..., :n])
        H[..., 3] = one(o.weights)
        ctx.check(r.degree == o.degree and r.shape == o.shape and all(np.array_equal(U, one(V)) for U, V in zip(r.knots, o.knots)), 'structure of a huge file', format=F)
        ctx.check(np.array_equal(r.control, H), 'control points of a huge file', format=F)
        if o.fields is None:
            ctx.check(r.fields is None, 'fields appear (huge)')
        else:
            ctx.check(r.fields is not None and near(r.fields, o.fields, 4 * eps), 'fields of a huge file', format=F)


# ---- matrices --------------------------------------------------------------

def mats():
    for k in range(8):
        for m in ('dense row', 'two dense rows', 'twelve rows', 'far columns', 'many empty', 'short and long'):
            yield dict(kind='huge', mat=m, fmt=k)


def rows_of(m):
    """(M, N, columns of every row)."""
    if m == 'dense row':
        return 1, 70000, [np.arange(70000)]
    if m == 'two dense rows':
        return 2, 40000, [np.arange(40000), np.arange(0, 40000, 3)]
    if m == 'twelve rows':
        return 12, 400, [np.arange(i, 400 - 11 * i, 1 + i // 6) for i in range(12)]
    if m == 'far columns':
        return 3, 2 ** 31 - 1, [np.array([0, 255, 256, 65535, 65536]), np.array([2 ** 24 + 1, 2 ** 31 - 2]), np.array([70000, 2 ** 30 + 3])]
    if m == 'many empty':
        return 70001, 5, [np.arange(i % 3 if i > 69000 else 0) for i in range(70001)]
    return 300, 300, [np.arange(300) if i in (5, 130, 299) else np.array([i]) for i in range(300)]


def mat(case, ctx, PetIGA, fmt):
    F = fmt.FORMATS[case['fmt']]
    I, R, S = dt(F)
    M, N, rows = rows_of(case['mat'])
    nz = [len(r) for r in rows]
    AJ = np.concatenate(rows).astype('i8')
    AV = (np.arange(len(AJ)) * 7 % 1021) / 64.0 - 3
    if F[1] == 'complex':
        AV = AV + 1j * ((np.arange(len(AJ)) * 5 % 509) / 32.0)
    data = np.array([1211216, M, N, sum(nz)], I).tobytes() + np.array(nz, I).tobytes() + AJ.astype(I).tobytes() + AV.astype(S).tobytes()
    with fmt.Scratch() as Sc:
        f = Sc.path()
        open(f, 'wb').write(data)
        (m, n), (ai, aj, av) = PetIGA(*F).read_mat(f)
    ctx.trans(), ctx.trace(), ctx.state(case)
    ctx.check((m, n) == (M, N), 'matrix shape (huge)', format=F)
    ctx.check(np.array_equal(ai, np.cumsum([0] + nz)), 'row pointers (huge)', format=F, mat=case['mat'])
    ctx.check(np.array_equal(aj, AJ), 'columns (huge)', format=F, mat=case['mat'])
    ctx.check(np.array_equal(av, AV), 'values (huge)', format=F, mat=case['mat'])


# ---- transformations -------------------------------------------------------

def p10(case, ctx, tr):
    """Whole nets of tens of thousands of points, and factors or angles next to nothing."""
    if 'of' in case:
        o = obj(case['of'], 0)
        A = lib.hom(o)
        M = np.array([[0.8, -0.5, 0.1, 2], [0.7, 1.1, -0.3, -1], [0.2, 0.4, 1.5, 0.5], [0, 0, 0, 1]])
        o.transform(M)
        ctx.trans(), ctx.trace(), ctx.state(case)
        ctx.check(ref.close(lib.hom(o), A @ M.T, 1e-14), 'transform (huge): control points', err=ref.err(lib.hom(o), A @ M.T))
        x = A[..., :3] / A[..., 3:]
        ctx.check(ref.close(tr(M)(A), A @ M.T, 1e-14) and ref.close(tr(M)(np.insert(x, 3, 1.0, -1))[..., :3], x @ M[:3, :3].T + M[:3, 3], 1e-14), 'calling a transformation (huge)')
        return
    e = case['tiny']
    pts = sp.gen((5, 4), 3)
    pts[:, 3] = np.abs(pts[:, 3]) + 0.5
    for s in (1, -1):
        v = s * e
        # every entry of the matrix, relative to itself
        want = np.identity(4)
        want[0, 1], want[1, 0] = -np.sin(v), np.sin(v)
        want[0, 0] = want[1, 1] = np.cos(v)
        if e < 1e100:
            _rel(ctx, tr().rotate(v), want, 'rotation by a tiny angle', v)
            _rel(ctx, tr().rotate(v, 2), want, 'rotation by a tiny angle', v)
            w = np.identity(4)
            w[1, 2], w[2, 1] = -np.sin(v), np.sin(v)
            w[1, 1] = w[2, 2] = np.cos(v)
            _rel(ctx, tr().rotate(v, (1, 0, 0)), w, 'rotation by a tiny angle', v)
        for d in (v, [v, 2.0, v]):
            w = np.diag(list(d if isinstance(d, list) else [d] * 3) + [1.0])
            _rel(ctx, tr().scale(d), w, 'scaling by a tiny or immense factor', v)
            o = lib.build([2, 1], [sp.clamped(2, (1,)), sp.clamped(1, (1,))], 1, 0)
            A = lib.hom(o)
            o.scale(d)
            ctx.check(np.allclose(lib.hom(o), A @ w.T, rtol=1e-14, atol=0), 'scaling an object by a tiny or immense factor', factor=v)
            w = np.identity(4)
            w[:3, 3] = d if isinstance(d, list) else [d, 0, 0]
            _rel(ctx, tr().translate(d), w, 'tiny or immense displacement', v)
        ctx.trans(8), ctx.trace(), ctx.state((case, s))


def _rel(ctx, t, want, what, v):
    M = np.asarray(t.matrix)
    ctx.check(np.all(np.abs(M - want) <= 1e-13 * np.abs(want) + 1e-300), what, value=v, got=M)


def p10_cases():
    for i in range(len(NETS)):
        yield dict(kind='huge', of=i)
    for e in (1e-6, 1e-8, 3e-9, 1e-10, 1e-12, 1e-13, 1e-16, 1e-20, 1e-100, 1e100, 1e20):
        yield dict(kind='huge', tiny=e)


# ---- duplicates ------------------------------------------------------------

def p29(case, ctx):
    import copy
    import pickle
    degs, shape = NETS[case['of']]
    shape = tuple(shape)
    K = [uniform(p, n) for p, n in zip(degs, shape)]
    P, W, X = sp.gen(shape + (3,), 1), sp.weights(shape, 1), sp.gen(shape + (case['nf'],), 2)
    H = np.concatenate([P * W[..., None], W[..., None]], -1)
    N = lib.N()
    o = N([np.array(U) for U in K], (P, W), X)
    ctx.distinct(case), ctx.ev()
    dups = [('itself', o), ('copy', o.copy()), ('clone', o.clone()), ('deepcopy', copy.deepcopy(o)), ('pickle', pickle.loads(pickle.dumps(o)))]
    for what, d in dups[1:] + dups[:1]:
        ctx.check(d.shape == shape and all(list(U) == V for U, V in zip(d.knots, K)), 'structure (huge)', dup=what)
        ctx.check(near(lib.hom(d)[..., :4], H, 1e-15) and near(d.points, P, 1e-14) and near(d.weights, W, 0) and near(d.fields, X, 1e-14), 'contents (huge)', dup=what)
        if what in ('copy', 'deepcopy', 'pickle'):
            ctx.check(not np.shares_memory(d.array, o.array) and not any(np.shares_memory(a, b) for a, b in zip(d.knots, o.knots)), 'a duplicate shares memory (huge)', dup=what)
            d.array[...] = 3
            for U in d.knots:
                U[...] = 0


def p29_cases():
    for i in range(len(NETS)):
        for nf in (1, 7):
            yield dict(kind='huge', of=i, nf=nf)
