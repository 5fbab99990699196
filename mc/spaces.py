"""Bounded alphabets: knot vectors, parameter values, control nets."""
import itertools
import numpy as np

# embeddings of break indices 0..b+1 into parameter values
EMBED = {
    'int':    lambda i, n: float(i),
    'unit':   lambda i, n: i / float(n),
    'nonuni': lambda i, n: float(i * i + i) / 2.0 - 1.0,
    'third':  lambda i, n: (i * i + 2 * i) / 3.0 + 0.1,
    'neg':    lambda i, n: -7.3 + 0.7 * i + 0.05 * i * i,
    'small':  lambda i, n: 1e-3 * (i + 0.3 * (i % 2)),
    'large':  lambda i, n: 1e3 + 37.0 * i + (i % 3),
    'off':    lambda i, n: 5.0 + i * 0.1 + 0.03 * (i % 2),
    'tiny':   lambda i, n: 1e-11 * (i + 0.3 * (i % 2)),
    'huge':   lambda i, n: 1e10 * (i + 0.25 * (i % 3)) - 3e9,
}


def clamped(p, mults, embed='int'):
    n = len(mults) + 1
    f = EMBED[embed]
    U = [f(0, n)] * (p + 1)
    for i, s in enumerate(mults):
        U += [f(i + 1, n)] * s
    U += [f(n, n)] * (p + 1)
    return U


def open_ends(U, p, left, right, gap=None):
    """Replace the outer p knots by distinct ones (a generic unclamped vector).

    left/right: multiplicity of the end value that remains (p+1 = clamped)."""
    U = list(U)
    a, b = U[p], U[-p - 1]
    h = (b - a) * 0.37 if gap is None else gap
    if left <= p:
        for j, i in enumerate(range(p - left, -1, -1)):
            U[i] = a - h * (j + 1) * (1 + 0.125 * j)
    if right <= p:
        m = len(U) - 1
        for j, i in enumerate(range(m - p + left * 0 + right, m + 1)):
            U[i] = b + h * (j + 1) * (1 + 0.2 * j)
    return U


def mult_patterns(p, nb, maxm=None):
    maxm = p if maxm is None else min(p, maxm)
    return itertools.product(range(1, maxm + 1), repeat=nb)


def knot_vectors(pmax, bmax, embeds=('int',), ends=('c',), pmin=1, maxm=None):
    """Yield (p, tuple(U)).  ends: 'c' clamped, 'u' fully unclamped (all end mults),
    'l' / 'r' one-sided."""
    for p in range(pmin, pmax + 1):
        for nb in range(0, bmax + 1):
            for ms in mult_patterns(p, nb, maxm):
                for e in embeds:
                    U = clamped(p, ms, e)
                    for end in ends:
                        if end == 'c':
                            yield p, tuple(U)
                        elif end == 'u':
                            for l in range(1, p + 1):
                                for r in range(1, p + 1):
                                    yield p, tuple(open_ends(U, p, l, r))
                        elif end == 'l':
                            for l in range(1, p + 1):
                                yield p, tuple(open_ends(U, p, l, p + 1))
                        elif end == 'r':
                            for r in range(1, p + 1):
                                yield p, tuple(open_ends(U, p, p + 1, r))


def words(p, extra, embed='int'):
    """Every knot word of length 2p+2..2p+2+extra: all multiplicities <= p wherever the values lie, p+1 at a clamped end.

    Includes what clamped() and open_ends() do not: values repeated across the ends of the domain."""
    f = EMBED[embed]
    def comps(n, first):
        if n == 0:
            yield ()
            return
        for k in range(1, min(n, p + 1) + 1):
            if k == p + 1 and not (first or n == k):
                continue
            for rest in comps(n - k, False):
                yield (k,) + rest
    for L in range(2 * p + 2, 2 * p + 3 + extra):
        for c in comps(L, True):
            if len(c) < 2:
                continue
            idx = [j for j, k in enumerate(c) for _ in range(k)]
            if idx[p] < idx[L - p - 1]:
                n = len(c) - 1
                yield p, [f(j, n) for j in idx]


def wild_words(p, extra, embed='third', first=None):
    """Every knot word of length 2p+2..2p+2+extra with a multiplicity that words() does not have: discontinuities and points without support."""
    f = EMBED[embed]
    for L in range(first or 2 * p + 2, 2 * p + 3 + extra):
        for bits in itertools.product((0, 1), repeat=L - 1):
            idx = [0]
            for b in bits:
                idx.append(idx[-1] + b)
            if idx[p] == idx[L - p - 1]:
                continue
            c = [idx.count(k) for k in range(idx[-1] + 1)]
            if max(c) <= p + 1 and all(k <= p for k in c[1:-1]):
                continue
            yield p, [f(j, idx[-1]) for j in idx]


def broken_words(tier, embed='third'):
    """Words with a discontinuity: an interior value repeated p+1 times, the others at most p times (p+1 at the ends)."""
    ex = {1: 3, 2: 2, 3: 0} if tier == 'quick' else {1: 4, 2: 3, 3: 2, 4: 0}
    out = []
    for p, e in ex.items():
        for L in range(3 * p + 3, 3 * p + 4 + e):
            for _, U in wild_words(p, L - 2 * p - 2, embed, L):
                inner = [U.count(x) for x in set(U) if U[p] < x < U[-p - 1]]
                if inner and max(inner) == p + 1 and max(U.count(x) for x in U) == p + 1:
                    out.append((p, tuple(U)))
    return out


def proper_words(tier, embed='third', small=False):
    """Words whose first and last span are not empty (the end values may repeat outside the domain only)."""
    ex = ({1: 2, 2: 2} if small else {1: 3, 2: 2, 3: 1}) if tier == 'quick' else {1: 4, 2: 4, 3: 2, 4: 1}
    return [(p, tuple(U)) for p, e in ex.items() for _, U in words(p, e, embed) if U[p] < U[p + 1] and U[-p - 2] < U[-p - 1]]


def all_words(tier, embed='third'):
    ex = {1: 3, 2: 3, 3: 2} if tier == 'quick' else {1: 4, 2: 4, 3: 3, 4: 1}
    return [(p, tuple(U)) for p, e in ex.items() for _, U in words(p, e, embed)]


def params(p, U, extra=True):
    """Decisive parameter values: every break, points inside every span, ulp neighbours."""
    from . import ref
    bs = ref.breaks(p, U)
    out = []
    for a, b in zip(bs[:-1], bs[1:]):
        out += [a, a + (b - a) * 0.25, a + (b - a) * 0.5, a + (b - a) * 0.8125]
        if extra:
            out += [float(np.nextafter(a, b)), float(np.nextafter(b, a))]
    out.append(bs[-1])
    return out


def gen(shape, key=0):
    """Deterministic generic values in (-1.5, 1.5), no symmetry, no repeats."""
    n = int(np.prod(shape)) if shape else 1
    i = np.arange(1, n + 1, dtype='d')
    x = np.modf(np.abs(np.sin(i * 12.9898 + key * 78.233)) * 43758.5453)[0]
    return (x * 3 - 1.5).reshape(shape)


def weights(shape, kind=1):
    """kind 0: all ones; 1: generic positive in [0.5, 2]; 2: strongly varying."""
    if kind == 0:
        return np.ones(shape)
    g = (gen(shape, 5 + kind) + 1.5) / 3.0
    if kind == 1:
        return 0.5 + 1.5 * g
    return 10.0 ** (2 * g - 1)


def net(shape, wkind=1, nf=0, key=0):
    """Homogeneous control net (x,y,z,w) + optional fields (cartesian)."""
    P = gen(tuple(shape) + (3,), key)
    w = weights(tuple(shape), wkind)
    C = np.concatenate([P * w[..., None], w[..., None]], axis=-1)
    F = gen(tuple(shape) + (nf,), key + 17) if nf else None
    return C, F


def layouts(A):
    """The same values in every memory layout an array may have."""
    A = np.asarray(A)
    out = [A, np.array(A, order='F')]
    if A.ndim:
        B = np.full(tuple(2 * n for n in A.shape), 77, A.dtype)[tuple(slice(None, None, 2) for _ in A.shape)]
        B[...] = A
        out.append(B)
        B = np.array(A[tuple(slice(None, None, -1) for _ in A.shape)])[tuple(slice(None, None, -1) for _ in A.shape)]
        out.append(B)
    out.append(A.astype(A.dtype.newbyteorder('>')))
    B = np.array(A)
    B.setflags(write=False)
    out.append(B)
    out.append(np.rollaxis(np.ascontiguousarray(np.rollaxis(A, -1)), 0, A.ndim) if A.ndim else A)
    assert all(np.array_equal(B, A) for B in out)
    return out
