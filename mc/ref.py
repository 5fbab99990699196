"""Reference model: B-splines straight from their textbook definition.

Nothing here is shared with igakit: bases come from the Cox-de Boor recursion
over *all* basis functions, derivatives from the derivative recursion, rational
objects from the general Leibniz rule on multi-indices.
"""
import itertools
from functools import lru_cache
from math import comb

import numpy as np


def span(p, U, u):
    """Index k of the non-empty span [U[k],U[k+1]) that owns u (last one at the end)."""
    n = len(U) - p - 2
    if u >= U[n + 1]:
        k = n
        while k > p and not U[k] < U[n + 1]:
            k -= 1
        return k
    k = p
    while k < n and not (U[k] <= u < U[k + 1]):
        k += 1
    return k


def _basis_rows(p, U, u, order, k=None):
    """N[r][i] = r-th derivative of N_{i,p} at u, r = 0..order."""
    m = len(U) - 1
    if k is None:
        k = span(p, U, u)
    # tables T[q][r][i] for degree q
    N = [0.0] * m
    N[k] = 1.0
    T = [N]            # derivatives available for degree 0: only order 0
    for q in range(1, p + 1):
        new = []
        for r in range(0, order + 1):
            row = [0.0] * (m - q)
            if r == 0:
                low = T[0]
                for i in range(max(0, k - q), min(m - q, k + 1)):
                    v = 0.0
                    d = U[i + q] - U[i]
                    if d > 0 and low[i] != 0.0:
                        v += (u - U[i]) / d * low[i]
                    d = U[i + q + 1] - U[i + 1]
                    if d > 0 and low[i + 1] != 0.0:
                        v += (U[i + q + 1] - u) / d * low[i + 1]
                    row[i] = v
            elif r <= q:
                low = T[r - 1]
                for i in range(max(0, k - q), min(m - q, k + 1)):
                    v = 0.0
                    d = U[i + q] - U[i]
                    if d > 0:
                        v += q * low[i] / d
                    d = U[i + q + 1] - U[i + 1]
                    if d > 0:
                        v -= q * low[i + 1] / d
                    row[i] = v
            new.append(row)
        T = new
    if p == 0:
        T = [N] + [[0.0] * m] * order
    return T


@lru_cache(maxsize=4096)
def _basis_cached(p, U, us, order):
    out = np.zeros((order + 1, len(us), len(U) - p - 1))
    for j, u in enumerate(us):
        rows = _basis_rows(p, U, u, order)
        for r in range(order + 1):
            out[r, j, :] = rows[r]
    out.setflags(write=False)
    return out


def basis(p, U, u, order=0):
    """Array (order+1, npts, n) of basis derivatives."""
    U = tuple(float(x) for x in U)
    us = tuple(float(x) for x in np.ravel(u))
    return _basis_cached(int(p), U, us, int(order))


def tensor(degs, knots, H, params, alpha=None):
    """Partial derivative `alpha` of sum N.. H at the tensor grid of `params`.

    H has shape (n1,..,nd,k); the result (m1,..,md,k)."""
    dim = len(degs)
    alpha = alpha or (0,) * dim
    R = np.asarray(H, dtype='d')
    for ax in range(dim):
        B = basis(degs[ax], knots[ax], params[ax], max(alpha[ax], 0))[alpha[ax]]
        R = np.moveaxis(np.tensordot(B, R, axes=(1, ax)), 0, ax)
    return R


def multi(dim, order):
    return [a for a in itertools.product(range(order + 1), repeat=dim) if sum(a) <= order]


def _mcomb(a, b):
    r = 1
    for x, y in zip(a, b):
        r *= comb(x, y)
    return r


def rational_ders(degs, knots, w, F, params, order):
    """{alpha: derivative} of sum(N w F)/sum(N w) at the tensor grid, |alpha| <= order."""
    dim = len(degs)
    H = np.concatenate([w[..., None], w[..., None] * F], axis=-1)
    hom = {a: tensor(degs, knots, H, params, a) for a in multi(dim, order)}
    zero = (0,) * dim
    W0 = hom[zero][..., :1]
    out = {}
    for a in sorted(hom, key=sum):
        acc = hom[a][..., 1:].copy()
        for b in itertools.product(*[range(x + 1) for x in a]):
            if sum(b) == 0:
                continue
            c = tuple(x - y for x, y in zip(a, b))
            acc -= _mcomb(a, b) * hom[b][..., :1] * out[c]
        out[a] = acc / W0
    return out


def evaluate(degs, knots, hom, params):
    """Rational evaluation of homogeneous control (x,y,z,w,fields...). -> (points, fields)"""
    R = tensor(degs, knots, hom, params)
    w = R[..., 3:4]
    return R[..., :3] / w, R[..., 4:] / w


# ---- knot-vector model -------------------------------------------------

def domain(p, U):
    return float(U[p]), float(U[len(U) - p - 1])


def breaks(p, U):
    a, b = domain(p, U)
    return sorted({float(x) for x in U if a <= x <= b})


def mult(U, x):
    return sum(1 for v in U if v == x)


def per_span_points(p, U, npts=None, ends=True):
    """Points that decide polynomial identity of degree npts-1 on every span."""
    npts = npts or p + 1
    bs = breaks(p, U)
    pts = []
    for a, b in zip(bs[:-1], bs[1:]):
        for j in range(npts):
            t = (j + 0.5) / npts
            pts.append(a + (b - a) * t)
    if ends:
        pts += bs
    return np.array(sorted(pts))


class Model:
    """Abstract object: degrees, knots, homogeneous control net (numpy)."""

    def __init__(self, degs, knots, hom):
        self.degs = tuple(int(p) for p in degs)
        self.knots = tuple(np.array(U, dtype='d') for U in knots)
        self.hom = np.array(hom, dtype='d')

    @classmethod
    def of(cls, nrb):
        return cls(nrb.degree, nrb.knots, nrb.array)

    @property
    def dim(self):
        return len(self.degs)

    def points(self, npts=None):
        return [per_span_points(p, U, npts) for p, U in zip(self.degs, self.knots)]

    def at(self, params):
        return tensor(self.degs, self.knots, self.hom, params)

    def cart(self, params):
        return evaluate(self.degs, self.knots, self.hom, params)


FLOOR = 1.0     # values below are compared absolutely


def close(a, b, tol, scale=None):
    a = np.asarray(a, dtype='d')
    b = np.asarray(b, dtype='d')
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    s = scale if scale is not None else max(FLOOR, float(np.abs(b).max()))
    return float(np.abs(a - b).max()) <= tol * s


def err(a, b):
    a = np.asarray(a, dtype='d')
    b = np.asarray(b, dtype='d')
    if a.shape != b.shape:
        return 'shape %s != %s' % (a.shape, b.shape)
    if a.size == 0:
        return 0.0
    return float(np.abs(a - b).max())
