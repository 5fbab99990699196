"""Builders and oracles shared by the check modules (public API of igakit only)."""
import itertools

import numpy as np

from . import ref
from . import spaces as sp


def N():
    from igakit.nurbs import NURBS
    return NURBS


def ncp(p, U):
    return len(U) - p - 1


NET = None      # special control net for the objects of the current case (set by the driver)
NETS = ('near', 'nearer', 'const', 'lone', 'axis', 'flat', 'line', 'still', 'nil', 'pairs', 'closed', 'ints', 'wsmall', 'wbig', 'fnil', 'fconst', 'small', 'big')


def nets(but=()):
    return tuple(k for k in NETS if k not in but)


FLOORS = {'small': 1e-9}


def dress(C, kind):
    """Control nets that a shortcut may single out."""
    C = np.array(C)
    P, w = C[..., :3] / C[..., 3:], C[..., 3].copy()
    if kind == 'near':
        w = 1 + 4e-6 * sp.gen(w.shape, 3)
    elif kind == 'nearer':
        w = 1 + 4e-8 * sp.gen(w.shape, 3)
    elif kind == 'const':
        w[...] = 0.75
    elif kind == 'lone':
        w[...] = 1
        w.flat[w.size // 2] = 2.0
    elif kind == 'axis':
        w = w[(slice(None),) + (slice(0, 1),) * (w.ndim - 1)] * np.ones(w.shape)
    elif kind == 'flat':
        P[..., 2] = 0
    elif kind == 'line':
        P[..., 1:] = 0
    elif kind == 'still':
        P[...] = [1, 0, 2]
    elif kind == 'nil':
        P[...] = 0
    elif kind == 'pairs':
        P[1], w[1] = P[0], w[0]
    elif kind == 'closed':
        P[-1], w[-1] = P[0], w[0]
    elif kind == 'ints':
        P, w = np.rint(P * 3), np.rint(w * 2) + 1
    elif kind == 'wsmall':
        w *= 1e-8
    elif kind == 'wbig':
        w *= 1e8
    elif kind == 'small':
        P *= 1e-9
    elif kind == 'big':
        P *= 1e6
    elif kind not in ('fnil', 'fconst'):
        raise ValueError(kind)
    return np.concatenate([P * w[..., None], w[..., None]], -1)


def build(degs, knots, wkind=1, nf=0, key=0):
    """Real object with generic control points; fields: nf columns or 'I' (identity)."""
    shape = tuple(ncp(p, U) for p, U in zip(degs, knots))
    if nf == 'I':
        C, _ = sp.net(shape, wkind, 0, key)
        n = int(np.prod(shape))
        F = np.eye(n).reshape(shape + (n,))
    else:
        C, F = sp.net(shape, wkind, nf, key)
    if NET:
        C = dress(C, NET)
        if F is not None and nf != 'I':
            F = F * 0 if NET == 'fnil' else F * 0 + 0.5 if NET == 'fconst' else F
    arrays = [np.array(U, dtype='d') for U in knots]
    if key % 4 != 3:        # directions with equal knots have one and the same array
        arrays = [next(B for B in arrays if np.array_equal(A, B)) if np.isfinite(A).all() else A for A in arrays]
    nrb = N()(arrays, C, F)
    assert tuple(nrb.degree) == tuple(degs)
    return nrb


def hom(nrb):
    return np.array(nrb.array, dtype='d')


def snap(nrb):
    """Observable state of an object, as bytes."""
    return (tuple(np.array(U).tobytes() for U in nrb.knots),
            tuple(nrb.shape), np.ascontiguousarray(nrb.array).tobytes())


def structure(nrb):
    return (tuple(int(x) for x in nrb.degree),
            tuple(tuple(float(v) for v in U) for U in nrb.knots))


def wellformed(nrb, ctx, what=''):
    """Structural invariants every object must satisfy."""
    dim = len(nrb.knots)
    ctx.check(nrb.dim == dim, what + ': dim')
    A = np.asarray(nrb.array)
    ctx.check(A.ndim == dim + 1 and A.shape[-1] >= 4, what + ': array rank', shape=A.shape)
    ctx.check(A.dtype == np.dtype('d'), what + ': dtype')
    for ax, U in enumerate(nrb.knots):
        U = np.asarray(U)
        p = nrb.degree[ax]
        ctx.check(U.ndim == 1 and p >= 1, what + ': degree', axis=ax, p=p)
        ctx.check(len(U) == A.shape[ax] + p + 1, what + ': knot count', axis=ax)
        ctx.check(np.all(np.isfinite(U)), what + ': non-finite knot', axis=ax, U=U)
        ctx.check(np.all(np.diff(U) >= 0), what + ': knots decrease', axis=ax, U=U)
        ctx.check(U[p] < U[-p - 1], what + ': empty domain', axis=ax, U=U)
    ctx.check(np.all(np.isfinite(A)), what + ': non-finite control')
    ctx.check(tuple(nrb.shape) == A.shape[:-1], what + ': shape')


def points_for(degs, knots, npts=None):
    return [ref.per_span_points(p, U, npts) for p, U in zip(degs, knots)]


def geom_at(nrb, params):
    """Reference evaluation of the object's control net: homogeneous values."""
    return ref.tensor(nrb.degree, nrb.knots, hom(nrb), params)


def cart(H):
    w = H[..., 3:4]
    return np.concatenate([H[..., :3] / w, H[..., 4:] / w], axis=-1)


def same_geometry(ctx, what, got, want, tol=1e-9, **detail):
    """Cartesian comparison of two homogeneous evaluations, same sampling."""
    a, b = cart(got), cart(want)
    if not ref.close(a, b, tol):
        ctx.fail(what + ': geometry differs', err=ref.err(a, b), **detail)


def same_knots(ctx, what, U, V, tol=0.0, knots_axis=None, **detail):
    U, V = np.asarray(U, 'd'), np.asarray(V, 'd')
    if U.shape != V.shape or (len(U) and np.abs(U - V).max() > tol):
        ctx.fail(what + ': knots', got=U, want=V, knots_axis=knots_axis, **detail)


def call(nrb, params, fields=True):
    out = nrb(*params, fields=fields)
    return out


def eval_own(nrb, params):
    """The object's own evaluation: points and fields, concatenated."""
    P, F = nrb(*params, fields=True)
    return np.concatenate([P, F], axis=-1)


def raises(f, *a, **k):
    """True when the call raises an ordinary exception."""
    try:
        f(*a, **k)
    except Exception:
        return True
    return False
