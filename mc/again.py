"""Nothing remembered from before an operation, or a write on the arrays, may show in what is observed after it."""
import numpy as np
from . import lib, opset, ref


def value_of(nrb):
    """Another object of the same value, with no history."""
    A = np.array(nrb.array)
    w = A[..., 3:4]
    n = lib.N()([np.array(U) for U in nrb.knots], np.ascontiguousarray(A[..., :4]),
                A[..., 4:] / w if A.shape[-1] > 4 else None)
    # fields go through a product and a quotient: restore the exact bytes
    n.array[...] = A
    return n


def writes(dim):
    def values(o):
        o.array[..., :3] += 0.5 * o.array[..., 3:4]

    def weights(o):
        o.array[...] *= 1.25

    def field(o):
        o.array[..., -1] *= -0.5

    def length(o):
        for U in o.knots:
            U[...] = 2 * U + 0.5

    def place(o):
        for p, U in zip(o.degree, o.knots):
            b = ref.breaks(p, U)
            if len(b) > 2:
                U[U == b[1]] = 0.5 * (b[1] + b[2])
    return [(f.__name__ + '=', f) for f in (values, weights, field, length, place)]


def remembered(ctx, make, observe, what, depth=1):
    """make() -> object; observe(object) -> comparable.  Every operation, and every pair when depth is 2."""
    o = make()
    ops = opset.inplace(o.dim) + writes(o.dim)

    def go(t, hist, left):
        for name, f in ops:
            u = t()
            observe(u)
            try:
                f(u)
            except Exception:
                continue
            ctx.trans()
            h = hist + [name]
            if observe(u) != observe(value_of(u)):
                ctx.fail(what + ' after an operation depends on what was done before it', history=h)
                continue
            if left > 1:
                def again(t=t, f=f):
                    x = t()
                    observe(x)
                    f(x)
                    return x
                go(again, h, left - 1)
    go(make, [], depth)
