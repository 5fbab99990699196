"""Every accepted form of a parameter argument: number, sequence, array of any layout, or omitted."""
import itertools
import math
import numpy as np
from . import ref

NAMES = ('float', 'zero-d', 'numpy', 'int', 'list', 'tuple', 'one', 'int32', 'float32', 'reversed', 'strided', 'readonly', 'column', 'bigendian', 'none')


def make(name, p, U, greville):
    """(argument, values, is it a number); None when the form has no value in this domain."""
    a, b = ref.domain(p, U)
    x = np.array([a + (b - a) * t for t in (0.625, 0.0, 0.25, 1.0, 0.25)])
    x = np.clip(x, a, b)
    v = float(x[0])
    ints = [i for i in range(math.ceil(a), math.ceil(a) + 3) if a <= i <= b] if abs(a) < 1e6 else []
    if name == 'float':
        return v, [v], True
    if name == 'zero-d':
        return np.array(v), [v], True
    if name == 'numpy':
        return np.float64(x[2]), [x[2]], True
    if name == 'int':
        return (ints[-1], [float(ints[-1])], True) if ints else None
    if name == 'list':
        return x.tolist(), x, False
    if name == 'tuple':
        return tuple(x[:2].tolist()), x[:2], False
    if name == 'one':
        return [v], [v], False
    if name == 'int32':
        return (np.array(ints, 'i4'), np.array(ints, 'd'), False) if ints else None
    if name == 'float32':
        y = x[:3].astype('f')
        if np.any(y.astype('d') < a) or np.any(y.astype('d') > b):
            return None
        return y, y.astype('d'), False
    if name == 'reversed':
        return x[::-1], x[::-1].copy(), False
    if name == 'strided':
        y = np.full(2 * len(x), 1e9)
        y[::2] = x
        return y[::2], x, False
    if name == 'readonly':
        y = x.copy()
        y.setflags(write=False)
        return y, x, False
    if name == 'column':
        return np.asfortranarray(np.stack([x, x * 0], 1))[:, 0], x, False
    if name == 'bigendian':
        return x.astype('>f8'), x, False
    g = np.array(greville)
    return (None, g, False) if np.all((g >= a) & (g <= b)) else None


def combos(dim):
    """All tuples in one direction, all pairs in two, a covering set in three (every pair in every two directions)."""
    n = len(NAMES)
    if dim < 3:
        return itertools.product(NAMES, repeat=dim)
    return ((NAMES[i], NAMES[j], NAMES[(i + 2 * j) % n]) for i in range(n) for j in range(n))


def arguments(nrb, names):
    """(arguments, values per direction, index that drops the axes of numbers), or None."""
    made = [make(nm, p, list(map(float, U)), [sum(U[i + 1:i + p + 1]) / p for i in range(len(U) - p - 1)])
            for nm, p, U in zip(names, nrb.degree, nrb.knots)]
    if any(m is None for m in made):
        return None
    return [m[0] for m in made], [m[1] for m in made], tuple(0 if m[2] else slice(None) for m in made)
