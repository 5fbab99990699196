"""Every form of the arguments of an operation gives what the plain form gives."""
import itertools
import numpy as np
from . import lib

# knots and values are binary fractions: exact in every type
KNOTS = [(2, [0, 0, 0, 1, 2, 2, 3, 3, 3]), (1, [-1, 0, 1, 1.5, 2, 3]), (3, [1, 1, 1, 1, 2.5, 4, 4, 4, 4])]


def integer(i, dim=None, side=False):
    out = [np.int64(i), np.int32(i), np.intp(i)]
    if dim:
        out += [i - dim, np.int64(i - dim), np.int32(i - dim)]
    if side:
        out += [bool(i)]
    return out


def real(x):
    x = float(x)
    return [np.float64(x), np.float32(x), np.array(x), np.array(x, dtype='f')] + ([int(x), np.int64(x), np.array(int(x))] if x == int(x) else [])


def several(v):
    a = np.array(v, dtype='d')
    s = np.zeros(2 * a.size)
    s[::2] = a
    r = a.copy()
    r.flags.writeable = False
    out = [tuple(v), a, a[::-1], list(v)[::-1], a.astype('f'), a[:, None], s[::2], r, a.astype('>f8'), [np.float64(x) for x in v]]
    if all(x == int(x) for x in v):
        out += [[int(x) for x in v], a.astype('i'), a.astype('l')]
    if len(v) == 1:
        out += [v[0], np.float64(v[0]), np.array(v[0])]
    return out


def many(axes, dim):
    return [list(axes), np.array(axes), np.array(axes, dtype='i'), [a - dim for a in axes], tuple(np.int64(a) for a in axes), np.array(axes) - dim]


def vector(v):
    a = np.array(v, dtype='d')
    r = a.copy()
    r.flags.writeable = False
    s = np.zeros(2 * a.size)
    s[::2] = a
    out = [list(v), tuple(v), a, a.astype('f'), s[::2], r, a.astype('>f8'), [np.float64(x) for x in v]]
    if all(x == int(x) for x in v):
        out += [[int(x) for x in v], tuple(int(x) for x in v), a.astype('i'), a.astype('l')]
    return out


def forms(kind, value, dim):
    return {'first': lambda: integer(value), 'space': lambda: integer(value, 3), 'vec': lambda: vector(value), 'counts': lambda: counts(value), 'limits': lambda: [tuple(map(tuple, value)), np.array(value), np.array(value, dtype='f'), [np.array(x) for x in value], np.asfortranarray(value)],
            'flags': lambda: [tuple(value), np.array(value), [int(x) for x in value], [np.bool_(x) for x in value]], 'matrix': lambda: [value.tolist(), value.astype('f'), np.asfortranarray(value), value.astype('>f8'), value.T.copy().T],
            'axis': lambda: integer(value, dim), 'side': lambda: integer(value, side=True), 'n': lambda: integer(value), 'x': lambda: real(value),
            'xs': lambda: several(value), 'axes': lambda: many(value, dim), 'dev': lambda: real(value)}[kind]()


def partner(o):
    """Another object over the same domain."""
    return o.clone().elevate(0, 1)


def extrude(o, *args, **kw):
    from igakit import cad
    return cad.extrude(o, *args, **kw)


def compat(o, axes):
    from igakit import cad
    return [x for q in cad.compat(o, partner(o), axes=axes) for x in flat(q)]


def refine_(o, factor=None, degree=None, continuity=None):
    from igakit import cad
    return cad.refine(o, factor, degree, continuity)


def grid_(o, shape, degree, continuity, limits, wrap):
    from igakit import cad
    return cad.grid(shape, degree, continuity, limits, wrap)


def counts(v):
    """Sequences of integers, one per direction."""
    a = np.array(v)
    return [list(v), tuple(v), a, a.astype('i'), tuple(np.int32(x) for x in v), a.astype('>i4'), np.repeat(a, 2)[::2]]


def join(o, axis):
    from igakit import cad
    return cad.join(o, o.clone().reverse(int(axis)), axis)


def calls(which, o):
    """(method, ((keyword, kind, value), ...))"""
    dim = o.dim
    for ax in range(dim):
        A = ('axis', 'axis', ax)
        p, U = o.degree[ax], o.knots[ax]
        a, b = float(U[p]), float(U[-p - 1])
        br = [x for x in np.unique(U) if a < x < b]
        mid, old = (a + br[0]) / 2, float(br[0])
        if which == 'P04':
            yield 'insert', (A, ('value', 'x', mid))
            yield 'insert', (A, ('value', 'x', mid), ('times', 'n', 1))
            yield 'insert', (A, ('value', 'x', old), ('times', 'n', p - int(np.sum(U == old))))
            yield 'refine', (A, ('values', 'xs', [mid]))
            yield 'refine', (A, ('values', 'xs', sorted([mid, a + 0.875 * (b - a)] + [float(br[0])] * (p - int(np.sum(U == old))))))
        elif which == 'P05':
            for d in (2.0, 1024.0):
                yield 'remove', (A, ('value', 'x', old), ('times', 'n', 1), ('deviation', 'dev', d))
            yield 'remove', (A, ('value', 'x', float(br[-1])))
        elif which == 'P06':
            yield 'elevate', (A,)
            yield 'elevate', (A, ('times', 'n', 2))
            yield 'elevate', (A, ('times', 'n', 0))
        elif which == 'P07':
            yield 'clamp', (A,)
            yield 'unclamp', (A,)
            for s in (0, 1):
                yield 'clamp', (A, ('side', 'side', s))
                yield 'unclamp', (A, ('side', 'side', s))
                for C in range(p):
                    yield 'unclamp', (A, ('side', 'side', s), ('continuity', 'n', C))
        elif which == 'P08':
            for x, y in ((mid, b), (a, old), (mid, float(br[-1]) + 0.25)):
                yield 'slice', (A, ('start', 'x', x), ('end', 'x', y))
            for x in (a, b, mid, old):
                yield 'extract', (A, ('value', 'x', x))
            for s in (0, 1):
                yield 'boundary', (A, ('side', 'side', s))
        elif which == 'P09':
            yield 'remap', (A, ('start', 'x', 2.0), ('end', 'x', 7.0))
            yield 'remap', (A, ('start', 'x', -0.5), ('end', 'x', 0.75))
            for bx in range(dim):
                yield 'swap', (('axis1', 'axis', ax), ('axis2', 'axis', bx))
            yield 'reverse', ((None, 'axis', ax),)
        elif which == 'P16' and dim < 3:
            for v in ([1.0, 2.0, -3.0], [0.5, 2.0], [2.5], [3.0]):
                yield extrude, (('displ', 'vec', v),)
            for x in (2.0, 0.25):
                yield extrude, (('displ', 'x', x),)
                for k in range(3):
                    yield extrude, (('displ', 'x', x), ('axis', 'space', k))
        elif which == 'P17':
            yield compat, (('axes', 'axis', ax),)
        elif which == 'P18':
            yield join, (('axis', 'first', ax),)
        elif which == 'P25':
            for f in ('breaks', 'spans', 'greville', 'lagrange', 'lobatto'):
                yield f, (A,)
            yield 'breaks', (A, ('mults', 'side', 1))
            yield 'breaks', (A, ('mults', 'side', 0))
    if which == 'P19':
        for f in (1, 3):
            for d in (3, 4):
                for c in (-1, 0, 2):
                    yield refine_, (('factor', 'n', f), ('degree', 'n', d), ('continuity', 'n', c))
        k = range(dim)
        yield refine_, (('factor', 'counts', [2 + i for i in k]), ('degree', 'counts', [3 + i for i in k]), ('continuity', 'counts', [i - 1 for i in k]))
        yield grid_, (('shape', 'counts', [2 + i for i in k]), ('degree', 'counts', [1 + i for i in k]), ('continuity', 'counts', [-1 if i else 0 for i in k]),
                      ('limits', 'limits', [[-1.0, 2.5 + i] for i in k]), ('wrap', 'flags', [bool(i % 2) for i in k]))
        yield grid_, (('shape', 'counts', [3] * dim), ('degree', 'n', 3), ('continuity', 'n', 1), ('limits', 'limits', [[0.5, 2.0]] * dim), ('wrap', 'side', 1))
    if which == 'P17':
        for n in range(1, dim + 1):
            for axes in itertools.permutations(range(dim), n):
                yield compat, (('axes', 'axes', axes),)
    if which == 'P10':
        for f, V, X in (('translate', ([1.0, -2.0, 3.0], [0.5, 0.25], [4.0]), (2.0, 0.5)), ('move', ([1.0, -2.0, 3.0],), (2.0,)),
                        ('scale', ([1.0, -2.0, 3.0], [0.5, 0.25], [4.0]), (2.0, 0.5)), ('rotate', (), (1.0, -0.75))):
            for v in V:
                yield f, ((None, 'vec', v),)
            for x in X:
                yield f, ((None, 'x', x),)
                for k in range(3):
                    yield f, ((None, 'x', x), ('axis', 'space', k))
                    if f == 'rotate':
                        for v in ([1.0, -2.0, 2.0], [0.5, 0.25], [4.0]):
                            yield f, ((None, 'x', x), ('axis', 'vec', v))
        M = np.arange(16.0).reshape(4, 4) / 4
        M[3] = 0, 0, 0, 1
        yield 'transform', (('trans', 'matrix', M),)
    if which == 'P09':
        for axes in itertools.permutations(range(dim)):
            yield 'transpose', (('axes', 'axes', axes),)
        for axes in itertools.permutations(range(dim), 2):
            yield 'reverse', ((None, 'axis', axes[0]), (None, 'axis', axes[1]))


def flat(r):
    if hasattr(r, 'knots'):
        return [np.array(U) for U in r.knots] + [lib.hom(r)]
    return [np.asarray(x) for x in (r if isinstance(r, (tuple, list)) else [r])]


def cases():
    for d in (1, 2, 3):
        for t in itertools.permutations(range(3), d):
            yield dict(kind='args', objs=list(t))


def run(which, case, ctx):
    t = case['objs']
    o = lib.build([KNOTS[i][0] for i in t], [[float(x) for x in KNOTS[i][1]] for i in t], 1, 1)
    for name, spec in calls(which, o):
        plain = [v for _, _, v in spec]
        call = (lambda x, *a, **k: getattr(x, name)(*a, **k)) if isinstance(name, str) else name
        want = flat(call(o.clone(), *plain))
        for i, (kw, kind, value) in enumerate(spec):
            trials = [(plain[:i] + [f] + plain[i + 1:], {}, f) for f in forms(kind, value, o.dim)]
            if i == 0:
                named = all(k is not None for k, _, _ in spec)
                alt = [forms(k, v, o.dim)[0] for _, k, v in spec]
                trials.append((alt, {}, 'all'))
                if named:
                    trials.append(([], {k: v for k, _, v in spec}, 'keywords'))
                    trials += [(plain[:j], {k: v for k, _, v in spec[j:]}, 'last by keyword') for j in range(1, len(spec))]
            for args, kws, f in trials:
                x = o.clone()
                try:
                    got = flat(call(x, *args, **kws))
                except Exception as e:
                    ctx.fail('a form of the arguments is refused', op=getattr(name, '__name__', name), plain=plain, argument=kw, form=repr(f), type=type(f).__name__, error=repr(e))
                ctx.ev()
                ok = len(got) == len(want) and all(g.shape == w.shape and np.allclose(g, w, rtol=1e-9, atol=1e-9) for g, w in zip(got, want))
                ctx.check(ok, 'the result depends on the form of the arguments', op=getattr(name, '__name__', name), plain=plain, argument=kw, form=repr(f), type=type(f).__name__)
        ctx.state((which, getattr(name, '__name__', name), tuple(t), repr(plain)))
