"""Any sequence of operations: the object stays well formed and equals the composed model."""
import itertools
import numpy as np
from mc import ref, spaces as sp, lib
from checks import p04, p07, p09

ID = 'P11'
NETS = (3, lib.NETS)
LEVEL = 'model_checking'
RULE = ('breadth-first exploration of all operation sequences up to the depth over {insert, refine, remove, elevate, '
        'clamp, unclamp, reverse, remap, slice, extract, transpose, swap, translate, scale, rotate, copy, clone} x '
        'axis x small arguments, on the real code; a state is (axis map, knots, affine map); every transition is '
        'compared with an abstract model (knot algebra + reparametrisation + matrix) of the initial map; sequences are explored by '
        'cloning at each step (merging equal states) and, over a smaller alphabet, in place on one object (without merging)')
BOUNDS = {'quick': 'curves depth 3, surfaces depth 2, volumes depth 2 (reduced alphabet beyond depth 1); in place: depth 3; special control nets in turn; objects with discontinuities or points without support',
          'thorough': 'curves depth 4, surfaces depth 3, volumes depth 2 (full alphabet); in place: depth 5, 4, 3; special control nets in turn; objects with discontinuities or points without support'}
ASSUMPTIONS = ['elevate and unclamp are explored only from states whose distinct knots are at least 1e-6 of the largest gap apart (see the finding listed for P06); the skipped transitions are counted']
CASE_TIMEOUT = 900


def initials():
    return [
        ([2], [sp.clamped(2, (1,), 'unit')]),
        ([3], [sp.clamped(3, (2, 1), 'third')]),
        ([2], [sp.open_ends(sp.clamped(2, (1,), 'off'), 2, 1, 1)]),
        ([1], [sp.clamped(1, (1,), 'nonuni')]),
        ([3], [sp.open_ends(sp.clamped(3, (), 'int'), 3, 2, 1)]),
        ([2, 1], [sp.clamped(2, (1,), 'unit'), sp.clamped(1, (), 'int')]),
        ([1, 2], [sp.clamped(1, (1,), 'off'), sp.open_ends(sp.clamped(2, (1,), 'int'), 2, 1, 2)]),
        ([2, 1, 1], [sp.clamped(2, (), 'unit'), sp.clamped(1, (1,), 'int'), sp.clamped(1, (), 'off')]),
        # one knot array in both directions
        ([2, 2], [sp.clamped(2, (1,), 'off')] * 2),
        # discontinuities
        ([2], [sp.clamped(2, (3, 1), 'off')]),
        ([1, 2], [sp.clamped(1, (2,), 'unit'), sp.open_ends(sp.clamped(2, (3,), 'int'), 2, 1, 2)]),
    ]


class St:
    """Abstract state."""
    __slots__ = ('degs', 'knots', 'src', 'fixed', 'A', 'hist', 'ess')

    def __init__(self, degs, knots):
        self.degs = list(degs)
        self.knots = [list(map(float, U)) for U in knots]
        # per current axis: (original axis, alpha, beta): u = alpha + beta*t
        self.src = [(i, 0.0, 1.0) for i in range(len(degs))]
        self.fixed = {}
        self.A = np.identity(4)
        self.hist = []

    def copy(self):
        s = St.__new__(St)
        s.degs, s.knots = list(self.degs), [list(U) for U in self.knots]
        s.src, s.fixed, s.A = list(self.src), dict(self.fixed), self.A
        s.hist = list(self.hist)
        return s

    def key(self):
        return (tuple(self.degs), tuple(tuple(round(x, 9) for x in U) for U in self.knots),
                tuple((i, round(a, 9), round(b, 9)) for i, a, b in self.src),
                tuple(sorted((k, round(v, 9)) for k, v in self.fixed.items())),
                tuple(np.round(self.A, 9).ravel().tolist()))


def alphabet(s, rich):
    dim = len(s.degs)
    ops = []
    for ax in range(dim):
        p, U = s.degs[ax], s.knots[ax]
        bs = ref.breaks(p, U)
        a, b = bs[0], bs[-1]
        L = b - a
        mid = bs[0] + (bs[1] - bs[0]) * 0.5
        ops.append(('insert', ax, mid, 1))
        ops.append(('refine', ax, [bs[-2] + (b - bs[-2]) * 0.25, bs[-2] + (b - bs[-2]) * 0.75]))
        if len(bs) > 2:
            x = bs[1]
            ops.append(('remove', ax, x, None))
            if min(U.count(x), p) < p:
                ops.append(('insert', ax, x, 1))
        ops.append(('elevate', ax, 1))
        ops.append(('clamp', ax, None))
        ops.append(('unclamp', ax, None))
        ops.append(('reverse', ax))
        ops.append(('slice', ax, a + L * 0.25, b))
        ops.append(('slice', ax, a, mid))
        ops.append(('remap', ax, -1.0, 2.0))
        if rich:
            ops.append(('clamp', ax, 0))
            ops.append(('clamp', ax, 1))
            ops.append(('unclamp', ax, 1))
            ops.append(('unclamp', ax, 0))
            ops.append(('remap', ax, None, b + 0.7))
            ops.append(('insert', ax, a, 1))
            ops.append(('refine', ax, [b]))
            ops.append(('slice', ax, bs[-2], b))
        if dim > 1:
            ops.append(('extract', ax, a + L * 0.3))
            if rich:
                ops.append(('extract', ax, b))
    if dim > 1:
        ops.append(('transpose', None))
        ops.append(('swap', 0, dim - 1))
    if dim == 3:
        ops.append(('transpose', (1, 2, 0)))
    ops.append(('rotate', 0.7, (1, 2, -2)))
    if rich:
        ops += [('translate', [0.5, -1.25, 2.0]), ('scale', [2.0, 0.5, -1.0]), ('reverse_all',), ('copy',)]
    return ops


def live_alphabet(s):
    """For sequences on one and the same object."""
    dim = len(s.degs)
    keep = ('clamp', 'unclamp', 'reverse', 'remap', 'elevate', 'transpose', 'swap')
    ops = [o for o in alphabet(s, dim == 1) if o[0] in keep or dim < 3 and o[0] in ('insert', 'remove', 'refine')]
    if dim == 1:
        return ops
    if dim == 2:
        return ops + [('rotate', 0.7, (1, 2, -2))]
    return [o for o in ops if o[0] != 'remap' or o[1] == 0]


def close_knots(U):
    """Distinct knots a rounding error apart: elevation (P06) and the extrapolation of unclamp are
    ill-conditioned there, so both are left out of the alphabet of such a state."""
    g = [y - x for x, y in zip(U[:-1], U[1:]) if y > x]
    return min(g) < 1e-6 * max(g)


def step(nrb, s, op, ctx, clone=True):
    """Apply to the real object (a clone of it, or itself) and to the model.  None: not feasible."""
    k = op[0]
    t = s.copy()
    t.hist.append(op)
    r = nrb.clone() if clone else nrb
    # every other axis is counted from the end
    neg = lambda i: i - len(s.degs) if (len(t.hist) + i) % 2 else i
    if k in ('insert', 'refine'):
        ax = op[1]
        add = [op[2]] * op[3] if k == 'insert' else list(op[2])
        want = p04.expected(s.degs[ax], s.knots[ax], add)
        if want is None:
            return None
        t.knots[ax] = want
        out = r.insert(neg(ax), op[2], op[3]) if k == 'insert' else r.refine(neg(ax), op[2])
    elif k == 'remove':
        ax, v = op[1], op[2]
        out = r.remove(neg(ax), v, op[3])
        gone = len(s.knots[ax]) - len(r.knots[ax])
        m = sum(1 for x in s.knots[ax] if abs(x - v) == 0)
        ctx.check(0 <= gone <= m, 'remove: impossible number of knots removed', history=t.hist)
        for _ in range(gone):
            t.knots[ax].remove(v)
    elif k == 'elevate':
        ax, n = op[1], op[2]
        p, U = s.degs[ax], s.knots[ax]
        if close_knots(U):
            ctx.n('skipped_close_knots')
            return None
        out = r.elevate(neg(ax), n)
        t.degs[ax] = p + n
        a, b = ref.domain(p, U)
        inner = [x for x in U if a < x < b]
        inner = sorted(inner + list(set(inner)) * n)
        V = r.knots[ax].tolist()
        q = p + n
        # ends: only the domain is specified
        ctx.check(len(V) == r.shape[ax] + q + 1 and ref.domain(q, V) == (a, b), 'elevate: domain', history=t.hist)
        left = [x for x in V if x <= a]
        right = [x for x in V if x >= b]
        t.knots[ax] = left + inner + right
    elif k in ('clamp', 'unclamp'):
        ax, side = op[1], op[2]
        if k == 'unclamp' and close_knots(s.knots[ax]):
            ctx.n('skipped_close_knots')
            return None
        m = p07.model_clamp if k == 'clamp' else (lambda p, U, sd: p07.model_unclamp(p, U, sd, None))
        want = m(s.degs[ax], s.knots[ax], side)
        if any(x > y for x, y in zip(want, want[1:])):
            return None
        t.knots[ax] = want
        out = getattr(r, k)(neg(ax), side)
    elif k in ('reverse', 'reverse_all'):
        axes = [op[1]] if k == 'reverse' else range(len(s.degs))
        for ax in axes:
            p, U = s.degs[ax], s.knots[ax]
            a, b = ref.domain(p, U)
            V = [a + b - x for x in U][::-1]
            V = [a if y == b else b if y == a else x for x, y in zip(V, U[::-1])]
            t.knots[ax] = V
            i, al, be = s.src[ax]
            t.src[ax] = (i, al + be * (a + b), -be)
        out = r.reverse(*([neg(op[1])] if k == 'reverse' else []))
    elif k == 'remap':
        ax = op[1]
        p, U = s.degs[ax], s.knots[ax]
        a, b = ref.domain(p, U)
        c = a if op[2] is None else op[2]
        d = b if op[3] is None else op[3]
        f = (d - c) / (b - a)
        t.knots[ax] = [c if x == a else d if x == b else c + (x - a) * f for x in U]
        i, al, be = s.src[ax]
        t.src[ax] = (i, al + be * (a - c / f), be / f)
        out = r.remap(neg(ax), op[2], op[3])
    elif k == 'slice':
        ax = op[1]
        p, U = s.degs[ax], s.knots[ax]
        inner = [x for x in U if op[2] < x < op[3]]
        t.knots[ax] = [op[2]] * (p + 1) + inner + [op[3]] * (p + 1)
        r = r.slice(neg(ax), op[2], op[3])
        out = r
    elif k == 'extract':
        ax = op[1]
        i, al, be = s.src[ax]
        t.fixed[i] = al + be * op[2]
        del t.src[ax], t.degs[ax], t.knots[ax]
        r = r.extract(neg(ax), op[2])
        out = r
    elif k in ('transpose', 'swap'):
        dim = len(s.degs)
        if k == 'transpose':
            perm = tuple(range(dim))[::-1] if op[1] is None else op[1]
            out = r.transpose(op[1])
        else:
            perm = list(range(dim))
            perm[op[1]], perm[op[2]] = perm[op[2]], perm[op[1]]
            out = r.swap(neg(op[1]), neg(op[2]))
        t.degs = [s.degs[i] for i in perm]
        t.knots = [list(s.knots[i]) for i in perm]
        t.src = [s.src[i] for i in perm]
    elif k in ('translate', 'scale', 'rotate'):
        from checks.p10 import matrix
        t.A = matrix((k, tuple(op[1:]), {})) @ s.A
        out = getattr(r, k)(*op[1:])
    elif k == 'copy':
        out = r = r.copy()
    else:
        raise AssertionError(op)
    ctx.check(out is r, k + ' does not return the object', history=t.hist)
    return r, t


def verify(ctx, orig, nrb, s):
    lib.wellformed(nrb, ctx, 'after ' + str(s.hist[-1][0]))
    det = dict(history=s.hist)
    ctx.check(tuple(nrb.degree) == tuple(s.degs), 'degree', got=nrb.degree, want=s.degs, **det)
    params, opar = [], [None] * len(orig.degs)
    for i, v in s.fixed.items():
        lo, hi = ref.domain(orig.degs[i], orig.knots[i])
        opar[i] = np.array([min(max(v, lo), hi)])
    for j, (i, al, be) in enumerate(s.src):
        U = nrb.knots[j]
        sc = max(1.0, max(abs(x) for x in s.knots[j]))
        lib.same_knots(ctx, 'after ' + str(s.hist[-1][0]), U, s.knots[j], 1e-11 * sc, knots_axis=j, **det)
        a, b = ref.domain(s.degs[j], U)
        p = s.degs[j]
        n = {1: p + 1, 2: 2, 3: 1}[len(s.degs)]
        x = ref.per_span_points(p, U, n, ends=False)
        lo, hi = ref.domain(orig.degs[i], orig.knots[i])
        params.append(x)
        opar[i] = np.clip(al + be * x, lo, hi)
    want = ref.tensor(orig.degs, orig.knots, orig.hom, opar)
    # squeeze fixed axes, then order the axes as the object has them
    order = [i for i, al, be in s.src]
    keep = sorted(order)
    for i in sorted(s.fixed, reverse=True):
        want = np.take(want, 0, axis=i)
    want = np.transpose(want, [keep.index(i) for i in order] + [len(order)])
    want = lib.cart(want)
    want[..., :3] = want[..., :3] @ s.A[:3, :3].T + s.A[:3, 3]
    got = lib.eval_own(nrb, params)
    ctl = np.abs(lib.hom(nrb)).max()
    if not ref.close(got, want, 1e-9, max(1.0, np.abs(want).max(), 1e-3 * ctl)):
        ctx.fail('object differs from the model after %s' % s.hist[-1][0], err=ref.err(got, want), control=ctl, **det)
    ctx.trace()


class Orig:
    pass


def make(i):
    degs, knots = initials()[i]
    nrb = lib.build(degs, knots, 1, 1)
    o = Orig()
    o.degs, o.knots, o.hom = degs, knots, lib.hom(nrb)
    return nrb, o, St(degs, knots)


def cases(tier):
    for i, (degs, knots) in enumerate(initials()):
        s = St(degs, knots)
        for j in range(len(alphabet(s, True))):
            dim = len(degs)
            depth = {1: 4, 2: 2, 3: 2}[dim] if tier == 'quick' else {1: 5, 2: 3, 3: 3}[dim]
            yield dict(initial=i, first=j, depth=depth)
        for j in range(len(live_alphabet(s))):
            yield dict(initial=i, live=j, depth=3 if tier == 'quick' or dim == 3 else {1: 5, 2: 4}[dim])


def live(case, ctx):
    """All sequences made in place on one object (built anew for each sequence): no help from clones, no merging of states."""
    def replay(path):
        nrb, orig, s = make(case['initial'])
        for n, j in enumerate(path):
            if n:
                # the model follows the exact knots of the code, which verify() compared for every prefix
                s.knots = [U.tolist() for U in nrb.knots]
            ops = live_alphabet(s)
            if j >= len(ops):
                return None
            out = step(nrb, s, ops[j], ctx, clone=False)
            if out is None:
                return None
            nrb, s = out
        return nrb, orig, s, len(live_alphabet(s))

    def visit(path):
        got = replay(path)
        if got is None:
            return
        nrb, orig, s, n = got
        ctx.trans(len(path))
        verify(ctx, orig, nrb, s)
        ctx.state((case['initial'], tuple(path)))
        if len(path) < case['depth']:
            for j in range(n):
                visit(path + [j])
    visit([case['live']])


def run(case, ctx):
    if 'live' in case:
        return live(case, ctx)
    nrb, orig, s = make(case['initial'])
    rich = ctx.tier == 'thorough'
    seen = {}

    def visit(obj, st, op, depth):
        before = lib.snap(obj)
        out = step(obj, st, op, ctx)
        if out is None:
            return
        ctx.trans()
        r, t = out
        ctx.check(lib.snap(obj) == before, 'an operation on a clone changed the original', history=t.hist)
        # the model follows the exact knots of the code, within the tolerance checked here
        verify(ctx, orig, r, t)
        t.knots = [U.tolist() for U in r.knots]
        k = t.key()
        ctx.state((case['initial'], repr(k)))
        if seen.get(k, 0) >= depth or max(t.degs) > 6:
            return
        seen[k] = depth
        if depth > 1:
            for o in alphabet(t, rich and len(t.degs) < 3 and depth > 2 or len(t.degs) == 1 and depth == 3 or rich and len(t.degs) == 3):
                visit(r, t, o, depth - 1)
    op = alphabet(s, True)[case['first']]
    visit(nrb, s, op, case['depth'])
    ctx.sample(dict(initial=initials()[case['initial']], first=op, states=len(seen)))
