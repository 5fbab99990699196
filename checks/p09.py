"""Reversal, remapping and axis permutation only reparametrise the object."""
import itertools
import numpy as np
from mc import ref, spaces as sp, lib, large, args as argforms
from checks.p01 import alpha, twins

ID = 'P09'
NETS = (3, lib.NETS)
LEVEL = 'model_checking'
RULE = ('complete closure of the group generated by every reversal and axis permutation (2^d d! states per object), '
        'explored breadth-first on the real code, followed by every remapping of every axis from every group state '
        'sampled at depth <=1; each state is compared with the axis-permutation/flip model of the original map')
BOUNDS = {'quick': 'curves: degree<=4 alphabet; surfaces 10x10, volumes 5^3; 8 remaps per axis; special control nets in turn, large objects, every form of the arguments',
          'thorough': 'curves: degree<=6; surfaces 26x26, volumes 11^3; 14 remaps per axis; special control nets in turn, large objects, every form of the arguments'}
TOL = 1e-10


def cases(tier):
    yield from large.cases()
    yield from argforms.cases()
    if tier == 'quick':
        space = list(sp.knot_vectors(4, 1, ('third', 'large'), ('c', 'u', 'l', 'r'))) + \
            list(sp.knot_vectors(3, 2, ('off', 'neg'), ('c', 'u'))) + list(sp.knot_vectors(2, 2, ('tiny', 'huge'), ('c', 'u')))
        k2, k3 = 10, 5
    else:
        space = list(sp.knot_vectors(6, 1, ('third', 'large', 'small'), ('c', 'u', 'l', 'r'))) + \
            list(sp.knot_vectors(4, 3, ('off', 'neg'), ('c',))) + list(sp.knot_vectors(3, 2, tuple(sp.EMBED), ('c', 'u')))
        k2, k3 = 26, 11
    space += sp.all_words(tier) + sp.broken_words(tier)[::2]
    for p, U in space:
        yield dict(degs=[p], knots=[list(U)])
    for p, U in ulp_knots(tier):
        yield dict(degs=[p], knots=[list(U)], ulp=True)
    for (p, U), (q, V) in itertools.product(alpha(k2), repeat=2):
        yield dict(degs=[p, q], knots=[list(U), list(V)])
    for t in itertools.chain(itertools.product(alpha(k3), repeat=3), twins()):
        yield dict(degs=[p for p, U in t], knots=[list(U) for p, U in t])


ENDS = [-1 / 3, 0.0, 0.1, 0.2, 0.3, 2 / 3, 0.7, 1.0, 1.3, 1.9, 4.0, 1e10 / 3]


def ulp_knots(tier):
    """Knots one float inside, and outside, of the ends of the domain: rounding must not move them across."""
    for a, b in itertools.combinations(ENDS if tier == 'thorough' else ENDS[:3] + ENDS[4:7] + ENDS[-3:], 2):
        la, lb = float(np.nextafter(a, b)), float(np.nextafter(b, a))
        oa, ob = float(np.nextafter(a, -1e99)), float(np.nextafter(b, 1e99))
        for p in (1, 2, 3):
            for inner in ([la], [lb], [la, lb], [la] * p):
                yield p, [a] * (p + 1) + inner + [b] * (p + 1)
                yield p, [oa] * p + [a] + inner + [b] + [ob] * p


def mirrored(p, U):
    a, b = ref.domain(p, U)
    return np.array([a + b - x for x in U][::-1])


def gens(dim):
    g = [('reverse', ())]
    for k in range(1, dim + 1):
        for axes in itertools.combinations(range(dim), k):
            g.append(('reverse', axes))
    g.append(('reverse', (-1,)))
    for perm in itertools.permutations(range(dim)):
        g.append(('transpose', perm))
        g.append(('transpose', tuple(i - dim for i in perm)))      # counted from the end
        g.append(('transpose', tuple(i - dim * (i % 2) for i in perm)))
        g.append(('transpose', tuple(i - dim * (1 - i % 2) for i in perm)))
    g.append(('transpose', None))
    for i, j in itertools.product(range(-dim, dim), repeat=2):
        if dim > 1 and i < j:
            g.append(('swap', (i, j)))
    return g


def model(state, op):
    """state: tuple of (original axis, flipped)."""
    k, a = op
    s = list(state)
    d = len(s)
    if k == 'reverse':
        for i in (a or range(d)):
            s[i] = (s[i][0], not s[i][1])
    elif k == 'transpose':
        perm = tuple(range(d))[::-1] if a is None else [i % d for i in a]
        s = [s[i] for i in perm]
    else:
        i, j = a[0] % d, a[1] % d
        s[i], s[j] = s[j], s[i]
    return tuple(s)


def apply(r, op):
    k, a = op
    if k == 'reverse':
        return r.reverse(*a)
    if k == 'transpose':
        return r.transpose() if a is None else r.transpose(a)
    return r.swap(*a)


def verify(ctx, what, r, state, case, maps, base, pts, slack=0.0, **det):
    """maps: per current axis, (c,d) the current domain; pts: original parameters."""
    degs, knots = case['degs'], case['knots']
    lib.wellformed(r, ctx, what)
    want_deg = tuple(degs[i] for i, f in state)
    ctx.check(tuple(r.degree) == want_deg, what + ': degree', **det)
    params = []
    for j, (i, f) in enumerate(state):
        a, b = ref.domain(degs[i], knots[i])
        c, d = maps[j]
        K = np.array(knots[i]) if not f else mirrored(degs[i], knots[i])
        K = c + (K - a) * ((d - c) / (b - a))
        s = max(1.0, np.abs(K).max(), abs(a), abs(b)) 
        lib.same_knots(ctx, what, r.knots[j], K, max(slack, 1e-13 * s * max(1.0, (d - c) / (b - a))), knots_axis=j, **det)
        ctx.check(ref.domain(want_deg[j], r.knots[j]) == (c, d), what + ': domain', got=ref.domain(want_deg[j], r.knots[j]), want=(c, d), **det)
        t = pts[i] if not f else (a + b) - pts[i]
        t = np.clip(t, a, b)
        t = c + (t - a) * ((d - c) / (b - a))
        params.append(np.clip(t, c, d))
    want = np.transpose(base, [i for i, f in state] + [len(state)])
    own = lib.eval_own(r, params)
    if not ref.close(own, lib.cart(want), 1e-9):
        ctx.fail(what + ': geometry differs', err=ref.err(own, lib.cart(want)), **det)
    ctx.trace()


def run(case, ctx):
    if case.get('kind') == 'args':
        return argforms.run(ID, case, ctx)
    if case.get('kind') == 'large':
        return large.p09(case, ctx)
    degs, knots = case['degs'], case['knots']
    dim = len(degs)
    init = lib.build(degs, knots, 1, 2)
    n = {1: 4, 2: 2, 3: 1}[dim]
    pts = [ref.per_span_points(p, U, n, ends=False) for p, U in zip(degs, knots)]
    if case.get('ulp'):
        # the map jumps across a span of one float: it is compared in the other spans
        pts = [x[[bool(np.diff(ref.domain(p, U))[0] * 0.01 < x_ - ref.domain(p, U)[0] < np.diff(ref.domain(p, U))[0] * 0.99) for x_ in x]] for x, p, U in zip(pts, degs, knots)]
    base = lib.geom_at(init, pts)
    dom = [ref.domain(p, U) for p, U in zip(degs, knots)]
    start = tuple((i, False) for i in range(dim))
    seen = {start}
    ctx.state((case, start))
    frontier = [(init, start, [])]
    G = gens(dim)
    depth = 0
    while frontier:
        nxt = []
        for nrb, st, hist in frontier:
            for op in G:
                r = nrb.clone()
                r2 = apply(r, op)
                ctx.trans()
                ctx.check(r2 is r, op[0] + ' does not return the object')
                ns = model(st, op)
                verify(ctx, op[0], r, ns, case, [dom[i] for i, f in ns], base, pts, history=hist + [op])
                if ns not in seen:
                    seen.add(ns)
                    ctx.state((case, ns))
                    nxt.append((r, ns, hist + [op]))
        frontier = nxt
        depth += 1
    ctx.check(len(seen) == (2 ** dim) * [1, 1, 2, 6][dim], 'group closure incomplete', states=len(seen))
    # remapping from the initial and the fully reversed state
    rev = tuple((i, True) for i in range(dim))
    for st, obj in ((start, init), (rev, init.clone().reverse())):
        for ax in range(dim):
            a, b = dom[ax]
            targets = [(0.0, 1.0), (-2, 2), (None, b + 3.5), (a - 0.7, None), (0.1, 0.7), (1e3, 1e3 + 1.25), (None, None), (a, b), (a, b + (b - a) * 2e-10), (a - (b - a) * 1e-9, b), (a + (b - a) * 3e-10, b + (b - a) * 3e-10),
                       (a, float(np.nextafter(b, np.inf))), (float(np.nextafter(a, -np.inf)), b)]
            if dim > 1 and ctx.tier == 'quick':
                targets = targets[:8] + targets[8 + (ax + len(knots[0])) % 5:][:1]
            if ctx.tier == 'thorough':
                targets += [(1 / 3, 2 / 3), (-1e-3, 1e-3), (a + (b - a) / 3, b), (a, a + (b - a) / 7), (-100.1, -99.9),
                            (float(np.nextafter(a, b)), b)]
            for c, d in targets:
                r = obj.clone()
                r2 = r.remap(ax - dim if c == 0.0 else ax, c, d)
                ctx.trans()
                ctx.check(r2 is r, 'remap does not return the object')
                C = a if c is None else float(c)
                D = b if d is None else float(d)
                maps = list(dom)
                maps[ax] = (C, D)
                verify(ctx, 'remap', r, st, case, maps, base, pts, axis=ax, target=(c, d))
                ctx.state((case, st, ax, C, D))
                back = r.clone().remap(ax, a, b)
                ctx.trans()
                verify(ctx, 'remap back', back, st, case, dom, base, pts,
                       slack=1e-15 * max(abs(C), abs(D)) * (b - a) / (D - C), axis=ax, target=(c, d))
    ctx.sample(dict(case=case, group=len(seen), depth=depth))
