"""Circles and arcs are exact."""
import itertools
import math
import numpy as np
from mc import ref, spaces as sp, lib

ID = 'P14'
LEVEL = 'exploration'
RULE = ('every (radius, center form, start angle, sweep, argument form) of the alphabet: sweeps are all multiples of pi/24 in '
        '[-2pi, 2pi] except 0 plus the floating neighbours of the quadrant boundaries and tiny sweeps; every point sampled '
        'densely in every span must be at the radius, in the plane, at the prescribed angles; non-trivial: any arc other '
        'than the default circle')
BOUNDS = {'quick': '5 radii x 6 centers x 9 starts x 80 sweeps (argument forms: all that name the arc)',
          'thorough': '8 radii x 8 centers x 24 starts x 130 sweeps'}
ASSUMPTIONS = ['sweep is not zero and not more than a full turn']

PI = math.pi


def sweeps(tier):
    n = 24 if tier == 'quick' else 48
    out = []
    for k in range(1, 2 * n + 1):
        out += [k * PI / n, -k * PI / n]
    for q in (PI / 2, PI, 3 * PI / 2):
        out += [float(np.nextafter(q, 0)), float(np.nextafter(q, 9)), -float(np.nextafter(q, 0)), -float(np.nextafter(q, 9)), q * (1 + 1e-9), q * (1 - 1e-9)]
    for e in (1e-3, 1e-6, 1e-9, 1e-12):
        out += [2 * PI - e, e - 2 * PI]
    out += [1e-3, -1e-3, 1e-6, float(np.nextafter(2 * PI, 0))]
    return out


def starts(tier):
    n = 9 if tier == 'quick' else 24
    return [0.0] + [(-1) ** k * k * 0.7853981633974483 * (1 + (k % 3) * 0.37) for k in range(1, n)]


def cases(tier):
    yield dict(kind='full')
    for s in sweeps(tier):
        for a in starts(tier):
            yield dict(kind='arc', start=a, sweep=s)


RADII = [1, 0.3, 2.5, 1000.0, 1e-3, 7, 1e6, 3e-6]
CENTERS = [None, 2, [1.0], (1, -2), [0.5, 2, -3], np.array([1e2, -1e2, 50.0]), np.array(-1.5), (0, 0, 4)]


def vec(c):
    v = np.zeros(3)
    if c is not None:
        c = np.ravel(np.asarray(c, 'd'))
        v[:c.size] = c
    return v


def verify(ctx, crv, r, c, start, sweep, what):
    ctx.ev()
    ctx.check(crv.dim == 1, 'dim')
    lib.wellformed(crv, ctx, what)
    U = crv.knots[0]
    p = crv.degree[0]
    ctx.check(ref.domain(p, U) == (0.0, 1.0), 'domain is not [0,1]', what=what)
    c = vec(c)
    s = max(r, np.abs(c).max())
    bs = ref.breaks(p, U)
    n = len(bs) - 1
    ctx.check(np.allclose(bs, np.linspace(0, 1, n + 1), rtol=0, atol=1e-14), 'breaks are not uniform', breaks=bs)
    t = np.unique(np.concatenate([np.linspace(a, b, 9) for a, b in zip(bs, bs[1:])]))
    P = crv(t)
    d = P - c
    ctx.check(np.abs(np.hypot(d[:, 0], d[:, 1]) - r).max() <= 1e-12 * s + 1e-13 * r, 'points are not at the radius', what=what,
              err=np.abs(np.hypot(d[:, 0], d[:, 1]) - r).max())
    ctx.check(np.abs(d[:, 2]).max() <= 1e-13 * s, 'points leave the plane', what=what)
    ctx.check(np.all(crv.weights > 0), 'weights are not positive', what=what)
    # prescribed angle at the ends, at the breaks and (by symmetry) in the middle of the spans
    for j, tt in enumerate(t):
        if j % 4 == 0:
            th = start + sweep * tt
            w = c + r * np.array([math.cos(th), math.sin(th), 0])
            ctx.check(np.abs(P[j] - w).max() <= 2e-12 * s + 1e-12 * r * max(1, abs(start)), 'point at the wrong angle', what=what, at=tt, got=P[j], want=w)
    # between them the angle moves in the direction of the sweep
    ang = np.array([math.atan2(v[1], v[0]) for v in d])
    step = np.diff(ang)
    step = (step + PI) % (2 * PI) - PI
    tot = step.sum()
    noise = 1e-10 * s / r + 1e-9 * abs(sweep)
    if s / r < 1e4 and abs(sweep) > 1e-2:
        ctx.check(abs(tot - sweep) < 1e-9 * max(1, s / r), 'total turn differs from the sweep', what=what, got=tot, want=sweep)
        ctx.check(np.all(step * np.sign(sweep) > 0), 'direction is not monotone', what=what)


def run(case, ctx):
    from igakit.cad import circle
    quick = ctx.tier == 'quick'
    if case['kind'] == 'full':
        for r in RADII:
            for c in CENTERS:
                for what, crv in (('circle(r,c)', circle(r, c)), ('circle(keywords)', circle(radius=r, center=c)),
                                  ('angle None', circle(r, c, None)), ('angle (None,None)', circle(r, c, (None, None))),
                                  ('angle 2pi', circle(r, c, 2 * PI))):
                    verify(ctx, crv, float(r), c, 0.0, 2 * PI, what)
                    ctx.distinct((what, r, repr(c)))
        verify(ctx, circle(), 1.0, None, 0.0, 2 * PI, 'default')
        return
    a, s = case['start'], case['sweep']
    for r in RADII[:5] if quick else RADII:
        for c in CENTERS[:6] if quick else CENTERS:
            crv = circle(r, c, (a, a + s))
            verify(ctx, crv, float(r), c, a, (a + s) - a, 'tuple')
            ctx.distinct((r, repr(c), a, s))
            if a == 0.0:
                verify(ctx, circle(r, c, s), float(r), c, 0.0, s, 'scalar')
                verify(ctx, circle(r, c, (None, s)), float(r), c, 0.0, s, '(None, end)')
            if r == 1:
                verify(ctx, circle(radius=r, center=c, angle=[a, a + s]), 1.0, c, a, (a + s) - a, 'list')
                e = 2 * PI - a
                if 0 < abs(e) <= 2 * PI:
                    verify(ctx, circle(r, c, (a, None)), 1.0, c, a, e, '(start, None)')
    ctx.sample(dict(start=a, sweep=s))
