"""Revolution: every point of the section moves on its circle about the axis line."""
import itertools
import math
import numpy as np
from mc import ref, spaces as sp, lib, large

ID = 'P15'
NETS = (3, lib.NETS)
LEVEL = 'exploration'
RULE = ('every (axis form and direction, point form, angle form) x (section: curves and surfaces with rational weights, '
        'repeated knots, unclamped ends, points on the axis) of the alphabet; each result is compared with the reference '
        'rotation of the section by the angle that the unit arc has at the same parameter; non-trivial: the axis is not a '
        'coordinate axis through the origin')
BOUNDS = {'quick': '36 axes x 6 points x 12 angles x 3 sections (surfaces: 1/6 of the angles); points on the axis, and units of 1e-8 and 1e8: 1/5 of them; special control nets in turn, large objects; objects with discontinuities or points without support',
          'thorough': '60 axes x 8 points x 26 angles x 9 sections; special control nets in turn, large objects; objects with discontinuities or points without support'}

PI = math.pi


def axes(tier):
    out = [0, 1, 2, np.array(1), 2.0]
    out += [list(map(float, v)) for v in itertools.product((-1, 0, 1), repeat=3) if any(v)]
    out += [(0, 2.5), [3.0], (1, -2), np.array([0.3, -2, 5]), (0, 0, -7), (1e-3, 0, 1), (0, 1e-3, -1), (1e-4, -1e-4, -1),
            (1e-8, 0, 1), (-1e-7, 2e-7, -3), (0, 4e-9, -1), (1e-12, 0, 5), (1, 1e-9, 0), (1, 1, 1e-9)]
    if tier == 'thorough':
        out += [tuple(sp.gen((3,), k)) for k in range(20)]
    return out


POINTS = [0, 1.5, (2, -1), [0.5, 1, -3], np.array([4.0]), (0, 0, 0), (-100.0, 50, 3), np.zeros(3)]


def angles(tier):
    out = [None, PI / 2, PI, 2 * PI, -PI / 3, (0.5, 2.0), [1.0, -3.0], (None, 4.0), (1.0, None), 3.0, (-4.0, 2.0), 0.1]
    if tier == 'thorough':
        out += [k * PI / 6 for k in range(-12, 13) if k and k % 3] + [1e-3, (100.0, 101.0)]
    return out


def sections(tier):
    c, u = sp.clamped, sp.open_ends
    out = [([2], [c(2, (1,), 'unit')], 1), ([3], [u(c(3, (2,), 'off'), 3, 1, 2)], 1),
           ([2, 1], [c(2, (1,), 'nonuni'), u(c(1, (1,), 'neg'), 1, 1, 1)], 1)]
    out += [([2], [c(2, (3,), 'off')], 1)]      # a jump
    if tier == 'thorough':
        out += [([1], [c(1, ())], 0), ([4], [c(4, (4, 2), 'third')], 2), ([1, 3], [c(1, (1, 1)), c(3, (), 'off')], 0),
                ([2, 2], [u(c(2, (1,)), 2, 2, 3), c(2, (2,), 'large')], 2), ([5], [c(5, (1,), 'small')], 1),
                ([2], [u(c(2, (), 'int'), 2, 1, 1)], 0)]
    return out


def cases(tier):
    yield from large.cases([*large.C1, *large.C2])
    for i in range(len(sections(tier))):
        for j in range(len(axes(tier))):
            yield dict(section=i, axis=j)


def vec(c):
    v = np.zeros(3)
    c = np.ravel(np.asarray(c, 'd'))
    v[:c.size] = c
    return v


def rodrigues(k, th):
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(th) * K + (1 - math.cos(th)) * (K @ K)


def arc_angles(angle, t):
    """Angles of the unit arc at the parameters t: by construction of the arc (breaks) and its symmetric spans."""
    if angle is None:
        a, b = 0.0, 2 * PI
    elif isinstance(angle, (tuple, list)):
        a, b = angle
        a = 0.0 if a is None else a
        b = 2 * PI if b is None else b
    else:
        a, b = 0.0, angle
    return a + (b - a) * np.asarray(t), a, b


def run(case, ctx):
    from igakit.cad import revolve
    if case.get('kind') == 'large':
        return large.p15(case, ctx, revolve, rodrigues, vec)
    degs, knots, wk = sections(ctx.tier)[case['section']]
    axis = axes(ctx.tier)[case['axis']]
    if np.ndim(axis) == 0:
        k = np.zeros(3)
        k[int(axis)] = 1
    else:
        k = vec(axis)
        k = k / np.linalg.norm(k)
    params = lib.points_for(degs, knots, 3)
    for variant in (0, 1, 2, 3, 4):
        for ip, pt in enumerate(POINTS[:6] if ctx.tier == 'quick' else POINTS):
            p = vec(pt)
            for ia, ang in enumerate(angles(ctx.tier)):
                if ctx.tier == 'quick' and len(degs) == 2 and (ip + ia) % 6:
                    continue
                if variant and (ip + ia + variant) % 5:
                    continue
                unit = (1.0, 1.0, 1e-8, 1e8, 1.0)[variant]        # the same model in small and large units
                if unit != 1.0:
                    pt, p = np.asarray(POINTS[ip], 'd') * unit, vec(POINTS[ip]) * unit
                else:
                    pt, p = POINTS[ip], vec(POINTS[ip])
                nrb = lib.build(degs, knots, wk, 1)
                if unit != 1.0:
                    nrb.array[..., :3] *= unit
                if variant == 4:
                    # control points very close to the axis line
                    A = nrb.array
                    flat = A.reshape(-1, A.shape[-1])
                    e = np.cross(k, [0.3, -0.5, 0.8])
                    n = np.arange(1, len(flat) + 1)[:, None]
                    flat[:, :3] = (p + k * (5.0 * n) + 1e-7 * (e * np.cos(n) + np.cross(k, e) * np.sin(n))) * flat[:, 3:4]
                if variant == 1:
                    # put some control points on the axis line, others far away
                    A = nrb.array
                    flat = A.reshape(-1, A.shape[-1])
                    flat[::2, :3] = (p + k * np.arange(1, len(flat[::2]) + 1)[:, None] * 0.7) * flat[::2, 3:4]
                S = revolve(nrb, pt, axis, ang)
                ctx.ev()
                if np.any(p) or np.ndim(axis):
                    ctx.distinct((case, ip, ia, variant))
                lib.wellformed(S, ctx, 'revolve')
                ctx.check(S.dim == nrb.dim + 1, 'dim')
                for i in range(nrb.dim):
                    lib.same_knots(ctx, 'section direction', S.knots[i], nrb.knots[i], knots_axis=i)
                U = S.knots[-1]
                q = S.degree[-1]
                ctx.check(ref.domain(q, U) == (0.0, 1.0), 'arc domain')
                bs = ref.breaks(q, U)
                t = np.unique(np.concatenate([[a, 0.5 * (a + b), b] for a, b in zip(bs, bs[1:])]))
                th, a, b = arc_angles(ang, t)
                C = lib.cart(lib.geom_at(nrb, params))[..., :3]
                want = np.stack([(C - p) @ rodrigues(k, x).T + p for x in th], axis=-2)
                got = S(*(params + [t]))
                sc = max(1.0 if unit == 1.0 else 0.0, np.abs(want).max(), np.abs(p).max())
                if not ref.close(got, want, 3e-11, sc):
                    ctx.fail('revolved point is not the rotated point', err=ref.err(got, want), unit=unit, axis=axis, point=pt, angle=ang)
                # strictly between the breaks: on the circle, same height
                t2 = np.concatenate([a + (b - a) * np.array([0.2, 0.7]) for a, b in zip(bs, bs[1:])])
                got = S(*(params + [t2]))
                d0, d1 = (C - p)[..., None, :], got - p
                h0, h1 = d0 @ k, d1 @ k
                r0 = np.linalg.norm(d0 - h0[..., None] * k, axis=-1)
                r1 = np.linalg.norm(d1 - h1[..., None] * k, axis=-1)
                ctx.check(np.abs(h0 - h1).max() <= 3e-11 * sc and np.abs(r0 - r1).max() <= 1e-10 * sc,
                          'revolved point leaves its circle', axis=axis, point=pt, angle=ang)
    ctx.sample(dict(axis=axis, section=[degs, knots]))
