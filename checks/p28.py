"""Plots receive the true geometry; backend selection."""
import itertools
import os
import sys
import types
import numpy as np
from mc import ref, spaces as sp, lib
from mc import large, again
from checks import p01
from checks.p01 import IMP, TWINS

ID = 'P28'
NETS = (3, lib.NETS)
LEVEL = 'model_checking'
RULE = ('every object of the alphabet in every dimension x every plotting call x every subset of directions and drawing option, on the real '
        'plotter with a recording backend; every array received is compared with reference evaluation at uniformly spaced parameters that '
        'begin and end at the ends of the domain, and the set of lines/faces with the set the call is to draw; all sequences of backend '
        'selections (names, aliases, unknown, not installed) up to the depth against a model of the selection; the drawing code of both '
        'backends with recording canvases')
BOUNDS = {'quick': '14 curves, 6x6 surfaces, 3^3 volumes; drawings before and after every operation; selection sequences up to length 3; special control nets in turn; objects with discontinuities or points without support',
          'thorough': '40 curves, 14x14 surfaces, 5^3 volumes; drawings before and after every operation; selection sequences up to length 4; special control nets in turn; objects with discontinuities or points without support'}
TOL = 1e-10
NAMES = ['matplotlib', 'mpl', 'null', 'none', 'nul', 'bogus', 'mayavi', 'myv', 'Matplotlib', '']
os.environ.setdefault('MPLBACKEND', 'agg')


def table():
    return p01.table() + [(c[0], large.knots(*c)) for c in LARGE] + [(p, [x * k + b for x in U]) for p, U, k, b in SCALED]


LARGE = [(2, 300, 'c'), (9, 1, 'c'), (6, 37, 'u'), (2, 20, 'c'), (1, 27, 'u')]
# domains of extreme size, or far from the origin compared with their size
SCALED = [(2, [0, 0, 0, 1, 2, 2, 3, 4, 4, 4], 2.0 ** -40, 0.0), (3, [0, 0, 0, 0, 1, 2.5, 4, 4, 4, 4], 2.0 ** 40, -2.0 ** 39), (1, [0, 0, 1, 2, 3, 3], 2.0 ** -20, 2.0 ** 20),
          (2, [-1, 0, 1, 2, 3, 4, 5], 2.0 ** -60, 0.0)]


def cases(tier):
    q = tier == 'quick'
    for t in ([54], [55], [56], [57, 58], [58, 55], [0, 1, 58], [57, 1, 0]) + tuple([i] for i in IMP) + tuple([i, (41, 0, 43)[i % 3]] for i in IMP) + ([41, 43, 40], [59], [60], [61], [62], [59, 0], [60, 59], [2, 61], [62, 61], [59, 62, 1], [1, 61, 60]):
        yield dict(kind='plot', objs=t)
    for i in range(14 if q else 40):
        yield dict(kind='plot', objs=[i])
    for t in TWINS:
        yield dict(kind='plot', objs=list(t))
    for t in itertools.product(range(6 if q else 14), repeat=2):
        yield dict(kind='plot', objs=list(t))
    for t in itertools.product(range(3 if q else 5), repeat=3):
        yield dict(kind='plot', objs=list(t))
    for t in ([2], [3], [13], [0, 5], [2, 4], [1, 2, 0]) if q else [[i] for i in range(14)] + [[i, (i + 3) % 7] for i in range(7)] + [[i, 1, 2] for i in range(4)]:
        yield dict(kind='again', objs=t)
    for n in range(0, 4 if q else 5):
        for first in NAMES if n else ['']:
            yield dict(kind='select', n=n, first=first)
    yield dict(kind='default')
    yield dict(kind='data')
    for d in (1, 2, 3):
        for i in range(4):
            yield dict(kind='mpl', objs=[(i + 2 * j) % 6 for j in range(d)])
    yield dict(kind='myv')


class Recorder:
    """Replaces the drawing functions of the null backend."""
    def __init__(self):
        self.calls = []

    def __enter__(self):
        import igakit.plot_nul as m
        self.m = m
        self.saved = {k: getattr(m, k) for k in ('points3d', 'quiver3d', 'line3d', 'surf3d')}
        for k in self.saved:
            setattr(m, k, self.rec(k))
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(self.m, k, v)

    def rec(self, name):
        def f(*args, **kw):
            token = object()
            self.calls.append((name, args, kw, token))
            return token
        return f

    def take(self):
        c, self.calls = self.calls, []
        return c


def uniform(a, b, n):
    return a + (b - a) * np.arange(n) / (n - 1.0)


class Truth:
    def __init__(self, o):
        self.degs = list(o.degree)
        self.knots = [np.array(U) for U in o.knots]
        self.H = lib.hom(o)[..., :4]
        self.dom = [ref.domain(p, U) for p, U in zip(self.degs, self.knots)]
        self.br = [ref.breaks(p, U) for p, U in zip(self.degs, self.knots)]

    def at(self, params):
        full = [np.atleast_1d(x) for x in params]
        H = ref.tensor(self.degs, self.knots, self.H, full)
        P = H[..., :3] / H[..., 3:]
        idx = tuple(0 if np.ndim(x) == 0 else slice(None) for x in params)
        return P[idx]


def curve_of(L):
    """(x,y,z) as the backends receive it -> array in the order of the parameters."""
    return np.stack([np.asarray(c).T for c in L], -1)


def same(ctx, what, got, want, **k):
    ctx.ev()
    if not ref.close(got, want, TOL):
        ctx.fail(what, err=ref.err(got, want), **k)


def expected_curves(T, fixed=()):
    """Parameters of the boundary curves of an object, in any order: list of (axis, fixed values)."""
    dim = len(T.degs)
    out = []
    for ax in range(dim):
        others = [i for i in range(dim) if i != ax]
        for ends in itertools.product((0, 1), repeat=dim - 1):
            v = [None] * dim
            for i, e in zip(others, ends):
                v[i] = T.dom[i][e]
            out.append((ax, v))
    return out


def matchset(ctx, what, got, wants, mult=1):
    """got: arrays; wants: functions of the number of samples; every want drawn `mult` times, nothing else."""
    left = [mult] * len(wants)
    for g in got:
        for k, f in enumerate(wants):
            if left[k]:
                w = f(g.shape[:-1])
                if w is not None and ref.close(g, w, TOL):
                    left[k] -= 1
                    break
        else:
            ctx.fail(what + ': something else is drawn', shape=g.shape, first=g.reshape(-1, 3)[0])
            return
    ctx.ev(len(got))
    ctx.check(not any(left), what + ': not everything is drawn', missing=[k for k, n in enumerate(left) if n])


def line_fn(T, ax, fixed):
    def f(shape):
        if len(shape) != 1 or shape[0] < 2:
            return None
        return T.at([uniform(*T.dom[i], shape[0]) if i == ax else fixed[i] for i in range(len(T.degs))])
    return f


def face_fn(T, ax, value):
    def f(shape):
        if len(shape) != len(T.degs) - 1 or min(shape) < 2:
            return None
        s = list(shape)
        return T.at([value if i == ax else uniform(*T.dom[i], s.pop(0)) for i in range(len(T.degs))])
    return f


def whole_fn(T):
    def f(shape):
        if len(shape) != len(T.degs) or min(shape) < 2:
            return None
        return T.at([uniform(*d, n) for d, n in zip(T.dom, shape)])
    return f


def run(case, ctx):
    return dict(plot=plot, select=select, default=default, data=data, mpl=draw_mpl, myv=draw_myv, again=drawn_again)[case['kind']](case, ctx)


def axes_forms(dim):
    out = [(None, tuple(range(dim)))]
    for k in range(0, dim + 1):
        for s in itertools.permutations(range(dim), k):
            out.append((s, s))
            if k:
                out.append((list(s), s))
    out += [(a, (a,)) for a in range(dim)] + [(a - dim, (a,)) for a in range(dim)]
    out += [(s, tuple(a % dim for a in s)) for s in itertools.permutations(range(-dim, 0), 2)]
    return out


def options(ctx, what, kw, given, color, extra):
    want = dict(extra)
    want.update({k: v for k, v in given.items() if k != 'mode'})
    if color is not None and 'color' not in given:
        want['color'] = color
    if given.get('color', 0) is None and 'color' in want and color == (1, 1, 0):
        del want['color']
    ctx.check(kw == want, what + ': drawing options', got=kw, want=want)


def linemode(mode):
    return dict(representation='wireframe', tube_radius=None) if mode == 'line' else dict(representation='surface')


def plot(case, ctx):
    from igakit.plot import Plotter, plt
    import igakit.plot as mod
    A = table()
    a = [A[i] for i in case['objs']]
    dim = len(a)
    o = lib.build([p for p, U in a], [U for p, U in a], 1, 2)
    T = Truth(o)
    s0 = lib.snap(o)
    if dim > 1 or len(T.br[0]) > 2:
        ctx.distinct(case)
    with Recorder() as R:
        P = Plotter('null')

        def one(name, c):
            ctx.check(len(c) == 1 and c[0][0] == name, 'one %s call is expected' % name, got=[x[0] for x in c])
            return c[0]
        # points and wires of the control net, points at breaks
        grid = np.array(o.points)
        K = T.at([np.array(b) for b in T.br])
        for kw in ({}, dict(color=(0, 0, 0.5)), dict(mode='cone', scale_factor=2), dict(opacity=0.5, mode='2dvertex')):
            for fn, want, color, mode in ((P.cpoint, grid, (1, 0, 0), 'sphere'), (P.kpoint, K, (0, 1, 0), 'cube')):
                g = dict(kw)
                r = fn(o, **g)
                n, args, k, tok = one('points3d', R.take())
                same(ctx, fn.__name__, curve_of(args), want)
                ctx.check(r is tok and g == kw, fn.__name__ + ': result')
                w = dict(color=color, mode=mode)
                w.update(kw)
                ctx.check(k == w, fn.__name__ + ': drawing options', got=k, want=w)
        for kw in ({}, dict(color=(0.5, 0, 0)), dict(mode='tube'), dict(mode='line', opacity=0.3), dict(mode='tube', tube_radius=0.2)):
            r = P.cwire(o, **kw)
            n, args, k, tok = one('line3d', R.take())
            lines = k.pop('lines') if 'lines' in k else args[0]
            ctx.check(len(lines) == 1 and r is tok, 'cwire: one grid')
            same(ctx, 'cwire', curve_of(lines[0]), grid)
            options(ctx, 'cwire', k, kw, (0, 0, 1), linemode(kw.get('mode', 'line')))
            for given, axs in axes_forms(dim):
                if kw and given is not None and dim > 2:
                    continue
                r = P.kwire(o, given, **kw) if given is not None else P.kwire(o, **kw)
                n, args, k, tok = one('line3d', R.take())
                lines = k.pop('lines') if 'lines' in k else args[0]
                wants = []
                for ax in axs:
                    for v in itertools.product(*[T.br[i] for i in range(dim) if i != ax]):
                        v = list(v)
                        wants.append(line_fn(T, ax, [None if i == ax else v.pop(0) for i in range(dim)]))
                matchset(ctx, 'kwire', [curve_of(L) for L in lines], wants)
                ctx.check(r is tok, 'kwire: result')
                options(ctx, 'kwire', k, kw, (0, 1, 0), linemode(kw.get('mode', 'line')))
        for f in (P.cwire, P.kwire):
            ctx.check(lib.raises(f, o, mode='dots'), 'invalid mode is accepted')
        R.take()
        if dim > 1:
            for kw in ({}, dict(color=(0.5, 0, 0), opacity=0.1)):
                for given, axs in axes_forms(dim):
                    r = P.ksurf(o, axes=given, **kw)
                    n, args, k, tok = one('surf3d', R.take())
                    surfs = k.pop('surfs') if 'surfs' in k else args[0]
                    matchset(ctx, 'ksurf', [curve_of(S) for S in surfs], [face_fn(T, ax, v) for ax in axs for v in T.br[ax]])
                    ctx.check(r is tok, 'ksurf: result')
                    options(ctx, 'ksurf', k, kw, (0, 1, 0), dict(representation='surface'))
        # the object itself
        for kw in ({}, dict(color=(0.5, 0, 0)), dict(color=None), dict(mode='line'), dict(mode='tube', opacity=0.5)):
            for f in (P.curve,) + ((P.plot, plt_plot(mod)) if dim == 1 else ()):
                if f not in (P.curve, P.plot):
                    mod.use('null')
                r = f(o, **kw)
                c = R.take()
                ctx.check(all(x[0] == 'line3d' for x in c), 'curve: lines only')
                got = []
                for n, args, k, tok in c:
                    lines = k.pop('lines') if 'lines' in k else args[0]
                    got += [curve_of(L) for L in lines]
                    options(ctx, 'curve', k, kw, (1, 1, 0), linemode(kw.get('mode', 'tube')))
                # each edge belongs to dim-1 faces
                matchset(ctx, 'curve', got, [line_fn(T, ax, v) for ax, v in expected_curves(T)], mult={1: 1, 2: 1, 3: 2}[dim])
                toks = [x[3] for x in c]
                ctx.check(flatten(r) == toks, 'curve: result')
            if 'mode' in kw:
                continue
            for f in (P.surface, P.volume) + ((P.plot, plt_plot(mod)) if dim > 1 else ()):
                if f not in (P.surface, P.volume, P.plot):
                    mod.use('null')
                r = f(o, **kw)
                c = R.take()
                if dim == 1 or (f == P.volume and dim < 3):
                    ctx.check(r is None and not c, 'surface or volume of a lower dimension draws')
                    continue
                n, args, k, tok = one('surf3d', c)
                surfs = k.pop('surfs') if 'surfs' in k else args[0]
                wants = [whole_fn(T)] if dim == 2 else [face_fn(T, ax, T.dom[ax][e]) for ax in range(3) for e in (0, 1)]
                matchset(ctx, 'surface', [curve_of(S) for S in surfs], wants)
                ctx.check(r is tok, 'surface: result')
                options(ctx, 'surface', k, kw, (1, 1, 0), dict(representation='surface'))
        for f, nm in ((P.cplot, ['points3d', 'line3d']), (P.kplot, ['points3d', 'line3d']), (mod.cplot, ['points3d', 'line3d']), (mod.kplot, ['points3d', 'line3d'])):
            mod.use('null')
            r = f(o, color=(0, 0, 1))
            c = R.take()
            ctx.check([x[0] for x in c] == nm and list(r) == [x[3] for x in c] and all(x[2]['color'] == (0, 0, 1) for x in c), 'cplot/kplot')
            if [x[0] for x in c] == nm:
                same(ctx, 'cplot/kplot', curve_of(c[0][1]), grid if f in (P.cplot, mod.cplot) else K)
                lines = c[1][2].get('lines')
                if f in (P.cplot, mod.cplot):
                    same(ctx, 'cplot', curve_of(lines[0]), grid)
        ctx.check(lib.snap(o) == s0, 'plotting changed the object')
        ctx.trans(), ctx.trace(), ctx.state(case)


def drawn_again(case, ctx):
    from igakit.plot import Plotter
    a = [table()[i] for i in case['objs']]
    dim = len(a)
    with Recorder() as R:
        P = Plotter('null')

        def observe(o):
            out = []
            for f in (P.cpoint, P.cwire, P.kpoint, P.kwire, P.ksurf, P.curve, P.surface, P.volume, P.plot, P.cplot, P.kplot):
                if f == P.ksurf and dim == 1:
                    continue
                f(o)
                out.append([[n, [np.array(x).tobytes() for x in args], {k: [[np.array(y).tobytes() for y in x] for x in v] if k in ('lines', 'surfs') else v
                                                                        for k, v in kw.items()}] for n, args, kw, _ in R.take()])
            return out
        again.remembered(ctx, lambda: lib.build([p for p, U in a], [U for p, U in a], 1, 2), observe, 'what is drawn', 2 if dim == 1 else 1)
    ctx.trace(), ctx.state(case), ctx.distinct(case)


def plt_plot(mod):
    return mod.plot


def flatten(r):
    return sum(map(flatten, r), []) if isinstance(r, (list, tuple)) else [r]


def data(case, ctx):
    """points() and quiver() of plain arrays."""
    from igakit.plot import Plotter
    with Recorder() as R:
        P = Plotter('none')
        for d in (1, 2, 3):
            for shape in ((), (1,), (5,), (3, 2), (2, 3, 2)):
                X = sp.gen(shape + (d,), d)
                W = np.zeros(shape + (3,))
                W[..., :d] = X
                W = np.atleast_2d(W)
                for form in (X, X.tolist()):
                    for kw in ({}, dict(mode='cube', color=(1, 0, 0))):
                        r = P.points(form, **kw)
                        (n, args, k, tok), = R.take()
                        same(ctx, 'points', curve_of(args), W)
                        w = dict(mode='sphere')
                        w.update(kw)
                        ctx.check(n == 'points3d' and k == w and r is tok, 'points: call', got=k)
                        for e in (1, 2, 3):
                            V = sp.gen(shape + (e,), e + 7)
                            Z = np.zeros(shape + (3,))
                            Z[..., :e] = V
                            kw2 = dict(kw, mode='cone') if kw else {}
                            r = P.quiver(form, V, **kw2)
                            (n, args, k, tok), = R.take()
                            same(ctx, 'quiver: points', curve_of(args[:3]), W)
                            same(ctx, 'quiver: vectors', curve_of(args[3:]), np.atleast_2d(Z))
                            w = dict(mode='arrow')
                            w.update(kw2)
                            ctx.check(n == 'quiver3d' and k == w and r is tok, 'quiver: call', got=k)
                        ctx.distinct((d, shape, type(form).__name__, len(kw)))
        for bad in (np.zeros((2, 4)), np.zeros((3, 0))):
            ctx.check(lib.raises(P.points, bad), 'points of a wrong dimension accepted')


def installed(name):
    import importlib.util
    return importlib.util.find_spec(name) is not None


def select(case, ctx):
    from igakit.plot import Plotter
    import igakit.plot as mod
    real = {'matplotlib': 'mpl', 'mpl': 'mpl', 'null': 'nul', 'none': 'nul', 'nul': 'nul', 'mayavi': 'myv', 'myv': 'myv'}
    have = {'mpl': True, 'nul': True, 'myv': installed('mayavi') or installed('enthought')}
    n = case['n']
    seqs = [()] if n == 0 else [(case['first'],) + t for t in itertools.product(NAMES, repeat=n - 1)]
    for seq in seqs:
        for how in ('use', 'attribute', 'constructor'):
            P, start = Plotter(), 0
            cur = None
            if how == 'constructor' and seq:
                try:
                    P = Plotter(seq[0])
                except (ValueError, ImportError):
                    continue
                start, cur = 1, real[seq[0]]
            other = Plotter('nul')
            for name in seq[start:]:
                ok = name in real and have[real[name]]
                try:
                    if how == 'attribute':
                        P.backend = name
                    else:
                        P.use(name)
                    raised = None
                except Exception as e:
                    raised = e
                ctx.trans()
                if ok:
                    ctx.check(raised is None, 'known backend refused', sequence=seq, error=repr(raised))
                    cur = real[name]
                elif name not in real:
                    ctx.check(isinstance(raised, ValueError), 'unknown backend is not refused with ValueError', sequence=seq, error=repr(raised))
                else:
                    ctx.check(isinstance(raised, ImportError), 'backend that is not installed is not refused', sequence=seq, error=repr(raised))
                if cur is not None:
                    ctx.check(P.backend.__name__ == 'igakit.plot_' + cur, 'another backend is active', sequence=seq, got=P.backend.__name__, want=cur)
                ctx.check(other.backend.__name__ == 'igakit.plot_nul', 'selection leaks to another plotter', sequence=seq)
                ctx.state((cur, name))
            if cur is None:
                cur = 'myv' if have['myv'] else 'mpl'
            ctx.check(P.backend.__name__ == 'igakit.plot_' + cur, 'default backend', sequence=seq, got=P.backend.__name__)
            # everything else comes from the backend
            m = sys.modules['igakit.plot_' + cur]
            ctx.check(all(getattr(P, k) is getattr(m, k) for k in ('figure', 'show', 'colors', 'title', 'points3d')), 'attributes of the backend')
            ctx.check(lib.raises(getattr, P, 'no_such_thing') if cur != 'nul' else True, 'unknown attribute')
            ctx.trace()
    # module-level functions work on one plotter
    mod.use('none')
    ctx.check(mod.plt is mod.plotter and mod.plt.backend.__name__ == 'igakit.plot_nul', 'module-level selection')


def child(f):
    """Runs f in a forked child; returns its error text or ''."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                f()
                t = ''
            except BaseException as e:
                import traceback
                t = traceback.format_exc()
            os.write(w, t.encode()[:60000])
        finally:
            os._exit(0)
    os.close(w)
    out = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        out += b
    os.close(r)
    os.waitpid(pid, 0)
    return out.decode()


def default(case, ctx):
    """The default prefers mayavi when it can be imported."""
    def f():
        m = types.ModuleType('igakit.plot_myv')
        m.points3d = lambda *a, **k: 'fake'
        sys.modules['igakit.plot_myv'] = m
        import igakit
        igakit.plot_myv = m
        from igakit.plot import Plotter
        P = Plotter()
        assert P.backend is m, 'default is not mayavi'
        P.use('matplotlib')
        assert P.backend.__name__ == 'igakit.plot_mpl'
        P.use('mayavi')
        assert P.backend is m
    t = child(f)
    ctx.ev()
    ctx.check(not t, 'default backend: ' + t[-400:])


def draw_mpl(case, ctx):
    """What the matplotlib backend hands to matplotlib covers the same data."""
    from mpl_toolkits.mplot3d import Axes3D
    import matplotlib
    matplotlib.use('agg')
    from igakit.plot import Plotter
    A = p01.alpha(40)
    a = [A[i] for i in case['objs']]
    dim = len(a)
    o = lib.build([p for p, U in a], [U for p, U in a], 1, 0)
    T = Truth(o)
    rec = []
    saved = {k: getattr(Axes3D, k) for k in ('scatter', 'plot', 'plot_wireframe', 'plot_surface')}
    def make(k):
        def f(self, x, y, z, *args, **kw):
            rec.append((k, np.stack([np.asarray(c) for c in (x, y, z)], -1), kw))
            return None
        return f
    P = Plotter('matplotlib')
    try:
        for k in saved:
            setattr(Axes3D, k, make(k))
        P.figure()
        def take():
            c = list(rec)
            del rec[:]
            return c
        grid = np.array(o.points)
        for f, want in ((P.cpoint, grid), (P.kpoint, T.at([np.array(b) for b in T.br]))):
            f(o)
            c = take()
            ctx.check(len(c) == 1 and c[0][0] == 'scatter', 'points are scattered once')
            same(ctx, f.__name__, c[0][1], want.reshape(-1, 3))
        # control wires: the set of segments between neighbours
        P.cwire(o)
        segs = set()
        for k, X, kw in take():
            Y = np.round(X, 9)
            for ax in range(Y.ndim - 1):
                n = Y.shape[ax]
                if k == 'plot_wireframe':
                    ctx.check(kw.get('rstride') == 1 and kw.get('cstride') == 1, 'wireframe skips lines')
                for u, v in zip(np.take(Y, range(n - 1), ax).reshape(-1, 3), np.take(Y, range(1, n), ax).reshape(-1, 3)):
                    segs.add(frozenset([tuple(u + 0.0), tuple(v + 0.0)]))
        want = set()
        Y = np.round(grid, 9) + 0.0
        for ax in range(dim):
            n = Y.shape[ax]
            for u, v in zip(np.take(Y, range(n - 1), ax).reshape(-1, 3), np.take(Y, range(1, n), ax).reshape(-1, 3)):
                want.add(frozenset([tuple(u), tuple(v)]))
        ctx.ev()
        ctx.check(segs == want, 'segments of the control net', extra=len(segs - want), missing=len(want - segs))
        P.kwire(o)
        c = take()
        wants = []
        for ax in range(dim):
            for v in itertools.product(*[T.br[i] for i in range(dim) if i != ax]):
                v = list(v)
                wants.append(line_fn(T, ax, [None if i == ax else v.pop(0) for i in range(dim)]))
        matchset(ctx, 'kwire (matplotlib)', [X for k, X, kw in c], wants)
        P.curve(o)
        matchset(ctx, 'curve (matplotlib)', [X for k, X, kw in take()], [line_fn(T, ax, v) for ax, v in expected_curves(T)], mult={1: 1, 2: 1, 3: 2}[dim])
        if dim > 1:
            P.plot(o)
            c = take()
            ctx.check(all(k == 'plot_surface' and kw.get('rstride') == 1 and kw.get('cstride') == 1 for k, X, kw in c), 'surface: stride')
            matchset(ctx, 'surface (matplotlib)', [X for k, X, kw in c],
                     [whole_fn(T)] if dim == 2 else [face_fn(T, ax, T.dom[ax][e]) for ax in range(3) for e in (0, 1)])
            # the faces of a surface are curves, which this backend's surf3d has no way to draw
            P.ksurf(o)
            c = take()
            matchset(ctx, 'ksurf (matplotlib)', [X for k, X, kw in c], [face_fn(T, ax, v) for ax in range(dim) for v in T.br[ax]] if dim > 2 or c else [])
        ctx.distinct(case)
    finally:
        for k, v in saved.items():
            setattr(Axes3D, k, v)
        P.close('all')
    # and with matplotlib itself
    P = Plotter('mpl')
    P.figure()
    try:
        P.cplot(o), P.kplot(o), P.curve(o, mode='line')
        if dim < 3:
            P.plot(o, color=(1, 0, 0), opacity=0.5)
        ctx.check(len(P.gcf().axes) == 1, 'drawn on one set of axes')
    finally:
        P.close('all')


def draw_myv(case, ctx):
    """Meshes built for mayavi (a recording stand-in for the package): all points once, all edges and faces of the grid."""
    def f():
        sets = []
        class PolyData:
            def __init__(self):
                self.got = {}
                self.point_data = types.SimpleNamespace(scalars=None)
            def set(self, **k):
                self.got.update(k)
        class Arr(np.ndarray):
            pass
        class MlabSource:
            def __init__(self):
                self.dataset = None
            def set(self, trait_change_notify=True, **k):
                self.__dict__.update(k)
        def scal(v):
            return v
        class PD:
            pass
        mods = {}
        def mod(name, **k):
            m = types.ModuleType(name)
            m.__dict__.update(k)
            m.__path__ = []
            mods[name] = sys.modules[name] = m
            if '.' in name:
                parent, _, leaf = name.rpartition('.')
                setattr(sys.modules[parent], leaf, m)
            return m
        class Named(np.ndarray):
            name = None
        class PointData:
            def __setattr__(self, k, v):
                object.__setattr__(self, k, np.asarray(v).view(Named))
        class Poly(PolyData):
            def __init__(self):
                self.got = {}
                self.point_data = PointData()
        class Pipe:
            def __call__(self, *args, **k):
                return type(self)._source_function(*args, **k)
        def any_(*a, **k):
            return None
        mlab = types.SimpleNamespace(**{k: any_ for k in 'figure gcf clf close savefig show title xlabel ylabel zlabel colorbar points3d quiver3d'.split()})
        mod('mayavi')
        sys.modules['mayavi'].mlab = mlab
        mod('mayavi.tools')
        mod('mayavi.tools.helper_functions', Plot3d=Pipe, Mesh=Pipe, List=lambda *a, **k: None, Array=None,
            Callable=staticmethod, document_pipeline=lambda x: x)
        mod('mayavi.tools.sources', MlabSource=MlabSource, convert_to_arrays=lambda t: [np.asarray(x) for x in t])
        mod('mayavi.tools.tools', add_dataset=lambda ds, name, **k: sets.append(ds) or ds)
        mod('tvtk')
        mod('tvtk.api', tvtk=types.SimpleNamespace(PolyData=Poly))
        mod('vtk')
        mod('vtk.util')
        mod('vtk.util.colors')
        from igakit.plot import Plotter
        P = Plotter('mayavi')
        import igakit.plot_myv as m
        def edges(shape, off):
            g = np.arange(int(np.prod(shape))).reshape(shape) + off
            E = set()
            for ax in range(len(shape)):
                n = shape[ax]
                for a, b in zip(np.take(g, range(n - 1), ax).ravel(), np.take(g, range(1, n), ax).ravel()):
                    E.add(frozenset((int(a), int(b))))
            return E
        def faces(shape, off):
            g = np.arange(int(np.prod(shape))).reshape(shape) + off
            F = set()
            for i, j in itertools.combinations(range(len(shape)), 2):
                h = np.moveaxis(g, (i, j), (0, 1))
                for t in zip(h[:-1, :-1].ravel(), h[1:, :-1].ravel(), h[1:, 1:].ravel(), h[:-1, 1:].ravel()):
                    F.add(frozenset(map(int, t)))
            return F
        shapes = [(2,), (5,), (2, 2), (3, 4), (4, 2), (2, 2, 2), (3, 2, 4), (2, 4, 3)]
        for group in [(s,) for s in shapes] + list(itertools.product(shapes, repeat=2)):
            arrs = [[sp.gen(s, 3 * k + c) for c in range(3)] for k, s in enumerate(group)]
            del sets[:]
            m.line3d(lines=[tuple(a) for a in arrs])
            pts = np.asarray(sets[-1].got['points'])
            want = np.concatenate([np.stack([c.ravel() for c in a], -1) for a in arrs])
            assert np.array_equal(pts, want), ('points', group)
            E, off = set(), 0
            for s in group:
                E |= edges(s, off)
                off += int(np.prod(s))
            got = {frozenset(map(int, e)) for e in np.asarray(sets[-1].got['lines'])}
            assert got == E, ('edges', group, got ^ E)
            if all(len(s) > 1 for s in group):
                m.surf3d(surfs=[tuple(a) for a in arrs])
                assert np.array_equal(np.asarray(sets[-1].got['points']), want), ('points of faces', group)
                Q, off = set(), 0
                for s in group:
                    Q |= faces(s, off)
                    off += int(np.prod(s))
                polys = np.asarray(sets[-1].got['polys'])
                assert {frozenset(map(int, q)) for q in polys} == Q, ('faces', group)
                for q in polys:
                    for a, b in zip(q, np.roll(q, 1)):
                        assert frozenset((int(a), int(b))) in E, ('faces are crossed', group)
        # the whole way from an object
        o = lib.build([2, 1], [sp.clamped(2, (1,), 'off'), sp.clamped(1, (1,))], 1, 0)
        P.cwire(o)
        assert np.allclose(np.asarray(sets[-1].got['points']), np.array(o.points).transpose(1, 0, 2).reshape(-1, 3)), 'cwire'
    t = child(f)
    ctx.ev(len('12345678') * 9)
    ctx.distinct('mayavi meshes')
    ctx.check(not t, 'mayavi backend: ' + t[-1500:])
