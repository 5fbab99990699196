"""Objects are isolated: an operation changes its target only; queries are pure and depend on the value only."""
import numpy as np
from mc.again import value_of
from mc import ref, spaces as sp, lib, opset, large

ID = 'P12'
LEVEL = 'model_checking'
RULE = ('all histories up to the depth over every in-place operation and every operation that derives a new object, on the '
        'real code, in a heap that also holds the constructor arguments, a clone, a copy and every earlier object of the '
        'history; after each transition every heap cell other than the target is compared byte for byte, every query is '
        'run twice and on a freshly built object of the same value, and no computed result may share memory with an object; '
        'then every array argument of every call is compared before and after')
BOUNDS = {'quick': 'depth 2 for curves and surfaces, depth 1 for volumes (plus derived-then-in-place); objects with discontinuities or points without support',
          'thorough': 'depth 3 for curves, 2 for surfaces and volumes, 14 initial objects; objects with discontinuities or points without support'}
CASE_TIMEOUT = 600


def objects(tier):
    L = [[(2, 2000, 'c')], [(2, 150, 'c')], [(7, 1, 'u')], [(2, 24, 'c'), (1, 33, 'u')]]
    same = sp.clamped(2, (1,), 'off')
    return opset.objects(tier) + [([2, 2], [same, same], 1, 1)] + [([c[0] for c in t], [large.knots(*c) for c in t], 1, 1) for t in L]


def cases(tier):
    objs = objects(tier)
    for i, (degs, knots, wk, nf) in enumerate(objs):
        dim = len(degs)
        depth = ({1: 2, 2: 2, 3: 1} if tier == 'quick' else {1: 3, 2: 2, 3: 2})[dim] if i < len(objs) - 4 else 1
        for j in range(len(opset.inplace(dim)) + len(opset.derived(dim))):
            yield dict(kind='hist', obj=i, first=j, depth=depth)
        for j in range(len(ARGCALLS(dim))):
            if any(x == y for p, U in zip(degs, knots) for x, y in zip(U, U[p + 1:])):
                break                   # elevation refuses points without support
            yield dict(kind='args', obj=i, call=j)
    for i in range(len(FACTORIES)):
        yield dict(kind='factory', call=i)


def run_queries(ctx, o, what):
    if o.dim == 0:
        return
    twin = value_of(o)
    before = lib.snap(o)
    for name, q in opset.queries(o.dim):
        a = q(o)
        ctx.check(lib.snap(o) == before, 'query %s changed the object' % name, after=what)
        if name != 'attrs':
            for r in a:
                if isinstance(r, np.ndarray) and r.size:
                    shared = any(np.shares_memory(r, x) for x in (o.array,) + tuple(o.knots))
                    ctx.check(not shared, 'result of %s shares memory with the object' % name, after=what)
        keep = [np.array(x).tobytes() for x in a]
        if name != 'attrs':
            for r in a:                     # a caller may write on what it got
                if isinstance(r, np.ndarray) and r.flags.writeable and r.size:
                    r[...] = 7
        ctx.check(lib.snap(o) == before, 'writing on the result of %s changed the object' % name, after=what)
        t = [np.array(x).tobytes() for x in q(twin)]
        ctx.check(t == keep, 'query %s depends on more than the value of the object' % name, after=what)
        b = [np.array(x).tobytes() for x in q(o)]
        ctx.check(b == keep, 'query %s repeated gives another answer' % name, after=what)
        ctx.trace()
    for name, f in opset.derived(o.dim):    # nor do objects that were derived, whatever is done with them
        try:
            r = f(o)
        except Exception:
            continue
        if r is o or not hasattr(r, 'array'):
            continue
        s = lib.snap(r)
        if r.dim:
            r.remap(0, -7.0, 11.0)
        r.translate([3.0, -1.0, 0.5])
        r.array[...] *= 2                   # no longer the one it was computed with
        r2 = f(o)
        ctx.check(r2 is not r and lib.snap(r2) == s, 'what is done with the result of %s shows in the next one' % name, after=what)
        ctx.check(lib.snap(f(twin)) == s, '%s depends on more than the value of the object' % name, after=what)
        ctx.check(lib.snap(o) == before, 'operating on the result of %s changed the object' % name, after=what)


def answers(o):
    return [(name, [np.array(x).tobytes() for x in q(o)]) for name, q in opset.queries(o.dim)]


def warm(ctx, o, f, hist):
    """Nothing remembered from before an in-place operation may show in the answers after it."""
    if o.dim == 0:
        return
    t = o.copy()
    answers(t)
    f(t)
    ctx.trans()
    if answers(t) != answers(value_of(t)):
        ctx.fail('answers after an in-place operation depend on the questions asked before it', history=hist)
    # nor from before a direct write on the object's own arrays
    def write(k, knots=True):
        t.array[...] *= 0.75 if k % 2 else 1.5
        t.array[..., 0] += 0.25 * t.array[..., 3]
        if not knots:
            return
        for i, U in enumerate(t.knots):
            U[...] = U * (0.5 if k % 2 else 2.0) + 0.125
            b = ref.breaks(t.degree[i], U)
            if len(b) > 2:
                m = b[1]
                U[U == m] = 0.5 * (m + b[2])
    write(0)
    if answers(t) != answers(value_of(t)):
        ctx.fail('answers after a write on the arrays depend on the questions asked before it', history=hist)
    for k, (name, q) in enumerate(opset.queries(t.dim)):    # the same question just before and just after it
        for knots in (False, True):
            q(t)
            write(k + 1, knots)
            if [np.array(x).tobytes() for x in q(t)] == [np.array(x).tobytes() for x in q(value_of(t))]:
                continue
            ctx.fail('the answer of %s after a write on the arrays is the one given before it' % name, history=hist)


def run(case, ctx):
    if case['kind'] == 'args':
        return run_args(case, ctx)
    if case['kind'] == 'factory':
        return run_factory(case, ctx)
    degs, knots, wk, nf = objects(ctx.tier)[case['obj']]
    dim = len(degs)
    shape = tuple(lib.ncp(p, U) for p, U in zip(degs, knots))
    C, F = sp.net(shape, wk, nf, 0)
    K = [np.array(U, 'd') for U in knots]
    args = [C] + ([F] if F is not None else []) + K
    argbytes = [a.tobytes() for a in args]
    orig = lib.N()(K, C, F)
    clone = orig.clone()
    copy = orig.copy()
    ctx.check(type(clone) is type(orig) and clone is not orig and copy is not orig, 'copy/clone identity')
    ctx.check(np.shares_memory(clone.array, orig.array), 'a clone does not share its control points')
    ctx.check(not np.shares_memory(copy.array, orig.array)
              and not any(np.shares_memory(a, b) for a, b in zip(copy.knots, orig.knots)), 'a copy shares memory')
    ctx.check(lib.snap(copy) == lib.snap(orig) == lib.snap(clone), 'copy/clone differ from the original')
    heap = [('clone', clone), ('copy', copy)]
    s0 = lib.snap(orig)

    def check_heap(heap, snaps, path, target=None):
        for (nm, o), s in zip(heap, snaps):
            if o is not target:
                ctx.check(lib.snap(o) == s, 'operation changed another object: %s' % nm, history=path)
        ctx.check([a.tobytes() for a in args] == argbytes, 'operation changed the arrays given to the constructor', history=path)

    def visit(o, heap, path, first, depth):
        dim = o.dim
        ops = [('i', n, f) for n, f in opset.inplace(dim)] + [('d', n, f) for n, f in opset.derived(dim)]
        if first is not None:
            ops = [ops[first]]
        for kind, name, f in ops:
            hist = path + [name]
            before = lib.snap(o)
            snaps = [lib.snap(x) for _, x in heap]
            if kind == 'i':
                t = o.clone()               # operate on a clone: the hardest aliasing situation
                try:
                    r = f(t)
                except Exception as e:
                    ctx.check(lib.snap(o) == before and lib.snap(t) == before, 'rejected call left a change', history=hist)
                    ctx.n('rejected')
                    continue
                ctx.check(r is t, 'in-place operation returned another object', history=hist)
                new = t
            else:
                try:
                    new = f(o)
                except Exception as e:
                    ctx.check(lib.snap(o) == before, 'rejected call left a change', history=hist)
                    ctx.n('rejected')
                    continue
                ctx.check(new is not o, 'operation returned its argument', history=hist)
                if name.rstrip('=0123') in ('slice', 'extract', 'boundary', 'join', 'copy', 'extrude', 'revolve', 'ruled', 'sweep'):
                    ctx.check(not np.shares_memory(new.array, o.array), 'the computed object shares its control points with its source', history=hist)
            ctx.trans()
            ctx.check(lib.snap(o) == before, 'operation changed the object it was derived from', history=hist)
            check_heap(heap, snaps, hist)
            lib.wellformed(new, ctx, 'after ' + '/'.join(hist))
            if ctx.state(repr(lib.snap(new))):
                run_queries(ctx, new, hist)
                if kind == 'i':
                    warm(ctx, o, f, hist)
            if depth > 1 and new.dim >= 1:
                visit(new, heap + [('object before ' + name, o)], hist, None, depth - 1)
            elif kind == 'd' and ctx.tier == 'quick' and dim > 1 and new.dim >= 1:
                # whatever a derived object shares, operating on it must not reach its source
                for n2, f2 in opset.inplace(new.dim):
                    t = new.clone()
                    s2 = lib.snap(new)
                    try:
                        f2(t)
                    except Exception:
                        pass
                    ctx.trans()
                    ctx.check(lib.snap(new) == s2 and lib.snap(o) == before, 'operation changed another object', history=hist + [n2])
                    check_heap(heap, snaps, hist + [n2])
                    # and the object itself, not only a clone
                u = f(o)
                for n2, f2 in opset.inplace(u.dim):
                    try:
                        f2(u)
                    except Exception:
                        pass
                    ctx.check(lib.snap(o) == before, 'operation on a derived object changed its source', history=hist + [n2])
                    check_heap(heap, snaps, hist + [n2])
    visit(orig, heap, [], case['first'], case['depth'])
    # direct writes on a copy stay in the copy
    for x in (orig, clone):
        for i in range(dim):                # and where they are written
            c = x.copy()
            c.knots[i][...] = 9.0
            ctx.check(all(np.array_equal(U, V) for j, (U, V) in enumerate(zip(c.knots, orig.knots)) if j != i)
                      and np.array_equal(c.array, orig.array), 'writing on one knot vector of a copy changed another part of it', axis=i)
        c = x.copy()
        c.array[...] = 3.0
        for U in c.knots:
            U[...] = 9.0
        ctx.check(lib.snap(orig) == s0, 'writing on a copy changed the original')
    ctx.check([a.tobytes() for a in args] == argbytes, 'constructor arguments changed')
    ctx.sample(dict(obj=case['obj'], first=case['first'], depth=case['depth']))


def ARGCALLS(dim):
    """Calls with array arguments: f(o) -> (function, [arrays])."""
    from igakit import cad
    from igakit.nurbs import NURBS
    from igakit.transform import transform
    out = []
    def add(name, mk):
        out.append((name, mk))
    def grid(o):
        return [np.array([b, a, 0.5 * (a + b), 0.3 * a + 0.7 * b]) for a, b in (opset.dom(o, i) for i in range(o.dim))]
    def field(o, k):
        return sp.gen(tuple(o.shape) + ((k,) if k else ()), 3)
    for ax in range(dim):
        def mkv(o, ax=ax):
            a, b = opset.dom(o, ax)
            v = np.array([a + 0.7 * (b - a), a + 0.2 * (b - a)])
            return (lambda: o.clone().refine(ax, v)), [v]
        add('refine%d' % ax, mkv)
        def mki(o, ax=ax):
            a, b = opset.dom(o, ax)
            v = np.array(a + 0.7 * (b - a))
            return (lambda: o.clone().insert(ax, v)), [v]
        add('insert%d' % ax, mki)
        def mkc(o, ax=ax):
            f = np.array([2] * (len(o.breaks(ax)) - 1))
            fs = [None] * o.dim
            fs[ax] = f
            return (lambda: cad.refine(o, fs)), [f]
        add('cad.refine%d factors' % ax, mkc)
    for name in ('call', 'evaluate', 'gradient', 'hessian', 'derivative3', 'derivative4'):
        for k in (0, 2):
            def mk(o, name=name, k=k):
                g = grid(o)
                F = field(o, k)
                if name == 'call':
                    return (lambda: o(*g, fields=F)), g + [F]
                if name.startswith('derivative'):
                    return (lambda: o.derivative(int(name[-1]), F, *g)), g + [F]
                return (lambda: getattr(o, name)(F, *g)), g + [F]
            add('%s fields%d' % (name, k), mk)
    def mkt(o):
        M = np.array([[0.8, -0.5, 0.1, 2], [0.7, 1.1, -0.3, -1], [0.2, 0.4, 1.5, 0.5], [0, 0, 0, 1.]])
        return (lambda: o.clone().transform(M)), [M]
    add('transform', mkt)
    def mkt2(o):
        T = transform().rotate(0.3, 1).translate([1, 2, 3])
        def go():
            before = T.matrix.tobytes()
            o.clone().transform(T)
            assert T.matrix.tobytes() == before, 'transform object changed'
        return go, [T.matrix]
    add('transform object', mkt2)
    for name, val in (('translate', [0.5, 1, -2]), ('move', [0.5, 1, -2]), ('scale', [2, 0.5, 3.])):
        def mk(o, name=name, val=val):
            v = np.array(val, 'd')
            return (lambda: getattr(o.clone(), name)(v)), [v]
        add(name, mk)
    def mkr(o):
        v = np.array([1., 2, -2])
        return (lambda: o.clone().rotate(0.3, v)), [v]
    add('rotate', mkr)
    def mkk(o):
        K = [np.array(U) for U in o.knots]
        P, w, F = np.array(o.points), np.array(o.weights), field(o, 2)
        def go():
            n = NURBS(K, P, F, w)
            n.elevate(0).reverse().scale(2).refine(0, [np.dot(opset.dom(n, 0), [0.6321, 0.3679])])
        return go, K + [P, w, F]
    add('constructor', mkk)
    def mkk2(o):
        K = [np.array(U) for U in o.knots]
        P, w = np.array(o.points), np.array(o.weights)
        def go():
            n = NURBS(K, (P, w))
            n.unclamp(0).clamp(0).translate(2).remap(0, 5, 6)
        return go, K + [P, w]
    add('constructor tuple', mkk2)
    if dim < 3:
        def mke(o):
            d = np.array([0.5, 1, 2.])
            return (lambda: cad.extrude(o, d)), [d]
        add('extrude', mke)
        def mkrev(o):
            p, d, a = np.array([5., 0, 0]), np.array([0, 1., 1]), (0.5, 2.0)
            return (lambda: cad.revolve(o, p, d, a)), [p, d]
        add('revolve', mkrev)
    return out


def run_args(case, ctx):
    degs, knots, wk, nf = objects(ctx.tier)[case['obj']]
    o = lib.build(degs, knots, wk, nf)
    name, mk = ARGCALLS(len(degs))[case['call']]
    s = lib.snap(o)
    go, arrays = mk(o)
    b = [(a.tobytes(), a.shape, a.dtype) for a in arrays]
    go()
    ctx.trans()
    ctx.trace()
    ctx.state(('args', case['obj'], name))
    for i, (a, x) in enumerate(zip(arrays, b)):
        ctx.check((a.tobytes(), a.shape, a.dtype) == x, 'call changed its array argument', call=name, arg=i)
    ctx.check(lib.snap(o) == s, 'call changed the object', call=name)
    # and again with read-only arguments: nothing may be written at all
    go, arrays = mk(o)
    for a in arrays:
        a.setflags(write=False)
    go()
    ctx.trans()


def _factories():
    from igakit import cad
    from igakit.igalib import bsp
    out = []
    def add(name, arrays, f):
        out.append((name, arrays, f))
    A = np.array
    add('line', [A([0., 1, 2]), A([3., 1, 5])], lambda p, q: cad.line(p, q))
    add('circle', [A([1., 2, 3])], lambda c: cad.circle(2.0, c, (0.2, 2.0)))
    add('linear', [A([[0., 1, 2], [3, 4, 5]])], lambda p: cad.linear(p))
    add('bilinear', [sp.gen((2, 2, 3), 1)], lambda p: cad.bilinear(p))
    add('trilinear', [sp.gen((2, 2, 2, 3), 1)], lambda p: cad.trilinear(p))
    add('grid', [A([2, 3]), A([2, 1]), A([1, 0]), A([[0., 1], [2, 5]])],
        lambda s, d, c, l: cad.grid(s, d, c, l))
    add('grid wrap', [A([4, 5]), A([2, 2]), A([1, 0])], lambda s, d, c: cad.grid(s, d, c, wrap=True))
    add('FindSpan', [A([0, 0, 0, .5, 1, 1, 1])], lambda U: bsp.FindSpan(2, U, 0.3))
    add('EvalBasisFuns', [A([0, 0, 0, .5, 1, 1, 1])], lambda U: bsp.EvalBasisFuns(2, U, 0.3))
    add('Greville', [A([0, 0, 0, .5, 1, 1, 1])], lambda U: bsp.Greville(2, U))
    add('SpanIndex', [A([0, 0, 0, .5, 1, 1, 1])], lambda U: bsp.SpanIndex(2, U))
    return out


FACTORIES = range(11)


def run_factory(case, ctx):
    fs = _factories()
    assert len(fs) == len(FACTORIES)
    name, arrays, f = fs[case['call']]
    b = [a.tobytes() for a in arrays]
    r1 = f(*arrays)
    ctx.check([a.tobytes() for a in arrays] == b, 'factory changed its argument', call=name)
    if hasattr(r1, 'array'):
        r2 = f(*arrays)
        s = lib.snap(r2)
        ctx.check(lib.snap(r1) == s, 'factory is not deterministic', call=name)
        ctx.check(not np.shares_memory(r1.array, r2.array), 'two objects share their control points', call=name)
        r1.array[...] = 5
        for U in r1.knots:
            U[...] = 1
        ctx.check(lib.snap(r2) == s, 'two objects share state', call=name)
        ctx.check([a.tobytes() for a in arrays] == b, 'object shares memory with the arguments', call=name)
        ctx.check(lib.snap(f(*arrays)) == s, 'factory keeps hidden state', call=name)
    for a in arrays:
        a.setflags(write=False)
    f(*arrays)
    ctx.trans(), ctx.trace(), ctx.state(('factory', name))
