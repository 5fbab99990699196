"""Shared operation alphabets: valid calls, pure queries, and invalid calls, as (name, function)."""
import numpy as np

from . import ref


def dom(o, ax):
    p = o.degree[ax]
    U = o.knots[ax]
    return float(U[p]), float(U[-p - 1])


def inplace(dim):
    """In-place operations: f(obj) -> result (must be obj)."""
    ops = []
    def add(name, f):
        ops.append((name, f))
    for ax in range(dim):
        def mid(o, ax=ax, t=0.5):
            a, b = dom(o, ax)
            bs = ref.breaks(o.degree[ax], o.knots[ax])
            return bs[0] + (bs[1] - bs[0]) * t
        add('insert%d' % ax, lambda o, ax=ax, m=mid: o.insert(ax, m(o)))
        add('insert%d*' % ax, lambda o, ax=ax, m=mid: o.insert(ax, m(o, t=0.3), None))
        add('refine%d' % ax, lambda o, ax=ax, m=mid: o.refine(ax, [m(o, t=0.75), m(o, t=0.25)]))
        add('remove%d' % ax, lambda o, ax=ax: o.remove(ax, ref.breaks(o.degree[ax], o.knots[ax])[1], None))
        add('elevate%d' % ax, lambda o, ax=ax: o.elevate(ax, 1))
        add('clamp%d' % ax, lambda o, ax=ax: o.clamp(ax))
        add('unclamp%d' % ax, lambda o, ax=ax: o.unclamp(ax))
        add('unclamp%d0' % ax, lambda o, ax=ax: o.unclamp(ax, side=1, continuity=0))
        add('reverse%d' % ax, lambda o, ax=ax: o.reverse(ax))
        add('remap%d' % ax, lambda o, ax=ax: o.remap(ax, -1.0, 3.5))
    add('reverse', lambda o: o.reverse())
    add('transpose', lambda o: o.transpose())
    if dim > 1:
        add('swap', lambda o: o.swap(0, -1))
    add('translate', lambda o: o.translate([0.5, -1, 2]))
    add('move', lambda o: o.move(0.25, 1))
    add('scale', lambda o: o.scale([2.0, 0.5, 3.0]))
    add('rotate', lambda o: o.rotate(0.7, (1, 2, -2)))
    add('transform', lambda o: o.transform([[0.8, -0.5, 0.1, 2], [0.7, 1.1, -0.3, -1], [0.2, 0.4, 1.5, 0.5], [0, 0, 0, 1]]))
    return ops


def lib_line(a, b):
    from igakit.nurbs import NURBS
    return NURBS([[0, 0, 1, 1.0]], np.array([a, b]))


def derived(dim):
    """Operations that return a new object."""
    from igakit import cad
    ops = []
    def add(name, f):
        ops.append((name, f))
    for ax in range(dim):
        add('slice%d' % ax, lambda o, ax=ax: o.slice(ax, dom(o, ax)[0] + 0.25 * (dom(o, ax)[1] - dom(o, ax)[0]), None))
        add('slice%d=' % ax, lambda o, ax=ax: o.slice(ax, None, None))
        add('extract%d' % ax, lambda o, ax=ax: o.extract(ax, 0.5 * sum(dom(o, ax))))
        add('boundary%d0' % ax, lambda o, ax=ax: o.boundary(ax, 0))
        add('boundary%d1' % ax, lambda o, ax=ax: o.boundary(ax, 1))
        add('join%d' % ax, lambda o, ax=ax: cad.join(o, o.copy().reverse(ax), ax))
    add('copy', lambda o: o.copy())
    add('clone', lambda o: o.clone())
    add('refine', lambda o: cad.refine(o, 2))
    add('refine+', lambda o: cad.refine(o, None, [p + 1 for p in o.degree]))
    add('compat', lambda o: cad.compat(o, o.clone().translate(1.0))[1])
    def other(o):
        q = o.clone().translate(1.0)
        for ax in range(dim):
            q.elevate(ax, 1).refine(ax, [dom(q, ax)[0] + 0.375 * (dom(q, ax)[1] - dom(q, ax)[0])]).remap(ax, dom(q, ax)[0] - 1, dom(q, ax)[1] + 2)
        return q
    add('compat with another', lambda o: cad.compat(o, other(o))[0])
    add('compat of another', lambda o: cad.compat(other(o), o, o)[2])
    add('join after', lambda o: cad.join(o.copy().reverse(dim - 1), o, dim - 1))
    if dim == 1:
        def coons(o):
            P = o.copy().clamp(0).control
            H = P[[0, -1]].copy()
            H[:, :3] += np.array([0, 1, 2.0]) * H[:, 3:]
            q = o.copy().translate([0, 1, 2])
            return cad.coons([(lib_line(P[0], H[0]), lib_line(P[-1], H[1])), (o, q)])
        add('coons', coons)
    if dim <= 2:
        add('ruled below', lambda o: cad.ruled(o.clone().translate([0, 0, 1]), o))
        add('extrude', lambda o: cad.extrude(o, 1.0, 2))
        add('revolve', lambda o: cad.revolve(o, (5, 0, 0), (0, 1, 1), (0.1, 2.0)))
        add('ruled', lambda o: cad.ruled(o, o.clone().translate([0, 0, 1])))
        add('sweep', lambda o: cad.sweep(o, cad.line((0, 0, 0), (0, 1, 2))))
    return ops


def queries(dim):
    """Pure queries: f(obj) -> list of arrays."""
    qs = []
    def add(name, f):
        qs.append((name, f))
    def pts(o):
        return [np.array([dom(o, i)[0], 0.5 * sum(dom(o, i)), dom(o, i)[1]]) for i in range(o.dim)]
    add('attrs', lambda o: [np.array(o.dim), np.array(o.shape), np.array(o.degree), o.array, o.control, o.weights, o.points]
        + ([] if o.fields is None else [o.fields]) + list(o.knots))
    add('points', lambda o: [o.points] + ([] if o.fields is None else [o.fields]))
    add('spans', lambda o: o.spans())
    add('breaks', lambda o: list(o.breaks()) + [x for t in o.breaks(mults=True) for x in t])
    add('greville', lambda o: o.greville())
    add('lagrange', lambda o: o.lagrange())
    add('lobatto', lambda o: o.lobatto())
    add('call', lambda o: list(o(*pts(o), fields=True)))
    add('call alone', lambda o: [o(*pts(o))])
    add('call with values', lambda o: list(o(*pts(o), fields=np.array(o.array[..., :2]))))
    add('call of all defaults', lambda o: [o()])
    add('evaluate', lambda o: [o.evaluate(np.asarray(o.array[..., 0]), **dict(zip('uvw', pts(o))))])
    add('gradient', lambda o: [o.gradient(**dict(zip('uvw', pts(o))))])
    add('hessian', lambda o: [o.hessian(**dict(zip('uvw', pts(o))))])
    for k in (1, 3, 4):
        add('derivative%d' % k, lambda o, k=k: [o.derivative(k, **dict(zip('uvw', pts(o))))])
    return qs


def opset_break(o, ax):
    """The second break (the end of the domain when there is one span)."""
    return float(ref.breaks(o.degree[ax], o.knots[ax])[1])


TARGET = ['/dev/null']


def target():
    """The existing file that refused writes are asked to write to."""
    return TARGET[0]


def invalid(dim):
    """Calls that must be rejected: f(obj)."""
    from igakit import cad
    from igakit.nurbs import NURBS
    nan = float('nan')
    ops = []
    def add(name, f):
        ops.append((name, f))
    for ax in range(dim):
        lo = lambda o, ax=ax: dom(o, ax)[0]
        hi = lambda o, ax=ax: dom(o, ax)[1]
        md = lambda o, ax=ax: 0.5 * sum(dom(o, ax)) + 0.01 * (dom(o, ax)[1] - dom(o, ax)[0])
        p = lambda o, ax=ax: o.degree[ax]
        add('insert(%d) above the domain' % ax, lambda o, ax=ax, hi=hi: o.insert(ax, hi(o) + 0.5))
        add('insert(%d) below the domain' % ax, lambda o, ax=ax, lo=lo: o.insert(ax, lo(o) - 1e-6))
        up = lambda o, hi=hi: float(np.nextafter(hi(o), np.inf))
        dn = lambda o, lo=lo: float(np.nextafter(lo(o), -np.inf))
        add('insert(%d) just above' % ax, lambda o, ax=ax, up=up: o.insert(ax, up(o)))
        add('insert(%d) just below' % ax, lambda o, ax=ax, dn=dn: o.insert(ax, dn(o)))
        add('refine(%d) just above' % ax, lambda o, ax=ax, md=md, up=up: o.refine(ax, [up(o), md(o)]))
        add('refine(%d) just below' % ax, lambda o, ax=ax, md=md, dn=dn: o.refine(ax, [md(o), dn(o)]))
        add('remove(%d) just above' % ax, lambda o, ax=ax, up=up: o.remove(ax, up(o)))
        add('slice(%d) just above' % ax, lambda o, ax=ax, md=md, up=up: o.slice(ax, md(o), up(o)))
        add('slice(%d) just below' % ax, lambda o, ax=ax, md=md, dn=dn: o.slice(ax, dn(o), md(o)))
        add('extract(%d) just above' % ax, lambda o, ax=ax, up=up: o.extract(ax, up(o)))
        add('extract(%d) just below' % ax, lambda o, ax=ax, dn=dn: o.extract(ax, dn(o)))
        add('insert(%d) nan' % ax, lambda o, ax=ax: o.insert(ax, nan))
        add('insert(%d) too many times' % ax, lambda o, ax=ax, md=md, p=p: o.insert(ax, md(o), p(o) + 1))
        def full(o, k, ax=ax, p=p):
            v = opset_break(o, ax)
            m = min(p(o), o.knots[ax].tolist().count(v))
            return v, p(o) - m + k
        add('insert(%d) more than the degree' % ax, lambda o, ax=ax, full=full: o.insert(ax, *full(o, 1)))
        add('refine(%d) more than the degree' % ax, lambda o, ax=ax, full=full: o.refine(ax, [full(o, 1)[0]] * full(o, 1)[1]))
        add('insert(%d) negative times' % ax, lambda o, ax=ax, md=md: o.insert(ax, md(o), -1))
        add('refine(%d) above the domain' % ax, lambda o, ax=ax, md=md, hi=hi: o.refine(ax, [md(o), hi(o) + 1e-6]))
        add('refine(%d) below the domain' % ax, lambda o, ax=ax, md=md, lo=lo: o.refine(ax, [md(o), lo(o) - 2.0]))
        add('refine(%d) nan' % ax, lambda o, ax=ax, md=md: o.refine(ax, [nan, md(o)]))
        add('refine(%d) too many times' % ax, lambda o, ax=ax, md=md, p=p: o.refine(ax, [md(o)] * (p(o) + 1)))
        add('remove(%d) outside the domain' % ax, lambda o, ax=ax, hi=hi: o.remove(ax, hi(o) + 1.0))
        add('remove(%d) negative times' % ax, lambda o, ax=ax, md=md: o.remove(ax, md(o), -1))
        add('remove(%d) a break negative times' % ax, lambda o, ax=ax: o.remove(ax, opset_break(o, ax), -2))
        add('remove(%d) nan' % ax, lambda o, ax=ax: o.remove(ax, nan))
        add('elevate(%d) negative' % ax, lambda o, ax=ax: o.elevate(ax, -1))
        add('clamp(%d) side' % ax, lambda o, ax=ax: o.clamp(ax, 2))
        add('unclamp(%d) side' % ax, lambda o, ax=ax: o.unclamp(ax, -1))
        add('unclamp(%d) continuity too high' % ax, lambda o, ax=ax, p=p: o.unclamp(ax, continuity=p(o)))
        add('unclamp(%d) continuity negative' % ax, lambda o, ax=ax: o.unclamp(ax, continuity=-1))
        add('slice(%d) reversed' % ax, lambda o, ax=ax, md=md, lo=lo: o.slice(ax, md(o), lo(o)))
        add('slice(%d) empty' % ax, lambda o, ax=ax, md=md: o.slice(ax, md(o), md(o)))
        add('slice(%d) below' % ax, lambda o, ax=ax, md=md, lo=lo: o.slice(ax, lo(o) - 0.1, md(o)))
        add('slice(%d) above' % ax, lambda o, ax=ax, md=md, hi=hi: o.slice(ax, md(o), hi(o) + 0.1))
        add('slice(%d) nan' % ax, lambda o, ax=ax, md=md: o.slice(ax, nan, md(o)))
        add('extract(%d) above' % ax, lambda o, ax=ax, hi=hi: o.extract(ax, hi(o) + 0.1))
        add('extract(%d) below' % ax, lambda o, ax=ax, lo=lo: o.extract(ax, lo(o) - 0.1))
        add('extract(%d) nan' % ax, lambda o, ax=ax: o.extract(ax, nan))
        add('boundary(%d) side' % ax, lambda o, ax=ax: o.boundary(ax, 2))
        add('remap(%d) reversed' % ax, lambda o, ax=ax: o.remap(ax, 1, 0))
        add('remap(%d) empty' % ax, lambda o, ax=ax: o.remap(ax, 1, 1))
        add('remap(%d) nan' % ax, lambda o, ax=ax: o.remap(ax, nan, 1))
        def par(o, ax, v):
            q = [0.5 * sum(dom(o, i)) for i in range(o.dim)]
            q[ax] = v
            return q
        for nm, v in (('above', lambda o, hi=hi: hi(o) + 1e-3), ('below', lambda o, lo=lo: lo(o) - 1e-3), ('nan', lambda o: nan), ('just above', up), ('just below', dn)):
            add('evaluate(%d) %s' % (ax, nm), lambda o, ax=ax, v=v, par=par: o(*par(o, ax, v(o))))
            add('evaluate array(%d) %s' % (ax, nm), lambda o, ax=ax, v=v, par=par: o(*[[x, 0.5 * sum(dom(o, i))][::-1] for i, x in enumerate(par(o, ax, v(o)))]))
            add('evaluate fields(%d) %s' % (ax, nm), lambda o, ax=ax, v=v, par=par: o.evaluate(None, *par(o, ax, v(o))))
            add('gradient(%d) %s' % (ax, nm), lambda o, ax=ax, v=v, par=par: o.gradient(None, *par(o, ax, v(o))))
            add('hessian(%d) %s' % (ax, nm), lambda o, ax=ax, v=v, par=par: o.hessian(None, *par(o, ax, v(o))))
            def several(o, ax, v, par=par):     # one bad value among good ones
                return [np.array([0.5 * sum(dom(o, i)), x, 0.25 * dom(o, i)[0] + 0.75 * dom(o, i)[1]]) for i, x in enumerate(par(o, ax, v))]
            for f, kw in (('evaluate', {}), ('gradient', {}), ('hessian', {}), ('derivative', dict(order=1)), ('derivative', dict(order=2)), ('derivative', dict(order=4)), ('gradient', dict(mapped=True))):
                add('%s of several %r (%d) %s' % (f, kw, ax, nm), lambda o, ax=ax, v=v, f=f, kw=kw, several=several: getattr(o, f)(fields=None if f != 'evaluate' else o.array[..., 0], **dict(kw, **dict(zip('uvw', several(o, ax, v(o)))))))
            add('derivative(%d) %s' % (ax, nm), lambda o, ax=ax, v=v, par=par: o.derivative(3, None, *par(o, ax, v(o))))
    for ax in (dim, -dim - 1):
        m = lambda o: 0.5 * sum(dom(o, 0))
        add('insert axis %d' % ax, lambda o, ax=ax, m=m: o.insert(ax, m(o)))
        add('refine axis %d' % ax, lambda o, ax=ax, m=m: o.refine(ax, [m(o)]))
        add('remove axis %d' % ax, lambda o, ax=ax, m=m: o.remove(ax, m(o)))
        add('elevate axis %d' % ax, lambda o, ax=ax: o.elevate(ax, 1))
        add('clamp axis %d' % ax, lambda o, ax=ax: o.clamp(ax))
        add('unclamp axis %d' % ax, lambda o, ax=ax: o.unclamp(ax))
        add('reverse axis %d' % ax, lambda o, ax=ax: o.reverse(ax))
        add('reverse axes 0,%d' % ax, lambda o, ax=ax: o.reverse(0, ax))
        add('remap axis %d' % ax, lambda o, ax=ax: o.remap(ax, 0, 1))
        add('swap axis %d' % ax, lambda o, ax=ax: o.swap(0, ax))
        add('slice axis %d' % ax, lambda o, ax=ax: o.slice(ax, None, None))
        add('extract axis %d' % ax, lambda o, ax=ax, m=m: o.extract(ax, m(o)))
        add('boundary axis %d' % ax, lambda o, ax=ax: o.boundary(ax, 0))
        add('greville axis %d' % ax, lambda o, ax=ax: o.greville(ax))
        add('breaks axis %d' % ax, lambda o, ax=ax: o.breaks(ax))
    add('transpose short', lambda o: o.transpose(list(range(dim - 1)) if dim > 1 else [0, 0]))
    add('transpose range', lambda o: o.transpose([dim] + list(range(1, dim))))
    if dim > 1:
        add('transpose repeated', lambda o: o.transpose([0] * dim))
    bad = lambda o: np.zeros(tuple(n + 1 for n in o.shape))
    add('call fields shape', lambda o: o(fields=bad(o)))
    add('evaluate fields shape', lambda o: o.evaluate(bad(o)))
    add('gradient fields shape', lambda o: o.gradient(bad(o)))
    add('hessian fields shape', lambda o: o.hessian(bad(o)))
    add('derivative fields shape', lambda o: o.derivative(2, bad(o)))
    def perm(o):
        s = tuple(o.shape[::-1])
        return np.zeros(s if s != tuple(o.shape) else (int(np.prod(s)),) + (1,) * dim)
    for nm, f in (('call', lambda o, F: o(fields=F)), ('evaluate', lambda o, F: o.evaluate(F)), ('gradient', lambda o, F: o.gradient(F)),
                  ('hessian', lambda o, F: o.hessian(F)), ('derivative', lambda o, F: o.derivative(3, F))):
        if dim > 1:
            add(nm + ' fields permuted', lambda o, f=f: f(o, perm(o)))
            add(nm + ' fields permuted columns', lambda o, f=f: f(o, np.stack([perm(o)] * 2, -1)))
        add(nm + ' fields of one point', lambda o, f=f: f(o, np.zeros((1,) * dim + (2,))))
        add(nm + ' fields rank', lambda o, f=f: f(o, np.zeros(tuple(o.shape) + (2, 2))))
        add(nm + ' fields short rank', lambda o, f=f: f(o, np.zeros(tuple(o.shape)[:-1])))
    for k in (0, 5, -1):
        add('derivative order %d' % k, lambda o, k=k: o.derivative(k))
    add('transform shape', lambda o: o.transform(np.eye(3)))
    add('translate size', lambda o: o.translate([1, 2, 3, 4]))
    add('scale size', lambda o: o.scale([1, 2, 3, 4]))
    add('translate table', lambda o: o.translate([[1, 2, 3]]))
    add('scale table', lambda o: o.scale([[1, 2, 3]]))
    add('translate axis', lambda o: o.translate(1.0, 3))
    add('scale axis', lambda o: o.scale(2.0, 3))
    add('rotate axis size', lambda o: o.rotate(1.0, (1, 0, 0, 0)))
    add('transform size', lambda o: o.transform(np.eye(5)))
    add('rotate null axis', lambda o: o.rotate(1.0, (0, 0, 0)))
    from igakit.transform import transform as trf
    add('transform: matrix of three rows', lambda o: trf().compose(np.eye(3, 4)))
    add('transform: matrix of two', lambda o: trf().compose(np.eye(2)))
    add('transform: axis table', lambda o: trf().rotate(1.0, [[0, 0, 1]]))
    add('transform: no axis', lambda o: trf().rotate(1.0, ()))
    add('transform: axis of four', lambda o: trf().rotate(1.0, (0, 0, 1, 0)))
    add('transform: axis', lambda o: trf().rotate(1.0, 3))
    add('rotate axis table', lambda o: o.rotate(1.0, [[0, 0, 1]]))
    add('rotate axis', lambda o: o.rotate(1.0, 3))
    add('cad.refine factor', lambda o: cad.refine(o, 0))
    add('cad.refine factor count', lambda o: cad.refine(o, [2] * (dim + 1)))
    add('cad.refine continuity', lambda o: cad.refine(o, 2, continuity=[p for p in o.degree]))
    add('cad.refine degree', lambda o: cad.refine(o, 2, degree=0))
    other = lambda: cad.grid([2] * (dim % 3 + 1), 1)
    add('cad.join dim', lambda o: cad.join(o, other(), 0))
    add('cad.join axis', lambda o: cad.join(o, o.copy(), dim))
    add('cad.join axis below', lambda o: cad.join(o, o.copy(), -1))
    add('cad.compat dim', lambda o: cad.compat(o, other()))
    add('cad.compat option', lambda o: cad.compat(o, o.clone(), foo=1))
    add('cad.ruled dim', lambda o: cad.ruled(o, other()))
    add('cad.sweep trajectory', lambda o: cad.sweep(o, cad.grid([1, 1], 1)))
    if dim == 3:
        add('cad.extrude volume', lambda o: cad.extrude(o, 1.0))
        add('cad.revolve volume', lambda o: cad.revolve(o, 0))
        add('cad.ruled volume', lambda o: cad.ruled(o, o.clone()))
    else:
        add('cad.revolve point of four', lambda o: cad.revolve(o, (0, 0, 0, 1), 2))
        add('cad.revolve point table', lambda o: cad.revolve(o, [[0, 0, 0]], 2))
        add('cad.revolve axis of four', lambda o: cad.revolve(o, 0, (0, 0, 1, 0)))
        add('cad.revolve axis table', lambda o: cad.revolve(o, 0, [[0, 0, 1]]))
        add('cad.revolve no axis', lambda o: cad.revolve(o, 0, ()))
        add('cad.revolve axis', lambda o: cad.revolve(o, 0, 3))
        add('cad.revolve null axis', lambda o: cad.revolve(o, 0, (0, 0, 0)))
    from igakit.io import PetIGA, VTK
    add('io coordinates above 3', lambda o: PetIGA().write(target(), o, nsd=4))
    add('io coordinates below the dimension', lambda o: PetIGA().write(target(), o, nsd=dim - 1))
    add('io vector for the object', lambda o: PetIGA().write_vec(target(), np.zeros(int(np.prod(o.shape)) + 1), o))
    add('io precision', lambda o: PetIGA(precision='half'))
    add('io scalar', lambda o: PetIGA(scalar='integer'))
    add('io indices', lambda o: PetIGA(indices='16bit'))
    add('vtk fields shape', lambda o: VTK().write(target(), o, fields=bad(o), scalars={'a': 0}))
    add('vtk column', lambda o: VTK().write(target(), o, fields=np.zeros(o.shape + (2,)), scalars={'a': 2}))
    add('vtk vector of four', lambda o: VTK().write(target(), o, fields=np.zeros(o.shape + (4,)), vectors={'a': [0, 1, 2, 3]}))
    add('vtk sampler outside', lambda o: VTK().write(target(), o, sampler=lambda u: u + 1e-3 * (u[-1] - u[0])))
    add('cad.grid directions', lambda o: cad.grid([2] * 4))
    add('cad.grid no directions', lambda o: cad.grid([]))
    add('cad.grid table', lambda o: cad.grid([[2] * dim]))
    add('cad.grid limits', lambda o: cad.grid([2] * dim, limits=[0.0, 0.5, 1.0]))
    add('cad.grid one limit', lambda o: cad.grid([2] * dim, limits=[1.0]))
    add('cad.grid limit count', lambda o: cad.grid([2] * dim, limits=[[0.0, 1.0]] * (dim + 1)))
    add('cad.grid limits of a direction', lambda o: cad.grid([2] * dim, limits=[[0.0, 0.5, 1.0]] * dim))
    add('cad.grid wrap count', lambda o: cad.grid([2] * dim, wrap=[True] * (dim + 1)))
    add('cad.grid degree', lambda o: cad.grid([4] * dim, 0))
    add('cad.grid degree count', lambda o: cad.grid([4] * dim, [2] * (dim + 1)))
    add('cad.grid continuity count', lambda o: cad.grid([4] * dim, 2, [0] * (dim + 1)))
    add('cad.grid continuity', lambda o: cad.grid([4] * dim, 2, 2))
    add('cad.grid continuity negative', lambda o: cad.grid([4] * dim, 2, -3))
    add('cad.refine continuity count', lambda o: cad.refine(o, 2, None, [0] * (dim + 1)))
    add('cad.refine continuity negative', lambda o: cad.refine(o, 2, None, [-p - 1 for p in o.degree]))
    add('cad.refine degree count', lambda o: cad.refine(o, 2, [p + 1 for p in o.degree] + [1]))
    add('cad.refine factors of a direction', lambda o: cad.refine(o, [[1] * len(o.breaks(0))] + [None] * (dim - 1)))
    if dim != 1:
        ln = lambda: cad.line((0, 0, 0), (1, 0, 0))
        add('cad.coons dim', lambda o: cad.coons([[o, o.clone()], [ln(), ln().translate([0, 1, 0])]]))
        add('cad.coons dim other', lambda o: cad.coons([[ln(), ln().translate([0, 1, 0])], [o, o.clone()]]))
        add('cad.coons dim of the second', lambda o: cad.coons([[ln(), o], [ln(), ln().translate([0, 1, 0])]]))
        add('cad.coons dim of the fourth', lambda o: cad.coons([[ln(), ln().translate([0, 1, 0])], [ln(), o]]))
        add('cad.sweep trajectory of this dimension', lambda o: cad.sweep(ln(), o))
    if dim == 3:
        add('cad.sweep volume', lambda o: cad.sweep(o, cad.line((0, 0, 0), (1, 0, 0))))
    K, A = (lambda o: [U.copy() for U in o.knots]), (lambda o: np.array(o.array))
    add('constructor: control rank', lambda o: NURBS(K(o), A(o)[..., :4][0]))
    add('constructor: weights shape', lambda o: NURBS(K(o), A(o)[..., :3], weights=np.ones(tuple(n + 1 for n in o.shape))))
    add('constructor: weights given twice', lambda o: NURBS(K(o), A(o)[..., :4], weights=A(o)[..., 3]))
    add('constructor: fields shape', lambda o: NURBS(K(o), A(o)[..., :4], np.zeros(tuple(n + 1 for n in o.shape))))
    add('constructor: one coordinate', lambda o: NURBS(K(o), A(o)[..., :1]))
    add('constructor: five coordinates', lambda o: NURBS(K(o), np.zeros(o.shape + (5,))))
    add('constructor: missing knots', lambda o: NURBS(K(o)[1:], A(o)[..., :4]))
    add('constructor: degree zero', lambda o: NURBS([U[:n + 1] for U, n in zip(K(o), o.shape)], A(o)[..., :4]))
    add('constructor: too many directions', lambda o: NURBS([[0, 0, 1, 1]] * 4, np.zeros((2, 2, 2, 2, 3))))
    add('constructor: no directions', lambda o: NURBS([]))
    add('constructor: knots as a table', lambda o: NURBS([[U] for U in K(o)], A(o)[..., :4]))
    add('constructor: knots as columns', lambda o: NURBS([[[x] for x in U] for U in K(o)], A(o)[..., :4]))
    add('constructor: one weight', lambda o: NURBS(K(o), A(o)[..., :3], weights=np.ones((1,) * dim)))
    add('constructor: one field value', lambda o: NURBS(K(o), A(o)[..., :4], np.ones((1,) * dim + (2,))))
    if dim > 1:
        add('constructor: fields of the first direction', lambda o: NURBS(K(o), A(o)[..., :4], np.ones((o.shape[0],) + (1,) * dim)))
        add('constructor: fields of the last direction', lambda o: NURBS(K(o), A(o)[..., :4], np.ones((o.shape[-1], 2))))
    add('constructor: three knots', lambda o: NURBS([[0, 0, 1]] * dim, np.ones((1,) * dim + (3,))))
    add('constructor: tuple and weights', lambda o: NURBS(K(o), (A(o)[..., :3], A(o)[..., 3]), weights=A(o)[..., 3]))
    add('constructor: fields rank', lambda o: NURBS(K(o), A(o)[..., :4], np.zeros(o.shape + (2, 2))))
    add('constructor: no control for the shape', lambda o: NURBS(K(o), np.zeros(3)))
    add('constructor: weights without control', lambda o: NURBS(K(o), weights=np.ones(o.shape)))
    return ops


def improper():
    """A discontinuity, empty first and last spans, points without support."""
    f = lambda w: [0.25 + 0.75 * x for x in w]
    return [
        ([2], [f([0, 0, 0, 1, 1, 1, 2, 2, 2])], 1, 1),
        ([2], [f([0, 0, 0, 0, 1, 2, 2, 2, 2])], 1, 0),
        ([1], [f([0, 0, 1, 1, 1, 2, 2])], 0, 1),
        ([2, 1], [f([0, 1, 1, 1, 1, 3, 4, 4]), f([0, 0, 1, 1, 2, 2])], 1, 1),
    ]


def objects(tier):
    """Initial objects: (degs, knots, weight class, fields)."""
    from . import spaces as sp
    c = sp.clamped
    u = sp.open_ends
    out = [
        ([2], [c(2, (1,), 'unit')], 1, 1),
        ([3], [u(c(3, (2,), 'off'), 3, 1, 1)], 1, 0),
        ([1], [c(1, (1,), 'nonuni')], 0, 2),
        ([2, 1], [c(2, (1,), 'unit'), c(1, (1,), 'off')], 1, 1),
        ([1, 3], [u(c(1, (1,), 'int'), 1, 1, 1), c(3, (2,), 'third')], 0, 0),
        ([2, 1, 2], [c(2, (1,), 'unit'), c(1, (1,)), u(c(2, (1,), 'off'), 2, 2, 1)], 1, 2),
    ]
    out += improper()
    if tier == 'thorough':
        out += [
            ([3], [c(3, (1, 3, 2), 'third')], 2, 3),
            ([4], [u(c(4, (1, 2), 'neg'), 4, 2, 3)], 1, 0),
            ([2], [u(c(2, (2, 1), 'large'), 2, 1, 3)], 1, 1),
            ([5], [c(5, (), 'small')], 0, 0),
            ([3, 2], [u(c(3, (1,), 'neg'), 3, 2, 4), u(c(2, (1,), 'third'), 2, 1, 1)], 1, 2),
            ([2, 2], [c(2, (2, 1), 'nonuni'), c(2, (), 'large')], 1, 0),
            ([1, 1, 1], [c(1, (1,)), c(1, ()), c(1, (1, 1), 'off')], 1, 0),
            ([3, 2, 1], [c(3, (1,), 'third'), u(c(2, (1,)), 2, 1, 1), c(1, (), 'neg')], 0, 1),
        ]
    return out
