"""Invalid calls are rejected with an exception and change nothing."""
import numpy as np
from mc import ref, lib, opset

ID = 'P13'
LEVEL = 'model_checking'
RULE = ('for every state reachable by the listed operation sequences, every invalid call of the alphabet (values outside '
        'the domain, NaN, multiplicity overflow, bad axis, side, order, continuity, shapes, incompatible partners) is made '
        'on the real code: it must raise, leave every byte of the object, of its clones and of its arguments as it was, '
        'and the next valid operation must give the same object as without the failed call')
BOUNDS = {'quick': 'states: initial + one operation (6 objects); all invalid calls; sequences invalid-then-valid; objects with discontinuities or points without support',
          'thorough': 'states: up to two operations (14 objects); all ordered pairs of invalid calls on the initial objects; objects with discontinuities or points without support'}
CASE_TIMEOUT = 600


def cases(tier):
    for i, (degs, knots, wk, nf) in enumerate(opset.objects(tier)):
        dim = len(degs)
        n = len(opset.inplace(dim)) + len(opset.derived(dim))
        yield dict(obj=i, ops=[])
        for j in range(n):
            yield dict(obj=i, ops=[j])
        if tier == 'thorough':
            for j in range(n):
                yield dict(obj=i, ops=[j, -1])
            yield dict(obj=i, ops=[], pairs=True)


def allops(dim):
    return opset.inplace(dim) + opset.derived(dim)


def probe(o):
    out = []
    for name, q in opset.queries(o.dim)[:12]:
        out += [np.array(x).tobytes() for x in q(o)]
    return out


def attempt(ctx, o, inv, path):
    name, f = inv
    s = lib.snap(o)
    writes = name.startswith(('io ', 'vtk '))
    if writes:
        with open(opset.TARGET[0], 'wb') as fh:
            fh.write(KEPT)
    try:
        f(o)
    except Exception as e:
        ctx.outcome((name.split(' ')[0], type(e).__name__))
    else:
        ctx.fail('invalid call accepted: ' + name, history=path)
    ctx.check(lib.snap(o) == s, 'rejected call changed the object: ' + name, history=path)
    if writes:
        ctx.check(open(opset.TARGET[0], 'rb').read() == KEPT, 'a refused write changed the file it names: ' + name, history=path)
    ctx.trans()
    ctx.trace()


def explore(ctx, o, path, pairs=False):
    if o.dim == 0:
        return
    dim = o.dim
    invs = opset.invalid(dim)
    clone = o.clone()
    copy = o.copy()
    sc = lib.snap(copy)
    base = probe(o)
    follow = [f for n, f in opset.inplace(dim)]
    # what the next valid operation gives without any failure
    nxt = [None] * len(follow)
    def after(k, x):
        t = x.clone()
        try:
            follow[k](t)
        except Exception:
            return 'rejected'
        return lib.snap(t)
    for j, inv in enumerate(invs):
        attempt(ctx, o, inv, path)
        ctx.state((repr(sc), j))
        k = j % len(follow)
        if nxt[k] is None:
            nxt[k] = after(k, copy)
        ctx.check(after(k, o) == nxt[k], 'an operation after a rejected call gives another result: ' + inv[0], history=path)
        ctx.check(lib.snap(clone) == sc and lib.snap(copy) == sc, 'rejected call changed a clone: ' + inv[0], history=path)
        if pairs:
            for inv2 in invs:
                attempt(ctx, o, inv2, path + [inv[0]])
    ctx.check(probe(o) == base, 'queries differ after the rejected calls', history=path)


KEPT = b'an earlier file\n' * 9


def run(case, ctx):
    from mc import fmt
    with fmt.Scratch() as S:
        opset.TARGET[0] = S.path()
        try:
            run_case(case, ctx)
        finally:
            opset.TARGET[0] = '/dev/null'


def run_case(case, ctx):
    degs, knots, wk, nf = opset.objects(ctx.tier)[case['obj']]
    o = lib.build(degs, knots, wk, nf)
    path = []

    def go(o, ops, path):
        if not ops or o.dim == 0:
            return explore(ctx, o, path, case.get('pairs', False))
        alph = allops(o.dim)
        sel = alph if ops[0] == -1 else [alph[ops[0]]]
        for name, f in sel:
            t = o.copy()
            try:
                r = f(t)
            except Exception:
                ctx.n('not_applicable')
                continue
            go(r, ops[1:], path + [name])
    go(o, case['ops'], path)
    ctx.sample(dict(obj=case['obj'], ops=case['ops']))
