"""The bytes of PetIGA files follow the format (independent decoder and encoder)."""
import itertools
import numpy as np
from mc import ref, spaces as sp, lib, fmt, large, huge
from checks import p20
from checks.p01 import table, IMP, TWINS

ID = 'P21'
LEVEL = 'model_checking'
RULE = ('every file written for (object, format, options) is decoded with an independent decoder and compared value by value with the '
        'object; every vector and sparse matrix of the alphabet (all sparsity patterns of small shapes) is encoded '
        'independently and must be read exactly; states are files, transitions are writes and reads on the real code')
BOUNDS = {'quick': '14 curves, 5x5 surfaces, 2^3 volumes x 8 formats; all 2x3 and 3x2 sparsity patterns; large objects and nets of up to 70000 points; objects with discontinuities or points without support',
          'thorough': '40 curves, 10x10 surfaces, 4^3 volumes x 8 formats; all patterns up to 3x3; large objects and nets of up to 70000 points; objects with discontinuities or points without support'}


def cases(tier):
    yield from large.cases()
    yield from huge.cases()
    yield from huge.mats()
    yield from (dict(kind='large', n=n) for n in (127, 129, 1000, 1025, 70000))
    q = tier == 'quick'
    for i in range(14 if q else 40):
        yield dict(objs=[i])
    for a in itertools.product(range(5 if q else 10), repeat=2):
        yield dict(objs=list(a))
    for a in itertools.product((1, 4) if q else (0, 1, 2, 4), repeat=3):
        yield dict(objs=list(a))
    for i in IMP:
        yield dict(objs=[i])
        yield dict(objs=[i, (41, 0, 43)[i % 3]])
    yield dict(objs=[41, 43, 40])
    for t in TWINS:
        yield dict(objs=list(t))
    for i in range(len(fmt.FORMATS)):
        for shape in [(1, 1), (2, 3), (3, 2), (4, 1)] + ([] if q else [(3, 3)]):
            yield dict(mat=list(shape), fmt=i)
        yield dict(vec=True, fmt=i)


def run(case, ctx):
    from igakit.io import PetIGA
    if case.get('kind') == 'large':
        return large.p21(case, ctx, PetIGA, fmt)
    if case.get('kind') == 'huge':
        return huge.mat(case, ctx, PetIGA, fmt) if 'mat' in case else huge.files(case, ctx, PetIGA, fmt, True)
    with fmt.Scratch() as S:
        f = S.path()
        if 'mat' in case:
            return mat(case, ctx, f)
        if 'vec' in case:
            F = fmt.FORMATS[case['fmt']]
            io = PetIGA(*F)
            for n in range(0, 9):
                v = [complex(x, y) if F[1] == 'complex' else x for x, y in zip(sp.gen((max(n, 1),), n), sp.gen((max(n, 1),), n + 9))][:n]
                open(f, 'wb').write(fmt.encode_vec(v, F))
                got = io.read_vec(f)
                ctx.trans()
                w = np.array(v)
                if F[0] == 'single':
                    w = w.astype('c8' if F[1] == 'complex' else 'f4')
                ctx.check(got.shape == (n,) and (n == 0 or np.array_equal(got, w)), 'vector values', format=F)
                io.write_vec(f, np.array(v, dtype='c16' if F[1] == 'complex' else 'd'))
                ctx.check(open(f, 'rb').read() == fmt.encode_vec(v, F), 'vector bytes', format=F, n=n)
                ctx.state(open(f, 'rb').read())
                ctx.trans(), ctx.trace()
            # arrays of every shape and memory layout: rows one after the other
            for shape in ((5,), (2, 3), (3, 1), (2, 2, 3), (1, 4), ()):
                A = sp.gen(shape or (1,), 3).reshape(shape)
                if F[1] == 'complex':
                    A = A + 1j * sp.gen(shape or (1,), 4).reshape(shape)
                want = fmt.encode_vec(A.ravel().tolist(), F)
                for B in sp.layouts(A) + [A.tolist()]:
                    io.write_vec(f, B)
                    ctx.trans()
                    ctx.check(open(f, 'rb').read() == want, 'vector bytes (array of another shape or layout)', format=F, shape=shape)
            return
        al = [table()[i] for i in case['objs']]
        dim = len(al)
        for nf, content in [(0, ''), (1, ''), (3, '')] + [(2, c) for c in (p20.CONTENTS if dim == 1 else p20.CONTENTS[:2] + ['planar', 'below'][:4 - dim])]:
            nrb = lib.build([p for p, U in al], [U for p, U in al], 1, nf, nf)
            p20.special(nrb, content)
            for F in fmt.FORMATS:
                if F[0] == 'single' and content in p20.DOUBLE:
                    continue
                io = PetIGA(precision=F[0], scalar=F[1], indices=F[2])
                for control, fields, nsd in itertools.product((True, False), (True, False), [None] + list(range(dim, 4))):
                    kw = dict(control=control, fields=fields, nsd=nsd)
                    io.write(f, nrb, **kw)
                    data = open(f, 'rb').read()
                    ctx.trans()
                    ctx.state(data)
                    det = dict(format=F, options=kw, nf=nf)
                    try:
                        d = fmt.decode_iga(data, F)
                    except (ValueError, AssertionError) as e:
                        ctx.fail('file does not follow the format: %s' % e, **det)
                    one = (lambda x: float(np.float32(x))) if F[0] == 'single' else float
                    ctx.check(tuple(d['degree']) == nrb.degree and tuple(d['shape']) == nrb.shape, 'degrees or sizes', **det)
                    for U, V in zip(d['knots'], nrb.knots):
                        ctx.check(U == [one(x) for x in V], 'knots', **det)
                    ctx.check(('control' in d) == control and ('fields' in d) == bool(fields and nf), 'contents', **det)
                    if control:
                        n = dim if nsd is None else nsd
                        ctx.check(d['nsd'] == n, 'nsd', **det)
                        H = nrb.control
                        for idx, v in d['control'].items():
                            k = 3 if idx[-1] == n else idx[-1]
                            ctx.check(v == one(H[idx[:-1] + (k,)]), 'control value', index=idx, **det)
                    if fields and nf:
                        ctx.check(d['npd'] == nf, 'npd', **det)
                        X = nrb.fields
                        for idx, v in d['fields'].items():
                            ctx.check(abs(v - X[idx]) <= (1e-6 if F[0] == 'single' else 1e-14) * abs(X[idx]), 'field value', index=idx, **det)
                    ctx.trace()
    ctx.sample(case)


def mat(case, ctx, f):
    from igakit.io import PetIGA
    M, N = case['mat']
    F = fmt.FORMATS[case['fmt']]
    io = PetIGA(*F)
    for bits in itertools.product((0, 1), repeat=M * N):
        rows = []
        for i in range(M):
            rows.append([(j, (i * N + j + 1) * 0.5 + (1j * j if F[1] == 'complex' else 0)) for j in range(N) if bits[i * N + j]])
        data = fmt.encode_mat(M, N, rows, F)
        open(f, 'wb').write(data)
        (m, n), (ai, aj, av) = io.read_mat(f)
        ctx.trans()
        ctx.state(data)
        ctx.check((m, n) == (M, N), 'matrix shape')
        ctx.check(list(ai) == list(np.cumsum([0] + [len(r) for r in rows])), 'row pointers', got=ai)
        ctx.check(list(aj) == [c for r in rows for c, v in r], 'columns', got=aj)
        ctx.check([complex(x) for x in av] == [complex(v) for r in rows for c, v in r], 'values', got=av)
        ctx.trace()
