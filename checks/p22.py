"""Damaged files are refused: every truncation, every wrong header word."""
import itertools
import struct
import numpy as np
from mc import ref, spaces as sp, lib, fmt, large
from checks.p01 import table

ID = 'P22'
LEVEL = 'fault_enumeration'
TECHNIQUE = 'model checking: exhaustive enumeration of crash points (every prefix of the bytes) and of header faults, on the real reader'
RULE = ('for each file of the alphabet (object or vector or matrix x format x options): every proper prefix of its bytes (each is what a '
        'crash during writing can leave), every value of a fault list in every header word, and reading with every other format or reader; '
        'the reader must raise, leave the file alone and read the intact file afterwards; non-trivial: the fault is inside the file '
        '(not the empty prefix)')
BOUNDS = {'quick': '5 objects x 8 formats x 4 options, all prefixes; large objects', 'thorough': '16 objects x 8 formats x 4 options, all prefixes; large objects'}
CASE_TIMEOUT = 600


def objects(tier):
    o = [[0], [1], [0, 3], [1, 0], [0, 1, 0]]
    if tier == 'thorough':
        o += [[2], [7], [10], [2, 6], [5, 9], [11, 1], [1, 1, 1], [2, 0, 3], [9, 4, 0], [8], [13]]
    return o


def cases(tier):
    yield from (dict(c, fmt=i) for i in range(len(fmt.FORMATS)) for c in large.cases([1, 9, 12]))
    for i, o in enumerate(objects(tier)):
        for k in range(len(fmt.FORMATS)):
            for control, nf in ((1, 0), (1, 2), (0, 0), (0, 1)):
                yield dict(obj=o, fmt=k, control=control, nf=nf)
    for k in range(len(fmt.FORMATS)):
        for n in (0, 1, 3, 9):
            yield dict(vec=n, fmt=k)
        for n in (0, 1, 2, 3):
            yield dict(mat=n, fmt=k)


def refused(ctx, what, read, f, data, key, **det):
    with open(f, 'wb') as fh:
        fh.write(data)
    ctx.ev()
    if len(data):
        ctx.distinct(key)
    try:
        r = read(f)
    except Exception as e:
        ctx.outcome((what.split(' ')[0], type(e).__name__))
    else:
        ctx.fail('%s accepted' % what, **det)
    with open(f, 'rb') as fh:
        ctx.check(fh.read() == data, 'reading changed the file')


def run(case, ctx):
    from igakit.io import PetIGA
    if case.get('kind') == 'large':
        return large.p22(case, ctx, PetIGA, fmt, refused)
    F = fmt.FORMATS[case['fmt']]
    io = PetIGA(*F)
    I = 'i' if F[2] == '32bit' else 'q'
    isz = struct.calcsize('>' + I)
    with fmt.Scratch() as S:
        f = S.path()
        if 'vec' in case:
            v = [complex(x, 1) if F[1] == 'complex' else x for x in sp.gen((9,), 3)][:case['vec']]
            data = fmt.encode_vec(v, F)
            read = io.read_vec
            words = [(0, fmt.VEC, 'id'), (isz, case['vec'], 'grow')]
            others = [io.read, io.read_mat]
        elif 'mat' in case:
            n = case['mat']
            rows = [[(j, 1.5 + j) for j in range(i + 1) if (i + j) % 2 == 0] for i in range(n)]
            data = fmt.encode_mat(n, n + 1, rows, F)
            read = io.read_mat
            words = [(0, fmt.MAT, 'id'), (3 * isz, sum(map(len, rows)), 'any')]
            others = [io.read, io.read_vec]
        else:
            al = [table()[i] for i in case['obj']]
            nrb = lib.build([p for p, U in al], [U for p, U in al], 1, case['nf'], 1)
            io.write(f, nrb, control=bool(case['control']))
            data = open(f, 'rb').read()
            read = io.read
            words = []
            for o, size, what in fmt.decode_iga(data, F)['words']:
                if what in ('class id', 'vec id'):
                    words.append((o, None, 'id'))
                elif what in ('vec size',):
                    words.append((o, None, 'any'))
                elif what in ('dim', 'nsd', 'npd', 'degree', 'knot count'):
                    words.append((o, None, what))
            others = [io.read_vec, io.read_mat]
        whole = read_state(read, f, data)
        key = [case]
        # crash points
        for n in range(len(data)):
            refused(ctx, 'truncated file', read, f, data[:n], (key, n), bytes=n, of=len(data), case=case)
        # wrong header words
        for o, val, kind in words:
            old = struct.unpack_from('>' + I, data, o)[0]
            new = []
            if kind == 'id':
                new = [old ^ (1 << b) for b in range(8 * isz - 1)] + [0, -1, old + 1, fmt.IGA if old != fmt.IGA else fmt.VEC, fmt.MAT]
                new += [struct.unpack('<' + I, struct.pack('>' + I, old))[0]]
            elif kind == 'any':
                new = [old + 1, old - 1, old + 7, 0, -1, -old - 2, 2 * old + 1]
            elif kind == 'grow':
                new = [old + 1, old + 7, 10 * old + 5, -1, -3]
            elif kind == 'dim':
                new = [0, 4, 5, -1]
            elif kind == 'nsd':
                d = len(case['obj'])
                new = [d - 1, 4, 0, -1] + [x for x in (1, 2, 3) if x != old]
            elif kind == 'npd':
                new = [0, -2, old + 1, old + 5]
            elif kind == 'degree':
                new = [0, -1, old + 1000]
            elif kind == 'knot count':
                new = [0, 1, 2, -1, 10 ** 6]
            for x in new:
                if x == old:
                    continue
                d = data[:o] + struct.pack('>' + I, x) + data[o + isz:]
                refused(ctx, 'wrong %s word' % kind, read, f, d, (key, o, x), offset=o, old=old, new=x, case=case)
        # foreign readers and formats
        for r in others:
            refused(ctx, 'foreign file', r, f, data, (key, 'reader'), case=case)
        for G in fmt.FORMATS:
            if G[2] != F[2]:
                r = getattr(PetIGA(*G), read.__name__)
                refused(ctx, 'foreign index size', r, f, data, (key, G), case=case, other=G)
        # the reader still works
        ctx.check(read_state(read, f, data) == whole, 'the intact file is read differently after the refused ones')
        ctx.check(read_state(read, f, data + b'\0' * 3) == whole, 'bytes after the end change the result')
        ctx.ev(2)
        ctx.sample(dict(case=case, bytes=len(data)))


def read_state(read, f, data):
    with open(f, 'wb') as fh:
        fh.write(data)
    r = read(f)
    if hasattr(r, 'knots'):
        return lib.snap(r)
    return repr(r)
