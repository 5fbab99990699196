"""Independent decoders/encoders of the file formats (struct only, nothing from igakit)."""
import os
import shutil
import struct
import tempfile

IGA, VEC, MAT = 1211299, 1211214, 1211216
FORMATS = [(p, s, i) for p in ('double', 'single') for s in ('real', 'complex') for i in ('32bit', '64bit')]


class Scratch:
    """A scratch directory that is always removed."""
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='igamc-io-')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def path(self, name='f.dat'):
        return os.path.join(self.d, name)


class Cursor:
    def __init__(self, data, fmt):
        self.b, self.o = data, 0
        self.prec, self.scal, self.idx = fmt
        self.words = []         # (offset, size, meaning)

    def take(self, code, n, what):
        size = struct.calcsize('>' + code)
        if self.o + n * size > len(self.b):
            raise ValueError('file too short at ' + what)
        v = struct.unpack_from('>%d%s' % (n, code), self.b, self.o)
        self.words.append((self.o, n * size, what))
        self.o += n * size
        return list(v)

    def ints(self, n=1, what='int'):
        return self.take('i' if self.idx == '32bit' else 'q', n, what)

    def int(self, what):
        return self.ints(1, what)[0]

    def reals(self, n, what):
        return self.take('d' if self.prec == 'double' else 'f', n, what)

    def scalars(self, n, what):
        if self.scal == 'real':
            return self.reals(n, what)
        v = self.reals(2 * n, what)
        return [complex(a, b) for a, b in zip(v[::2], v[1::2])]


def decode_iga(data, fmt):
    c = Cursor(data, fmt)
    out = {}
    assert c.int('class id') == IGA, 'class id'
    info = c.int('info')
    assert 0 <= info <= 3
    dim = c.int('dim')
    assert 1 <= dim <= 3
    out['degree'], out['knots'], shape = [], [], []
    for i in range(dim):
        p = c.int('degree')
        m = c.int('knot count')
        out['degree'].append(p)
        out['knots'].append(c.reals(m, 'knots'))
        shape.append(m - p - 1)
    def grid(k, flat):
        """component fastest, then the first axis"""
        res = {}
        n = 0
        import itertools
        for idx in itertools.product(*[range(s) for s in reversed(shape)]):
            for a in range(k):
                res[tuple(reversed(idx)) + (a,)] = flat[n]
                n += 1
        assert n == len(flat), 'number of values'
        return res
    if info & 1:
        nsd = c.int('nsd')
        assert c.int('vec id') == VEC, 'vec id'
        n = c.int('vec size')
        out['nsd'], out['control'] = nsd, grid(nsd + 1, c.scalars(n, 'control'))
    if info & 2:
        npd = c.int('npd')
        assert c.int('vec id') == VEC, 'vec id'
        n = c.int('vec size')
        out['npd'], out['fields'] = npd, grid(npd, c.scalars(n, 'fields'))
    assert c.o == len(data), 'trailing bytes'
    out['shape'] = shape
    out['words'] = c.words
    return out


def encode_mat(M, N, rows, fmt):
    """rows: list of lists of (column, value)."""
    prec, scal, idx = fmt
    I = 'i' if idx == '32bit' else 'q'
    R = 'd' if prec == 'double' else 'f'
    nz = sum(len(r) for r in rows)
    b = struct.pack('>4' + I, MAT, M, N, nz)
    b += struct.pack('>%d%s' % (M, I), *[len(r) for r in rows])
    b += struct.pack('>%d%s' % (nz, I), *[c for r in rows for c, v in r])
    return b + encode_vals([v for r in rows for c, v in r], R, scal)


def encode_vals(vals, R, scal):
    out = []
    for v in vals:
        v = complex(v)
        out += (v.real, v.imag) if scal == 'complex' else (v.real,)
    return struct.pack('>%d%s' % (len(out), R), *out)


def encode_vec(vals, fmt):
    prec, scal, idx = fmt
    I = 'i' if idx == '32bit' else 'q'
    R = 'd' if prec == 'double' else 'f'
    return struct.pack('>2' + I, VEC, len(vals)) + encode_vals(vals, R, scal)


def decode_vtk(data):
    """Legacy BINARY VTK file -> dict."""
    pos = 0

    def line():
        nonlocal pos
        j = data.index(b'\n', pos)
        s = data[pos:j].decode('ascii')
        pos = j + 1
        return s

    def doubles(n):
        nonlocal pos
        v = struct.unpack_from('>%dd' % n, data, pos)
        pos += 8 * n
        assert data[pos:pos + 1] == b'\n', 'newline after binary data'
        pos += 1
        return list(v)
    out = dict(header=line(), title=line(), format=line())
    assert out['header'].startswith('# vtk DataFile Version '), 'header'
    assert len(out['title']) <= 255
    assert out['format'] == 'BINARY', 'format'
    w = line().split()
    assert w[0] == 'DATASET'
    out['dataset'] = w[1]
    w = line().split()
    assert w[0] == 'DIMENSIONS' and len(w) == 4
    out['dims'] = [int(x) for x in w[1:]]
    n = out['dims'][0] * out['dims'][1] * out['dims'][2]
    if out['dataset'] == 'STRUCTURED_GRID':
        w = line().split()
        assert w[0] == 'POINTS' and int(w[1]) == n and w[2] == 'double', 'POINTS line'
        v = doubles(3 * n)
        out['points'] = [v[3 * i:3 * i + 3] for i in range(n)]
    else:
        assert out['dataset'] == 'RECTILINEAR_GRID'
        out['coords'] = []
        for k, X in enumerate('XYZ'):
            w = line().split()
            assert w[0] == X + '_COORDINATES' and w[2] == 'double' and int(w[1]) == out['dims'][k], 'coordinates line'
            out['coords'].append(doubles(int(w[1])))
    out['scalars'], out['vectors'] = [], []
    if pos < len(data):
        w = line().split()
        assert w[0] == 'POINT_DATA' and int(w[1]) == n, 'POINT_DATA'
        while pos < len(data):
            w = line().split()
            assert w[2] == 'double'
            if w[0] == 'SCALARS':
                assert line().split()[0] == 'LOOKUP_TABLE'
                out['scalars'].append((w[1], doubles(n)))
            else:
                assert w[0] == 'VECTORS'
                v = doubles(3 * n)
                out['vectors'].append((w[1], [v[3 * i:3 * i + 3] for i in range(n)]))
    assert pos == len(data), 'trailing data'
    return out
