"""Memory safety of the compiled kernels: address checks, bounds checks and poisoned memory over exhaustive call spaces."""
import itertools
import json
import os
import subprocess
import tempfile
from mc import build, spaces as sp, opset

ID = 'P26'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state model checking: exhaustive bounded exploration of calls and operation sequences on an instrumented build of the real code (address sanitizer, array bounds checks, poisoned memory as monitors)'
RULE = ('every kernel entry point on every knot word of the alphabet with all admissible small arguments, tensor kernels on all tuples of words, '
        'public methods after all short operation sequences together with every call of the invalid alphabet, and entry points with one unsuitable argument, '
        'on two builds of the real code with address checks on exact-size arrays, array bounds checks, and memory and local variables poisoned differently: '
        'no report, no end of the process, and the same bytes from both builds; a state is the object after a history, or the case of a direct call')
BOUNDS = {'quick': 'degrees 1-3, all words up to 2p+4 knots (p=3: 2p+3), 4 words per direction in tensor kernels; sequences of one operation from 6 objects',
          'thorough': 'degrees 1-5, all words of the thorough alphabet, 8 words per direction (5 in three), sequences of two operations from 6 objects, one from 14'}
CASE_TIMEOUT = 600
LIBASAN = None
VARIANTS = [('ff', ['-finit-real=nan', '-finit-integer=-1431655766', '-finit-logical=true']),
            ('3f', ['-finit-real=inf', '-finit-integer=3', '-finit-logical=false'])]
TOPS = []


def mixed(n):
    c, u = sp.clamped, sp.open_ends
    W = [(2, c(2, (1,), 'off')), (1, c(1, (1,), 'third')), (3, u(c(3, (2,), 'third'), 3, 1, 1)), (2, u(c(2, (), 'int'), 2, 1, 2)),
         (1, u(c(1, (1, 1), 'neg'), 1, 1, 1)), (4, c(4, (), 'unit')), (3, c(3, (3, 1), 'nonuni')), (2, u(c(2, (2,), 'third'), 2, 2, 3))]
    return [(p, tuple(U)) for p, U in W[:n]]


def cases(tier):
    q = tier == 'quick'
    from mc import memserver_names as names
    yield dict(kind='cad')
    for k in ('construct', 'affine', 'files', 'plots'):
        for dim in (1, 2, 3):
            yield dict(kind=k, dim=dim)
    for fn in names.BAD:
        yield dict(kind='bad', fn=fn)
    for p in range(1, 5 if q else 8):
        yield dict(kind='iga', p=p)
    ex = {1: 2, 2: 2, 3: 1} if q else {1: 4, 2: 4, 3: 3, 4: 2, 5: 1}
    for p, e in ex.items():
        for _, U in sp.words(p, e, 'third'):
            yield dict(kind='k1', p=p, U=list(U), comps=[1, 4] if q else [1, 2, 4, 7])
            yield dict(kind='pub', ws=[(p, U)], wk=1, nf=1)
    for p, e in ({1: 3, 2: 2} if q else {1: 4, 2: 3, 3: 2}).items():
        for _, U in sp.wild_words(p, e):
            yield dict(kind='pub', ws=[(p, U)], wk=1, nf=1)
    for k in (2, 3):
        W = mixed((4 if k == 2 else 3) if q else (8 if k == 2 else 5))
        for t in itertools.product(W, repeat=k):
            if not q or k == 2 or len(set(t)) == k:
                yield dict(kind='pub', ws=list(t), wk=1, nf=0 if k > 2 else 2)
            for d in (3,) if q else (1, 2, 3, 5):
                yield dict(kind='kn', ws=list(t), d=d)
    for i in range(10 if q else len(opset.objects("thorough"))):
        dim = len(opset.objects('thorough')[i][0])
        yield dict(kind='obj', tier='thorough', obj=i, ops=[], invalid=1)
        from_ = len(opset.inplace(dim)) + len(opset.derived(dim))
        for j in range(from_):
            yield dict(kind='obj', tier='thorough', obj=i, ops=[j], invalid=1)
            if not q and i < 10:
                yield dict(kind='obj', tier='thorough', obj=i, ops=[j, -1], invalid=0)


def BUILD():
    """Both variants are built here; the package of the first one is what the framework activates."""
    global LIBASAN
    LIBASAN = subprocess.check_output(['gcc', '-print-file-name=libasan.so'], text=True).strip()
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc')
    san = ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer', '-fcheck=bounds,do,mem,pointer']
    from concurrent.futures import ThreadPoolExecutor
    def one(init):
        return build.build(fflags=tuple(san + init), link=('-fsanitize=address',)) if init else build.build()
    with ThreadPoolExecutor(3) as ex:
        tops = list(ex.map(one, [init for byte, init in VARIANTS] + [None]))
    for top in tops[:-1]:
        subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-w', os.path.join(here, 'poison.c'), '-o', os.path.join(top, 'poison.so')] + build.includes())
        TOPS.append(top)
    return tops[-1]


class Server:
    def __init__(self, top, byte):
        self.dir = tempfile.mkdtemp(prefix='igamem-', dir=top)
        self.label = os.path.join(self.dir, 'label')
        with open(self.label, 'wb') as f:
            f.write(b' ' * 4096)
        self.err = open(os.path.join(self.dir, 'err'), 'w+b')
        env = dict(os.environ, LD_PRELOAD=LIBASAN, PYTHONMALLOC='malloc', MPLBACKEND='agg',
                   ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1:malloc_fill_byte=%d:max_malloc_fill_size=1073741824:'
                   'detect_stack_use_after_return=0:handle_segv=1:abort_on_error=0' % int(byte, 16))
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.p = subprocess.Popen([build.PY, '-S', '-B', os.path.join(here, 'mc', 'memserver.py'), top, here, self.label],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, text=True, cwd=self.dir)
        line = self.p.stdout.readline()
        assert line.strip() == 'ready', self.tail()

    def send(self, case):
        self.p.stdin.write(json.dumps(case) + '\n')
        self.p.stdin.flush()

    def recv(self):
        line = self.p.stdout.readline()
        if line:
            return json.loads(line)
        self.p.wait()
        return None

    def tail(self):
        self.err.flush()
        self.err.seek(0)
        return self.err.read().decode('utf8', 'replace')

    def where(self):
        return open(self.label, 'rb').read(1000).decode('utf8', 'replace').strip()


SERVERS = []


def worker_init(ctx):
    SERVERS[:] = [Server(t, b) for t, (b, _) in zip(TOPS, VARIANTS)]


def run(case, ctx):
    if not SERVERS:
        worker_init(ctx)
    try:
        for s in SERVERS:
            s.send(case)
    except BrokenPipeError:
        pass
    res = [s.recv() for s in SERVERS]
    for s, r in zip(SERVERS, res):
        if r is None:
            ctx.fail('the interpreter was ended by a call: ' + s.where(), exit=s.p.returncode, report=report(s.tail()))
    a, b = res
    ctx.ev(2 * a['n'])
    ctx.trans(a['n'])
    ctx.trace(2)
    ctx.state(case)
    ctx.distinct(case)
    if a['out'] != b['out']:
        diff = [(x, y) for x, y in zip(a['out'], b['out']) if x != y]
        ctx.fail('the result depends on the previous contents of memory: ' + diff[0][0][0], got=diff[0], n=len(diff))
    for n, d in a['out']:
        if not d.isalnum() or len(d) != 16:
            ctx.outcome((n.split('(')[0], d))
    ctx.n('calls_raising', sum(1 for n, d in a['out'] if len(d) != 16 or 'Error' in d))
    if case['kind'] == 'obj':
        for n, d in a['out']:
            if ':' not in n:
                ctx.state(d)
    ctx.sample(dict(case=case, calls=a['n']))


def report(t):
    i = t.find('ERROR: AddressSanitizer')
    return t[max(i, 0):][:1800] if i >= 0 else t[-1500:]
