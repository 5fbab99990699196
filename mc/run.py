"""Exhaustive driver: runs every case of a bounded space on the real code.

A check module defines

    ID, LEVEL, RULE
    cases(tier)        -> iterable of JSON-able cases, simplest first
    run(case, ctx)     -> executes one case on the code under test and raises
                          Violation when the property does not hold
    optional: FFLAGS, LINK, BUILD(), CASE_TIMEOUT, BOUNDS (text), WORKERS,
              post(tier, totals) -> list of violation messages (global checks)

Cases are dealt to forked workers by index.  Each worker publishes the index of
the case it is executing in shared memory, so that a terminated interpreter or
a hang is attributed to the case that caused it.
"""
import hashlib
import importlib
import json
import mmap
import multiprocessing
import os
import pickle
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = 8


class Violation(Exception):
    pass


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, complex):
        return [x.real, x.imag]
    return x


def h64(x):
    if not isinstance(x, bytes):
        x = json.dumps(jsonable(x), sort_keys=True, default=repr).encode()
    return hashlib.blake2b(x, digest_size=8).digest()


class Ctx:
    def __init__(self, mod, tier, seed, known):
        self.ID = mod.ID
        self.tier = tier
        self.seed = seed
        self.known_keys = known
        self.counts = {}
        self.states = set()
        self.outcomes = set()
        self.nontrivial = set()
        self.samples = []
        self.known_hits = {}
        self.case = None
        self.net = None

    def n(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def ev(self, k=1):
        """One execution of the code under test compared with the oracle."""
        self.n('evaluations', k)

    def trans(self, k=1):
        self.n('transitions', k)

    def trace(self, k=1):
        self.n('traces', k)

    def state(self, key):
        """Register a state; True when it is new to this worker."""
        k = h64(key if self.net is None else [self.net, key])
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def outcome(self, key):
        self.outcomes.add(h64(key))

    def distinct(self, key):
        self.nontrivial.add(h64(key if self.net is None else [self.net, key]))

    def sample(self, obj):
        if len(self.samples) < 4:
            self.samples.append(jsonable(obj))

    def fail(self, msg, **detail):
        if detail:
            msg = msg + ' | ' + json.dumps(jsonable(detail), default=repr)[:4000]
        raise Violation(msg)

    def check(self, ok, msg, **detail):
        if not ok:
            self.fail(msg, **detail)

    def known(self, key, msg):
        """A violation identified as a recorded finding (exact key)."""
        if key not in self.known_keys:
            self.fail(msg + ' [finding %s is not recorded]' % key)
        self.known_hits[key] = self.known_hits.get(key, 0) + 1


def known_findings(pid):
    keys = {}
    path = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                keys[m.group(2)] = m.group(3)
    return keys


def beat(shm, i, idx):
    import numpy as np
    a = np.frombuffer(shm, dtype='i8')      # aligned 8-byte stores
    a[8 + 2 * i + 1] = int(time.time())
    a[8 + 2 * i] = idx


def slot(shm, i):
    import numpy as np
    a = np.frombuffer(shm, dtype='i8')
    return int(a[8 + 2 * i]), int(a[8 + 2 * i + 1])


def claim(shm, lock):
    """The next case nobody has."""
    import numpy as np
    a = np.frombuffer(shm, dtype='i8')
    with lock:
        a[1] += 1
        return int(a[1]) - 1


def cases_of(mod, tier):
    """The cases of a module; every K-th one again with special control nets, in turn (VERIF_SEED shifts the turn)."""
    nets = getattr(mod, 'NETS', None)
    if nets is None:
        yield from mod.cases(tier)
        return
    every, names = nets
    shift = int(os.environ.get('VERIF_SEED') or 1) - 1
    i, k = shift, shift // every
    for case in mod.cases(tier):
        yield case
        if case.get('kind') in ('large', 'args') or 'at' in case or 'batch' in case:
            continue
        i += 1
        if i % every == 0:
            yield dict(case, net=names[k % len(names)])
            k += 1


def _worker(i, nproc, mod, tier, seed, known, shm, lock, outpath, only=None):
    from . import lib, ref
    ctx = Ctx(mod, tier, seed, known)
    viol = None
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if hasattr(mod, 'worker_init'):
            mod.worker_init(ctx)
        mine = claim(shm, lock) if only is None else only
        for idx, case in enumerate(cases_of(mod, tier)):
            if idx != mine:
                continue
            if shm[0] != 0:
                break
            beat(shm, i, idx)
            ctx.case = case
            lib.NET = ctx.net = case.get('net') if isinstance(case, dict) else None
            ref.FLOOR = lib.FLOORS.get(ctx.net, 1.0)
            try:
                mod.run(case, ctx)
                ctx.n('cases')
            except Violation as e:
                viol = (idx, case, str(e))
            except MemoryError:
                raise
            except Exception as e:
                tb = traceback.format_exc()
                viol = (idx, case, 'unexpected %s: %s\n%s' % (type(e).__name__, e, tb[-3000:]))
            if viol is not None:
                shm[0] = 1
                break
            if only is None:
                mine = claim(shm, lock)
        beat(shm, i, -1)
        out = dict(counts=ctx.counts, states=ctx.states, outcomes=ctx.outcomes,
                   nontrivial=ctx.nontrivial, samples=ctx.samples,
                   known=ctx.known_hits, viol=viol)
        with open(outpath + '.tmp', 'wb') as f:
            pickle.dump(out, f)
        os.rename(outpath + '.tmp', outpath)
        code = 0
    except BaseException:
        traceback.print_exc()
        code = 70
    sys.stderr.flush()
    os._exit(code)


def explore(mod, tier, seed, known, only=None):
    """Fork workers, gather results. Returns (totals, violations)."""
    nproc = 1 if only is not None else getattr(mod, 'WORKERS', NPROC)
    timeout = getattr(mod, 'CASE_TIMEOUT', 150)
    shm = mmap.mmap(-1, 4096)
    lock = multiprocessing.Lock()
    for i in range(nproc):
        beat(shm, i, -2)
    tmp = tempfile.mkdtemp(prefix='igamc-out-')
    pids = {}
    sys.stdout.flush(), sys.stderr.flush()
    for i in range(nproc):
        out = os.path.join(tmp, '%d.pkl' % i)
        pid = os.fork()
        if pid == 0:
            _worker(i, nproc, mod, tier, seed, known, shm, lock, out, only)
        pids[pid] = i
    viols = []
    died = []
    broken = False
    live = dict(pids)
    while live:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.time()
            for p, i in list(live.items()):
                idx, t = slot(shm, i)
                if idx >= 0 and now - t > timeout:
                    time.sleep(0.5)
                    if slot(shm, i) != (idx, t):
                        continue
                    os.kill(p, signal.SIGKILL)
                    died.append((idx, 'no progress for %d s (hang)' % timeout))
                    shm[0] = 1
                    os.waitpid(p, 0)
                    live.pop(p)
            time.sleep(0.02)
            continue
        if pid not in live:
            continue
        i = live.pop(pid)
        if not os.path.exists(os.path.join(tmp, '%d.pkl' % i)):
            idx, t = slot(shm, i)
            code = os.waitstatus_to_exitcode(st)
            if code == 70 or idx < 0:
                broken = True
                shm[0] = 1
            else:
                died.append((idx, 'process terminated (%s)' % (
                    'signal %d' % -code if code < 0 else 'exit status %d' % code)))
                shm[0] = 1
    tot = dict(counts={}, states=set(), outcomes=set(), nontrivial=set(), samples=[], known={})
    for i in range(nproc):
        f = os.path.join(tmp, '%d.pkl' % i)
        if not os.path.exists(f):
            continue
        with open(f, 'rb') as fh:
            o = pickle.load(fh)
        for k, v in o['counts'].items():
            tot['counts'][k] = tot['counts'].get(k, 0) + v
        for k in ('states', 'outcomes', 'nontrivial'):
            tot[k] |= o[k]
        tot['samples'] += o['samples']
        for k, v in o['known'].items():
            tot['known'][k] = tot['known'].get(k, 0) + v
        if o['viol']:
            viols.append(o['viol'])
    shutil.rmtree(tmp, ignore_errors=True)
    for idx, why in died:
        case = None
        for j, c in enumerate(cases_of(mod, tier)):
            if j == idx:
                case = c
                break
        viols.append((idx, case, why))
    viols.sort(key=lambda v: v[0])
    if broken and not viols:
        sys.stderr.write('harness worker failed\n')
        raise SystemExit(3)
    return tot, viols


def evidence(mod, tier, seed, tot, viols, wall):
    c = tot['counts']
    samples = tot['samples'][:8] or [{'case': 'none executed'}]
    if mod.LEVEL == 'model_checking':
        cov = dict(states=len(tot['states']), transitions=c.get('transitions', 0),
                   traces_validated_against_impl=c.get('traces', c.get('cases', 0)),
                   samples=samples, rule=mod.RULE)
    else:
        cov = dict(evaluations=c.get('evaluations', 0),
                   distinct_nontrivial=len(tot['nontrivial']),
                   rule=mod.RULE, samples=samples)
    if tot['outcomes']:
        cov['distinct_outcomes'] = len(tot['outcomes'])
    cov['cases'] = c.get('cases', 0)
    cov['exhaustive'] = not viols
    cov['bounds'] = getattr(mod, 'BOUNDS', {}).get(tier, '') if isinstance(
        getattr(mod, 'BOUNDS', {}), dict) else mod.BOUNDS
    for k, v in sorted(c.items()):
        if k not in ('transitions', 'traces', 'cases', 'evaluations'):
            cov['n_' + k] = v
    if tot['known']:
        cov['known_findings_seen'] = tot['known']
    e = dict(property=mod.ID, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
             wall_s=round(wall, 2),
             assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
             violations=len(viols))
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, mod.ID + '.json'), 'w') as f:
        json.dump(jsonable(e), f, indent=1, default=repr)


def load(pid):
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    return importlib.import_module('checks.' + pid.lower())


def main(argv):
    t0 = time.time()
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    replay = None
    only = None
    args = argv[1:]
    while args:
        a = args.pop(0)
        if a == '--tier':
            tier = args.pop(0)
        elif a == '--replay':
            replay = args.pop(0)
        else:
            raise SystemExit('usage: check ID [--tier quick|thorough] [--replay FILE]')
    seed = int(os.environ.get('VERIF_SEED') or 1)
    from . import build
    if build.SITE not in sys.path:
        sys.path.append(build.SITE)
    mod = load(pid)
    if replay:
        r = json.load(open(replay))
        tier = r['tier']
        only = r['index']
    if hasattr(mod, 'BUILD'):
        top = mod.BUILD()
    else:
        top = build.build(fflags=getattr(mod, 'FFLAGS', ('-O2',)), link=getattr(mod, 'LINK', ()))
    if top:
        build.activate(top)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    known = known_findings(pid)
    if hasattr(mod, 'prepare'):
        mod.prepare(top)
    tot, viols = explore(mod, tier, seed, known, only)
    if not viols and only is None and hasattr(mod, 'post'):
        for msg in mod.post(tier, tot):
            viols.append((-1, None, msg))
    if replay is None:
        evidence(mod, tier, seed, tot, viols, time.time() - t0)
    for k in sorted(tot['known']):
        print('KNOWN-FINDING: property=%s key=%s %s' % (pid, k, known[k]))
    if viols:
        idx, case, what = viols[0]
        d = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (pid, h64([pid, tier, idx]).hex()))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, tier=tier, index=idx, case=jsonable(case), what=what), f, indent=1)
        print('case: %s' % json.dumps(jsonable(case), default=repr)[:2000])
        print('what: %s' % what)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.stdout.flush()
        return 1
    c = tot['counts']
    print('%s %s: held on %d cases (%s) in %.1f s' % (
        pid, tier, c.get('cases', 0),
        ', '.join('%s=%d' % kv for kv in
                  [('states', len(tot['states'])), ('nontrivial', len(tot['nontrivial'])),
                   ('outcomes', len(tot['outcomes']))] + sorted(c.items()) if kv[1]),
        time.time() - t0))
    return 0
