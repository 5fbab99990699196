"""Authoring aid for /verif/seeded (no check uses it).  python3 tools/mkseed.py SPEC.py ...

A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (python source; must exit non-zero when
the property is broken).  Writes seeded/<ID>/ and tries it: patch applies, builds, passes the stable tests, demo 0 on clean and
non-zero when patched; then runs the property's quick check on the patched tree.  /repo is restored afterwards."""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SH = '''#!/bin/sh
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=agg
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def stable():
    base = json.load(open('/opt/vp/BASELINE.json'))
    base = base.get('stable') or base.get('passing') or base.get('tests') or base
    out = '/tmp/seed-test.json'
    sh('bash /opt/vp/test.sh ' + out)
    r = json.load(open(out))
    return base, r


def main(specs):
    assert not sh('git -C %s status --porcelain' % REPO).stdout.strip(), 'dirty /repo'
    for spec in specs:
        d = {}
        exec(open(spec).read(), d)
        out = os.path.join(ROOT, 'seeded', d['ID'])
        os.makedirs(out, exist_ok=True)
        try:
            for f, old, new, *nth in d['EDITS']:        # nth: which occurrence, from 0
                p = os.path.join(REPO, f)
                s = open(p).read()
                assert s.count(old) == 1 if not nth else s.count(old) > nth[0], (d['ID'], f, s.count(old), old)
                parts = s.split(old)
                k = nth[0] + 1 if nth else 1
                open(p, 'w').write(old.join(parts[:k]) + new + old.join(parts[k:]))
            diff = sh('git -C %s diff' % REPO).stdout
        finally:
            sh('git -C %s checkout -- .' % REPO)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(d['DEMO'])
        open(out + '/demo.sh', 'w').write(SH)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=d['PROPERTY'], needs=d['NEEDS'], what_it_breaks=d['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
        attempt(d['ID'], d['PROPERTY'])


def attempt(sid, pid):
    out = os.path.join(ROOT, 'seeded', sid)
    sh('bash /opt/vp/build.sh')
    r0 = sh(out + '/demo.sh', cwd=REPO)
    try:
        a = sh('git -C %s apply %s/patch.diff' % (REPO, out))
        b = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/seed-test.json')
        res = json.load(open('/tmp/seed-test.json'))
        failed = [k for k, v in res.items()] if isinstance(res, list) else res
        fl = res.get('failed', []) if isinstance(res, dict) else []
        ps = res.get('passed', []) if isinstance(res, dict) else []
        r1 = sh(out + '/demo.sh', cwd=REPO)
        c = sh('./check %s --tier quick' % pid, cwd=ROOT) if pid and os.path.exists('%s/checks/%s.py' % (ROOT, pid.lower())) else None
    finally:
        sh('git -C %s checkout -- .' % REPO)
        sh('bash /opt/vp/build.sh')
    ok = a.returncode == 0 and b.returncode == 0 and not fl and len(ps) >= 63 and r0.returncode == 0 and r1.returncode != 0
    print(sid, pid, 'VALID' if ok else 'INVALID', 'apply', a.returncode, 'build', b.returncode, 'passed', len(ps), 'failed', fl[:4],
          'demo', r0.returncode, r1.returncode, 'CHECK', None if c is None else c.returncode, flush=True)
    if r0.returncode:
        print(r0.stdout[-600:])
    if a.returncode:
        print(a.stdout)
    if c is not None:
        print('   ', [l for l in c.stdout.splitlines() if 'VIOLATION' in l][:2] or c.stdout[-300:], flush=True)


if __name__ == '__main__':
    if sys.argv[1] == '--try':
        for s in sys.argv[2:]:
            attempt(s, json.load(open('%s/seeded/%s/meta.json' % (ROOT, s)))['property'])
    else:
        main(sys.argv[1:])
