"""behaviour-preserving edits: refactor.py FILE [ID...] - each is applied to a scratch copy of /repo; the existing tests must pass
and the checks of the properties concerned must stay quiet"""
import os
import runpy
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, '/verif/tools')
from seed import sh    # noqa: E402


def one(a):
    rid, d = a
    w = '/tmp/refac_%s' % rid
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, symlinks=True)
    try:
        for path, old, new in d['edits']:
            s = open(os.path.join(w, path)).read()
            if s.count(old) != 1:
                return '%-30s edit does not apply to %s (%d matches): %r' % (rid, path, s.count(old), old[:60])
            open(os.path.join(w, path), 'w').write(s.replace(old, new))
        rc, out = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60 --benchmark-skip --continue-on-collection-errors -x tests 2>&1 | tail -5', w)
        bad = [l for l in out.splitlines() if l.startswith('FAILED')]
        res = ['%-30s tests: %s' % (rid, bad or out.strip().splitlines()[-1])]
        for p in d['props']:
            t = time.time()
            r = subprocess.run(['/verif/check.py', '--property', p, '--no-evidence'], capture_output=True, text=True,
                               env=dict(os.environ, PYVC_REPO=w, VERIF_SEED='1', VERIF_TIER='quick'), timeout=1800)
            if r.returncode:
                res.append('   %s rc=%d %ds\n%s' % (p, r.returncode, time.time() - t, '\n'.join(
                    '      ' + l[:220] for l in r.stdout.splitlines()[:6] + r.stderr.splitlines()[-3:])))
            else:
                res.append('   %s ok %ds' % (p, time.time() - t))
        return '\n'.join(res)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    R = runpy.run_path(sys.argv[1])['R']
    ids = sys.argv[2:] or list(R)
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(one, [(i, R[i]) for i in ids]):
            print(r, flush=True)
