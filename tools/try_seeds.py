"""run the check of each seeded bug's property on a scratch copy with the bug: try_seeds.py [ID...]"""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
D = '/verif/seeded'


def one(s):
    m = json.load(open('%s/%s/meta.json' % (D, s)))
    w = '/tmp/try_%s' % s
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, symlinks=True)
    subprocess.run(['git', 'apply', '%s/%s/patch.diff' % (D, s)], cwd=w, check=True)
    t = time.time()
    p = subprocess.run(['/verif/check.py', '--property', m['property'], '--no-evidence'], capture_output=True, text=True,
                       env=dict(os.environ, PYVC_REPO=w, VERIF_SEED='1', VERIF_TIER='quick'), timeout=1800)
    shutil.rmtree(w, ignore_errors=True)
    v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
    return '%-30s %s rc=%d %3ds %s' % (s, m['property'], p.returncode, time.time() - t, v[0] if v else p.stdout[-200:] + p.stderr[-200:])


ids = sys.argv[1:] or sorted(os.listdir(D))
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, ids):
        print(r, flush=True)
