"""plant bugs: seed.py FILE [ID...] - FILE defines SEEDS = {id: dict(prop, edits=[(path, old, new)], demo, needs, breaks)};
each is applied to a scratch copy of /repo, tested (existing tests must pass, demo must flip), and written to /verif/seeded"""
import json
import os
import runpy
import shutil
import subprocess
import sys

OUT = os.environ.get('SEED_OUT', '/verif/seeded')
W = '/tmp/seedwork'
PY = '/opt/venv/bin/python'
HEAD = "import os\nimport sys\nsys.path.insert(0, os.getcwd())\n"


def sh(cmd, cwd, timeout=300):
    env = dict(os.environ, LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
    return p.returncode, p.stdout + p.stderr


def one(sid, d, base):
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree('/repo', W, symlinks=True)
    for path, old, new in d['edits']:
        s = open(os.path.join(W, path)).read()
        if s.count(old) != 1:
            return 'edit does not apply to %s (%d matches)' % (path, s.count(old))
        open(os.path.join(W, path), 'w').write(s.replace(old, new))
    o = os.path.join(OUT, sid)
    os.makedirs(o, exist_ok=True)
    diff = subprocess.run(['git', 'diff'], cwd=W, capture_output=True, text=True).stdout
    open(o + '/patch.diff', 'w').write(diff)
    open(o + '/demo.py', 'w').write(HEAD + d['demo'].strip('\n') + '\n')
    open(o + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 %s "$(dirname "$0")/demo.py"\n' % PY)
    os.chmod(o + '/demo.sh', 0o755)
    json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(o + '/meta.json', 'w'), indent=1)
    a, ta = sh('bash %s/demo.sh' % o, '/repo')
    b, tb = sh('bash %s/demo.sh' % o, W)
    if a != 0:
        return 'demo fails on the unchanged tree: ' + ta[-600:]
    if b == 0:
        return 'demo passes with the change'
    if 'AssertionError' not in tb and not d.get('any_error') and b != 124:
        return 'demo fails oddly: ' + tb[-600:]
    c, tc = sh(PY + ' -m pytest -q -p no:cacheprovider --timeout=60 --benchmark-skip --continue-on-collection-errors -x -q tests 2>&1 | tail -15', W)
    failed = [l for l in tc.splitlines() if l.startswith('FAILED') or l.startswith('ERROR')]
    failed = [l for l in failed if not any(x in l for x in base)]
    if failed:
        return 'tests fail: ' + '; '.join(failed)[:400]
    return None


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    want = sys.argv[2:] or list(seeds)
    for sid in want:
        r = one(sid, seeds[sid], ())
        if r:
            shutil.rmtree(os.path.join(OUT, sid), ignore_errors=True)
        print('%-28s %s' % (sid, r or 'ok'))
    shutil.rmtree(W, ignore_errors=True)


if __name__ == "__main__":
    main()
