"""Does a model of a library function exclude what Python really gives?  Runs the unit of contracts/conformance.py, in which every check is
the false claim that the real result is impossible: each has to be refuted.  Prints the cases that are not; exit 1 if there are any."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), '--property', 'CONFORM', '--no-evidence', '--tier', 'thorough'], cwd=HERE,
                   env=dict(os.environ, PYVC_DEBUG='1', PYVC_CONFORM='1'), capture_output=True, text=True)
import json
t = r.stdout
d = json.JSONDecoder().raw_decode(t[t.index('\n{\n'):].lstrip())[0]['proof']
bad = {f['name'] for f in d['failed']}
out = sorted(n for n in d['obligations'] if n not in bad)
n = sum(l.startswith('unsupported') for l in t.splitlines())
print('%d cases: %d admitted, %d beyond the models, %d excluded' % (len(d['obligations']), len(bad) - n, n, len(out)))
for x in out:
    print('EXCLUDED', x)
for x in d['trouble']:
    print('TROUBLE', x)
sys.exit(bool(out or d['trouble'] or not bad))
