"""profile the decisions of one unit: PYTHONPATH as in check.py; usage prof.py UNIT [budget]"""
import collections, sys, os, traceback
sys.path.insert(0, '/verif')
import check
units = check.load_units()
from pyvc import harness, core
u = [x for x in units if x.name == sys.argv[1]][0]
cnt = collections.Counter()
oc, ob = core.Ctx.choose, core.Ctx.branch
def site():
    fs = traceback.extract_stack(limit=40)
    out = []
    for f in reversed(fs[:-2]):
        if 'core.py' in f.filename and f.name in ('branch', 'choose', 'truth', '__bool__'): continue
        out.append('%s:%d' % (os.path.basename(f.filename), f.lineno))
        if len(out) >= int(os.environ.get('D', '3')): break
    return ' < '.join(out)
def choose(self, n, label=''):
    new = len(self.decisions) >= len(self.prefix)
    r = oc(self, n, label)
    if new: cnt['choose %s | %s' % (label, site())] += n - 1
    return r
def branch(self, t):
    before = len(self.explorer.stack)
    r = ob(self, t)
    if len(self.explorer.stack) > before: cnt['branch %s | %s' % (str(t)[:60].replace('\n', ' '), site())] += 1
    return r
core.Ctx.choose, core.Ctx.branch = choose, branch
ex = harness.Explorer(u, float(sys.argv[2]) if len(sys.argv) > 2 else 20)
ex.run()
print('paths', ex.paths, 'restarts', ex.restarts, 'obl', len(ex.results), 'fail', len(ex.fail_inputs), ex.trouble[:3])
for k, v in cnt.most_common(25): print(v, k)
