"""first failing obligations of a unit with the decisions of their paths: dbg.py UNIT [secs] [how many]"""
import sys, os
sys.path.insert(0, '/verif')
import check
units = check.load_units()
from pyvc import harness, core
u = [x for x in units if x.name == sys.argv[1]][0]
shown = [0]
LIM = int(sys.argv[3]) if len(sys.argv) > 3 else 3
oc, ob, op = core.Ctx.choose, core.Ctx.branch, harness.Explorer.obligation
oi = core.Ctx.__init__
def init(self, *a, **k):
    self.dbg = []
    oi(self, *a, **k)
def choose(self, n, label=''):
    r = oc(self, n, label)
    self.dbg.append('%s=%s' % (label, r))
    return r
def branch(self, t):
    n = len(self.decisions)
    r = ob(self, t)
    if len(self.decisions) > n:
        self.dbg.append('(%s)=%s' % (' '.join(str(t).split())[:200], r))
    return r
def obligation(self, ctx, name, claim, note=None):
    n = len(self.fail_inputs)
    op(self, ctx, name, claim, note)
    if len(self.fail_inputs) > n:
        shown[0] += 1
        print('----', name, str(claim)[:300], note)
        print('   ' + '\n   '.join(ctx.dbg))
        d = list(self.fail_inputs.values())[-1]
        print('   ', d['status'], d.get('inputs'), d['note'])
        if shown[0] >= LIM:
            sys.exit()
core.Ctx.__init__ = init
core.Ctx.choose, core.Ctx.branch, harness.Explorer.obligation = choose, branch, obligation
ex = harness.Explorer(u, float(sys.argv[2]) if len(sys.argv) > 2 else 60)
if os.environ.get('UNSEED'): ex.seeding = False
ex.run()
print('paths', ex.paths, 'restarts', ex.restarts, 'obl', len(ex.results), 'fail', len(ex.fail_inputs), ex.trouble[:3])
