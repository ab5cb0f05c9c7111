#!/usr/bin/env python3
"""check.py --property C02 [--tier quick|thorough] | --replay FILE | --list

Verifies every contract unit of one property against the current sources of /repo.  Exit 0: every obligation
discharged (and every concrete replay of the contracts held).  Exit 1: VIOLATION line.
"""
import argparse
import glob
import hashlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
PY = '/opt/venv/bin/python'
REPO = os.environ.get('PYVC_REPO', '/repo')


def bootstrap():
    want = [REPO, VT, HERE]
    if os.environ.get('PYVC_BOOT') != '1':
        env = dict(os.environ, PYVC_BOOT='1', PYTHONPATH=':'.join(want), PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        os.chdir(HERE)
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)


def load_units():
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != os.path.join(REPO, 'jaeger_client')]
    import importlib
    for f in sorted(glob.glob(os.path.join(HERE, 'contracts', '*.py'))):
        n = os.path.basename(f)[:-3]
        if not n.startswith('_'):
            importlib.import_module('contracts.' + n)
    from pyvc import harness
    return harness.UNITS


def work(args):
    """one unit or one shard of a unit, in a process of its own"""
    idx, what, tier, seed, budget, proof = args
    from pyvc import harness
    u = harness.UNITS[idx]
    t0 = time.time()
    if what != 'conc':
        r = harness.prove_unit(u, budget_s=budget, shard=what)
        return {'proof': r, 'wall': time.time() - t0}
    failure = None
    runs = skipped = 0
    mult = 1 if tier == 'quick' else 20
    # counter-models first
    for det in (proof['failed'] if proof else [])[:40]:
        if failure or time.time() - t0 > 60:
            break
        given = det.get('inputs') or {}
        for k in range(12):
            src = harness.Source('model/%s/%d' % (seed, k), given)
            r = harness.run_concrete(u, src)
            runs += 1
            if r and r[0] == 'fail':
                failure = {'obligation': r[1], 'note': r[2], 'inputs': src.log, 'seed': 'model/%s/%d' % (seed, k),
                           'from': 'counter-model of obligation %r' % det['name']}
                break
            if not given:
                break
    if failure is None:
        bad = proof is None and u.sym or bool(proof and (proof['failed'] or proof['trouble']))
        b = (12 if tier == 'quick' else 60) * (4 if bad else 1)
        n, sk, failure = harness.search_concrete(u, seed, u.runs * mult * (10 if bad else 1), b)
        runs += n
        skipped += sk
        if failure:
            failure['from'] = 'concrete search'
    return {'runs': runs, 'skipped': skipped, 'failure': failure, 'wall': time.time() - t0}


CUT = 'cut short, there is a violation with a failing input'


def run_all(idxs, tier, seed, budget, total, hurry=False):
    """fork a process per unit or shard, at most 8 at a time; the concrete replays of a unit follow its proof"""
    import multiprocessing as mp
    from pyvc import harness
    ctx = mp.get_context('fork')
    todo, parts, out = [], {}, {}
    for i in idxs:
        u = harness.UNITS[i]
        out[i] = {'proof': None, 'runs': 0, 'skipped': 0, 'failure': None, 'wall': 0.0}
        if u.sym:
            ss = list(range(u.shards)) or [None]
            parts[i] = {s: None for s in ss}
            todo += [(i, s) for s in ss]
        elif u.conc:
            todo.append((i, 'conc'))
    # what is short first, so that a failing input is found early; then the longest
    todo.sort(key=lambda t: (harness.UNITS[t[0]].prop != 'CANARY', harness.UNITS[t[0]].shards > 0, -harness.UNITS[t[0]].shards))
    live = {}
    t0 = time.time()
    proofs_until, end, cut = t0 + 0.8 * total, t0 + total, False
    while todo or live:
        if time.time() > proofs_until:
            # proofs not begun by now are not begun any more; what is left of the time is for looking for failing inputs
            for t in [t for t in todo if t[1] != 'conc']:
                todo.remove(t)
                give_up(t, todo, out, CUT if cut else 'time budget exhausted')
        while todo and len(live) < 8:
            t = todo.pop(0)
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(wr, (t[0], t[1], tier, seed, budget, out[t[0]]['proof'])))
            p.start()
            wr.close()
            live[t] = (p, rd, time.time())
        time.sleep(0.01)
        for t, (p, rd, st) in list(live.items()):
            got = None
            if rd.poll():
                try:
                    got = rd.recv()
                except EOFError:
                    got = {'crash': 'the verifier process ended without a result'}
                p.join(5)
            elif not p.is_alive():
                got = {'crash': 'the verifier process died with code %s' % p.exitcode}
            elif time.time() - st > budget * 2.2 + 120 or time.time() > (end if t[1] == 'conc' else proofs_until):
                p.kill()
                p.join()
                got = {'crash': CUT if cut else 'time budget exhausted'}
            if got is None:
                continue
            del live[t]
            i, what = t
            u = harness.UNITS[i]
            if 'crash' in got:
                if 'tb' in got:
                    print(got['tb'])
                give_up(t, todo, out, got['crash'])
            elif what == 'conc':
                w = out[i]['wall']
                out[i].update(got)
                out[i]['wall'] += w
                if got['failure'] and hurry and not cut and u.prop != 'CANARY':
                    cut = True
                    # there is a violation with a failing input: the rest gets a last chance to say more
                    proofs_until, end = min(proofs_until, time.time() + 60), min(end, time.time() + 120)
            else:
                parts[i][what] = got
                out[i]['wall'] = max(out[i]['wall'], got['wall'])
                if all(parts[i].values()):
                    out[i]['proof'] = harness.merge_proofs(u, [g['proof'] for g in parts[i].values()])
                    if u.conc:
                        todo.insert(0, (i, 'conc'))
    return out


def give_up(t, todo, out, why):
    """no proof: there may be a failing input all the same"""
    from pyvc import harness
    i, what = t
    if 'crash' not in out[i] and what != 'conc' and harness.UNITS[i].conc and (i, 'conc') not in todo:
        todo.append((i, 'conc'))
    out[i].setdefault('crash', why)


def _child(wr, args):
    try:
        r = work(args)
    except BaseException as e:    # noqa: B902
        import traceback
        r = {'crash': 'verifier error: %r' % (e,), 'tb': traceback.format_exc()}
    wr.send(r)
    wr.close()
    os._exit(0)


def enc(v):
    if isinstance(v, bytes):
        return {'__bytes__': v.hex()}
    if isinstance(v, tuple):
        return {'__tuple__': [enc(x) for x in v]}
    if isinstance(v, list):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        return {'__dict__': [[enc(a), enc(b)] for a, b in v.items()]}
    if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
        return {'__float__': repr(v)}
    return v


def dec(v):
    if isinstance(v, dict):
        if '__bytes__' in v:
            return bytes.fromhex(v['__bytes__'])
        if '__tuple__' in v:
            return tuple(dec(x) for x in v['__tuple__'])
        if '__dict__' in v:
            return {dec(a): dec(b) for a, b in v['__dict__']}
        if '__float__' in v:
            return float(v['__float__'])
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


def write_replay(prop, uname, failure, proof, extra=None):
    d = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    doc = {'property': prop, 'unit': uname}
    if failure:
        doc.update(mode='inputs', obligation=failure['obligation'], note=failure['note'], seed=failure['seed'],
                   found_by=failure.get('from'), inputs={k: enc(v) for k, v in failure['inputs'].items()})
    else:
        doc.update(mode='obligation', failed=(proof or {}).get('failed'), trouble=(proof or {}).get('trouble'), extra=extra)
    txt = json.dumps(doc, indent=1, sort_keys=True, default=repr)
    name = '%s-%s-%s.json' % (prop, ''.join(c if c.isalnum() else '_' for c in uname)[:40],
                              hashlib.sha1(txt.encode('utf-8', 'replace')).hexdigest()[:8])
    path = os.path.join(d, name)
    with open(path, 'w', encoding='utf-8', errors='surrogatepass') as f:
        f.write(txt)
    return path


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        out = json.load(open(p))
    return out


def replay(path):
    doc = json.load(open(path))
    units = load_units()
    from pyvc import harness
    u = [x for x in units if x.name == doc['unit']][0]
    if doc['mode'] == 'inputs':
        src = harness.Source(doc['seed'], {k: dec(v) for k, v in doc['inputs'].items()})
        r = harness.run_concrete(u, src)
        print('unit %s: %s' % (u.name, r))
        if r and r[0] == 'fail':
            print('VIOLATION property=%s replay=%s' % (doc['property'], path))
            return 1
        return 0
    print(json.dumps({k: doc[k] for k in ('failed', 'trouble', 'extra')}, indent=1))
    r = harness.prove_unit(u, 300) if u.sym else None
    if r and (r['failed'] or r['trouble']):
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (doc['property'], path))
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--unit')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(os.path.abspath(a.replay))
    t0 = time.time()
    seed = os.environ.get('VERIF_SEED', '1')
    problems = []
    try:
        units = load_units()
    except Exception as e:    # the repository cannot even be imported: nothing is proved
        import traceback
        traceback.print_exc()
        p = write_replay(a.property, 'import', None, None, extra=traceback.format_exc())
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (a.property, p))
        return 1
    if a.list:
        for u in units:
            print(u.prop, u.name, u.bounded or '')
        return 0
    prop = a.property
    idxs = [i for i, u in enumerate(units) if (prop is None or u.prop == prop) and (a.unit is None or u.name == a.unit)
            and (a.tier == 'thorough' or u.tier == 'quick')]
    canaries = [i for i, u in enumerate(units) if u.prop == 'CANARY'] if prop != 'CANARY' else []
    if not idxs:
        print('no contracts for', prop)
        return 2
    budget, total = (400, 800) if a.tier == 'quick' else (1500, 7200)
    res = run_all(canaries + idxs, a.tier, seed, budget, total, hurry=a.tier == 'quick' and not any(k.get('kind') == 'known' for k in known_findings()))
    if os.environ.get('PYVC_DEBUG'):
        for i in idxs:
            print(json.dumps(res[i], indent=1, default=repr))
    failures = []        # (unit, kind, failure, proof)
    for i in canaries:
        r = res[i]
        pr = r.get('proof')
        if not pr or not pr['failed'] or pr['trouble'] or any(not v['count'] for v in pr['obligations'].values()):
            problems.append('canary %s was not refuted: the verifier is unsound here' % units[i].name)
            continue
        bad = {f['name'] for f in pr['failed']}
        for n in pr['obligations']:
            if n.startswith('false:') and n not in bad:
                problems.append('canary %s, %s: was not refuted, the verifier is unsound here' % (units[i].name, n))
    tot = disc = 0
    functions, used, models, trust, bounded = set(), set(), set(), set(), []
    fn_ob = []
    q = solver = cvc = 0
    runs = 0
    for i in idxs:
        u, r = units[i], res[i]
        if 'crash' in r:
            print('%-52s FAILED  %s runs=%s' % (u.name, r['crash'], r['runs'] - r['skipped']))
            if r['failure']:
                print('   concrete failure of %r: %s  inputs=%r' % (r['failure']['obligation'], r['failure']['note'][:300],
                                                                     repr(r['failure']['inputs'])[:600]))
            if r['failure'] or r['crash'] != CUT or not any(res[j]['failure'] for j in idxs):
                failures.append((u, 'replayed' if r['failure'] else 'undecided', r['failure'], {'trouble': [r['crash']], 'failed': [], 'tb': r.get('tb')}))
            tot += 1
            continue
        pr = r.get('proof')
        runs += r['runs'] - r['skipped']
        if pr:
            n = sum(v['count'] for v in pr['obligations'].values())
            d = sum(v['proved'] for v in pr['obligations'].values())
            if not u.bounded:   # a bounded stand-in is never counted as proved
                tot += n
                disc += d
                functions |= set(pr['functions'])
            else:
                bounded.append({'unit': u.name, 'bound': u.bounded, 'obligations_within_the_bound': n, 'discharged_within_the_bound': d,
                                'functions': sorted(pr['functions']), 'concrete_replays': r['runs'] - r['skipped']})
            q += pr['queries']
            solver += pr['solver_s']
            cvc += pr['by_cvc5']
            used |= set(pr['contracts'])
            models |= set(pr['models'])
            trust |= set(u.trust)
            fn_ob.append({'unit': u.name, 'obligations': n, 'discharged': d, 'paths': pr['paths'], 'loop_phases': pr['loop_phases'],
                          'inductive_steps': pr['loop_steps'], 'solver_s': round(pr['solver_s'], 2),
                          'wall_s': round(r['wall'], 2), 'bounded': u.bounded,
                          'postconditions': {k: v['count'] for k, v in pr['obligations'].items()},
                          'concrete_replays': r['runs'] - r['skipped']})
        elif u.bounded:
            bounded.append({'unit': u.name, 'bound': u.bounded, 'concrete_replays': r['runs'] - r['skipped']})
        if r['failure']:
            failures.append((u, 'replayed', r['failure'], pr))
        elif pr and (pr['failed'] or pr['trouble']):
            failures.append((u, 'undecided', None, pr))
        if a.v or (pr and (pr['failed'] or pr['trouble'])) or r['failure']:
            print('%-52s %s  %.1fs paths=%s runs=%s' % (u.name, 'ok' if not failures or failures[-1][0] is not u else 'FAILED',
                                                        r['wall'], pr and pr['paths'], r['runs'] - r['skipped']))
        if pr:
            for f in pr['failed'][:6]:
                print('   obligation %r: %s %s' % (f['name'], f['status'], f['note'][:300]))
            for t in pr['trouble'][:6]:
                print('   %s' % t)
        if r['failure']:
            print('   concrete failure of %r: %s  inputs=%r' % (r['failure']['obligation'], r['failure']['note'][:300],
                                                                 repr(r['failure']['inputs'])[:600]))
    for p in problems:
        print(p)
    known = known_findings()
    reported = 0
    lines = []
    for u, kind, failure, pr in failures:
        hit = None
        if failure:
            for k in known:
                if k.get('kind') == 'known' and k['property'] == prop and k['unit'] == u.name and k['obligation'] == failure['obligation'] \
                        and all(failure['inputs'].get(a_) == dec(b_) for a_, b_ in k.get('inputs', {}).items()):
                    hit = k
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit['what']))
            continue
        path = write_replay(prop or u.prop, u.name, failure, pr)
        lines.append('VIOLATION property=%s replay=%s%s' % (prop or u.prop, path, '' if failure else ' no-failing-input-found'))
        reported += 1
    if problems:
        path = write_replay(prop, 'canary', None, None, extra=problems)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    # replayed violations first
    for l in sorted(lines, key=lambda l: l.endswith('found')):
        print(l)
    if not a.no_evidence:
        evidence(prop, a.tier, seed, time.time() - t0, tot, disc, fn_ob, functions, used, models, trust, bounded, q, solver, cvc, runs,
             lines, len(canaries))
    print('%s: %d/%d obligations discharged in %d units, %d functions interpreted, %d concrete replays, %.1f s' % (
        prop, disc, tot, len(idxs), len(functions), runs, time.time() - t0))
    return 1 if lines else 0


def evidence(prop, tier, seed, wall, tot, disc, fn_ob, functions, used, models, trust, bounded, q, solver, cvc, runs, lines, ncan):
    if prop is None or prop == 'CANARY':
        return
    from pyvc import trusted
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    level = [c['level'] for c in man['checks'] if c['property'] == prop]
    level = level[0] if level else 'proof'
    doc = {'property': prop, 'tier': tier, 'seed': int(seed) if str(seed).isdigit() else 1, 'level': level,
           'wall_s': round(wall, 2), 'violations': len(lines),
           'coverage': {
               'obligations': tot, 'discharged': disc,
               'checker_cmd': '/verif/check.py --property %s --tier %s' % (prop, tier),
               'trusted_base': trusted.BASE + sorted(trust),
               'back_end': 'z3 (python API, %d queries), cvc5 as second opinion (%d obligations)' % (q, cvc),
               'solver_s': round(solver, 2),
               'functions_under_contract': sorted(functions),
               'callee_contracts_used': sorted(used),
               'library_models_used': sorted(models),
               'units': fn_ob, 'bounded_stand_ins': bounded,
               'concrete_replays': runs, 'canaries_refuted': ncan}}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(doc, f, indent=1)


if __name__ == '__main__':
    bootstrap()
    sys.exit(main())
