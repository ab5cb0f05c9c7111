#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the contracts that exist"""
import json
import re
import glob
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
have = set()
for f in glob.glob(os.path.join(HERE, 'contracts', '*.py')):
    have |= set(re.findall(r"@unit\('(C\d+)'", open(f).read()))
NOTES = {}
p = os.path.join(HERE, 'tools', 'level_notes.json')
if os.path.exists(p):
    NOTES = json.load(open(p))
DEFAULT = ('Every obligation generated from the current source of the functions under contract is discharged by z3 (cvc5 as '
           'second opinion), for all inputs. Trusted: the Python-to-logic interpreter (pyvc) and its library models, listed in '
           'the evidence; every unit is also replayed on CPython with concrete inputs.')
checks, na = [], []
for q in props:
    i = q['id']
    n = NOTES.get(i, {})
    if i in have and not n.get('not_applicable'):
        cmd = '/verif/check.py --property %s --tier ' % i
        checks.append({'property': i, 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough',
                       'technique': 'contract-based deductive verification of the real Python source (symbolic VC generation, z3/cvc5)',
                       'level': n.get('level', 'proof'), 'level_note': DEFAULT + (' ' + n['note'] if n.get('note') else '')})
    else:
        na.append({'property': i, 'reason': n.get('not_applicable') or 'no contract written yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'),
          indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na])
