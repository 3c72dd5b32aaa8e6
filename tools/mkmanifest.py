#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, CLAIMED and NOTES below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = json.load(open(ROOT + '/tools/claimed.json'))
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED['claimed']:
        c = CLAIMED['claimed'][i]
        checks.append({
            'property': i,
            'quick_cmd': 'bin/govc check ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough bin/govc check ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'contract-based deductive verification of the Go source (contracts in /verif/contracts, symbolic execution over SSA, obligations discharged by z3 and cvc5)',
            'level': 'proof',
            'level_note': c,
        })
    else:
        na.append({'property': i, 'reason': CLAIMED['not_applicable'][i]})
json.dump({'version': 1, 'setup_cmd': './build.sh', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks in /repo: contracts, specification package and replay tests are laid over the working tree when a check runs.'}, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
