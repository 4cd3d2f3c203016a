#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and lib/registry.py."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
sys.path.insert(0, os.path.join(verif, 'lib'))
import registry  # noqa: E402

props = [json.loads(line) for line in open(os.path.join(verif, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        c = {'property': i, 'quick_cmd': './check %s' % i, 'thorough_cmd': 'env VERIF_TIER=thorough ./check %s' % i,
             'evidence_file': 'evidence/%s.json' % i}
        c.update(registry.INFO[i])
        checks.append(c)
    else:
        na.append({'property': i, 'reason': registry.NOT_CLAIMED.get(i, 'not built yet')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications in spec/, checked with TLC and bound to the code by replaying '
              'the transitions TLC enumerates and by validating recorded executions; see DESIGN.md. '
              'The thorough tier is selected by VERIF_TIER=thorough.'}
with open(os.path.join(verif, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
