"""Writes MANIFEST.json from the properties that have an oracle and at least one contract."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import contracts.all as call
from pyvc import api
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    cs = [n for n, c in api.CONTRACTS.items() if pid in c.props and not c.trusted]
    ls = [n for n, l in api.LEMMAS.items() if pid in l.props]
    orc = os.path.exists(os.path.join(HERE, 'oracle', pid.lower() + '.py'))
    if not cs or not orc:
        na.append({'property': pid, 'reason': call.NA.get(pid, 'no contract discharged for it yet')})
        continue
    note = (f'Contracts discharged for all inputs: {", ".join(cs)}' + (f'; lemmas: {", ".join(ls)}' if ls else '') + '. '
            + call.NOTE.get(pid, 'Everything else the statement covers is only cross-checked on random inputs (bounded).'))
    checks.append({'property': pid, 'quick_cmd': f'python3-vt check.py {pid}',
                   'thorough_cmd': f'python3-vt check.py {pid} --tier thorough',
                   'technique': 'contract-based deductive verification of the real Python source (pyvc: VCs from the '
                                'AST of /repo, discharged by z3/cvc5), with a bounded concrete cross-check',
                   'level': call.LEVEL.get(pid, 'proof'), 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'pyvc is a verification condition generator written for this task; see DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
