"""Development driver: t.py [-j N] [-t SECONDS] names or property ids or module prefixes."""
import sys; sys.path.insert(0, '/verif')
import argparse
from pyvc import api, verify
import contracts.all
ap = argparse.ArgumentParser(); ap.add_argument('-j', type=int, default=8); ap.add_argument('-t', type=int, default=120)
ap.add_argument('-m', action='store_true'); ap.add_argument('names', nargs='*')
a = ap.parse_args()
cs = []; ls = []
for n in a.names:
    for k, c in api.CONTRACTS.items():
        if (k == n or n in c.props or (n.endswith('*') and k.startswith(n[:-1]))) and not c.trusted and k not in cs: cs.append(k)
    for k, l in api.LEMMAS.items():
        if (k == n or n in l.props or (n.endswith('*') and k.startswith(n[:-1]))) and k not in ls: ls.append(k)
print(cs, ls)
for r in verify.verify_all(cs, ls, procs=a.j, tlimit=a.t):
    print(r.name, 'ok' if r.ok else 'FAIL', r.obligations, r.discharged, r.paths, round(r.time, 1), dict(r.by), r.reach if len(str(r.reach)) < 200 else '')
    if r.error: print('   ERROR', r.error[-3000:])
    if r.vacuous: print('   VACUOUS', r.vacuous)
    for f in r.failed: print('   -', f.get('obligation'), 'line', f.get('line'), f.get('status'), str(f.get('reason'))[:1500], '\n     ', str(f.get('goal'))[:700].replace('\n',' '), '\n     MODEL', str(f.get('model'))[:1500] if a.m else '')
