import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from oracle.core import run
for p in sys.argv[1:]:
    r = run(p, seed=int(os.environ.get('VERIF_SEED', '1')), scale=float(os.environ.get('SCALE', '1')),
            procs=int(os.environ.get('PROCS', '8')))
    print(p, r['evaluations'], r['distinct'], round(r['wall'], 1), r['per_check'])
    for f in r['fails'][:int(os.environ.get('NF', '2'))]:
        print('  FAIL', f['check'], f['seed'], f['message'])
        for k, v in f['input'].items():
            print('     ', k, '=', v[:int(os.environ.get('W','250'))])
