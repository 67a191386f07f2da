#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--no-oracle] [--no-proof]

Decides one property on the current tree of /repo:
 1. every contract and lemma listed for the property is verified again from the source as it is now;
 2. the real code is also run on seeded random inputs against an independent oracle (bounded, never counted as proof);
 3. a failed obligation is reported as the violation, with a failing input when the concrete search finds one.
Exit 0: held on everything explored.  Exit 1: a VIOLATION line."""
import argparse
import hashlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
REPO = os.environ.get('PYVC_REPO', '/repo')

QUICK = {'oracle': 70.0, 'deep': 200.0, 'contract': 330, 'scale': 1.0}
THOROUGH = {'oracle': 420.0, 'deep': 900.0, 'contract': 900, 'scale': 30.0}


def known(pid):
    """Listed findings: {(property, check, key)}; 'fixed' lines suppress nothing."""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith('known: property=' + pid + ' '):
                out.append(json.loads(ln.split(' ', 2)[2]))
    return out


def proof(pid, tier, out):
    from pyvc import api, verify
    import contracts.all
    cs = [n for n, c in api.CONTRACTS.items() if pid in c.props and not c.trusted]
    ls = [n for n, l in api.LEMMAS.items() if pid in l.props]
    out['functions'] = cs
    out['lemma_names'] = ls
    if not cs and not ls:
        return []
    res = verify.verify_all(cs, ls, tlimit=tier['contract'])
    while True:
        # the lemmas these proofs use are proved in the same run
        have = {r.name[6:] for r in res if r.kind == 'lemma'}
        more = sorted({n for r in res for n in (r.lemmas or ())} - have)
        if not more:
            break
        res += verify.verify_all([], more, tlimit=tier['contract'])
    out['lemma_names'] = sorted(have)
    uses = {r.name[6:]: set(r.lemmas or ()) for r in res if r.kind == 'lemma'}
    while uses:
        free = [n for n, u in uses.items() if not (u & set(uses))]
        if not free:
            raise RuntimeError('lemmas that use each other: ' + ', '.join(sorted(uses)))
        for n in free:
            del uses[n]
    return res


def write_replay(pid, rec):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(json.dumps(rec, sort_keys=True, default=str).encode(), digest_size=5).hexdigest()
    p = os.path.join(d, f'{pid}-{h}.json')
    with open(p, 'w') as f:
        json.dump(rec, f, indent=1, default=str)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--no-oracle', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    a = ap.parse_args()
    pid = a.pid
    if a.replay:
        rec = json.load(open(a.replay))
        if rec.get('kind') == 'input':
            from oracle import core
            r = core.replay(pid, rec)
            print(json.dumps(r, indent=1, default=str))
            sys.exit(1 if r[0] == 'fail' else 0)
        print(json.dumps(rec, indent=1))
        a.no_oracle = True
    tier = THOROUGH if a.tier == 'thorough' else QUICK
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    info = {}
    fails = []          # failed obligations
    results = []
    if not a.no_proof:
        try:
            results = proof(pid, tier, info)
        except Exception as e:
            fails.append({'obligation': f'{pid}/generation', 'status': 'not generated',
                          'reason': traceback.format_exc(limit=-5)})
    nobl = sum(r.obligations for r in results)
    ndis = sum(r.discharged for r in results)
    for r in results:
        fails += r.failed
        if r.error:
            fails.append({'obligation': f'{r.name}/generation', 'status': 'not generated', 'reason': r.error})
        elif r.vacuous:
            fails.append({'obligation': f'{r.name}/vacuity', 'status': 'vacuous', 'reason': r.vacuous})
    t1 = time.time()
    orc = None
    cfails = []
    if not a.no_oracle:
        try:
            from oracle import core
            orc = core.run(pid, seed, tier['oracle'], tier['scale'])
            cfails = orc['fails']
            if fails and not cfails:
                print(f'{pid}: {len(fails)} obligations not discharged, searching for a failing input', flush=True)
                left = max(30.0, min(tier['deep'], 840 - (time.time() - t0)))
                o2 = core.run(pid, f'{seed}+', left, 60.0)
                cfails = o2['fails']
                orc['evaluations'] += o2['evaluations']
                for k, v in o2['per_check'].items():
                    orc['per_check'][k] = orc['per_check'].get(k, 0) + v
        except Exception as e:
            cfails = [{'check': 'import', 'seed': None, 'message': f'{type(e).__name__}: {e}',
                       'input': {'trace': traceback.format_exc(limit=-5)}}]
    t2 = time.time()
    kn = known(pid)
    fresh = []
    for k in kn:
        print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    for f in cfails:
        if not any(k.get('check') == f['check'] and k.get('message') == f['message'] for k in kn):
            fresh.append(f)
    n_bad = 0
    for r in sorted(results, key=lambda r: r.name):
        st = 'proved' if r.ok else 'NOT PROVED'
        print(f'{pid}: {r.name}: {st}, {r.discharged}/{r.obligations} obligations, {r.time:.1f} s {dict(r.by)}')
    for f in fails[:12]:
        print(f'{pid}: failed obligation {f["obligation"]} ({f["status"]}) {str(f.get("reason"))[:300]}')
    if orc:
        print(f'{pid}: bounded cross-check: {orc["evaluations"]} evaluations in {t2 - t1:.1f} s, '
              f'{len(cfails)} failing: {orc["per_check"]}')
    if not a.replay:
        evidence(pid, a.tier, seed, results, nobl, ndis, orc, fails, fresh, time.time() - t0, info)
    if fresh:
        f = min(fresh, key=lambda f: len(json.dumps(f['input'], default=str)))
        rec = {'kind': 'input', 'property': pid, **f,
               'failed_obligations': fails[:20],
               'replay': f'python3-vt check.py {pid} --replay <this file>'}
        p = write_replay(pid, rec)
        print(f'{pid}: {f["check"]}: {f["message"]}')
        for k, v in f['input'].items():
            print(f'    {k} = {str(v)[:1200]}')
        print(f'VIOLATION property={pid} replay={p}')
        sys.exit(1)
    if fails:
        rec = {'kind': 'obligation', 'property': pid, 'failed_obligations': fails,
               'search': {'evaluations': orc['evaluations'] if orc else 0, 'found': 0}}
        p = write_replay(pid, rec)
        print(f'VIOLATION property={pid} replay={p} no-failing-input-found')
        sys.exit(1)
    if not a.no_proof and nobl == 0 and info.get('functions'):
        p = write_replay(pid, {'kind': 'obligation', 'property': pid, 'failed_obligations': 'no obligation generated'})
        print(f'VIOLATION property={pid} replay={p} no-failing-input-found')
        sys.exit(1)
    print(f'{pid}: held ({ndis} obligations discharged, {orc["evaluations"] if orc else 0} concrete evaluations)')
    sys.exit(0)


def evidence(pid, tier, seed, results, nobl, ndis, orc, fails, fresh, wall, info):
    import contracts.all as call
    from pyvc import api
    trusted = sorted({t for r in results for t in r.trusted})
    calls = sorted({c for r in results for c in r.calls})
    here = {r.name for r in results}
    assumed = [c for c in calls if c not in here and c in api.CONTRACTS and not api.CONTRACTS[c].trusted]
    by = {}
    for r in results:
        for k, v in r.by.items():
            by[k] = by.get(k, 0) + v
    level = call.LEVEL.get(pid, 'proof') if nobl else 'exploration'
    tb = ['pyvc: symbolic semantics of the Python subset used by the functions under contract (/verif/pyvc)',
          'z3 and cvc5'] + [f'opaque spec {n}: {why}' for n, why in opaque_specs(results)] \
        + [f'trusted contract {t}' for t in trusted]
    cov = {
        'obligations': nobl, 'discharged': ndis,
        'checker_cmd': f'python3-vt /verif/check.py {pid} --no-oracle',
        'trusted_base': tb,
        'functions_under_contract': sorted(r.name for r in results if r.kind == 'contract'),
        'lemmas': sorted(r.name for r in results if r.kind == 'lemma'),
        'inlined_from_source': sorted({i for r in results for i in r.inlined}),
        'backends': by,
        'solver_s': round(sum(r.solver_time for r in results), 2),
        'paths': sum(r.paths for r in results),
        'per_function': {r.name: {'obligations': r.obligations, 'discharged': r.discharged, 's': round(r.time, 1)}
                         for r in results},
        'failed_obligations': [f['obligation'] for f in fails][:50],
        'not_under_contract': call.OUTSIDE.get(pid, []),
    }
    if orc:
        cov['bounded_cross_check'] = {'label': 'bounded, not counted as proved', 'evaluations': orc['evaluations'],
                                      'per_check': orc['per_check']}
        cov['evaluations'] = orc['evaluations']
        cov['distinct_nontrivial'] = orc['distinct']
        cov['rule'] = ('seeded random cases on the real code against an oracle sharing no code with it; a case is '
                       'non-trivial when the check reports a key for it, and distinct when its key was not seen before')
        cov['samples'] = orc['samples']
    if level == 'other':
        cov['explanation'] = ('the functions under contract are proved for all inputs; the rest of the statement ('
                              + '; '.join(call.OUTSIDE.get(pid, [])) + ') is only cross-checked on random inputs, '
                              'which is bounded and not counted as proved')
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level,
          'coverage': cov, 'wall_s': round(wall, 2), 'violations': len(fresh) + (1 if fails and not fresh else 0),
          'assumptions': [f'callee contract {c}, discharged by the check of {"/".join(api.CONTRACTS[c].props) or "?"}'
                          for c in assumed] + call.ASSUME.get(pid, []) + call.ASSUME['*']}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def opaque_specs(results):
    from pyvc import api
    used = {s for r in results for s in getattr(r, 'specs', ())}
    return [(n, (s.fn.__doc__ or '').strip().split('\n')[0] or 'Python built-in behaviour')
            for n, s in sorted(api.SPECS.items()) if s.opaque and (not used or n in used)]


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        p = write_replay(sys.argv[1], {'kind': 'internal', 'failed_obligations': [{'obligation': 'check', 'reason': traceback.format_exc()}]})
        print(f'VIOLATION property={sys.argv[1]} replay={p} no-failing-input-found')
        sys.exit(1)
