"""Runner of the concrete cross-check: every evaluation is one call of a check function on inputs drawn from a
seeded generator, on the real code of the repository, against an oracle that shares no code with it."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback

REPO = os.environ.get('PYVC_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Fail(Exception):
    """The property is broken: message and the input that shows it."""

    def __init__(self, msg, **data):
        super().__init__(msg)
        self.msg = msg
        self.data = data


class Hang(BaseException):
    pass


def _alarm(sig, frm):
    raise Hang()


def short(x, n=2000):
    r = repr(x)
    return r if len(r) <= n else r[:n] + f'... ({len(r)} chars)'


def run_one(fn, seed, limit=5.0):
    """-> ('ok', key) | ('fail', message, data)"""
    rng = random.Random(seed)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        try:
            k = fn(rng)
            return ('ok', k)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Fail as e:
        return ('fail', e.msg, {k: short(v) for k, v in e.data.items()})
    except Hang:
        return ('fail', f'no answer within {limit} s', {})
    except (MemoryError, RecursionError) as e:
        return ('fail', f'{type(e).__name__}', {'trace': traceback.format_exc(limit=-4)})
    except Exception as e:
        return ('fail', f'unexpected {type(e).__name__}: {e}', {'trace': traceback.format_exc(limit=-6)})


def checks_of(pid):
    m = importlib.import_module('oracle.' + pid.lower())
    return m.CHECKS


def _worker(a):
    pid, seed, wid, nw, budget, scale, mem = a
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except Exception:
        pass
    sys.setrecursionlimit(3000)
    t0 = time.time()
    out = {'evals': {}, 'keys': set(), 'fails': [], 'samples': []}
    cs = checks_of(pid)
    done = {c.__name__: 0 for c in cs}
    rnd = 0
    active = list(cs)
    while active:
        nxt = []
        for c in active:
            n = int(getattr(c, 'count', 400) * scale)
            per = max(1, min(50, n // 8))
            i = done[c.__name__]
            stop = False
            for j in range(i, min(n, i + per * nw)):
                if j % nw != wid:
                    continue
                s = f'{seed}/{c.__name__}/{j}'
                r = run_one(c, s, getattr(c, 'limit', 5.0))
                out['evals'][c.__name__] = out['evals'].get(c.__name__, 0) + 1
                if r[0] == 'ok':
                    if r[1] is not None:
                        k = hashlib.blake2b(repr(r[1]).encode('utf-8', 'replace'), digest_size=8).digest()
                        if k not in out['keys']:
                            out['keys'].add(k)
                            if len(out['samples']) < 3:
                                out['samples'].append(f'{c.__name__}: ' + short(r[1], 200))
                else:
                    out['fails'].append({'check': c.__name__, 'seed': s, 'message': r[1], 'input': r[2]})
                    stop = True
                    break
                if time.time() - t0 > budget:
                    return out
            done[c.__name__] = i + per * nw
            if not stop and done[c.__name__] < n:
                nxt.append(c)
        active = nxt
    return out


def run(pid, seed=1, budget=60.0, scale=1.0, procs=8):
    """All checks of a property -> summary dict."""
    t0 = time.time()
    m = importlib.import_module('oracle.' + pid.lower())
    nw = procs if not getattr(m, 'SERIAL', False) else 1
    mem = 3 << 30
    jobs = [(pid, seed, w, nw, budget, scale, mem) for w in range(nw)]
    if nw == 1:
        outs = [_worker(jobs[0])]
    else:
        with mp.get_context('fork').Pool(nw) as pool:
            outs = pool.map(_worker, jobs)
    res = {'evaluations': 0, 'per_check': {}, 'fails': [], 'samples': [], 'distinct': 0}
    keys = set()
    for o in outs:
        for k, v in o['evals'].items():
            res['per_check'][k] = res['per_check'].get(k, 0) + v
            res['evaluations'] += v
        keys |= o['keys']
        res['fails'] += o['fails']
        res['samples'] += o['samples']
    res['distinct'] = len(keys)
    res['samples'] = res['samples'][:6]
    res['wall'] = time.time() - t0
    return res


def replay(pid, rec):
    for c in checks_of(pid):
        if c.__name__ == rec['check']:
            return run_one(c, rec['seed'], getattr(c, 'limit', 5.0))
    return ('fail', 'no such check', {})


def n(count, limit=5.0):
    def deco(f):
        f.count, f.limit = count, limit
        return f
    return deco
