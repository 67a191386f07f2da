"""Verification of one contract or lemma: path exploration, obligations, discharge."""
import ast
import json
import os
import sys
import time
import traceback
import multiprocessing as mp
import z3
from .core import *
from . import api, solve
from .interp import *
from .evalx import number_loops, Frame, SymbolicIter
from .builtins_ import Full
from .repo import Repo

sys.setrecursionlimit(20000)
MAX_PATHS = 4000


class LoopState:
    def __init__(self):
        self.types = {}
        self.own = {}
        self.cells = set()
        self.learning = {}


class Engine:
    def __init__(self, repo, contract=None, tlimit=600):
        self.repo = repo
        self.contract = contract
        self.it = Full(repo)
        self.it.engine = self
        self.raises = contract.raises if contract is not None else 'any'
        self.tlimit = tlimit
        self.t0 = time.time()
        self.loops = {}
        self.ent_cache = {}
        self.stats = solve.Stats()
        self.lemmas_used = set()
        self.calls = set()
        self.inlined = set()
        self.trusted = set()
        self.reach = {}
        self.entry = {}
        self.ghosts = {}
        self.open_loops = []
        self.fdata_model = None
        self.proving_lemma = None
        self.lemma_name = None
        self.entry_measure = None
        self.obls = []
        self.stack = []
        self.restarts = 0
        self.npaths = 0
        import importlib
        try:
            m = importlib.import_module('contracts.fdata')
            self.fdata_model = m.model
        except ImportError:
            pass

    # ---- hooks used by the interpreter
    def push(self, prefix):
        self.stack.append(prefix)

    def tick(self):
        if time.time() - self.t0 > self.tlimit:
            raise Unsupported('time limit reached while exploring paths')

    def reached(self, what):
        self.reach[what] = self.reach.get(what, 0) + 1

    def loop_state(self, key):
        if key not in self.loops:
            self.loops[key] = LoopState()
        return self.loops[key]

    def mutated(self, it, c):
        for key, mark, st in self.open_loops:
            if c.uid is None:
                continue
            if c.uid <= mark and c.uid not in st.cells:
                st.cells.add(c.uid)
                raise Restart()

    def learn(self, st, nm, T):
        st.types[nm] = T
        st.learning.pop(nm, None)
        raise Restart()

    def find_cell(self, it, fr, uid):
        return it.cells.get(uid)

    def loop_spec(self, qual, k):
        c = self.contract
        if c is None or k is None:
            return None
        if qual == c.target:
            return c.loops.get(k)
        d = c.loops.get(f'{qual}#{k}')
        return d

    def contract_for(self, qual):
        c = self.contract
        if c is not None:
            if qual in c.inline:
                return None
            if c.use and qual in c.use:
                return api.CONTRACTS[c.use[qual]]
        r = api.CONTRACTS.get(qual)
        return r if r is None or r.modular else None

    def same_group(self, c):
        return self.contract is not None and (c.name == self.contract.name or
                                              getattr(c, 'group', None) is not None and
                                              c.group == getattr(self.contract, 'group', None))

    def ghost_arg(self, it, c, g, T):
        if self.contract is not None and g in self.ghosts:
            return self.ghosts[g]
        raise Unsupported(f'ghost {g} of {c.name}')

    def renamed(self, p, fr):
        """Value of a local the contract knows under another name (renamed by an edit)."""
        m = getattr(self, 'rename_map', None)
        if m and p in m:
            f = fr
            while f is not None:
                if m[p] in f.vars:
                    return f.vars[m[p]]
                f = f.parent
        return None

    def comp_spec(self, it, n, fr, kind, seq):
        return None

    def obligation(self, name, goal, node):
        it = self.it
        if len(it.dec) < len(it.prefix):
            return
        g = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        if z3.is_true(g):
            self.trivial += 1
        c = self.contract
        self.run_obls.append(Obligation(name, list(it.pc), goal, getattr(node, 'lineno', None),
                                        c.unfold if c else 2, c.timeout if c else None, list(it.dec)))

    # ---- exploration
    def explore(self, body):
        """Run body(interp) on every path; collect obligations."""
        while True:
            self.obls, self.stack, self.npaths, self.trivial = [], [[]], 0, 0
            self.reach = {}
            try:
                while self.stack:
                    prefix = self.stack.pop()
                    self.npaths += 1
                    if self.npaths > MAX_PATHS:
                        raise Unsupported('too many paths')
                    self.run_obls = []
                    self.it.reset_path(prefix)
                    self.open_loops = []
                    n = len(self.stack)
                    try:
                        body(self.it)
                    except PathEnd:
                        pass
                    self.obls.extend(self.run_obls)
                    if time.time() - self.t0 > self.tlimit:
                        raise Unsupported('time limit reached while exploring paths')
                return
            except Restart:
                self.restarts += 1
                self.ent_cache = {}
                if self.restarts > 60:
                    raise Unsupported('loop frame inference does not stabilise')

    def prover(self):
        return solve.Prover(self.it.spec_decls, self.it.expand_app, self.stats)

    def discharge(self, stop_on_fail=False):
        pr = self.prover()
        self.pr = pr
        for o in self.obls:
            if time.time() - self.t0 > self.tlimit:
                o.status, o.info = 'unknown', {'reason': 'time limit of the check'}
                continue
            try:
                tt = time.time()
                o.status, o.info = pr.prove(o.hyps, o.goal, o.unfold, o.timeout)
                if os.environ.get('PYVC_TIMES') and time.time() - tt > 1:
                    print(f'    {o.name} {time.time() - tt:.1f} s {o.status} {o.info}', flush=True)
            except Unsupported as e:
                o.status, o.info = 'unknown', {'reason': f'unsupported in specification: {e}'}
            if o.status != 'proved' and stop_on_fail:
                break


class Result:
    """Outcome for one contract or lemma (picklable)."""

    def __init__(self, name):
        self.name = name
        self.obligations = 0
        self.discharged = 0
        self.failed = []          # (obligation, where, status, info text, model)
        self.error = None
        self.by = {}
        self.time = 0.0
        self.solver_time = 0.0
        self.paths = 0
        self.calls = []
        self.trusted = []
        self.inlined = []
        self.lemmas = []
        self.reach = {}
        self.vacuous = None
        self.names = {}
        self.kind = 'contract'
        self.target = None

    @property
    def ok(self):
        return self.error is None and not self.failed and self.obligations > 0 and not self.vacuous


def param_value(it, p, T, owned):
    if isinstance(T, tuple) and T[0] == 'const':        # exactly this value
        return T[1]
    if isinstance(T, tuple) and T[0] == 'fix':          # a list of exactly these elements
        v = ListC(items=[param_value(it, f'{p}_{i}', x, owned) for i, x in enumerate(T[1:])],
                  own='deep' if owned else 'no', label=p)
        it.adopt(v)
        return v
    if isinstance(T, tuple) and T[0] == 'empty':        # an empty dict
        v = RecC({}, None, own='deep' if owned else 'no', label=p)
        it.adopt(v)
        return v
    v = it.fresh(p, T, own='deep' if owned else 'no')
    for c in ([v] if isinstance(v, Cell) else []):
        c.label = p
    return v


def find_inner(node, name):
    for n in ast.walk(node):
        if isinstance(n, ast.FunctionDef) and n.name == name:
            return n
    return None


def verify_contract(c, tlimit=600, keep=False):
    res = Result(c.name)
    res.target = c.target
    t0 = time.time()
    repo = Repo()
    eng = Engine(repo, c, tlimit)
    try:
        node = repo.function(c.target)
        if node is None:
            raise Unsupported(f'{c.target} not found in the source')
        parts = c.target.split('.')
        module = parts[0]
        names = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
        for p in c.params:
            if p not in names and not p.startswith('@'):
                raise Unsupported(f'{c.target} has no parameter {p}')
        sat = {'n': 0}

        def body(it):
            fr = Frame(module, None, c.target, None, 0)
            fr.loops = number_loops(node)
            eng.entry = {}
            eng.ghosts = {}
            env = {}
            outer = None
            for p, T in c.params.items():
                owned = p.lstrip('@') in c.modifies or p in c.owned
                v = param_value(it, p.lstrip('@'), T, owned)
                if p in c.shallow and isinstance(v, Cell):
                    v.own = 'own'
                if p.startswith('@'):      # captured variable of an inner function
                    if outer is None:
                        outer = Frame(module)
                        fr.parent = outer
                    outer.vars[p[1:]] = v
                    p = p[1:]
                else:
                    fr.vars[p] = v
                eng.entry[p + '_0'] = it.snapshot(v) if owned else v
                env[p] = v
                env[p + '_0'] = eng.entry[p + '_0']
            for nm in names:
                if nm not in fr.vars:
                    d = default_of(node, nm)
                    if d is None:
                        raise Unsupported(f'parameter {nm} of {c.target} is not in the contract')
                    fr.vars[nm] = it.default_arg(d, module, None)
                    env[nm] = fr.vars[nm]
            for g, T in c.ghosts.items():
                eng.ghosts[g] = it.fresh(g, T)
                env[g] = eng.ghosts[g]
            if c.requires:
                for nm, t in it.named(it.eval_clause_env(c.requires, env), 'requires'):
                    it.assume(t)
            if not it.prefix:
                r = solve.Prover(it.spec_decls, it.expand_app, eng.stats)
                st, m, s = r.check([h for h in it.pc if not z3.is_quantifier(h)], 3000)
                if st == 'unsat':
                    res.vacuous = 'precondition is contradictory'
            if c.entry_hints:
                it.use_hints(lambda: it.eval_clause_env(c.entry_hints, env))
            eng.entry_measure = it.eval_clause_env(c.measure, env) if c.measure else None
            try:
                try:
                    it.block(node.body, fr)
                    result = None
                except ReturnEx as e:
                    result = e.v
            except PyRaise as e:
                if c.on_raise is None:
                    raise Unsupported(f'uncaught {e.exc}')
                env['exc'] = e.exc
                eng.reached('raise')
                post = dict(env)
                post.update(eng.ghosts)
                for nm, t in it.named(it.eval_clause_env(c.on_raise, post), 'on_raise'):
                    it.oblige(nm, t, node)
                return
            eng.reached('return')
            post = dict(env)
            post.update(eng.ghosts)
            if c.same and result is not env[c.same]:
                e0 = eng.entry[c.same + '_0']
                if not isinstance(e0, A):
                    raise Unsupported(f'{c.target} returns something else than {c.same}')
                it.oblige('same', z3.Not(it.is_container(e0)), node, assume=False)
            if c.returns is not None:
                result = post_type(it, result, c.returns)
            post['result'] = result
            for p in c.modifies:
                post[p] = env[p]
            if c.witness:
                w = it.eval_clause_env(c.witness, with_locals(post, fr, c.witness))
                for o, T in c.outs.items():
                    post[o] = from_term(to_term(w.fields[o][1], T), T)
            if c.hints:
                it.use_hints(lambda: it.eval_clause_env(c.hints, with_locals(post, fr, c.hints)))
            if c.ensures:
                for nm, t in it.named(it.eval_clause_env(c.ensures, post), 'ensures'):
                    it.oblige(nm, t, node, assume=False)
            # canary: False must not follow here
            if not eng.canary_done and len(it.dec) >= len(it.prefix):
                eng.canary.append(list(it.pc))

        eng.canary = []
        eng.canary_done = False
        try:
            eng.explore(body)
        except SymbolicIter:
            raise Unsupported('iteration over a container of unknown length')
        eng.discharge()
        finish(res, eng)
        if eng.obls and 'return' not in eng.reach and 'raise' not in eng.reach and not res.failed:
            res.vacuous = 'no path reaches a return'
        for k, sp in c.loops.items():
            if isinstance(k, int) and not sp.unroll and f'loop{k}.body' not in eng.reach and not res.failed:
                res.vacuous = f'loop {k} body unreachable or missing'
        # canary
        pr = eng.pr
        ok = False
        for pc in eng.canary[:3]:
            st, info = pr.prove(pc, z3.BoolVal(False), 1, 1000)
            if st != 'proved':
                ok = True
                break
        if eng.canary and not ok and not res.failed:
            res.vacuous = 'False is provable at every return'
    except Unsupported as e:
        res.error = f'outside the verified subset: {e}' + (f' (line {e.line})' if getattr(e, 'line', None) else '')
        finish(res, eng)
    except z3.Z3Exception as e:
        res.error = f'z3: {e}\n' + traceback.format_exc(limit=-4)
    except Exception as e:
        res.error = f'internal: {type(e).__name__}: {e}\n' + traceback.format_exc(limit=-6)
    res.time = time.time() - t0
    if keep:
        res._eng = eng
    return res


def with_locals(post, fr, cl):
    d = dict(post)
    for p in cl.params:
        if p not in d and p in fr.vars:
            d[p] = fr.vars[p]
    return d


def post_type(it, v, T):
    """Result viewed at its declared type (a mismatch is a failed contract, reported as such)."""
    try:
        tv = typeof(v)
    except Unsupported:
        tv = None
    if tv == T:
        return v
    if isinstance(v, DictC) and v.fields is not None and isinstance(T, tuple) and T[0] == 'rec':
        return v
    try:
        return from_term(to_term(v, T), T, own='deep')
    except Unsupported as e:
        it.oblige('result-type', False, None)
        raise PathEnd()


def default_of(node, nm):
    a = node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if nm in names:
        i = names.index(nm) - (len(names) - len(a.defaults))
        return a.defaults[i] if i >= 0 else None
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == nm:
            return d
    return None


def finish(res, eng):
    res.paths = eng.npaths
    res.obligations = len(eng.obls)
    for o in eng.obls:
        if o.status == 'proved':
            res.discharged += 1
            b = o.info.get('by', 'z3')
            res.by[b] = res.by.get(b, 0) + 1
        elif o.status is not None:
            m = o.info.get('model') if o.info else None
            res.failed.append({'obligation': f'{res.name}/{o.name}', 'line': o.where, 'status': o.status,
                               'reason': str((o.info or {}).get('reason')),
                               'model': model_text(m), 'goal': str(z3.simplify(o.goal))[:1500]
                               if not z3.is_quantifier(o.goal) else str(o.goal)[:1500]})
        res.names[o.name] = res.names.get(o.name, 0) + 1
    res.solver_time = eng.stats.time
    res.calls = sorted(eng.calls)
    res.trusted = sorted(eng.trusted)
    res.inlined = sorted(eng.inlined)
    res.lemmas = sorted(eng.lemmas_used)
    res.reach = dict(eng.reach)


def model_text(m):
    if m is None:
        return None
    try:
        return {d.name(): str(m[d])[:400] for d in m.decls() if d.arity() == 0 and '!' in d.name()}
    except Exception:
        return None


def verify_lemma(l, tlimit=300):
    """Prove requires => ensures; with a measure, instances of the lemma at smaller measure may be used in hints."""
    res = Result('lemma ' + l.name)
    res.kind = 'lemma'
    t0 = time.time()
    repo = Repo()
    eng = Engine(repo, None, tlimit)
    eng.proving_lemma = l
    eng.lemma_name = l.name
    it = eng.it
    try:
        def ev(cl, vals):
            g = Frame(None, extra=dict(cl.globals))
            for p in cl.params:
                g.vars[p] = vals[p]
            return it.run_pure(cl.node, g)

        def body(it):
            vals = {p: it.fresh(p, T) for p, T in l.params.items()}
            if l.requires:
                for nm, t in it.named(ev(l.requires, vals), 'requires'):
                    it.assume(t)
            if not it.prefix:
                st, m, s = solve.Prover(it.spec_decls, it.expand_app, eng.stats).check(
                    [h for h in it.pc if not z3.is_quantifier(h)], 3000)
                if st == 'unsat':
                    res.vacuous = 'premise is contradictory'
            if l.hints:
                g = Frame(None, extra=dict(l.hints.globals))
                for p in l.hints.params:
                    g.vars[p] = vals[p]

                def ih(_s, args, kw, n):
                    d = dict(zip(l.params, args))
                    pre = it.conj([t for _, t in it.named(ev(l.requires, d), '')]) if l.requires else True
                    post = it.conj([t for _, t in it.named(ev(l.ensures, d), '')])
                    m1, m0 = ev(l.measure, d), ev(l.measure, vals)
                    dec = it.lex_less(m1, m0)
                    r = z3.simplify(z3.Implies(z3.And(bt(pre), dec), bt(post)))
                    it.lemma_out.append(r)
                    return B(r)
                g.extra['ih'] = Builtin('ih', ih)
                orig = it.lift
                it_lift = lambda v, f: v if isinstance(v, Builtin) else orig(v, f)
                it.lift = it_lift
                eng.proving_lemma = None
                try:
                    it.use_hints(lambda: it.run_pure(l.hints.node, g))
                finally:
                    it.lift = orig
                    eng.proving_lemma = l
            for nm, t in it.named(ev(l.ensures, vals), 'ensures'):
                it.engine.run_obls.append(Obligation(nm, list(it.pc), bt(t), None, l.unfold, l.timeout, []))
            eng.canary.append(list(it.pc))
        eng.canary = []
        eng.explore(body)
        eng.discharge()
        finish(res, eng)
        st, info = eng.pr.prove(eng.canary[0], z3.BoolVal(False), 1, 1500)
        if st == 'proved' and not res.failed:
            res.vacuous = 'False is provable from the premises'
    except Unsupported as e:
        res.error = f'outside the verified subset: {e}'
    except Exception as e:
        res.error = f'internal: {type(e).__name__}: {e}\n' + traceback.format_exc(limit=-6)
    res.time = time.time() - t0
    return res


def bt(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def _work(job):
    kind, name, tl = job
    if kind == 'lemma':
        return verify_lemma(api.LEMMAS[name], tl)
    return verify_contract(api.CONTRACTS[name], tl)


def verify_all(contracts, lemmas=(), procs=None, tlimit=400):
    jobs = [('contract', c, tlimit) for c in contracts] + [('lemma', l, tlimit) for l in lemmas]
    procs = procs or min(8, os.cpu_count() or 4)
    if len(jobs) == 1 or procs == 1:
        return [_work(j) for j in jobs]
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, len(jobs)), maxtasksperchild=1) as pool:
        return list(pool.imap_unordered(_work, jobs, chunksize=1))
