"""Discharging obligations: spec unfolding, quantifier instantiation, z3 then cvc5."""
import time
import subprocess
import tempfile
import os
import z3
from . import core
from .norm import Norm, is_nth

TIMEOUT_MS = int(os.environ.get('PYVC_TIMEOUT_MS', '10000'))


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}


_kids = {}       # id -> (term, children): the term is kept, so that its id stays its own
_flags = {}


def kids(t):
    i = t.get_id()
    r = _kids.get(i)
    if r is None:
        r = _kids[i] = (t, () if z3.is_quantifier(t) else tuple(t.children()))
    return r[1]


def subterms(ts, seen=None):
    seen = {} if seen is None else seen
    stack = list(ts)
    out = []
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen[i] = t
        out.append(t)
        stack.extend(kids(t))
    return out


QUANT, CATS, NTH, NESTED, ITE, KEYS, VAR = 1, 2, 4, 8, 16, 32, 64


def own_flags(t):
    if z3.is_quantifier(t):
        return QUANT
    if not z3.is_app(t):
        return VAR if z3.is_var(t) else 0
    k = t.decl().kind()
    f = KEYS if k == z3.Z3_OP_UNINTERPRETED and t.decl().eq(core.KEYOF) else 0
    if k in (z3.Z3_OP_SEQ_EXTRACT, z3.Z3_OP_SEQ_CONCAT):
        f |= CATS
    elif k == z3.Z3_OP_ITE:
        f |= ITE
    if is_nth(t) and t.sort() != core.INT:
        f |= NTH
    if z3.is_seq(t) and isinstance(t.sort().basis(), z3.SeqSortRef):
        f |= NESTED
    return f


def flags(t):
    """What occurs in a term."""
    kids(t)
    i = t.get_id()
    r = _flags.get(i)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        xi = x.get_id()
        if xi in _flags:
            stack.pop()
            continue
        todo = [c for c in kids(x) if c.get_id() not in _flags]
        if todo:
            stack.extend(todo)
            continue
        f = own_flags(x)
        for c in kids(x):
            f |= _flags[c.get_id()]
        _flags[xi] = f
        stack.pop()
    return _flags[i]


class Prover:
    """expand(app) -> list of facts for a ground application of a spec function."""

    def __init__(self, spec_decls, expand, stats=None):
        self.spec_decls = spec_decls      # decl name -> Spec
        self.expand = expand
        self.stats = stats or Stats()
        self.unfold_cache = {}

    def facts(self, app):
        k = app.get_id()
        if k not in self.unfold_cache:
            self.unfold_cache[k] = (app, self.expand(app))
        return self.unfold_cache[k][1]

    def apps(self, terms, seen):
        r = []
        for t in subterms(terms, seen):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() \
                    and t.decl().name() in self.spec_decls:
                r.append(t)
        return r

    def instantiate(self, foralls, terms):
        """foralls: list of z3 quantifiers (one Int variable). Instances on ground index terms."""
        cand = {}
        cats = {}
        sub = subterms(terms, {})
        for t in sub:
            if z3.is_eq(t) and z3.is_seq(t.arg(0)):
                for a, b in (t.children(), reversed(t.children())):
                    if b.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                        cats.setdefault(a.get_id(), []).append(b)
        for t in sub:
            if not z3.is_app(t):
                continue
            k = t.decl().kind()
            if k == z3.Z3_OP_SEQ_NTH or t.decl().name() in ('seq.nth', 'seq.nth_i', 'seq.nth_u'):
                a = t.arg(1)
                cand[a.get_id()] = a
                u = t.arg(0)
                while u.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
                    a = z3.simplify(u.arg(1) + a)
                    cand[a.get_id()] = a
                    u = u.arg(0)
                for v in ([u] if u.decl().kind() == z3.Z3_OP_SEQ_CONCAT else cats.get(u.get_id(), [])):
                    off = z3.IntVal(0)
                    for c in parts(v)[:-1]:
                        off = off + (1 if c.decl().kind() == z3.Z3_OP_SEQ_UNIT else z3.Length(c))
                        x = z3.simplify(a - off)
                        cand[x.get_id()] = x
            elif k == z3.Z3_OP_UNINTERPRETED and t.num_args():
                for a in t.children():
                    if a.sort() == core.INT:
                        cand[a.get_id()] = a
            elif k == z3.Z3_OP_SELECT and t.arg(1).sort() == core.INT:
                cand[t.arg(1).get_id()] = t.arg(1)
        out = []
        for q in foralls:
            for a in cand.values():
                if z3.is_int_value(a) or z3.is_app(a):
                    out.append(z3.substitute_vars(q.body(), a))
        return out

    def nth_facts(self, terms, done):
        """Element of a slice: the element of what is sliced."""
        out = []
        for t in subterms(terms, {}):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_NTH and t.get_id() not in done:
                done.add(t.get_id())
                u, j = t.arg(0), t.arg(1)
                if u.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
                    b, a, n = u.children()
                    out.append(z3.Implies(z3.And(0 <= j, j < z3.Length(u), 0 <= a), t == b[z3.simplify(a + j)]))
        return out

    def keys(self, fs):
        """Facts about the string keys that occur."""
        out = []
        done = set()
        todo = [f for f in fs if flags(f) & KEYS]
        while todo:
            new = []
            for t in subterms(todo):
                if z3.is_app(t) and t.decl().eq(core.KEYOF) and t.get_id() not in done:
                    done.add(t.get_id())
                    if not has_var(t):
                        new.extend(core.key_facts(t))
            out.extend(new)
            todo = [f for f in new if flags(f) & KEYS]
        return out

    def check(self, fs, timeout, seed=0, want_model=False):
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', timeout)
        if seed:
            s.set('random_seed', seed)
        for f in fs:
            s.add(f)
        for f in self.keys(fs):
            s.add(f)
        r = s.check()
        dtm = time.time() - t0
        self.stats.queries += 1
        self.stats.time += dtm
        m = None
        if r == z3.sat and want_model:
            m = s.model()
        return str(r), m, s

    def prove(self, hyps, goal, unfold=2, timeout=None):
        """-> (status, info): 'proved', 'failed' (candidate model) or 'unknown'."""
        timeout = timeout or TIMEOUT_MS
        if len(_kids) > 300000:
            _kids.clear()
            _flags.clear()
        goals = skolemize(goal)
        res = []
        for extra, g in goals:
            r = self.prove1(list(hyps) + extra, g, unfold, timeout)
            if r[0] != 'proved':
                return r
            res.append(r)
        by = sorted({r[1].get('by', 'z3') for r in res})
        return 'proved', {'by': '+'.join(by) or 'z3'}

    def prove1(self, hyps, goal, unfold, timeout):
        foralls = []
        base = []
        for h in flatten(hyps):
            if z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1:
                foralls.append(h)
            else:
                base.append(h)
        if foralls:
            # a premise already assumed as a hypothesis holds where it is nested in another one
            sub = [(q, z3.BoolVal(True)) for q in foralls]
            b2 = []
            for h in base:
                b2.extend(flatten([z3.substitute(h, *sub)]) if has_quant(h) else [h])
            base = [h for h in b2 if not (z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1)]
            foralls = foralls + [h for h in b2 if z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1]
        base = [skolem(h, True) if has_quant(h) else h for h in base]
        ng = z3.Not(goal)
        facts = base + [ng]
        last = None
        seen = {}
        frontier = facts
        t0 = time.time()
        inst_done = set()
        nth_done = set()
        nested = nested_seq(facts)     # z3 alone is weak on sequences of sequences
        for rnd in range(unfold + 1):
            if nested:
                if rnd == 0 and self.check(facts, 150)[0] == 'unsat':
                    return 'proved', {'by': 'z3', 'rounds': rnd}
                t1 = time.time()
                nf, decided = normal(facts)
                self.stats.time += time.time() - t1
                if decided:
                    return 'proved', {'by': 'norm', 'rounds': rnd}
                if nf is not None:
                    facts = frontier = nf
                if os.environ.get('PYVC_TRACE'):
                    print('norm', time.time() - t1, len(facts))
                    for f in facts:
                        print('   F', f)
            last = self.check(facts, min(timeout, 1500) if rnd < unfold else timeout, want_model=True)
            if last[0] == 'unsat':
                return 'proved', {'by': 'z3', 'rounds': rnd}
            if last[0] == 'unknown' and has_seq(facts):
                t1 = time.time()
                nf, decided = normal(facts)
                self.stats.time += time.time() - t1
                if decided:
                    return 'proved', {'by': 'norm', 'rounds': rnd}
                if nf is not None:
                    r = self.check(nf, min(timeout, 3000), want_model=False)
                    if r[0] == 'unsat':
                        return 'proved', {'by': 'norm+z3', 'rounds': rnd}
                    r = self.split(nf, timeout, 5)
                    if r:
                        return 'proved', {'by': 'norm+z3', 'rounds': rnd}
            if rnd == unfold:
                break
            new = []
            for a in self.apps(frontier, seen):
                for x in flatten(self.facts(a)):
                    if has_quant(x):
                        for y in flatten([skolem(x, True)]):
                            if z3.is_quantifier(y) and y.is_forall() and y.num_vars() == 1:
                                foralls.append(y)
                            else:
                                new.append(y)
                    else:
                        new.append(x)
            for x in self.nth_facts(facts + new, nth_done):
                new.append(x)
            if foralls:
                for x in self.instantiate(foralls, facts + new):
                    if x.get_id() not in inst_done:
                        inst_done.add(x.get_id())
                        new.append(x)
            if not new:
                if last[0] != 'unknown' or rnd == unfold:
                    break
                # nothing to add: give the full budget
                last = self.check(facts, timeout, want_model=True)
                if last[0] == 'unsat':
                    return 'proved', {'by': 'z3', 'rounds': rnd}
                break
            facts = facts + new
            frontier = new
        if last[0] == 'unknown':
            for seed in (7, 23):
                r = self.check(facts, timeout, seed=seed, want_model=True)
                if r[0] == 'unsat':
                    return 'proved', {'by': 'z3(seed)'}
                if r[0] == 'sat':
                    last = r
                    break
        if last[0] == 'unknown' and not os.environ.get('PYVC_NO_CVC5'):
            r = cvc5_check(list(facts) + self.keys(facts), timeout)
            if r == 'unsat':
                return 'proved', {'by': 'cvc5'}
        if last[0] == 'sat' and has_seq(facts):    # models of nested sequences are not always real
            nf, decided = normal(facts)
            if decided:
                return 'proved', {'by': 'norm'}
            if nf is not None:
                r = self.check(nf, min(timeout, 3000), want_model=False)
                if r[0] == 'unsat':
                    return 'proved', {'by': 'norm+z3'}
        if last[0] == 'sat':
            return 'failed', {'model': last[1], 'reason': 'sat'}
        return 'unknown', {'reason': last[2].reason_unknown() if last[2] is not None else 'unknown', 'model': None}


    def split(self, facts, timeout, depth, seen=()):
        """Case split on an undecided condition of a conditional; every case has to be contradictory."""
        c = pick_cond(facts)
        if c is None or depth == 0:
            return False
        for side in (c, z3.Not(c)):
            nf, decided = normal(facts + [side])
            if decided:
                continue
            nf = nf if nf is not None else facts + [side]
            r = self.check(nf, min(timeout, 1500))
            if r[0] == 'unsat':
                continue
            if r[0] == 'sat' or not self.split(nf, timeout, depth - 1):
                return False
        return True


def parts(t):
    if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [p for c in t.children() for p in parts(c)]
    return [t]


def has_var(t):
    return bool(flags(t) & VAR)


def nested_seq(ts):
    return any(flags(t) & NESTED for t in ts)


def has_nth(ts):
    return any(flags(t) & NTH for t in ts)


def has_seq(ts):
    return any(flags(t) & CATS for t in ts)


def normal(facts):
    """(facts rewritten under what they imply about integers, contradiction found)"""
    try:
        n = Norm(facts)
        if not n.consistent():
            return None, True
        out = []
        for f in facts:
            g = n.norm(f) if not z3.is_quantifier(f) else f
            if z3.is_false(g):
                return None, True
            if z3.is_true(g):
                if z3.is_true(f):
                    continue
                g = n.plain(f)      # what the rewriting knows, z3 may still need
            out.append(g)
            if not g.eq(f) and not has_seq([f]) and not has_nth([f]):
                out.append(f)
        out.extend(length_facts(n, out))
        return out, False
    except z3.Z3Exception:
        return None, False


def length_facts(n, facts):
    """Elements of explicit sequences, for the uninterpreted element function of the rewriting."""
    out = []
    from .norm import at
    for t in subterms(facts):
        if z3.is_app(t) and z3.is_seq(t) and t.sort().basis() != core.INT and t.decl().kind() in (
                z3.Z3_OP_SEQ_UNIT, z3.Z3_OP_SEQ_CONCAT):
            off = z3.IntVal(0)
            for p in parts(t):
                if p.decl().kind() == z3.Z3_OP_SEQ_UNIT:
                    out.append(at(t, z3.simplify(off)) == p.arg(0))
                    off = off + 1
                else:
                    off = off + z3.Length(p)
    return out


def pick_cond(facts):
    seen, best = {}, None
    count = {}
    for t in subterms(facts, seen):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c = t.arg(0)
            if flags(c) & ITE:
                continue
            count.setdefault(c.get_id(), [c, 0])[1] += 1
    if not count:
        return None
    return max(count.values(), key=lambda p: p[1])[0]


def flatten(hs):
    out = []
    for h in hs:
        if z3.is_and(h):
            out.extend(flatten(h.children()))
        else:
            out.append(h)
    return out


_sk = [0]


def skolemize(goal):
    """Split a goal at top-level conjunctions, implications and foralls."""
    if z3.is_and(goal):
        r = []
        acc = []
        for c in goal.children():
            for ex, g in skolemize(c):
                r.append((acc + ex, g))
            acc = acc + [c] if not has_quant(c) else acc
        return r
    if z3.is_implies(goal):
        return [([goal.arg(0)] + ex, g) for ex, g in skolemize(goal.arg(1))]
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = []
        for i in range(goal.num_vars()):
            _sk[0] += 1
            vs.append(z3.Const(f'sk!{_sk[0]}', goal.var_sort(i)))
        return skolemize(z3.substitute_vars(goal.body(), *reversed(vs)))
    if z3.is_true(goal):
        return []
    return [([], goal)]


_skc = {}


def skolem(f, pos):
    """Hypothesis with a constant in place of each universally quantified premise (and existential claim)."""
    key = (f.get_id(), pos)
    if key in _skc:
        return _skc[key][1]
    r = f
    if z3.is_quantifier(f):
        if f.is_forall() != pos:
            vs = []
            for i in range(f.num_vars()):
                _sk[0] += 1
                vs.append(z3.Const(f'sk!{_sk[0]}', f.var_sort(i)))
            r = skolem(z3.substitute_vars(f.body(), *reversed(vs)), pos)
    elif z3.is_and(f):
        r = z3.And(*[skolem(c, pos) for c in f.children()])
    elif z3.is_or(f):
        r = z3.Or(*[skolem(c, pos) for c in f.children()])
    elif z3.is_not(f):
        r = z3.Not(skolem(f.arg(0), not pos))
    elif z3.is_implies(f):
        r = z3.Implies(skolem(f.arg(0), not pos), skolem(f.arg(1), pos))
    _skc[key] = (f, r)
    return r


def has_quant(t):
    return bool(flags(t) & QUANT)


def cvc5_check(facts, timeout):
    s = z3.Solver()
    for f in facts:
        s.add(f)
    txt = s.to_smt2()
    txt = '(set-logic ALL)\n' + '\n'.join(l for l in txt.splitlines() if not l.startswith('(set-info'))
    txt = txt.replace('seq.nth_i', 'seq.nth').replace('seq.nth_u', 'seq.nth')
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        p = subprocess.run(['cvc5', '--strings-exp', f'--tlimit={timeout}', f.name],
                           capture_output=True, text=True, timeout=timeout / 1000 + 5)
        out = p.stdout.strip().splitlines()
        return out[0] if out else 'error'
    except Exception as e:
        return 'error'
    finally:
        os.unlink(f.name)
