"""Rewriting of sequence terms and conditionals under what the facts imply about integers.

Every fact is replaced by one that follows from the facts (equal terms under all of them), so a contradiction
found afterwards is a contradiction of the original facts."""
import z3

K = z3
INT = z3.IntSort()
BOOL = z3.BoolSort()


def is_seq(t):
    return z3.is_seq(t)


_at = {}


def at(s, j):
    """Element of a sequence of anything but codes, as an uninterpreted function: the rewriting does the rest."""
    k = s.sort().get_id() if hasattr(s.sort(), 'get_id') else str(s.sort())
    if k not in _at:
        _at[k] = (z3.Function('at!' + str(len(_at)), s.sort(), INT, s.sort().basis()), s.sort())
    return _at[k][0](s, j)


def is_nth(t):
    if not z3.is_app(t) or t.num_args() != 2:
        return False
    n = t.decl().name()
    return n in ('seq.nth', 'seq.nth_i', 'seq.nth_u') or n.startswith('at!')


def same_nth(a, b):
    return is_nth(a) and is_nth(b) and a.arg(0).eq(b.arg(0)) and a.arg(1).eq(b.arg(1))


def conj(f):
    if z3.is_and(f):
        return [g for c in f.children() for g in conj(c)]
    return [f]


class Norm:
    def __init__(self, facts, limit_ms=4000):
        self.ab = {}
        self.keep = []
        self.side = []
        self.nf = 0
        self.s = z3.Solver()
        self.s.set('timeout', 150)
        self.dec = {}
        self.memo = {}
        self.queries = 0
        for f in facts:
            if z3.is_quantifier(f):
                continue
            a = self.abs(f)
            self.flush()
            self.s.add(a)
        self.isa = set()
        for f in facts:
            for g in conj(f):
                if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_DT_IS:
                    for x in (g.arg(0), self.norm(g.arg(0))):
                        self.keep.append(x)
                        self.isa.add((g.decl().params()[0].name(), x.get_id()))

    def flush(self):
        for x in self.side:
            self.s.add(x)
        self.side = []

    def fresh(self, sort):
        self.nf += 1
        return z3.Const(f'na!{self.nf}', sort)

    # ---- abstraction to linear integer arithmetic
    def abs(self, t):
        k = t.get_id()
        if k in self.ab:
            return self.ab[k]
        self.keep.append(t)
        r = self._abs(t)
        self.ab[k] = r
        return r

    def _abs(self, t):
        if z3.is_quantifier(t) or z3.is_var(t):
            return self.fresh(t.sort())
        kd = t.decl().kind()
        s = t.sort()
        if s == BOOL:
            if kd in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR, z3.Z3_OP_TRUE,
                      z3.Z3_OP_FALSE, z3.Z3_OP_ITE):
                return t.decl()(*[self.abs(c) for c in t.children()]) if t.num_args() else t
            if kd in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
                if t.arg(0).sort() == INT:
                    return t.decl()(*[self.abs(c) for c in t.children()])
                return self.fresh(BOOL)
            if kd == z3.Z3_OP_EQ:
                a, b = t.children()
                if a.sort() in (INT, BOOL):
                    return self.abs(a) == self.abs(b)
                if is_seq(a):
                    p = self.fresh(BOOL)
                    self.side.append(z3.Implies(p, self.len(a) == self.len(b)))
                    return p
            if kd == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
                return t
            return self.fresh(BOOL)
        if s == INT:
            if kd in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_ITE):
                return t.decl()(*[self.abs(c) for c in t.children()])
            if kd == z3.Z3_OP_ANUM:
                return t
            if kd == z3.Z3_OP_MUL and sum(not z3.is_int_value(c) for c in t.children()) <= 1:
                return t.decl()(*[self.abs(c) for c in t.children()])
            if kd in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(t.arg(1)):
                return t.decl()(*[self.abs(c) for c in t.children()])
            if kd == z3.Z3_OP_SEQ_LENGTH:
                return self.len(t.arg(0))
            if kd == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
                return t
            return self.fresh(INT)
        return self.fresh(s)

    def len(self, t):
        k = ('len', t.get_id())
        if k in self.ab:
            return self.ab[k]
        self.keep.append(t)
        kd = t.decl().kind()
        if kd == z3.Z3_OP_SEQ_CONCAT:
            r = z3.Sum([self.len(c) for c in t.children()])
        elif kd == z3.Z3_OP_SEQ_UNIT:
            r = z3.IntVal(1)
        elif kd == z3.Z3_OP_SEQ_EMPTY:
            r = z3.IntVal(0)
        elif kd == z3.Z3_OP_ITE:
            r = z3.If(self.abs(t.arg(0)), self.len(t.arg(1)), self.len(t.arg(2)))
        elif kd == z3.Z3_OP_SEQ_EXTRACT:
            ls, a, n = self.len(t.arg(0)), self.abs(t.arg(1)), self.abs(t.arg(2))
            v = self.fresh(INT)
            self.side.append(v == z3.If(z3.And(0 <= a, a <= ls, n >= 0), z3.If(n <= ls - a, n, ls - a), 0))
            r = v
        else:
            r = self.fresh(INT)
            self.side.append(r >= 0)
        self.ab[k] = r
        return r

    # ---- questions
    def holds(self, c):
        """Does the integer abstraction of the facts imply c (a formula over abstracted terms)?"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k not in self.dec:
            self.flush()
            self.s.push()
            self.s.add(z3.Not(c))
            self.queries += 1
            r = self.s.check() == z3.unsat
            self.s.pop()
            self.dec[k] = (r, c)
        return self.dec[k][0]

    def consistent(self):
        self.flush()
        return self.s.check() != z3.unsat

    # ---- rewriting
    merging = True

    def plain(self, t):
        """norm without joining slices."""
        saved, self.memo, self.merging = self.memo, {}, False
        try:
            return self.norm(t)
        finally:
            self.memo, self.merging = saved, True

    def norm(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k][1]
        r = self._norm(t)
        self.memo[k] = (t, r)
        return r

    def _norm(self, t):
        if z3.is_quantifier(t) or z3.is_var(t) or t.num_args() == 0:
            return t
        kd = t.decl().kind()
        if kd == z3.Z3_OP_ITE:
            if same_nth(t.arg(1), t.arg(2)):
                return self.norm(t.arg(1))
            c = self.norm(t.arg(0))
            a = self.abs(t.arg(0))
            if z3.is_true(c) or self.holds(a):
                return self.norm(t.arg(1))
            if z3.is_false(c) or self.holds(z3.Not(a)):
                return self.norm(t.arg(2))
            return z3.If(c, self.norm(t.arg(1)), self.norm(t.arg(2)))
        ch = [self.norm(c) for c in t.children()]
        if kd == z3.Z3_OP_SEQ_EXTRACT:
            return self.extract(*ch)
        if is_nth(t):
            return self.nth(*ch)
        if kd == z3.Z3_OP_SEQ_CONCAT:
            return self.concat(ch)
        if kd == z3.Z3_OP_DT_CONSTRUCTOR:
            x = self.rebuilt(t, ch)
            if x is not None:
                return x
        if all(a.eq(b) for a, b in zip(ch, t.children())):
            return t
        if kd in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            return z3.simplify((z3.And if kd == z3.Z3_OP_AND else z3.Or)(*ch))
        if kd in (z3.Z3_OP_ADD,):
            return z3.simplify(z3.Sum(*ch))
        try:
            r = t.decl()(*ch)
        except z3.Z3Exception:
            return t
        if t.sort() in (INT, BOOL):
            r = z3.simplify(r)
        return r

    def rebuilt(self, t, ch):
        """A value built from all the fields of a value of the same kind is that value."""
        c = t.decl()
        s = t.sort()
        for k in range(s.num_constructors()):
            if s.constructor(k).eq(c):
                x = None
                for i, a in enumerate(ch):
                    if not z3.is_app(a) or not a.decl().eq(s.accessor(k, i)) or (x is not None and not x.eq(a.arg(0))):
                        return None
                    x = a.arg(0)
                if s.num_constructors() == 1 or (c.name(), x.get_id()) in self.isa:
                    return x
        return None

    def parts(self, t):
        if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            return [p for c in t.children() for p in self.parts(c)]
        if t.decl().kind() == z3.Z3_OP_SEQ_EMPTY:
            return []
        return [t]

    def concat(self, ch):
        ps = [p for c in ch for p in self.parts(c)]
        if not self.merging:
            return z3.Concat(*ch) if len(ch) > 1 else ch[0]
        if len(ps) > 1:
            bases = {p.arg(0).get_id() for p in ps if p.decl().kind() == z3.Z3_OP_SEQ_EXTRACT}
            for q, p in enumerate(ps):
                # an element next to slices of the same sequence is a slice of length one
                if p.decl().kind() == z3.Z3_OP_SEQ_UNIT and is_nth(p.arg(0)):
                    u, j = p.arg(0).children()
                    aj = self.abs(j)
                    if u.get_id() in bases and self.holds(z3.And(0 <= aj, aj < self.len(u))):
                        ps[q] = z3.Extract(u, j, z3.IntVal(1))
        out = []
        for p in ps:
            # adjacent slices of one sequence
            if out and p.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and out[-1].decl().kind() == z3.Z3_OP_SEQ_EXTRACT \
                    and p.arg(0).eq(out[-1].arg(0)):
                q = out[-1]
                a, n = self.abs(q.arg(1)), self.abs(q.arg(2))
                b, m = self.abs(p.arg(1)), self.abs(p.arg(2))
                if self.holds(z3.And(0 <= a, n >= 0, m >= 0, a + n == b, b <= self.len(p.arg(0)))):
                    out[-1] = self.extract(q.arg(0), q.arg(1), z3.simplify(q.arg(2) + p.arg(2)))
                    continue
            if self.holds(self.len(p) == 0):
                continue
            out.append(p)
        if not out:
            return z3.Empty(ch[0].sort())
        return out[0] if len(out) == 1 else z3.Concat(*out)

    def simp(self, t):
        return z3.simplify(t)

    def extract(self, s, a, n):
        aa, an = self.abs(a), self.abs(n)
        ls = self.len(s)
        if self.holds(z3.Or(an <= 0, aa < 0, aa >= ls)):
            return z3.Empty(s.sort())
        ok = self.holds(z3.And(0 <= aa, aa <= ls))
        if ok and self.holds(an >= ls - aa):
            if self.holds(aa == 0):
                return s
            if s.decl().kind() not in (z3.Z3_OP_SEQ_CONCAT, z3.Z3_OP_SEQ_EXTRACT):
                # canonical length of a suffix
                return z3.Extract(s, a, z3.simplify(z3.Length(s) - a))
        kd = s.decl().kind()
        if kd == z3.Z3_OP_SEQ_EXTRACT and ok:
            u, b, m = s.children()
            ab = self.abs(b)
            if self.holds(z3.And(0 <= ab, ab <= self.len(u))):
                if self.holds(aa + an <= self.len(s)):
                    return self.extract(u, z3.simplify(b + a), n)
                if self.holds(aa + an >= self.len(s)):
                    return self.extract(u, z3.simplify(b + a), z3.simplify(z3.Length(s) - a))
        if kd == z3.Z3_OP_SEQ_CONCAT and ok and self.holds(an >= 0):
            ps = self.parts(s)
            return self.cut_parts(ps, a, n, s)
        return z3.Extract(s, a, n)

    def cut_parts(self, ps, a, n, s):
        """Extract from a concatenation, dropping parts that are out of reach."""
        aa, an = self.abs(a), self.abs(n)
        if len(ps) == 1:
            return self.extract(ps[0], a, n)
        x, rest = ps[0], ps[1:]
        lx = self.len(x)
        if self.holds(aa >= lx):
            return self.cut_parts(rest, z3.simplify(a - z3.Length(x)), n, None)
        if self.holds(aa + an <= lx):
            return self.extract(x, a, n)
        if self.holds(z3.And(aa <= lx, aa + an >= lx)):
            k = z3.simplify(z3.Length(x) - a)
            left = self.extract(x, a, k)
            right = self.cut_parts(rest, z3.IntVal(0), z3.simplify(n - k), None)
            return self.concat([left, right])
        whole = z3.Concat(*ps)
        # cut at the end
        return z3.Extract(whole, a, n)

    def nth(self, s, j):
        kd = s.decl().kind()
        aj = self.abs(j)
        if kd == z3.Z3_OP_SEQ_EXTRACT:
            u, b, m = s.children()
            if self.holds(z3.And(0 <= aj, aj < self.len(s), 0 <= self.abs(b))):
                return self.nth(u, z3.simplify(b + j))
        if kd == z3.Z3_OP_SEQ_CONCAT and self.holds(z3.And(0 <= aj, aj < self.len(s))):
            ps = self.parts(s)
            off = z3.IntVal(0)
            for p in ps:
                lo = self.abs(z3.simplify(off))
                if self.holds(z3.And(lo <= aj, aj < lo + self.len(p))):
                    jj = z3.simplify(j - off)
                    if p.decl().kind() == z3.Z3_OP_SEQ_UNIT:
                        return p.arg(0)
                    return self.nth(p, jj)
                if not self.holds(aj >= lo + self.len(p)):
                    break
                off = z3.simplify(off + z3.Length(p))
        if kd == z3.Z3_OP_SEQ_UNIT and self.holds(aj == 0):
            return s.arg(0)
        return s[j] if s.sort().basis() == INT else at(s, j)

    def conds(self, ts):
        """Undecided conditions of conditionals that contain no conditional themselves."""
        seen, out = set(), []
        stack = list(ts)
        while stack:
            t = stack.pop()
            if t.get_id() in seen or z3.is_quantifier(t):
                continue
            seen.add(t.get_id())
            if z3.is_app(t):
                if t.decl().kind() == z3.Z3_OP_ITE:
                    out.append(t.arg(0))
                stack.extend(t.children())
        return out
