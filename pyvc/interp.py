"""Symbolic execution of Python source against contracts."""
import ast
import builtins as pybuiltins
import z3
from .core import *
from . import api
from .api import Spec, Lemma, Clause, Contract

MAXDEPTH = 25


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, exc, msg=''):
        self.exc = exc
        self.msg = msg


EXC_PARENTS = {
    'IndexError': 'LookupError', 'KeyError': 'LookupError', 'LookupError': 'Exception',
    'ValueError': 'Exception', 'TypeError': 'Exception', 'AttributeError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'OverflowError': 'ArithmeticError',
    'UnicodeDecodeError': 'ValueError', 'UnicodeEncodeError': 'ValueError', 'StopIteration': 'Exception',
    'zlib.error': 'Exception', 'binascii.Error': 'ValueError', 'Exception': None, 'UnboundLocalError': 'Exception',
}


def exc_matches(exc, handler):
    while exc is not None:
        if exc == handler or exc.split('.')[-1] == handler:
            return True
        exc = EXC_PARENTS.get(exc)
    return handler in ('BaseException',)


class Frame:
    __slots__ = ('vars', 'module', 'parent', 'qual', 'extra', 'loops', 'loopidx', 'depth')

    def __init__(self, module, parent=None, qual=None, extra=None, depth=0):
        self.vars = {}
        self.module = module
        self.parent = parent
        self.qual = qual
        self.extra = extra
        self.loops = None
        self.loopidx = {}
        self.depth = depth


class Obligation:
    def __init__(self, name, hyps, goal, where, unfold, timeout, decisions):
        self.name = name
        self.hyps = hyps
        self.goal = goal
        self.where = where
        self.unfold = unfold
        self.timeout = timeout
        self.decisions = decisions
        self.status = None
        self.info = None


_UNSET = object()


class Interp:
    """Evaluator; `pure` evaluates specifications (no forking, no obligations)."""

    def __init__(self, repo, contracts=None):
        self.repo = repo
        self.contracts = contracts if contracts is not None else api.CONTRACTS
        self.pure = 0
        self.side = []
        self.raise_log = None      # exceptions met while an element of a comprehension is described
        self.pc = []
        self.trusted_used = set()
        self.assumptions = set()
        self.called = set()
        self.reset_path([])
        self.engine = None
        self.try_stack = []
        self.spec_decls = {}
        self.depth = 0
        self.opaque_inline = ()

    # ------------------------------------------------------------ path state
    def reset_path(self, prefix):
        self.prefix = prefix
        self.dec = []
        self.pc = []
        self.nfresh = 0
        self.nuid = 0
        self.nent = 0
        self.try_stack = []
        self.depth = 0
        self.solver = None
        self.solver_n = 0
        NEED[0] = self.need

    def need(self, c):
        """A value of the code goes where only some kinds fit."""
        if not self.pure and not self.entails(c):
            raise Unsupported('value of unknown kind where its kind matters')

    def settle(self, v):
        """An optional value about which the path knows whether it is None."""
        if self.pure:
            return v
        if isinstance(v, O):
            if self.entails(z3.Not(v.isn)):
                return self.settle(v.val)
            if self.entails(v.isn):
                return None
        elif isinstance(v, tuple):
            return tuple(self.settle(x) for x in v)
        return v

    def uid(self, c):
        self.nuid += 1
        c.uid = self.nuid
        return c

    def fresh_name(self, base):
        self.nfresh += 1
        return f'{base}!{self.nfresh}'

    def fresh(self, base, T, own='no'):
        t = z3.Const(self.fresh_name(base), sort(T))
        v = from_term(t, T, own)
        self.adopt(v)
        return v

    def adopt(self, v):
        """uids for the cells of a new value."""
        if isinstance(v, Cell):
            if v.uid is None:
                self.uid(v)
            if isinstance(v, ListC) and v.items is not None:
                for x in v.items:
                    self.adopt(x)
            elif isrec(v):
                for h, x in v.fields.values():
                    self.adopt(x)
            elif isinstance(v, ObjC):
                for x in v.attrs.values():
                    self.adopt(x)
        elif isinstance(v, tuple):
            for x in v:
                self.adopt(x)
        elif isinstance(v, O):
            self.adopt(v.val)

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        if z3.is_true(c):
            return
        if self.pure:
            self.side.append(c)
        else:
            self.pc.append(c)

    def _solver(self):
        if self.solver is None:
            self.solver = z3.Solver()
            c = self.engine.contract if self.engine is not None else None
            self.solver.set('timeout', c.quick if c is not None else 400)
            self.solver_n = 0
        while self.solver_n < len(self.pc):
            f = self.pc[self.solver_n]
            if not z3.is_quantifier(f):
                self.solver.add(f)
            self.solver_n += 1
        return self.solver

    def feasible(self, c):
        s = self._solver()
        s.push()
        s.add(c)
        r = s.check()
        s.pop()
        return r != z3.unsat

    def entails(self, c):
        """Is c implied by the path condition (quick check)?"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.engine is None:
            return False
        self.nent += 1
        key = (tuple(self.dec), self.nent, c.get_id())
        cache = self.engine.ent_cache
        if key in cache:
            return cache[key][0]
        r = not self.feasible(z3.Not(c))
        cache[key] = (r, c)
        return r

    def choose(self, c):
        """Decide a condition on this path, forking when both outcomes are possible."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pure:
            raise Unsupported('branching inside a specification')
        n = len(self.dec)
        if n < len(self.prefix):
            d = self.prefix[n]
        else:
            ft = self.feasible(c)
            ff = self.feasible(z3.Not(c)) if ft else True
            if ft and ff:
                self.engine.push(self.dec + [False])
                d = True
            else:
                d = ft
        self.dec.append(d)
        self.pc.append(c if d else z3.Not(c))
        if self.engine is not None:
            self.engine.tick()
        return d

    def truth(self, v):
        """Python truth value: bool or z3 Bool."""
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, bytes, complex)):
            return bool(v)
        if isinstance(v, B):
            return v.t
        if isinstance(v, I):
            return v.t != 0
        if isinstance(v, R):
            return v.t != 0
        if isinstance(v, S):
            return z3.Length(v.t) > 0
        if isinstance(v, Cx):
            return z3.Or(v.num != 0, v.gen != 0)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, O):
            t = self.truth(v.val)
            if isinstance(t, bool):
                return z3.Not(v.isn) if t else False
            return z3.And(z3.Not(v.isn), t)
        if isinstance(v, ListC):
            if v.items is not None:
                return len(v.items) > 0
            return z3.Length(v.t) > 0
        if isinstance(v, SetC):
            if v.items is not None:
                return len(v.items) > 0
            return v.t != z3.K(ksort(v.K), z3.BoolVal(False))
        if isrec(v):
            hs = [h for h, _ in v.fields.values() if h is not False]
            if any(h is True for h in hs):
                return True
            return z3.Or(*hs) if hs else False
        if ismap(v):
            return v.t != empty_map(v.K, v.V)
        if isinstance(v, A):
            t = v.t
            return z3.And(z3.Not(Val.is_VNone(t)),
                          z3.Implies(Val.is_VBool(t), Val.vbool(t)),
                          z3.Implies(Val.is_VInt(t), Val.vint(t) != 0),
                          z3.Implies(Val.is_VReal(t), Val.vreal(t) != 0),
                          z3.Implies(Val.is_VStr(t), z3.Length(Val.vstr(t)) > 0),
                          z3.Implies(Val.is_VBytes(t), z3.Length(Val.vbytes(t)) > 0),
                          z3.Implies(Val.is_VRef(t), z3.Or(Val.vnum(t) != 0, Val.vgen(t) != 0)),
                          z3.Implies(Val.is_VList(t), z3.Length(Val.vlist(t)) > 0),
                          z3.Implies(Val.is_VDict(t), Val.vdict(t) != EMPTY_DICTV))
        if isinstance(v, (Func, Builtin, TypeV, FData, ObjC, Method)):
            return True
        raise Unsupported(f'truth of {v!r}')

    def test(self, node, fr):
        """Evaluate a condition in code: decided bool."""
        if not self.pure and isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            for x in node.values:
                b = self.test(x, fr)
                if isand and not b:
                    return False
                if not isand and b:
                    return True
            return isand
        if not self.pure and isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return not self.test(node.operand, fr)
        return self.choose(self.truth(self.eval(node, fr)))

    # ------------------------------------------------------------ obligations, exceptions
    def oblige(self, name, goal, node=None, assume=True):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.pure:
            return
        self.engine.obligation(name, goal, node)
        if assume:
            if z3.is_false(z3.simplify(goal)):
                raise PathEnd()
            self.assume(goal)

    def may_raise(self, cond, exc, node, what=''):
        """Python raises exc when cond holds."""
        if self.pure and self.raise_log is None:
            return
        if isinstance(cond, bool):
            if not cond:
                return
        else:
            cond = z3.simplify(cond)
            if z3.is_false(cond):
                return
        if self.pure:
            self.raise_log.append((cond, exc))
            return
        for handlers in reversed(self.try_stack):
            if any(exc_matches(exc, h) for h in handlers):
                if self.choose(cond):
                    raise PyRaise(exc, what)
                return
        if self.engine.contract is not None and self.engine.contract.on_raise is not None:
            if self.choose(cond):
                raise PyRaise(exc, what)
            return
        mode = self.engine.raises
        if mode == 'no':
            if isinstance(cond, bool):
                cond = z3.BoolVal(cond)
            self.oblige(f'no-{exc}', z3.Not(cond), node)
        else:
            if isinstance(cond, bool):
                raise PathEnd()
            # (an infeasible path is noticed at its next branch)
            self.assume(z3.Not(cond))

    def do_raise(self, exc, msg='', node=None):
        if self.pure:
            raise Unsupported(f'{exc} {msg} inside a specification')
        self.may_raise(True, exc, node, msg)
        raise PathEnd()

    # ------------------------------------------------------------ cells
    def mutate(self, c, node=None):
        """Called before any mutation of a cell."""
        if self.pure:
            raise Unsupported('mutation inside a specification')
        if c.own == 'no':
            self.oblige('frame', False, node)
        self.engine.mutated(self, c)

    def touched(self, c):
        """After a mutation: write through to symbolic parents."""
        for (p, k) in list(c.parents):
            if isinstance(p, ListC) and p.items is None:
                p.t = seq_update(p.t, k, to_term(c, p.eT))
                self.engine.mutated(self, p)
                self.touched(p)
            elif ismap(p):
                p.t = z3.Store(p.t, k, some(p.K, p.V, to_term(c, p.V)))
                self.engine.mutated(self, p)
                self.touched(p)
            elif isinstance(p, A):
                p.t = to_val(c)
                self.engine.mutated(self, p)
                self.touched(p)
            elif isinstance(p, ObjC) and p.parents:
                self.touched(p)
            elif isrec(p) or isinstance(p, ListC):
                if p.parents:
                    self.touched(p)

    def link(self, c, parent, key):
        if isinstance(c, Cell) and not any(p is parent and _same(k, key) for p, k in c.parents):
            c.parents.append((parent, key))

    def admit(self, c, *vs):
        """Values put into a container: it is not owned all the way down unless they are."""
        if c.own == 'deep':
            for v in vs:
                if self.shared(v):
                    c.own = 'own'

    def admit_all(self, c, src):
        """The elements of another container now are elements of this one too."""
        if isinstance(src, ListC) and src.items is not None:
            self.admit_shared(c, [x for x in src.items])
        elif isinstance(src, ListC):
            if mutable_type(src.eT) and c.own == 'deep':
                c.own = 'own'
        elif isinstance(src, DictC):
            if isrec(src):
                self.admit_shared(c, [v for h, v in src.fields.values()])
            elif mutable_type(src.V) and c.own == 'deep':
                c.own = 'own'

    def admit_shared(self, c, vs):
        def cell(v):
            return isinstance(v, Cell) or (isinstance(v, O) and cell(v.val)) or (isinstance(v, tuple) and any(map(cell, v)))
        if c.own == 'deep' and any(map(cell, vs)):
            c.own = 'own'

    def shared(self, v):
        if isinstance(v, Cell):
            return v.own != 'deep'
        if isinstance(v, O):
            return self.shared(v.val)
        if isinstance(v, tuple):
            return any(self.shared(x) for x in v)
        return False

    def child_own(self, c):
        return 'deep' if c.own == 'deep' else 'no'

    # ------------------------------------------------------------ merging (pure)
    def merge(self, c, a, b):
        """If(c, a, b)."""
        if isinstance(c, bool):
            return a if c else b
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if a is b:
            return a
        if is_concrete(a) and is_concrete(b) and type(a) == type(b) and a == b:
            return a
        if a is None and b is None:
            return None
        if a is None or b is None or isinstance(a, O) or isinstance(b, O):
            an, av = (True, None) if a is None else ((a.isn, a.val) if isinstance(a, O) else (False, a))
            bn, bv = (True, None) if b is None else ((b.isn, b.val) if isinstance(b, O) else (False, b))
            if not (isinstance(av, A) or isinstance(bv, A)):
                if av is None:
                    v = bv
                elif bv is None:
                    v = av
                else:
                    v = self.merge(c, av, bv)
                isn = z3.simplify(z3.If(c, _bt(an), _bt(bn)))
                return O(isn, v)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        T = join(typeof(a), typeof(b))
        if T[0] == 'list' and T[1] is None:
            return a
        return from_term(z3.If(c, to_term(a, T), to_term(b, T)), T, own='deep')

    # ------------------------------------------------------------ equality and order
    def eq(self, a, b):
        if is_concrete(a) and is_concrete(b):
            return a == b
        if isinstance(a, O) or isinstance(b, O):
            if not isinstance(a, O):
                a, b = b, a
            if b is None:
                return a.isn
            if isinstance(b, O):
                e = _bt(self.eq(a.val, b.val))
                return z3.Or(z3.And(a.isn, b.isn), z3.And(z3.Not(a.isn), z3.Not(b.isn), e))
            return z3.And(z3.Not(a.isn), _bt(self.eq(a.val, b)))
        if isinstance(a, A) or isinstance(b, A):
            if not isinstance(a, A):
                a, b = b, a
            if isinstance(b, A):
                return a.t == b.t
            t = a.t
            if b is None:
                return Val.is_VNone(t)
            if is_num(b):
                r = rterm(b)
                alts = [z3.And(Val.is_VReal(t), Val.vreal(t) == r)]
                if isinstance(b, (float, R)):
                    alts.append(z3.And(Val.is_VInt(t), z3.ToReal(Val.vint(t)) == r))
                else:
                    alts.append(z3.And(Val.is_VInt(t), Val.vint(t) == iv(b)))
                    alts.append(z3.And(Val.is_VBool(t), z3.If(Val.vbool(t), 1, 0) == iv(b)))
                return z3.Or(*alts)
            k = skind(b)
            if k == 'str':
                return z3.And(Val.is_VStr(t), Val.vstr(t) == sterm(b))
            if k == 'bytes':
                return z3.And(Val.is_VBytes(t), Val.vbytes(t) == sterm(b))
            return t == to_val(b)
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            if not isinstance(a, TypeOf):
                a, b = b, a
            if isinstance(b, TypeV):
                return self.istype(a.v, b.name, exact=True)
            raise Unsupported('comparison of two dynamic types')
        if isinstance(a, TypeV) or isinstance(b, TypeV):
            return a == b
        if is_num(a) and is_num(b):
            if isinstance(a, (R, float)) or isinstance(b, (R, float)):
                return rterm(a) == rterm(b)
            return iv(a) == iv(b)
        ka, kb = skind(a), skind(b)
        if ka or kb:
            if ka != kb:
                return False
            return self.seq_eq(a, b)
        if isinstance(a, (Cx, complex)) and isinstance(b, (Cx, complex)):
            an, ag = cparts(a)
            bn, bg = cparts(b)
            return z3.And(an == bn, ag == bg)
        if isinstance(a, (Cx, complex)) or isinstance(b, (Cx, complex)):
            if is_num(a) or is_num(b):
                x, c = (a, b) if is_num(a) else (b, a)
                n, g = cparts(c)
                return z3.And(n == 0, z3.ToReal(g) == rterm(x))
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, ListC) and isinstance(b, ListC):
            if a.items is not None and b.items is not None:
                if len(a.items) != len(b.items):
                    return False
                return self.conj([self.eq(x, y) for x, y in zip(a.items, b.items)])
            T = join(typeof(a), typeof(b))
            return to_term(a, T) == to_term(b, T)
        if isinstance(a, DictC) and isinstance(b, DictC):
            if ismap(a) and ismap(b):
                return a.t == b.t
            if ismap(a) or ismap(b):
                m = a if ismap(a) else b
                T = ('dict', m.K, m.V)
                return to_term(a, T) == to_term(b, T)
            cs = []
            for f in list(dict.fromkeys(list(a.fields) + list(b.fields))):
                ha, va = a.fields.get(f, (False, None))
                hb, vb = b.fields.get(f, (False, None))
                cs.append(_simp(_bt(ha) == _bt(hb)))
                if ha is not False and hb is not False:
                    e = self.eq(va, vb)
                    cs.append(_simp(z3.Implies(z3.And(_bt(ha), _bt(hb)), _bt(e))))
            return self.conj(cs)
        if isinstance(a, SetC) and isinstance(b, SetC):
            if a.items is not None and b.items is not None and all(map(is_concrete, a.items + b.items)):
                return set(a.items) == set(b.items)
            T = typeof(a) if a.K is not None else typeof(b)
            return to_term(a, T) == to_term(b, T)
        if isinstance(a, ObjC) and isinstance(b, ObjC):
            if a.cls != b.cls:
                return False
            return self.conj([self.eq(a.attrs[k], b.attrs[k]) for k in a.attrs])
        if isinstance(a, (Func, Builtin)) or isinstance(b, (Func, Builtin)):
            return a is b
        ta, tb = typeof(a), typeof(b)
        if ta != tb:
            return False
        raise Unsupported(f'equality of {a!r} and {b!r}')

    def conj(self, cs):
        out = []
        for c in cs:
            if c is False or (not isinstance(c, bool) and z3.is_false(c)):
                return False
            if c is True or z3.is_true(c):
                continue
            out.append(c)
        if not out:
            return True
        return z3.And(*out) if len(out) > 1 else out[0]

    def seq_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, S) and x.sl is not None and not isinstance(y, S):
                base, st, n = x.sl
                codes = [c if isinstance(c, int) else ord(c) for c in y]
                k = len(codes)
                L = z3.Length(base)
                if z3.is_int_value(n):
                    nn = n.as_long()
                    if k > max(nn, 0):
                        return False
                    if k == 0:
                        return True if nn <= 0 else (st >= L)
                    ln = (st + k <= L) if nn == k else (st + k == L)
                elif k == 0:
                    return z3.Or(n <= 0, st >= L)
                else:
                    ln = z3.Or(z3.And(n == k, st + k <= L), z3.And(n > k, st + k == L))
                return z3.And(ln, *[base[st + j if j else st] == c for j, c in enumerate(codes)])
        ta, tb = sterm(a), sterm(b)
        for x, y in ((ta, tb), (tb, ta)):
            c = const_seq(y)
            if c is not None and const_seq(x) is None:
                if len(c) <= 16:
                    return z3.And(z3.Length(x) == len(c), *[x[i] == v for i, v in enumerate(c)])
        return ta == tb

    def istype(self, v, name, exact=True):
        """type(v) == name, or isinstance when not exact."""
        if isinstance(v, O):
            return z3.If(v.isn, z3.BoolVal(name == 'NoneType'), _bt(self.istype(v.val, name, exact)))
        if isinstance(v, A):
            m = {'NoneType': [Val.is_VNone], 'bool': [Val.is_VBool], 'int': [Val.is_VInt], 'float': [Val.is_VReal],
                 'str': [Val.is_VStr], 'bytes': [Val.is_VBytes], 'complex': [Val.is_VRef], 'list': [Val.is_VList],
                 'dict': [Val.is_VDict], 'Stream': [Val.is_VStream], 'tuple': [], 'set': []}
            if name not in m:
                raise Unsupported(f'type test {name}')
            rs = list(m[name])
            if name == 'int' and not exact:
                rs.append(Val.is_VBool)
            if not rs:
                return False
            return z3.Or(*[r(v.t) for r in rs]) if len(rs) > 1 else rs[0](v.t)
        n = pytype(v)
        if n == name:
            return True
        if not exact and name == 'int' and n == 'bool':
            return True
        if not exact and name == 'tuple' and n == 'Doc':
            return True
        if name == 'object' and not exact:
            return True
        return False

    def order(self, op, a, b, node):
        if isinstance(a, A):
            a = self.as_num(a, node)
        if isinstance(b, A):
            b = self.as_num(b, node)
        if isinstance(a, O):
            a = self.force(a, node)
        if isinstance(b, O):
            b = self.force(b, node)
        if is_concrete(a) and is_concrete(b):
            try:
                return {ast.Lt: a.__lt__, ast.LtE: a.__le__, ast.Gt: a.__gt__, ast.GtE: a.__ge__}[type(op)](b)
            except Exception:
                self.do_raise('TypeError', node=node)
        if is_num(a) and is_num(b):
            if isinstance(a, (R, float)) or isinstance(b, (R, float)):
                x, y = rterm(a), rterm(b)
            else:
                x, y = iv(a), iv(b)
            return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
        if skind(a) and skind(a) == skind(b):
            return self.seq_order(op, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.tuple_order(op, a, b, node)
        self.do_raise('TypeError', 'order', node)

    def seq_order(self, op, a, b):
        """Lexicographic order, when one side is a short constant and the other has length at most one."""
        for x, y, sw in ((a, b, False), (b, a, True)):
            if not isinstance(y, S) and isinstance(x, S) and len(y) == 1:
                c = y[0] if isinstance(y[0], int) else ord(y[0])
                n1 = x.sl is not None and z3.is_int_value(x.sl[2]) and x.sl[2].as_long() == 1
                if n1:
                    base, st, _ = x.sl
                    e = z3.Or(st >= z3.Length(base), st < 0)
                    h = base[st]
                    # x (at most one byte) against y (one byte)
                    lt = z3.Or(e, h < c)
                    le = z3.Or(e, h <= c)
                else:
                    e = z3.Length(x.t) == 0
                    h = x.t[0]
                    lt = z3.Or(e, h < c)
                    le = z3.Or(e, h < c, z3.And(h == c, z3.Length(x.t) == 1))
                o = type(op)
                if sw:      # y op x  ==  x (flipped) y
                    o = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[o]
                return {ast.Lt: lt, ast.LtE: le, ast.Gt: z3.Not(le), ast.GtE: z3.Not(lt)}[o]
        f = z3.Function('seq_lt', SEQI, SEQI, BOOL)
        x, y = sterm(a), sterm(b)
        lt, gt = f(x, y), f(y, x)
        self.assume(z3.And(z3.Not(z3.And(lt, gt)), z3.Implies(z3.And(z3.Not(lt), z3.Not(gt)), x == y),
                           z3.Implies(x == y, z3.And(z3.Not(lt), z3.Not(gt)))))
        return {ast.Lt: lt, ast.LtE: z3.Not(gt), ast.Gt: gt, ast.GtE: z3.Not(lt)}[type(op)]

    def tuple_order(self, op, a, b, node):
        if len(a) != len(b):
            raise Unsupported('order on tuples of different lengths')
        strict = isinstance(op, (ast.Lt, ast.Gt))
        l = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
        res = z3.BoolVal(not strict)
        for x, y in reversed(list(zip(a, b))):
            res = z3.Or(_bt(self.order(l, x, y, node)), z3.And(_bt(self.eq(x, y)), res))
        return res

    # ------------------------------------------------------------ conversions of dynamic values
    def as_num(self, v, node):
        """A used as a number."""
        t = v.t
        if self.pure:
            return I(Val.vint(t))
        if self.choose(Val.is_VInt(t)):
            return I(Val.vint(t))
        if self.choose(Val.is_VReal(t)):
            return R(Val.vreal(t))
        if self.choose(Val.is_VBool(t)):
            return I(z3.If(Val.vbool(t), z3.IntVal(1), z3.IntVal(0)))
        self.do_raise('TypeError', 'number expected', node)

    def force(self, v, node=None):
        """Resolve an optional value."""
        if isinstance(v, O):
            if self.pure:
                return v.val
            if self.choose(v.isn):
                return None
            return v.val
        return v

    def narrow(self, v, node, *kinds):
        """View a dynamic value as one of the kinds ('dict','list','str','bytes','Stream','complex','int')."""
        if isinstance(v, O):
            v = self.force(v, node)
        if not isinstance(v, A):
            return v
        t = v.t
        rec = {'dict': Val.is_VDict, 'list': Val.is_VList, 'str': Val.is_VStr, 'bytes': Val.is_VBytes,
               'Stream': Val.is_VStream, 'complex': Val.is_VRef, 'int': Val.is_VInt, 'float': Val.is_VReal,
               'bool': Val.is_VBool}
        if self.pure:
            return self.view(v, kinds[0])
        for k in kinds:
            if self.choose(rec[k](t)):
                return self.view(v, k)
        if 'int' in kinds and 'bool' not in kinds and self.choose(Val.is_VBool(t)):
            return I(z3.If(Val.vbool(t), 1, 0))
        self.do_raise('TypeError', f'{kinds} expected', node)

    def view(self, v, k):
        t = v.t
        if k == 'str':
            return mkS(Val.vstr(t), 'str')
        if k == 'bytes':
            return mkS(Val.vbytes(t), 'bytes')
        if k == 'int':
            return I(Val.vint(t))
        if k == 'float':
            return R(Val.vreal(t))
        if k == 'bool':
            return B(Val.vbool(t))
        if k == 'complex':
            return Cx(Val.vnum(t), Val.vgen(t))
        if v.kids and v.kids[0] == k:
            return v.kids[1]
        own = 'deep' if v.own == 'deep' else v.own
        if k == 'dict':
            c = MapC(Val.vdict(t), 'str', 'any', own=own, label=v.label)
        elif k == 'list':
            c = ListC(t=Val.vlist(t), eT='any', own=own, label=v.label)
        elif k == 'Stream':
            e = MapC(Val.vent(t), 'str', 'any', own=self.child_own(v), label=v.label)
            c = ObjC('Stream', {'entries': e, 'stream': mkS(Val.vdec(t), 'bytes'),
                                'encoded': mkS(Val.venc(t), 'bytes')}, own=own, label=v.label)
            self.adopt(c)
            self.link(e, c, 'entries')
        else:
            raise Unsupported(k)
        self.adopt(c)
        if v.own != 'no':
            self.link(c, v, 'self')
            v.kids = [k, c]
        return c


def mutable_type(T):
    if isinstance(T, tuple):
        return T[0] not in ('tuple', 'opt') or any(mutable_type(x) for x in T[1:] if not isinstance(x, bool))
    return T not in ('int', 'bool', 'real', 'bytes', 'str', 'none', 'ref')


def _bt(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def _simp(x):
    if isinstance(x, bool):
        return x
    x = z3.simplify(x)
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def _same(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a[0] == b[0] and _same(a[1], b[1])
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return a == b if not (z3.is_expr(a) or z3.is_expr(b)) else False


def cparts(c):
    if isinstance(c, complex):
        return z3.IntVal(int(c.imag)), z3.IntVal(int(c.real))
    return c.num, c.gen


def pytype(v):
    if v is None:
        return 'NoneType'
    for tn, cl in (('bool', (bool, B)), ('int', (int, I)), ('float', (float, R)), ('complex', (complex, Cx)),
                   ('bytes', (bytes, bytearray)), ('str', (str,)), ('tuple', (tuple,)), ('list', (ListC,)),
                   ('dict', (DictC,)), ('set', (SetC,))):
        if isinstance(v, cl):
            return tn
    if isinstance(v, S):
        return v.kind
    if isinstance(v, ObjC):
        return v.cls
    if isinstance(v, (Func, FData)):
        return 'function'
    if isinstance(v, TypeV):
        return 'type'
    return '?'


def seq_update(s, i, x):
    """s with element i replaced (i in range)."""
    n = z3.Length(s)
    return z3.Concat(z3.Extract(s, z3.IntVal(0), i), z3.Unit(x), z3.Extract(s, i + 1, n - i - 1))
