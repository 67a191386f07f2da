"""Expressions, statements and calls."""
import ast
import z3
from .core import *
from . import api
from .api import Spec, Lemma, Clause, Contract
from .interp import *
from .interp import _bt, _simp, _same, _UNSET, exc_matches


class Eval(Interp):

    # ------------------------------------------------------------ names
    def lookup(self, name, fr, node=None):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if v is _UNSET:
                    raise Unsupported(f'{name} may be unbound')
                return v
            if f.extra is not None and name in f.extra:
                return self.lift(f.extra[name], f)
            if f.parent is None:
                break
            f = f.parent
        if f.module is not None and f.extra is None:
            r = self.repo.lookup(f.module, name)
            if r is not None:
                return self.lift_lookup(r, name)
        b = self.builtin(name)
        if b is not None:
            return b
        if not self.pure:
            self.do_raise('NameError', name, node)
        raise Unsupported(f'unknown name {name}')

    def lift_lookup(self, r, name):
        if r[0] == 'func':
            return Func(r[2], r[1], None, r[2].name)
        if r[0] == 'class':
            return TypeV(r[1].__name__)
        if r[0] == 'module':
            return ModV(r[1])
        if r[0] == 'const':
            return self.lift_const(r[1])
        if r[0] == 'opaque':
            v = r[1]
            mod, nm = getattr(v, '__module__', None) or '', getattr(v, '__name__', name)
            b = self.builtin(f'{mod}.{nm}') or self.builtin(nm)
            if b is not None:
                return b
        return Builtin('opaque:' + name, None)

    def lift(self, v, fr):
        if isinstance(v, (Spec, Lemma)):
            return v
        if v is api.forall or v is api.exists or v is api.implies or v is api.iff:
            return Builtin(v.__name__, None)
        if isinstance(v, api.View):
            return Builtin('view', lambda _s, a, k, n, kind=v.kind: self.as_view(a[0], kind))
        if callable(v) and hasattr(v, '__code__'):
            m = getattr(v, '__module__', '')
            if m.startswith('pdfsyntax.'):
                mod = m.split('.', 1)[1]
                return Func(self.repo.function(f'{mod}.{v.__name__}'), mod, None, v.__name__)
            c = getattr(v, '_clause', None) or Clause(v)
            f = Frame(None, extra=v.__globals__)
            return Func(c.node, None, f, v.__name__)
        if isinstance(v, type):
            return TypeV(v.__name__)
        import types as _t
        if isinstance(v, _t.ModuleType):
            return ModV(v.__name__)
        return self.lift_const(v)

    def as_view(self, v, kind):
        if kind == 'source':
            if isinstance(v, FData):
                return mkS(v.t, 'bytes')
            if isinstance(v, A):
                return mkS(Val.vsrc(v.t), 'bytes')
            raise Unsupported('source of this value')
        if isinstance(v, O):
            v = v.val
        return self.view(v, kind) if isinstance(v, A) else v

    def lift_const(self, v):
        if v is None or isinstance(v, (bool, int, float, bytes, str, complex)):
            return v
        if isinstance(v, tuple):
            return tuple(self.lift_const(x) for x in v)
        if isinstance(v, list):
            r = ListC(items=[self.lift_const(x) for x in v], own='no')
            self.adopt(r)
            return r
        if isinstance(v, dict):
            if all(isinstance(k, (str, int)) for k in v):
                r = RecC({k: [True, self.lift_const(x)] for k, x in v.items()}, own='no')
                self.adopt(r)
                return r
        if isinstance(v, (set, frozenset)):
            r = SetC(items=[self.lift_const(x) for x in sorted(v)], own='no')
            self.adopt(r)
            return r
        if isinstance(v, type):
            return TypeV(v.__name__)
        raise Unsupported(f'module constant {type(v)}')

    # ------------------------------------------------------------ expressions
    def eval(self, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'{type(n).__name__} at line {getattr(n, "lineno", "?")}')
        try:
            return m(n, fr)
        except Unsupported as e:
            if not getattr(e, 'line', None):
                e.line = getattr(n, 'lineno', None)
            raise

    def e_Constant(self, n, fr):
        if n.value is Ellipsis:
            raise Unsupported('...')
        return n.value

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr, n)

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        fr.vars[n.target.id] = v
        return v

    def e_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def elts(self, es, fr):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(self.spine(self.eval(e.value, fr), e))
            else:
                out.append(self.eval(e, fr))
        return out

    def spine(self, v, node):
        """Elements of a container with a concrete number of elements."""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, ListC) and v.items is not None:
            return list(v.items)
        if isinstance(v, SetC) and v.items is not None:
            return list(v.items)
        if isinstance(v, (bytes, str)):
            return list(v)
        raise Unsupported('symbolic spine')

    def e_List(self, n, fr):
        r = ListC(items=self.elts(n.elts, fr))
        return self.uid(r)

    def e_Set(self, n, fr):
        return self.uid(SetC(items=self.elts(n.elts, fr)))

    def e_Dict(self, n, fr):
        r = self.uid(RecC({}))
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.eval(v, fr)
                if isinstance(src, A):
                    src = self.narrow(src, n, 'dict')
                if isrec(r) and not r.fields and isinstance(src, DictC):
                    if isrec(src):
                        r.fields, r.T = {f: [h, x] for f, (h, x) in src.fields.items()}, src.T
                    else:
                        r.fields, r.t, r.K, r.V = None, src.t, src.K, src.V
                else:
                    self.dm_update(r, [src], {}, n)
                continue
            kv = self.eval(k, fr)
            self.dict_set(r, kv, self.eval(v, fr), n, fresh=True)
        return r

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        if self.pure:
            vals = []
            for x in n.values:
                v = self.eval(x, fr)
                t = self.truth(v)
                vals.append((v, t))
                if isinstance(t, bool) and (t != isand):
                    break          # short circuit on a known value
            if all(isinstance(v, (bool, B)) for v, _ in vals):
                ts = [t for _, t in vals]
                if isand:
                    return mkB2(self.conj(ts))
                return mkB2(self.disj(ts))
            r = vals[-1][0]
            for v, t in reversed(vals[:-1]):
                r = self.merge(t, r, v) if isand else self.merge(t, v, r)
            return r
        for x in n.values[:-1]:
            v = self.eval(x, fr)
            if not isand and isinstance(v, (R, I)) and x is n.values[-2] and isinstance(n.values[-1], ast.Constant):
                return self.merge(self.truth(v), v, self.lift_const(n.values[-1].value))
            b = self.choose(self.truth(v))
            if isand and not b:
                return v if not isinstance(v, B) else False
            if not isand and b:
                return self.nonfalse(v)
        return self.eval(n.values[-1], fr)

    def nonfalse(self, v):
        if isinstance(v, B):
            return True
        if isinstance(v, O):
            return v.val
        return v

    def disj(self, cs):
        out = []
        for c in cs:
            if c is True or (not isinstance(c, bool) and z3.is_true(c)):
                return True
            if c is False or z3.is_false(c):
                continue
            out.append(c)
        if not out:
            return False
        return z3.Or(*out) if len(out) > 1 else out[0]

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else mkB(z3.Not(t))
        v = self.numval(v, n)
        if isinstance(n.op, ast.USub):
            if is_concrete(v):
                return -v
            if isinstance(v, R):
                return R(-v.t)
            return mkI(-iv(v))
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def numval(self, v, n):
        if isinstance(v, O):
            v = self.force(v, n)
        if isinstance(v, A):
            v = self.as_num(v, n)
        return v

    def e_IfExp(self, n, fr):
        if self.pure:
            c = self.truth(self.eval(n.test, fr))
            if isinstance(c, bool) or z3.is_true(c) or z3.is_false(c):
                c = c if isinstance(c, bool) else z3.is_true(c)
                return self.eval(n.body if c else n.orelse, fr)
            return self.merge(c, self.eval(n.body, fr), self.eval(n.orelse, fr))
        if self.test(n.test, fr):
            return self.eval(n.body, fr)
        return self.eval(n.orelse, fr)

    def e_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        cs = []
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, fr)
            cs.append(self.compare(op, left, right, n))
            left = right
            if cs[-1] is False:
                return False
        return mkB2(self.conj(cs))

    def compare(self, op, a, b, n):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(a, b)
            if isinstance(op, ast.NotEq):
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b is None or a is None:
                r = self.eq(a, b)
            elif isinstance(b, (bool, TypeV)):
                r = self.conj([self.istype(a, 'bool'), self.eq(a, b)]) if isinstance(b, bool) else self.eq(a, b)
            elif isinstance(a, Cell) and isinstance(b, Cell):
                r = a is b
            else:
                raise Unsupported('is')
            if isinstance(op, ast.IsNot):
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, n)
            if isinstance(op, ast.NotIn):
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        return self.order(op, a, b, n)

    def contains(self, c, x, n):
        if isinstance(c, O):
            c = self.force(c, n)
        if isinstance(c, A):
            c = self.narrow(c, n, 'dict', 'list', 'str', 'bytes')
        if is_concrete(c) and is_concrete(x) and not isinstance(c, tuple):
            try:
                return x in c
            except Exception:
                self.do_raise('TypeError', 'in', n)
        if isinstance(c, tuple) or (isinstance(c, ListC) and c.items is not None) or \
                (isinstance(c, SetC) and c.items is not None):
            return self.disj([self.eq(x, y) for y in self.spine(c, n)])
        k = skind(c)
        if k:
            if k == 'bytes' and isinstance(x, (int, I)):
                if isinstance(c, S):
                    return z3.Contains(c.t, z3.Unit(iv(x)))
                return self.disj([_simp(iv(x) == y) for y in dict.fromkeys(c)])
            if skind(x) != k:
                self.do_raise('TypeError', 'in', n)
            if not isinstance(c, S):
                codes = [y if isinstance(y, int) else ord(y) for y in c]
                n1, empty, h = self.short1(x)
                if n1:
                    return self.disj([empty] + [_simp(h == y) for y in dict.fromkeys(codes)])
                if k == 'str' and isinstance(x, S):
                    subs = {c[i:j] for i in range(len(c)) for j in range(i, len(c) + 1)} if len(c) <= 8 else None
                    if subs is not None:
                        return self.disj([self.seq_eq(x, y) for y in sorted(subs)])
            return z3.Contains(sterm(c), sterm(x))
        if isrec(c):
            if isinstance(x, O):
                x = self.force(x, n)
            if isinstance(x, (str, int)) or x is None:
                h = c.fields.get(x, (False, None))[0]
                return h
            return self.disj([self.conj([h, self.eq(x, f)]) for f, (h, _) in c.fields.items()])
        if ismap(c):
            if isinstance(x, A) and c.K == 'str':
                return z3.And(Val.is_VStr(x.t), is_some(c.K, c.V, z3.Select(c.t, kterm(Val.vstr(x.t), 'str'))))
            if isinstance(x, O):
                x = self.force(x, n)
            if not self.keyok(x, c.K):
                return False
            return is_some(c.K, c.V, z3.Select(c.t, key_of(x, c.K)))
        if isinstance(c, SetC):
            return z3.Select(c.t, key_of(x, c.K))
        if isinstance(c, ListC):
            if c.eT == 'any' or typeof(x) == c.eT:
                return z3.Contains(c.t, z3.Unit(to_term(x, c.eT)))
            raise Unsupported('in on list')
        if isinstance(c, Range) and c.step == 1:
            return z3.And(iv(c.lo) <= iv(x), iv(x) < iv(c.hi))
        raise Unsupported(f'in on {c!r}')

    def keyok(self, x, K):
        if K == 'any':
            return True
        return typeof(x) == K or (K == 'int' and typeof(x) == 'bool') or (K == 'ref' and isinstance(x, A))

    def short1(self, x):
        """(at most one element?, emptiness condition, first code)."""
        if isinstance(x, S):
            if x.sl is not None and z3.is_int_value(x.sl[2]) and x.sl[2].as_long() == 1:
                base, st, _ = x.sl
                e = _simp(st >= z3.Length(base))
                if e is not False and e is not True and not self.pure and self.entails(z3.Not(e)):
                    e = False
                return True, e, base[st]
            d = x.t.decl().kind() if z3.is_app(x.t) else None
            if d == z3.Z3_OP_SEQ_UNIT:
                return True, False, x.t.arg(0)
        elif len(x) == 1:
            return True, False, z3.IntVal(x[0] if isinstance(x[0], int) else ord(x[0]))
        return False, None, None

    # ---- arithmetic
    def e_BinOp(self, n, fr):
        a = self.eval(n.left, fr)
        b = self.eval(n.right, fr)
        return self.binop(n.op, a, b, n)

    def binop(self, op, a, b, n):
        if isinstance(a, O):
            a = self.force(a, n)
        if isinstance(b, O):
            b = self.force(b, n)
        if is_concrete(a) and is_concrete(b):
            try:
                return PYOP[type(op)](a, b)
            except KeyError:
                raise Unsupported('operator')
            except Exception as e:
                self.do_raise(type(e).__name__, str(e), n)
        if isinstance(a, A) or isinstance(b, A):
            a, b = self.coerce_bin(op, a, b, n)
        ka, kb = skind(a), skind(b)
        if isinstance(op, ast.Add):
            if ka or kb:
                if ka != kb:
                    self.do_raise('TypeError', 'concat', n)
                return mkS(seq_cat(sterm(a), sterm(b)), ka)
            if isinstance(a, ListC) and isinstance(b, ListC):
                return self.list_concat(a, b, n)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, ObjC) and isinstance(b, ObjC):
                raise Unsupported('+ on objects')
            if isinstance(a, (Cx, complex)) or isinstance(b, (Cx, complex)):
                return self.cx_arith(op, a, b, n)
        if isinstance(op, ast.Mult):
            if (ka and isinstance(b, (int, I))) or (kb and isinstance(a, (int, I))):
                s, k = (a, b) if ka else (b, a)
                return self.seq_repeat(s, k, n)
            for s, k in ((a, b), (b, a)):
                if isinstance(s, ListC) and isinstance(k, (int, I)):
                    return self.list_repeat(s, k, n)
        if isinstance(op, ast.Mod) and ka:
            raise Unsupported('% formatting')
        if isinstance(a, SetC) and isinstance(b, SetC):
            return self.set_op(op, a, b, n)
        if isinstance(a, (Cx, complex)) or isinstance(b, (Cx, complex)):
            return self.cx_arith(op, a, b, n)
        if is_num(a) and is_num(b):
            return self.arith(op, a, b, n)
        self.do_raise('TypeError', f'operands {a!r} {b!r}', n)

    def coerce_bin(self, op, a, b, n):
        def like(x, o):
            if not isinstance(x, A):
                return x
            if is_num(o) or isinstance(o, A):
                return self.as_num(x, n)
            k = skind(o)
            if k:
                return self.narrow(x, n, k)
            if isinstance(o, ListC):
                return self.narrow(x, n, 'list')
            if isinstance(o, (Cx, complex)):
                return self.narrow(x, n, 'complex')
            return x
        return like(a, b), like(b, a)

    def cx_arith(self, op, a, b, n):
        def parts(x):
            if isinstance(x, (Cx, complex)):
                return cparts(x)
            return z3.IntVal(0), iv(x)
        an, ag = parts(a)
        bn, bg = parts(b)
        if isinstance(op, ast.Add):
            return Cx(z3.simplify(an + bn), z3.simplify(ag + bg))
        if isinstance(op, ast.Sub):
            return Cx(z3.simplify(an - bn), z3.simplify(ag - bg))
        raise Unsupported('complex arithmetic')

    def arith(self, op, a, b, n):
        real = isinstance(a, (R, float)) or isinstance(b, (R, float))
        if isinstance(op, ast.Div):
            y = rterm(b)
            self.may_raise(y == 0, 'ZeroDivisionError', n)
            return R(rterm(a) / y)
        if real:
            x, y = rterm(a), rterm(b)
            if isinstance(op, ast.Add):
                return R(x + y)
            if isinstance(op, ast.Sub):
                return R(x - y)
            if isinstance(op, ast.Mult):
                return R(x * y)
            if isinstance(op, ast.FloorDiv):
                self.may_raise(y == 0, 'ZeroDivisionError', n)
                return R(z3.ToReal(z3.ToInt(x / y)))
            if isinstance(op, ast.Mod):
                self.may_raise(y == 0, 'ZeroDivisionError', n)
                return R(x - y * z3.ToReal(z3.ToInt(x / y)))
            raise Unsupported('real operator')
        x, y = iv(a), iv(b)
        if isinstance(op, ast.Add):
            return mkI(x + y)
        if isinstance(op, ast.Sub):
            return mkI(x - y)
        if isinstance(op, ast.Mult):
            return mkI(x * y)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            self.may_raise(_simp(y == 0), 'ZeroDivisionError', n)
            # z3 div/mod are Euclidean; Python's round towards minus infinity
            if z3.is_int_value(y) and y.as_long() > 0:
                return mkI(x / y if isinstance(op, ast.FloorDiv) else x % y)
            if not self.pure and self.entails(y > 0):
                return mkI(x / y if isinstance(op, ast.FloorDiv) else x % y)
            q, r = x / y, x % y
            if isinstance(op, ast.FloorDiv):
                return mkI(z3.If(z3.And(y < 0, r != 0), q - 1, q))
            return mkI(z3.If(z3.And(y < 0, r != 0), r + y, r))
        if isinstance(op, ast.Pow) and isinstance(b, int) and 0 <= b <= 4:
            r = z3.IntVal(1)
            for _ in range(b):
                r = r * x
            return mkI(r)
        if isinstance(op, ast.BitAnd):
            if isinstance(b, int) and b >= 0 and (b + 1) & b == 0:
                return mkI(x % (b + 1))
            if isinstance(a, int) and a >= 0 and (a + 1) & a == 0:
                return mkI(y % (a + 1))
        if isinstance(op, ast.LShift) and isinstance(b, int):
            return mkI(x * (1 << b))
        if isinstance(op, ast.RShift) and isinstance(b, int):
            return mkI(x / (1 << b))
        raise Unsupported(f'operator {type(op).__name__}')

    def seq_repeat(self, s, k, n):
        if isinstance(k, int):
            t = seq_of(())
            for _ in range(max(k, 0)):
                t = seq_cat(t, sterm(s))
            return mkS(t, skind(s))
        if isinstance(s, str) and s and (set(s) == {' '} or s == '\n'):
            k = k if len(s) == 1 else mkI(iv(k) * len(s))
            r = self.call_spec(api.SPECS['newlines' if s == '\n' else 'spaces'], [k])
            self.assume(z3.Length(r.t) == z3.If(iv(k) > 0, iv(k), z3.IntVal(0)))
            return r
        if not isinstance(s, S) and len(s) == 1:
            c = z3.IntVal(s[0] if isinstance(s[0], int) else ord(s[0]))
            t = self.rep_term(c, iv(k))
            return S(t, skind(s))
        raise Unsupported('symbolic repetition')

    def rep_term(self, c, k):
        """Sequence of max(k,0) copies of c (uninterpreted with axioms)."""
        f = z3.Function('seq_rep', INT, INT, SEQI)
        t = f(c, k)
        self.assume(z3.Length(t) == z3.If(k > 0, k, z3.IntVal(0)))
        self.assume(z3.Implies(k <= 0, t == z3.Empty(SEQI)))
        self.assume(z3.Implies(k == 1, t == z3.Unit(c)))
        j = z3.Const('j!rep', INT)
        self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), t[j] == c)))
        return t

    def list_repeat(self, s, k, n):
        if isinstance(k, int) and s.items is not None:
            return self.uid(ListC(items=list(s.items) * max(k, 0)))
        if s.items is not None and len(s.items) == 1:
            x = s.items[0]
            eT = s.eT or ('any' if x is None else typeof(x))
            r = self.fresh('rep', ('list', eT), own='own')
            kk = iv(k)
            self.assume(z3.Length(r.t) == z3.If(kk > 0, kk, z3.IntVal(0)))
            j = z3.Const('j!rep', INT)
            self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < kk), r.t[j] == to_term(x, eT))))
            return r
        raise Unsupported('list repetition')

    def list_concat(self, a, b, n):
        if a.items is not None and b.items is not None:
            return self.uid(ListC(items=list(a.items) + list(b.items), eT=a.eT or b.eT))
        if a.items is not None and not a.items:
            r = ListC(t=b.t, eT=b.eT)
        elif b.items is not None and not b.items:
            r = ListC(t=a.t, eT=a.eT)
        else:
            T = join(typeof(a), typeof(b))
            r = ListC(t=seq_cat(to_term(a, T), to_term(b, T)), eT=T[1])
        return self.uid(r)

    def set_op(self, op, a, b, n):
        if a.items is not None and b.items is not None and all(map(is_concrete, a.items + b.items)):
            f = {ast.BitOr: set.__or__, ast.BitAnd: set.__and__, ast.Sub: set.__sub__}[type(op)]
            return self.uid(SetC(items=sorted(f(set(a.items), set(b.items)), key=str), K=a.K or b.K))
        K = a.K or b.K
        if K is None:
            its = (a.items or []) + (b.items or [])
            K = typeof(its[0]) if its else None
        if K is None:
            return self.uid(SetC(items=[]))
        T = ('set', K)
        x, y = to_term(a, T), to_term(b, T)
        if isinstance(op, ast.BitOr):
            t = z3.SetUnion(x, y)
        elif isinstance(op, ast.BitAnd):
            t = z3.SetIntersect(x, y)
        elif isinstance(op, ast.Sub):
            t = z3.SetDifference(x, y)
        else:
            raise Unsupported('set operator')
        return self.uid(SetC(t=t, K=K))

    # ---- subscripts
    def e_Subscript(self, n, fr):
        c = self.eval(n.value, fr)
        if isinstance(n.slice, ast.Slice):
            if n.slice.step is not None:
                st = self.eval(n.slice.step, fr)
                if st != 1:
                    return self.slice_step(c, n, st, fr)
            lo = self.eval(n.slice.lower, fr) if n.slice.lower is not None else None
            hi = self.eval(n.slice.upper, fr) if n.slice.upper is not None else None
            return self.slice(c, lo, hi, n)
        return self.index(c, self.eval(n.slice, fr), n)

    def slice_step(self, c, n, st, fr):
        lo = self.eval(n.slice.lower, fr) if n.slice.lower is not None else None
        hi = self.eval(n.slice.upper, fr) if n.slice.upper is not None else None
        if (isinstance(c, (bytes, str, tuple))) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return c[lo:hi:st]
        if isinstance(c, ListC) and c.items is not None and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return self.uid(ListC(items=c.items[lo:hi:st], eT=c.eT))
        if isinstance(c, ListC) and lo is None and hi is None and st == -1:
            return self.uid(ListC(t=self.rev_term(c.t, c.eT), eT=c.eT))
        raise Unsupported('extended slice')

    def rev_term(self, t, eT):
        so = z3.SeqSort(sort(eT))
        f = z3.Function('seq_rev_' + tname(eT), so, so)
        r = f(t)
        self.assume(z3.Length(r) == z3.Length(t))
        j = z3.Const('j!rev', INT)
        self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < z3.Length(t)), r[j] == t[z3.Length(t) - 1 - j])))
        return r

    def norm_bound(self, x, L, default):
        """Slice bound as a nonnegative term."""
        if isinstance(x, O):
            x = self.force(x)
        if isinstance(x, A):
            x = self.as_num(x, None)
        if x is None:
            return default
        if isinstance(x, int):
            if x >= 0:
                return z3.IntVal(x)
            if not self.pure and self.entails(L + x >= 0):
                return z3.simplify(L + x)
            return z3.If(L + x < 0, z3.IntVal(0), L + x)
        t = iv(x)
        if not self.pure:
            if self.entails(t >= 0):
                return t
            if self.entails(z3.And(t < 0, L + t >= 0)):
                return z3.simplify(L + t)
        elif self.nonneg_syntactic(t):
            return t
        return z3.If(t >= 0, t, z3.If(L + t < 0, z3.IntVal(0), L + t))

    def nonneg_syntactic(self, t):
        if t.get_id() in self.nonneg:
            return True
        if z3.is_int_value(t):
            return t.as_long() >= 0
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_SEQ_LENGTH:
            return True
        if k == z3.Z3_OP_ADD:
            return all(self.nonneg_syntactic(c) for c in t.children())
        if k == z3.Z3_OP_MUL:
            return all(self.nonneg_syntactic(c) for c in t.children())
        if k == z3.Z3_OP_ITE:
            return self.nonneg_syntactic(t.arg(1)) and self.nonneg_syntactic(t.arg(2))
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args():
            sp = self.spec_decls.get(t.decl().name())
            return sp is not None and getattr(sp, 'nonneg', False)
        return False

    nonneg = frozenset()

    def slice(self, c, lo, hi, n):
        if isinstance(c, O):
            c = self.force(c, n)
        if isinstance(c, A):
            c = self.narrow(c, n, 'str', 'bytes', 'list')
        okc = all(x is None or isinstance(x, int) for x in (lo, hi))
        if isinstance(c, (bytes, str, tuple)) and okc:
            return c[lo:hi]
        if isinstance(c, ListC) and c.items is not None and okc:
            return self.uid(ListC(items=c.items[lo:hi], eT=c.eT))
        if c is None:
            self.do_raise('TypeError', 'slice of None', n)
        if skind(c):
            t = sterm(c)
        elif isinstance(c, ListC):
            t = to_term(c, typeof(c))
        else:
            raise Unsupported(f'slice of {c!r}')
        L = z3.Length(t)
        a = self.norm_bound(lo, L, z3.IntVal(0))
        if hi is None:
            ln = z3.simplify(L - a)
        else:
            b = self.norm_bound(hi, L, L)
            ln = z3.simplify(b - a)
        if lo is None and hi is None:
            r = t
        else:
            r = z3.Extract(t, a, ln)
        if skind(c):
            if isinstance(c, S) and c.sl is not None and not (lo is None and hi is None) and hi is not None:
                pass
            return S(r, skind(c), (t, a, ln) if not (lo is None and hi is None) else None)
        return self.uid(ListC(t=r, eT=c.eT if c.eT is not None else typeof(c)[1]))

    def index(self, c, i, n):
        if isinstance(c, O):
            c = self.force(c, n)
        if isinstance(i, O):
            i = self.force(i, n)
        if isinstance(c, A):
            if isinstance(i, str) or skind(i) == 'str' or isinstance(i, A):
                if isinstance(i, str) and i in ('entries', 'stream', 'encoded'):
                    c = self.narrow(c, n, 'Stream', 'dict')
                else:
                    c = self.narrow(c, n, 'dict', 'Stream')
            else:
                c = self.narrow(c, n, 'list', 'bytes', 'str')
        if c is None:
            self.do_raise('TypeError', 'None is not subscriptable', n)
        if isinstance(c, ObjC):
            if c.cls.endswith('Stream'):
                if i in c.attrs:
                    return c.attrs[i]
                self.do_raise('AttributeError', str(i), n)
            if c.cls == 'Doc' or True:
                return self.call_method(c, '__getitem__', [i], {}, n)
        if isinstance(c, DictC):
            return self.dict_get(c, i, n)
        if isinstance(i, A):
            i = self.narrow(i, n, 'int')
        if isinstance(i, (bool, B)):
            i = mkI(iv(i))
        if not isinstance(i, (int, I)):
            self.do_raise('TypeError', 'index', n)
        if isinstance(c, (bytes, str, tuple)) and isinstance(i, int):
            if -len(c) <= i < len(c):
                return c[i]
            self.do_raise('IndexError', '', n)
        if isinstance(c, tuple):
            return self.spine_index(list(c), i, n)
        if isinstance(c, ListC):
            return self.list_get(c, i, n)
        if skind(c):
            t = sterm(c)
            j = self.norm_index(i, z3.Length(t), n)
            if isinstance(c, S) and c.sl is not None:
                base, st, ln = c.sl
                x = base[st + j]
            else:
                x = t[j]
            if skind(c) == 'bytes':
                self.assume(z3.And(0 <= x, x <= 255))
                return I(x)
            self.assume(z3.And(0 <= x, x <= 0x10ffff))
            return S(z3.Unit(x), 'str')
        raise Unsupported(f'index of {c!r}')

    def spine_index(self, items, i, n):
        if isinstance(i, int):
            if -len(items) <= i < len(items):
                return items[i]
            self.do_raise('IndexError', '', n)
        t = iv(i)
        self.may_raise(z3.Or(t < -len(items), t >= len(items)), 'IndexError', n)
        if len(items) > 32 and all(isinstance(x, int) and not isinstance(x, bool) for x in items):
            # a table of constants: one function symbol per content
            import hashlib
            h = hashlib.blake2b(repr(items).encode(), digest_size=6).hexdigest()
            r = z3.Function('table_' + h, INT, INT)(t)
            self.assume(z3.And(min(items) <= r, r <= max(items)))
            return I(r)
        if self.pure:
            if not items:
                raise Unsupported('index into empty list')
            r = items[-1]
            for k in range(len(items) - 2, -1, -1):
                r = self.merge(z3.Or(t == k, t == k - len(items)), items[k], r)
            return r
        for k in range(len(items)):
            if self.choose(z3.Or(t == k, t == k - len(items))):
                return items[k]
        raise PathEnd()

    def norm_index(self, i, L, n):
        t = iv(i)
        self.may_raise(z3.Or(t >= L, t < -L), 'IndexError', n)
        if isinstance(i, int):
            return z3.IntVal(i) if i >= 0 else z3.simplify(L + i)
        if self.pure:
            if self.nonneg_syntactic(t) or True:
                return t      # specifications index with nonnegative values
        if self.entails(t >= 0):
            return t
        if self.entails(t < 0):
            return z3.simplify(L + t)
        return z3.If(t >= 0, t, L + t)

    # ---- lists
    def list_get(self, c, i, n):
        if c.items is not None:
            return self.spine_index(c.items, i, n)
        L = z3.Length(c.t)
        j = self.norm_index(i, L, n)
        for (k, ch) in c.kids:
            if _same(k, j):
                return ch
        if not self.pure:
            for (k, ch) in c.kids:
                if ch.own != 'no' and self.choose(k == j):
                    return ch
        v = from_term(c.t[j], c.eT, self.child_own(c), c.label)
        if c.eT == 'int' and getattr(c, 'byte', False):
            self.assume(z3.And(0 <= v.t, v.t <= 255))
        if not self.pure:
            self.adopt(v)
            cell = v.val if isinstance(v, O) else v
            if isinstance(cell, Cell) and c.own == 'deep':
                self.link(cell, c, j)
                c.kids.append((j, cell))
        return v

    def list_set(self, c, i, v, n):
        self.mutate(c, n)
        self.admit(c, v)
        if c.items is not None:
            if isinstance(i, int):
                if not -len(c.items) <= i < len(c.items):
                    self.do_raise('IndexError', '', n)
                c.items[i] = v
                self.touched(c)
                return
            if c.eT is None:
                c.eT = typeof(c)[1]
            self.symbolize(c)
        c.eT = self.fit(c, v)
        L = z3.Length(c.t)
        j = self.norm_index(i, L, n)
        c.t = seq_update(c.t, j, to_term(v, c.eT))
        keep = []
        for (k, ch) in c.kids:
            if _same(k, j):
                continue
            if ch.own != 'no' and not self.entails(k != j):
                if self.choose(k == j):
                    continue
            keep.append((k, ch))
        c.kids = keep
        if isinstance(v, Cell) and v.own != 'no':
            c.kids.append((j, v))
            self.link(v, c, j)
        self.touched(c)

    def fit(self, c, v):
        """Element type of a symbolic list able to hold v (no change of sort allowed)."""
        to_term(v, c.eT)
        return c.eT

    def symbolize(self, c, eT=None):
        """Switch a list from concrete spine to a sequence term."""
        if c.items is None:
            return
        eT = eT or c.eT or typeof(c)[1]
        if eT is None:
            raise Unsupported('element type of an empty list')
        items = c.items
        c.t = list_term(c, eT)
        c.eT = eT
        c.items = None
        c.kids = []
        for k, x in enumerate(items):
            if isinstance(x, Cell) and x.own != 'no':
                c.kids.append((z3.IntVal(k), x))
                self.link(x, c, z3.IntVal(k))

    def list_append(self, c, v, n):
        self.mutate(c, n)
        self.admit(c, v)
        v = self.settle(v)
        if c.items is not None:
            c.items.append(v)
            if c.eT is not None and typeof(v) != c.eT:
                c.eT = join(c.eT, typeof(v))
        else:
            L = z3.simplify(z3.Length(c.t))
            c.t = seq_cat(c.t, z3.Unit(to_term(v, c.eT)))
            if isinstance(v, Cell) and v.own != 'no':
                c.kids.append((L, v))
                self.link(v, c, L)
        self.touched(c)

    # ---- dicts
    def dict_key(self, c, k, n):
        if isinstance(k, (str, bytes)):
            if c.K != ('str' if isinstance(k, str) else 'bytes'):
                raise Unsupported('key of another type')
            return kconst(k)
        if isinstance(k, A) and c.K == 'str':
            k = self.narrow(k, n, 'str')
        if isinstance(k, A) and c.K == 'ref':
            k = self.narrow(k, n, 'complex')
        if isinstance(k, A) and c.K == 'int':
            k = self.narrow(k, n, 'int')
        return kterm(to_term(k, c.K), c.K)

    def dict_get(self, c, k, n):
        if isrec(c):
            if isinstance(k, A):
                k = self.narrow(k, n, 'str')
            if isinstance(k, (S, I, Cx)):
                if not c.fields and not self.pure:
                    self.do_raise('KeyError', '', n)
                if self.pure:
                    fs = [(self.eq(k, f), v) for f, (h, v) in c.fields.items() if h is not False]
                    if not fs:
                        raise Unsupported('lookup in empty record')
                    r = fs[-1][1]
                    for e, v in reversed(fs[:-1]):
                        r = self.merge(e, v, r)
                    return r
                for f, (h, v) in c.fields.items():
                    if self.choose(self.eq(k, f)):
                        self.may_raise(_simp(z3.Not(_bt(h))), 'KeyError', n)
                        return v
                self.do_raise('KeyError', '', n)
            h, v = c.fields.get(k, (False, None))
            if h is False:
                if self.pure and self.raise_log is None:
                    return self.fresh('undefined', 'any')
                self.do_raise('KeyError', str(k), n)
            if h is not True:
                self.may_raise(z3.Not(h), 'KeyError', n)
            if isinstance(v, Cell) and c.own != 'no' and c.parents:
                self.link(v, c, k)
            return v
        kt = self.dict_key(c, k, n)
        sel = z3.Select(c.t, kt)
        self.may_raise(_simp(z3.Not(is_some(c.K, c.V, sel))), 'KeyError', n)
        return self.map_child(c, kt, sel)

    def map_child(self, c, kt, sel):
        for (k2, ch) in c.kids:
            if _same(k2, kt):
                return ch
        if not self.pure:
            for (k2, ch) in c.kids:
                if ch.own != 'no' and self.choose(k2 == kt):
                    return ch
        v = from_term(z3.simplify(get_some(c.K, c.V, sel)), c.V, self.child_own(c), c.label)
        if not self.pure:
            self.adopt(v)
            cell = v.val if isinstance(v, O) else v
            if isinstance(cell, Cell) and c.own == 'deep':
                self.link(cell, c, kt)
                c.kids.append((kt, cell))
        return v

    def dict_set(self, c, k, v, n, fresh=False):
        if not fresh:
            self.mutate(c, n)
        self.admit(c, v)
        if isrec(c):
            if isinstance(k, A):
                k = self.narrow(k, n, 'str')
            if isinstance(k, complex) or isinstance(k, (S, I, Cx, B, tuple)):
                self.mapify(c, typeof(k), v)
            else:
                c.fields[k] = [True, v]
                if not fresh:
                    self.touched(c)
                return
        kt = self.dict_key(c, k, n)
        c.t = z3.Store(c.t, kt, some(c.K, c.V, to_term(v, c.V)))
        keep = []
        for (k2, ch) in c.kids:
            if _same(k2, kt):
                continue
            if ch.own != 'no' and not self.entails(k2 != kt) and self.choose(k2 == kt):
                continue
            keep.append((k2, ch))
        c.kids = keep
        if isinstance(v, Cell) and v.own != 'no':
            c.kids.append((kt, v))
            self.link(v, c, kt)
        if not fresh:
            self.touched(c)

    def mapify(self, c, K, v=None, V=None):
        """Switch a record to map mode."""
        if V is None:
            V = None
            for h, x in c.fields.values():
                V = typeof(x) if V is None else join(V, typeof(x))
            if v is not None or V is None:
                tv = typeof(v)
                V = tv if V is None else join(V, tv)
        if isinstance(c.T, tuple) and c.T[0] == 'dict':
            V = c.T[2]
            K = c.T[1]
        if isinstance(V, tuple) and (V[0] == 'rec?' or (V[0] == 'list' and V[1] is None)):
            raise Unsupported('value type of dict')
        fields = c.fields
        c.t = to_term(c, ('dict', K, V))
        c.K, c.V = K, V
        c.fields = None
        c.kids = []
        for f, (h, x) in fields.items():
            if isinstance(x, Cell) and x.own != 'no' and h is True:
                c.kids.append((key_of(f, K), x))
                self.link(x, c, key_of(f, K))

    def dict_del(self, c, k, n):
        self.mutate(c, n)
        if isrec(c):
            h, v = c.fields.get(k, (False, None))
            if h is False:
                if self.pure and self.raise_log is None:
                    return self.fresh('undefined', 'any')
                self.do_raise('KeyError', str(k), n)
            if h is not True:
                self.may_raise(z3.Not(h), 'KeyError', n)
            c.fields[k] = [False, v]
            if c.T is None:
                del c.fields[k]
        else:
            kt = self.dict_key(c, k, n)
            self.may_raise(_simp(z3.Not(is_some(c.K, c.V, z3.Select(c.t, kt)))), 'KeyError', n)
            c.t = z3.Store(c.t, kt, absent(c.K, c.V))
            c.kids = [(k2, ch) for k2, ch in c.kids if not _same(k2, kt)]
        self.touched(c)

    # ---- attributes
    def e_Attribute(self, n, fr):
        v = self.eval(n.value, fr)
        return self.getattr(v, n.attr, n)

    def getattr(self, v, a, n):
        if isinstance(v, O):
            v = self.force(v, n)
        if isinstance(v, ObjC):
            if a in v.attrs:
                return v.attrs[a]
            return Method(v, a)
        if isinstance(v, (Cx, complex)):
            num, gen = cparts(v)
            if a == 'imag':
                return self.as_real(num)
            if a == 'real':
                return self.as_real(gen)
        if isinstance(v, A):
            if a in ('imag', 'real'):
                return self.getattr(self.narrow(v, n, 'complex'), a, n)
            return Method(v, a)
        if isinstance(v, ModV):
            return self.modattr(v, a)
        if isinstance(v, TypeV):
            return Method(v, a)
        if v is None:
            self.do_raise('AttributeError', a, n)
        return Method(v, a)

    def as_real(self, t):
        if z3.is_int_value(t):
            return float(t.as_long())
        return R(z3.ToReal(t))

    def modattr(self, m, a):
        b = self.builtin(f'{m.name}.{a}')
        if b is not None:
            return b
        if f'{m.name}.{a}' == 'os.path':
            return ModV('os.path')
        raise Unsupported(f'{m.name}.{a}')

    def e_Lambda(self, n, fr):
        return Func(n, fr.module, fr, '<lambda>')

    def e_Starred(self, n, fr):
        raise Unsupported('*')

    def e_JoinedStr(self, n, fr):
        t = seq_of(())
        for p in n.values:
            if isinstance(p, ast.Constant):
                t = seq_cat(t, sterm(p.value))
            else:
                v = self.eval(p.value, fr)
                spec = ''
                if p.format_spec is not None:
                    spec = self.e_JoinedStr(p.format_spec, fr)
                    if not isinstance(spec, str):
                        raise Unsupported('symbolic format')
                if p.conversion not in (-1, 115):
                    raise Unsupported('!r')
                t = seq_cat(t, sterm(self.format(v, spec, n)))
        return mkS(t, 'str')

    # ---- comprehensions
    def e_ListComp(self, n, fr):
        return self.comp(n, fr, 'list')

    def e_SetComp(self, n, fr):
        return self.comp(n, fr, 'set')

    def e_GeneratorExp(self, n, fr):
        return self.comp(n, fr, 'list')

    def e_DictComp(self, n, fr):
        return self.comp(n, fr, 'dict')

    def comp(self, n, fr, kind):
        out = []
        f2 = Frame(fr.module, fr, fr.qual, None, fr.depth)
        f2.extra = None
        try:
            self.comp_rec(n, 0, f2, kind, out)
        except SymbolicIter as e:
            if len(n.generators) > 1:
                raise Unsupported('nested comprehension over a symbolic container')
            return self.comp_sym(n, f2, kind, e.seq)
        if kind == 'list':
            return self.uid(ListC(items=out))
        if kind == 'set':
            return self.uid(SetC(items=out))
        r = self.uid(RecC({}))
        for k, v, *c in out:
            if c:
                r.fields[k] = [c[0], v]
            else:
                self.dict_set(r, k, v, n, fresh=True)
        return r

    def quiet(self, nodes, fr):
        """Values of expressions evaluated without branching, or None if one may raise or cannot be evaluated so."""
        save, self.side = self.side, []
        log, self.raise_log = self.raise_log, []
        self.pure += 1
        try:
            vs = [self.eval(x, fr) for x in nodes]
            if self.raise_log or self.side:
                return None
            return vs
        except Unsupported:
            return None
        finally:
            self.pure -= 1
            self.side, self.raise_log = save, log

    def comp_rec(self, n, gi, fr, kind, out):
        if gi == len(n.generators):
            if kind == 'dict':
                out.append((self.eval(n.key, fr), self.eval(n.value, fr)))
            else:
                out.append(self.eval(n.elt, fr))
            return
        g = n.generators[gi]
        it = self.eval(g.iter, fr)
        items = self.iter_sym(it, n) if gi == 0 else self.iter_items(it, n)
        for x in items:
            self.assign(g.target, x, fr)
            ok = True
            if kind == 'dict' and not self.pure and len(g.ifs) == 1 and gi + 1 == len(n.generators) and isinstance(x, str):
                q = self.quiet([g.ifs[0], n.key, n.value], fr)
                if q is not None and q[1] == x and isinstance(q[2], A) and not any(o[0] == x for o in out):
                    t = self.truth(q[0])
                    if not isinstance(t, bool):
                        q[2].own = 'no'
                        out.append((x, q[2], t))
                        continue
            for c in g.ifs:
                if self.pure:
                    t = self.truth(self.eval(c, fr))
                    if not isinstance(t, bool):
                        raise Unsupported('symbolic filter in a specification')
                    ok = t
                else:
                    ok = self.test(c, fr)
                if not ok:
                    break
            if ok:
                self.comp_rec(n, gi + 1, fr, kind, out)

    def comp_sym(self, n, fr, kind, seq):
        """Comprehension over a container of unknown length: element-wise description."""
        g = n.generators[0]
        hook = self.engine.comp_spec(self, n, fr, kind, seq) if self.engine is not None else None
        if hook is not None:
            return hook
        q, k = self.loop_id(fr, n)
        if not self.pure and k is not None and self.engine.loop_spec(q, k) is not None:
            return self.comp_loop(n, fr, kind)
        if kind != 'list' or g.ifs:
            raise Unsupported('filtered comprehension over a symbolic container')
        L, elem = seq
        k = z3.Const(self.fresh_name('k'), INT)
        save, self.side = self.side, []
        log, self.raise_log = self.raise_log, [] if not self.pure else self.raise_log
        code = not self.pure
        self.pure += 1
        try:
            self.assign(g.target, elem(k), fr)
            v = self.eval(n.elt, fr)
        finally:
            self.pure -= 1
            side, self.side = self.side, save
            log, self.raise_log = self.raise_log, log
        if code:
            for c, exc in log:
                c = z3.BoolVal(c) if isinstance(c, bool) else c
                some = z3.Exists([k], z3.And(0 <= k, k < L, *side, c))
                if any(exc_matches(exc, h) for hs in self.try_stack for h in hs) or (
                        self.engine.contract is not None and self.engine.contract.on_raise is not None):
                    # over-approximation: raised or not
                    self.may_raise(z3.Const(self.fresh_name('raised'), BOOL), exc, n)
                elif self.engine.raises == 'no':
                    self.oblige(f'no-{exc}', z3.Not(some), n, assume=False)
        eT = typeof(v)
        r = self.fresh('comp', ('list', eT), own='own')
        self.assume(z3.Length(r.t) == L)
        self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < L), z3.And(r.t[k] == to_term(v, eT), *side))))
        return r

    def comp_loop(self, n, fr, kind):
        """Comprehension as the loop it abbreviates, with the invariant of the contract; `_res` is the result so far."""
        if not hasattr(n, '_loop'):
            g = n.generators[0]
            res = ast.Name('_res', ast.Load())
            if kind == 'dict':
                b = ast.Assign([ast.Subscript(res, n.key, ast.Store())], n.value)
            else:
                m = 'append' if kind == 'list' else 'add'
                b = ast.Expr(ast.Call(ast.Attribute(res, m, ast.Load()), [n.elt], []))
            body = [b]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            l = ast.For(g.target, g.iter, body, [])
            for x in ast.walk(l):
                if not hasattr(x, 'lineno'):
                    ast.copy_location(x, n)
            l._origin = n
            n._loop = ast.fix_missing_locations(l)
        fr.vars['_res'] = self.uid(ListC(items=[])) if kind == 'list' else (
            self.uid(SetC(items=[])) if kind == 'set' else self.uid(RecC({})))
        self.s_For(n._loop, fr)
        return fr.vars['_res']

    def iter_items(self, it, n):
        """Items of an iterable of known length."""
        try:
            return self.iter_sym(it, n)
        except SymbolicIter:
            raise Unsupported('iteration over a container of unknown length')

    def iter_seq(self, it, n):
        try:
            return self.iter_sym(it, n)
        except SymbolicIter as e:
            return e.seq

    def iter_sym(self, it, n):
        """Concrete list of the elements an iterable yields, or SymbolicIter."""
        if isinstance(it, O):
            it = self.force(it, n)
        if isinstance(it, A):
            it = self.narrow(it, n, 'list', 'dict', 'bytes', 'str')
        if isinstance(it, (bytes, str, tuple)):
            return list(it)
        if isinstance(it, Range):
            if isinstance(it.lo, int) and isinstance(it.hi, int):
                return list(range(it.lo, it.hi, it.step))
            if isinstance(it.step, int) and it.step in (1, -1):
                lo, hi = iv(it.lo), iv(it.hi)
                s = it.step
                L = z3.If(hi - lo > 0, hi - lo, 0) if s == 1 else z3.If(lo - hi > 0, lo - hi, 0)
                raise SymbolicIter((z3.simplify(L), lambda k: mkI(lo + s * k)))
            if isinstance(it.step, int) and it.step > 1:
                lo, hi = iv(it.lo), iv(it.hi)
                s = it.step
                L = z3.If(hi - lo > 0, (hi - lo + (s - 1)) / s, 0)
                raise SymbolicIter((z3.simplify(L), lambda k: mkI(lo + s * k)))
            raise Unsupported('range step')
        if isinstance(it, ListC):
            if it.items is not None:
                return list(it.items)
            snap = it
            t = it.t
            def elem(k, t=t, it=it):
                if it.kids:
                    return self.list_get(it, mkI(k), n)
                v = from_term(t[k], it.eT, self.child_own(it), it.label)
                if not self.pure:
                    self.adopt(v)
                return v
            raise SymbolicIter((z3.Length(t), elem))
        if isinstance(it, S):
            t = it.t
            def elem(k):
                if it.kind == 'bytes':
                    self.assume(z3.And(0 <= t[k], t[k] <= 255))
                    return I(t[k])
                return S(z3.Unit(t[k]), 'str')
            raise SymbolicIter((z3.Length(t), elem))
        if isrec(it):
            if all(h in (True, False) for h, _ in it.fields.values()):
                return [f for f, (h, _) in it.fields.items() if h]
            out = []
            for f, (h, _) in it.fields.items():
                if h is True or (h is not False and self.choose(h)):
                    out.append(f)
            return out
        if isinstance(it, Iter):
            if it.kind == 'enumerate':
                start = it.parts[1]
                try:
                    xs = self.iter_sym(it.parts[0], n)
                    return [(mkI(iv(start) + k) if not isinstance(start, int) else start + k, x)
                            for k, x in enumerate(xs)]
                except SymbolicIter as e:
                    L, el = e.seq
                    raise SymbolicIter((L, lambda k: (mkI(k + iv(start)), el(k))))
            if it.kind == 'items':
                d = it.parts[0]
                if isrec(d):
                    return [(f, d.fields[f][1]) for f in self.iter_sym(d, n)]
                return self.map_iter(d, n, 'items')
            if it.kind == 'keys':
                d = it.parts[0]
                if isrec(d):
                    return self.iter_sym(d, n)
                return self.map_iter(d, n, 'keys')
            if it.kind == 'values':
                d = it.parts[0]
                if isrec(d):
                    return [d.fields[f][1] for f in self.iter_sym(d, n)]
                return self.map_iter(d, n, 'values')
            if it.kind == 'zip':
                if len(it.parts) == 2:
                    sa, sb = self.iter_seq(it.parts[0], n), self.iter_seq(it.parts[1], n)
                    if isinstance(sa, list) and isinstance(sb, list):
                        return list(zip(sa, sb))
                    if isinstance(sa, tuple) and isinstance(sb, tuple):
                        L = _simp(z3.If(sa[0] <= sb[0], sa[0], sb[0]))
                        raise SymbolicIter((L, lambda k: (sa[1](k), sb[1](k))))
                raise Unsupported('zip')
            if it.kind == 'reversed':
                xs = it.parts[0]
                if isinstance(xs, Range) and xs.step == 1:
                    return self.iter_sym(Range(mkI(iv(xs.hi) - 1), mkI(iv(xs.lo) - 1), -1), n)
                try:
                    items = self.iter_sym(xs, n)
                except SymbolicIter as e:
                    count, elem = e.seq
                    raise SymbolicIter((count, lambda k: elem(count - 1 - k)))
                return list(reversed(items))
        if ismap(it):
            return self.map_iter(it, n, 'keys')
        if isinstance(it, SetC):
            if it.items is not None:
                return list(it.items)
            ks = self.fresh('elems', ('list', it.K))
            st = it.t
            k = z3.Const(self.fresh_name('k'), INT)
            self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < z3.Length(ks.t)), z3.Select(st, kterm(ks.t[k], it.K)))))
            raise SymbolicIter((z3.Length(ks.t), lambda j: from_term(ks.t[j], it.K)))
        if it is None:
            self.do_raise('TypeError', 'iteration over None', n)
        raise Unsupported(f'iteration over {it!r}')

    def map_iter(self, d, n, what):
        """Keys of a map in an unspecified order (each present key once)."""
        if (d.K, d.V) == ('str', 'any') and 'key_at' in api.SPECS:
            at, dd = api.SPECS['key_at'], MapC(d.t, 'str', 'any', own='no')
            def item(j):
                kv = self.call_spec(at, [dd, mkI(j)])
                if what == 'keys':
                    return kv
                v = from_term(get_some('str', 'any', z3.Select(dd.t, kterm(kv.t, 'str'))), 'any', self.child_own(d), d.label)
                if not self.pure:
                    self.adopt(v)
                return v if what == 'values' else (kv, v)
            raise SymbolicIter((self.call_spec(api.SPECS['nkeys'], [dd]).t, item))
        keys = z3.Function('map_keys_' + tname(d.K) + '_' + tname(d.V), d.t.sort(), z3.SeqSort(sort(d.K)))(d.t)
        k = z3.Const(self.fresh_name('k'), INT)
        t = d.t
        self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < z3.Length(keys)),
                                              is_some(d.K, d.V, z3.Select(t, kterm(keys[k], d.K))))))
        def elem(j):
            kv = from_term(keys[j], d.K)
            if what == 'keys':
                return kv
            v = from_term(get_some(d.K, d.V, z3.Select(t, kterm(keys[j], d.K))), d.V, self.child_own(d), d.label)
            if not self.pure:
                self.adopt(v)
            return v if what == 'values' else (kv, v)
        raise SymbolicIter((z3.Length(keys), elem))

    # ------------------------------------------------------------ assignment
    def assign(self, tgt, v, fr):
        if isinstance(tgt, ast.Name):
            fr.vars[tgt.id] = v
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            v = self.force(v, tgt)
            if isinstance(v, ObjC) and v.cls == 'Doc':
                v = tuple(v.attrs.values())
            if isinstance(v, A):
                v = self.narrow(v, tgt, 'list')
            if isinstance(v, ListC) and v.items is None:
                self.may_raise(z3.Length(v.t) != len(tgt.elts), 'ValueError', tgt)
                items = [self.list_get(v, k, tgt) for k in range(len(tgt.elts))]
            elif isinstance(v, Range) or isinstance(v, Iter):
                items = self.iter_items(v, tgt)
            elif v is None:
                self.do_raise('TypeError', 'cannot unpack None', tgt)
            else:
                items = self.spine(v, tgt)
            if any(isinstance(e, ast.Starred) for e in tgt.elts):
                raise Unsupported('starred assignment')
            if len(items) != len(tgt.elts):
                self.do_raise('ValueError', 'unpack', tgt)
            for e, x in zip(tgt.elts, items):
                self.assign(e, x, fr)
        elif isinstance(tgt, ast.Subscript):
            c = self.eval(tgt.value, fr)
            if isinstance(tgt.slice, ast.Slice):
                raise Unsupported('slice assignment')
            self.set_item(c, self.eval(tgt.slice, fr), v, tgt)
        elif isinstance(tgt, ast.Attribute):
            c = self.eval(tgt.value, fr)
            if isinstance(c, A):
                c = self.narrow(c, tgt, 'Stream')
            if isinstance(c, ObjC) and tgt.attr in c.attrs:
                self.mutate(c, tgt)
                c.attrs[tgt.attr] = v
                self.touched(c)
            else:
                raise Unsupported('attribute assignment')
        else:
            raise Unsupported('assignment target')

    def set_item(self, c, k, v, n):
        c = self.force(c, n)
        k = self.force(k, n)
        if isinstance(c, A):
            c = self.narrow(c, n, 'dict', 'list') if not isinstance(k, (int, I)) else self.narrow(c, n, 'list', 'dict')
        if isinstance(c, DictC):
            self.dict_set(c, k, v, n)
        elif isinstance(c, ListC):
            if isinstance(k, A):
                k = self.narrow(k, n, 'int')
            if isinstance(k, (bool, B)):
                k = mkI(iv(k))
            if not isinstance(k, (int, I)):
                self.do_raise('TypeError', 'list index', n)
            self.list_set(c, k, v, n)
        else:
            self.do_raise('TypeError', 'item assignment', n)

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'{type(s).__name__} at line {s.lineno}')
        try:
            m(s, fr)
        except Unsupported as e:
            if not getattr(e, 'line', None):
                e.line = s.lineno
            raise

    def s_Expr(self, s, fr):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'pop' and len(v.args) == 2 \
                and not v.keywords and isinstance(v.args[0], ast.Constant) and isinstance(v.args[0].value, str) \
                and isinstance(v.args[1], ast.Constant):
            if self.discard(self.eval(v.func.value, fr), v.args[0].value, s):
                return
        self.eval(v, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            fr.vars[(a.asname or a.name).split('.')[0]] = ModV(a.name)

    def s_ImportFrom(self, s, fr):
        for a in s.names:
            b = self.builtin(f'{s.module}.{a.name}') or self.builtin(a.name)
            if b is None:
                raise Unsupported('import')
            fr.vars[a.asname or a.name] = b

    def s_Global(self, s, fr):
        raise Unsupported('global')

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        if isinstance(s.target, ast.Name):
            a = self.lookup(s.target.id, fr)
            b = self.eval(s.value, fr)
            fr.vars[s.target.id] = self.augop(s.op, a, b, s)
        elif isinstance(s.target, ast.Subscript):
            c = self.eval(s.target.value, fr)
            k = self.eval(s.target.slice, fr)
            a = self.index(c, k, s)
            b = self.eval(s.value, fr)
            self.set_item(c, k, self.augop(s.op, a, b, s), s)
        elif isinstance(s.target, ast.Attribute):
            raise Unsupported('attribute +=')

    def augop(self, op, a, b, n):
        if isinstance(a, O):
            a = self.force(a, n)
        if isinstance(a, ListC) and isinstance(op, ast.Add):
            self.list_extend(a, b, n)
            return a
        return self.binop(op, a, b, n)

    def list_extend(self, a, b, n):
        self.mutate(a, n)
        b = self.force(b, n)
        if isinstance(b, A):
            b = self.narrow(b, n, 'list')
        if isinstance(b, (tuple, Range, Iter, SetC, bytes)) or isrec(b):
            b = ListC(items=self.iter_items(b, n))
        if not isinstance(b, ListC):
            raise Unsupported('extend')
        self.admit_all(a, b)
        if a.items is not None and b.items is not None:
            a.items.extend(b.items)
        else:
            if a.items is not None:
                if not a.items and a.eT is None:
                    a.t, a.eT, a.items = z3.Empty(z3.SeqSort(sort(b.eT))), b.eT, None
                else:
                    self.symbolize(a, a.eT or b.eT)
            a.t = seq_cat(a.t, list_term(b, a.eT))
        self.touched(a)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                c = self.force(self.eval(t.value, fr), s)
                if isinstance(c, A):
                    c = self.narrow(c, s, 'dict')
                if isinstance(t.slice, ast.Slice):
                    raise Unsupported('del slice')
                k = self.eval(t.slice, fr)
                if isinstance(c, DictC):
                    self.dict_del(c, k, s)
                    continue
                if isinstance(c, ListC):
                    self.list_pop(c, k, s)
                    continue
                raise Unsupported('del')
            elif isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            else:
                raise Unsupported('del')

    def s_Return(self, s, fr):
        raise ReturnEx(self.eval(s.value, fr) if s.value is not None else None)

    def guarded_delete(self, s, fr):
        """`if k in d: del d[k]` removes k from d: no case distinction for a symbolic dictionary."""
        t = s.test
        if s.orelse or len(s.body) != 1 or not isinstance(s.body[0], ast.Delete) or len(s.body[0].targets) != 1:
            return False
        x = s.body[0].targets[0]
        if not (isinstance(x, ast.Subscript) and isinstance(t, ast.Compare) and len(t.ops) == 1 and
                isinstance(t.ops[0], ast.In) and isinstance(x.value, ast.Name) and isinstance(x.slice, ast.Constant)
                and ast.dump(t.left) == ast.dump(x.slice) and isinstance(t.comparators[0], ast.Name)
                and t.comparators[0].id == x.value.id and isinstance(x.slice.value, str)):
            return False
        return self.discard(self.eval(x.value, fr), x.slice.value, s)

    def discard(self, c, k, n):
        """Remove a key, if present, without a case distinction; False when not possible."""
        if isinstance(c, A):
            if not self.entails(Val.is_VDict(c.t)):
                return False
            c = self.narrow(c, n, 'dict')
        if not (isinstance(c, DictC) and ismap(c)) or c.own == 'no':
            return False
        self.mutate(c, n)
        kt = self.dict_key(c, k, n)
        c.t = z3.Store(c.t, kt, absent(c.K, c.V))
        c.kids = [(k2, ch) for k2, ch in c.kids if not _same(k2, kt)]
        self.touched(c)
        return True

    def s_If(self, s, fr):
        if self.guarded_delete(s, fr):
            return
        if self.test(s.test, fr):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_FunctionDef(self, s, fr):
        fr.vars[s.name] = Func(s, fr.module, fr, s.name)

    def s_Assert(self, s, fr):
        t = self.truth(self.eval(s.test, fr))
        self.may_raise(_simp(z3.Not(_bt(t))), 'AssertionError', s)

    def s_Raise(self, s, fr):
        name = 'Exception'
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        elif isinstance(e, ast.Attribute):
            name = e.attr
        self.do_raise(name, '', s)

    def s_With(self, s, fr):
        raise Unsupported('with')

    def s_Try(self, s, fr):
        if s.finalbody:
            raise Unsupported('finally')
        hs = []
        for h in s.handlers:
            if h.type is None:
                hs.append(['Exception'])
            elif isinstance(h.type, ast.Tuple):
                hs.append([self.excname(x) for x in h.type.elts])
            else:
                hs.append([self.excname(h.type)])
        self.try_stack.append([x for l in hs for x in l])
        n = len(self.try_stack)
        try:
            self.block(s.body, fr)
        except PyRaise as e:
            del self.try_stack[n - 1:]
            for h, names in zip(s.handlers, hs):
                if any(exc_matches(e.exc, x) for x in names):
                    if h.name:
                        fr.vars[h.name] = Builtin('exception', None)
                    self.block(h.body, fr)
                    return
            raise
        finally:
            del self.try_stack[n - 1:]
        self.block(s.orelse, fr)

    def excname(self, x):
        return x.id if isinstance(x, ast.Name) else x.attr

    # ------------------------------------------------------------ loops
    def loop_id(self, fr, s):
        """Ordinal of a loop in its function."""
        f = fr
        while f.loops is None and f.parent is not None:
            f = f.parent
        if f.loops is None:
            return None, None
        return f.qual, f.loops.get(id(getattr(s, '_origin', s)))

    def s_While(self, s, fr):
        q, k = self.loop_id(fr, s)
        spec = self.engine.loop_spec(q, k)
        if spec is None:
            return self.unroll_while(s, fr, k)
        self.cut(s, fr, spec, k,
                 cond=lambda st: self.test(s.test, fr),
                 pre=lambda st: None, post=lambda st: None, hidden=None)

    def unroll_while(self, s, fr, k):
        for _ in range(64):
            n = len(self.dec)
            c = self.eval(s.test, fr)
            t = self.truth(c)
            t = t if isinstance(t, bool) else _simp(t)
            if not isinstance(t, bool):
                if self.entails(t):
                    t = True
                elif self.entails(z3.Not(t)):
                    t = False
                else:
                    raise Unsupported(f'loop {k} at line {s.lineno} has no invariant')
            if not t:
                self.block(s.orelse, fr)
                return
            try:
                self.block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                pass
        raise Unsupported(f'loop at line {s.lineno} has no invariant')

    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)
        q, k = self.loop_id(fr, s)
        spec = self.engine.loop_spec(q, k)
        try:
            items = self.iter_sym(it, s)
        except SymbolicIter as e:
            seq = e.seq
            if spec is None:
                raise Unsupported(f'loop {k} at line {s.lineno} has no invariant')
        else:
            if spec is None or spec.unroll:
                try:
                    for x in items:
                        self.assign(s.target, x, fr)
                        try:
                            self.block(s.body, fr)
                        except ContinueEx:
                            pass
                    self.block(s.orelse, fr)
                except BreakEx:
                    pass
                return
            tmp = ListC(items=items)
            self.adopt(tmp)
            seq = (z3.IntVal(len(items)), lambda j: self.spine_index(items, mkI(j), s))
        L, elem = seq
        hid = f'_k{k}'
        fr.vars[hid] = 0
        fr.vars['_k'] = 0
        fr.vars['_n'] = mkI(L)
        fr.vars['_seq'] = it
        kterm = lambda: iv(fr.vars[hid])
        def cond(st):
            # 0 <= k <= n is inductive by construction
            if st:
                self.assume(z3.And(0 <= kterm(), kterm() <= L))
            return self.choose(kterm() < L)
        def pre(st):
            self.assign(s.target, elem(kterm()), fr)
        def post(st):
            fr.vars[hid] = mkI(kterm() + 1)
            fr.vars['_k'] = fr.vars[hid]
        def sync():
            fr.vars['_k'] = fr.vars[hid]
            fr.vars['_n'] = mkI(L)
            fr.vars['_seq'] = it
        self.cut(s, fr, spec, k, cond, pre, post, hidden=hid, sync=sync, bound=(kterm, L))

    def cut(self, s, fr, spec, k, cond, pre, post, hidden, sync=None, bound=None):
        eng = self.engine
        lname = f'loop{k}'
        key = (k, fr.qual, tuple(self.dec))
        st = eng.loop_state(key)
        for nm, T in spec.types.items():
            cur = fr.vars.get(nm, _UNSET)
            if isrec(cur) and isinstance(T, tuple) and T[0] == 'dict':
                self.mapify(cur, T[1], None, T[2])
            elif isinstance(cur, ListC) and cur.items is not None and isinstance(T, tuple) and T[0] == 'list':
                self.symbolize(cur, T[1])
        self.mark_values('at', k, fr)
        if spec.entry_hints:
            self.hints(spec.entry_hints, fr)
        self.check_clause(spec.inv, f'{lname}.entry', fr, s)
        # havoc
        names = assigned_names(s)
        # += changes a list in place: the list is havocked as any other list that the body changes
        bound_ = assigned_names(s, False)
        names = {nm for nm in names if nm in bound_ or not isinstance(fr.vars.get(nm, _UNSET), ListC)}
        if hidden:
            names = names | {hidden}
        uid_mark = self.nuid
        for nm in sorted(names):
            cur = fr.vars.get(nm, _UNSET)
            T = spec.types.get(nm)
            if T is None:
                T = st.types.get(nm)
            if T is None and cur is not _UNSET:
                T = gen_type(cur)
            if T is None:
                # bound inside the body only, or type not known yet
                if cur is _UNSET:
                    fr.vars[nm] = _UNSET
                    continue
                st.learning[nm] = True
                continue
            own = st.own.get(nm)
            if own is None:
                own = cur.own if isinstance(cur, Cell) else 'deep'
                if cur is None or cur is _UNSET:
                    own = 'deep'
                st.own[nm] = own
            if isinstance(cur, Cell) and cur in [c for c in ()]:
                pass
            fr.vars[nm] = self.fresh(nm, T, own=own)
            st.types.setdefault(nm, T)
        for uid in sorted(st.cells):
            c = eng.find_cell(self, fr, uid)
            if c is not None:
                self.havoc_cell(c, spec, st, fr)
        if hidden:
            self.assume(iv(fr.vars[hidden]) >= 0)
        if sync:
            sync()
        mark = self.nuid
        eng.open_loops.append((key, uid_mark, st))
        try:
            if bound:
                kt, L = bound
                self.assume(z3.And(0 <= kt(), kt() <= L))
            self.assume_clause(spec.inv, fr)
            self.mark_values('pre', k, fr)
            v0 = None
            if spec.variant:
                v0 = self.eval_clause(spec.variant, fr)
            go = cond(True)
            if not go:
                eng.open_loops.pop()
                if sync:
                    sync()
                self.block(s.orelse, fr)
                eng.reached(f'{lname}.exit')
                return
            eng.reached(f'{lname}.body')
            pre(True)
            n_try = len(self.try_stack)
            try:
                self.block(s.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                if eng.open_loops and eng.open_loops[-1][0] == key:
                    eng.open_loops.pop()
                return
            post(True)
            # types and ownership assumed for havocked variables
            for nm in sorted(names):
                cur = fr.vars.get(nm, _UNSET)
                if cur is _UNSET:
                    continue
                T = st.types.get(nm)
                if nm in st.learning or T is None:
                    if nm in st.learning:
                        T2 = gen_type(cur)
                        if T2 is not None:
                            eng.learn(st, nm, T2)
                    continue
                if nm in spec.types:
                    self.check_own(st, nm, cur)
                    continue
                try:
                    J = join(T, typeof(cur) if not isrec(cur) or cur.T else T)
                except Unsupported:
                    J = T
                if J != T and not (T[0] == 'list' and J == ('list', None)):
                    eng.learn(st, nm, J)
                self.check_own(st, nm, cur)
            if spec.hints:
                self.hints(spec.hints, fr)
            self.check_clause(spec.inv, f'{lname}.preserve', fr, s)
            if spec.variant:
                v1 = self.eval_clause(spec.variant, fr)
                self.oblige(f'{lname}.variant', self.lex_less(v1, v0), s)
            raise PathEnd()
        finally:
            if eng.open_loops and eng.open_loops[-1][0] == key:
                eng.open_loops.pop()

    def mark_values(self, what, k, fr):
        """Bind x_at<k> (x on entry to loop k) and x_pre<k> (x at the start of the iteration) where clauses use them."""
        c = self.engine.contract
        if c is None or fr.qual != c.target or not isinstance(k, int):
            return
        suffix = f'_{what}{k}'
        for sp in list(c.loops.values()) + [c]:
            for cl in (getattr(sp, a, None) for a in ('inv', 'variant', 'hints', 'entry_hints')):
                for p in (cl.params if cl is not None else ()):
                    if p.endswith(suffix):
                        v = self.value_of(p[:-len(suffix)], fr)
                        if v is not _UNSET:
                            fr.vars[p] = self.snapshot(v)

    def value_of(self, nm, fr):
        f = fr
        while f is not None:
            if nm in f.vars:
                return f.vars[nm]
            f = f.parent
        return _UNSET

    def check_own(self, st, nm, cur):
        order = {'no': 0, 'own': 1, 'deep': 2}
        if isinstance(cur, Cell) and order[cur.own] < order[st.own.get(nm, 'deep')]:
            st.own[nm] = cur.own
            raise Restart()

    def lex_less(self, a, b):
        if isinstance(a, tuple):
            r = z3.BoolVal(False)
            for x, y in reversed(list(zip(a, b))):
                r = z3.Or(z3.And(iv(x) < iv(y), iv(y) >= 0), z3.And(iv(x) == iv(y), r))
            return r
        return z3.And(iv(a) < iv(b), iv(b) >= 0)

    def havoc_cell(self, c, spec, st, fr):
        nm = self.name_of(c, fr)
        if isinstance(c, ListC):
            T = spec.types.get(nm) if nm else None
            eT = T[1] if T else (c.eT or st.types.get(('cell', c.uid)) or typeof(c)[1])
            if eT is None:
                st.learning[('cell', c.uid)] = True
                return
            if isinstance(eT, tuple) and eT[0] == 'rec?':
                raise Unsupported('element type of list ' + str(nm))
            c.items = None
            c.eT = eT
            c.t = z3.Const(self.fresh_name(nm or 'list'), z3.SeqSort(sort(eT)))
            c.kids = []
        elif isinstance(c, DictC):
            T = spec.types.get(nm) if nm else None
            if T is not None and T[0] == 'dict':
                c.fields, c.K, c.V = None, T[1], T[2]
                c.t = z3.Const(self.fresh_name(nm or 'dict'), sort(T))
                c.kids = []
            elif T is not None and T[0] == 'rec':
                v = self.fresh(nm, T, own='deep')
                c.fields = v.fields
                c.T = T
            elif ismap(c):
                c.t = z3.Const(self.fresh_name(nm or 'dict'), c.t.sort())
                c.kids = []
            else:
                if not c.fields:
                    st.learning[('cell', c.uid)] = True
                    return
                for f in c.fields:
                    h, v = c.fields[f]
                    T2 = gen_type(v)
                    if T2 is None:
                        raise Unsupported('record field havoc')
                    nv = self.fresh(f'{nm}_{f}', T2, own='deep')
                    c.fields[f] = [h if isinstance(h, bool) else z3.Const(self.fresh_name('has'), BOOL), nv]
        elif isinstance(c, A):
            c.t = z3.Const(self.fresh_name(nm or 'any'), Val)
            c.kids = []
        elif isinstance(c, SetC):
            T = spec.types.get(nm) if nm else None
            K = T[1] if T else (c.K or st.types.get(('cell', c.uid)))
            if K is None and c.items:
                K = typeof(c.items[0])
            if K is None:
                st.learning[('cell', c.uid)] = True
                return
            c.items, c.K = None, K
            c.t = z3.Const(self.fresh_name(nm or 'set'), sort(('set', K)))
        elif isinstance(c, ObjC):
            for a in c.attrs:
                v = c.attrs[a]
                if not isinstance(v, Cell):
                    c.attrs[a] = self.fresh(a, typeof(v), own='deep')
        else:
            raise Unsupported('havoc')

    def name_of(self, c, fr):
        f = fr
        while f is not None:
            for n, v in f.vars.items():
                if v is c and not n.startswith('_'):
                    return n
            f = f.parent
        return None

    # ------------------------------------------------------------ clauses
    def clause_frame(self, cl, fr, extra=None):
        g = Frame(None, extra=cl.globals)
        for p in cl.params:
            g.vars[p] = self.resolve_param(p, fr, extra, cl)
        return g

    def resolve_param(self, p, fr, extra, cl):
        if extra and p in extra:
            return extra[p]
        if p.endswith('_0') and p in self.engine.entry:
            return self.engine.entry[p]
        if p in self.engine.ghosts:
            return self.engine.ghosts[p]
        f = fr
        while f is not None:
            if p in f.vars and f.vars[p] is not _UNSET:
                return f.vars[p]
            f = f.parent
        alt = self.engine.renamed(p, fr)
        if alt is not None:
            return alt
        raise Unsupported(f'{cl.name} refers to {p}, which is not a variable here')

    def eval_clause(self, cl, fr, extra=None):
        g = self.clause_frame(cl, fr, extra)
        return self.run_pure(cl.node, g)

    def run_pure(self, node, g):
        self.pure += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, g)
            r = self.pure_block(node.body, g)
            if r is _UNSET:
                return None
            return r
        finally:
            self.pure -= 1
            if not self.pure:
                side, self.side = self.side, []
                self.pc.extend(side)

    def pure_block(self, stmts, g):
        for i, s in enumerate(stmts):
            if isinstance(s, ast.Return):
                return self.eval(s.value, g) if s.value is not None else None
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                v = self.eval(s.value, g)
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    self.assign(t, v, g)
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.If):
                c = self.truth(self.eval(s.test, g))
                if not isinstance(c, bool):
                    c2 = z3.simplify(c)
                    c = True if z3.is_true(c2) else False if z3.is_false(c2) else c
                rest = stmts[i + 1:]
                if c is True:
                    return self.pure_block(list(s.body) + rest, g)
                if c is False:
                    return self.pure_block(list(s.orelse) + rest, g)
                g1 = self.fork_frame(g)
                g2 = self.fork_frame(g)
                a = self.pure_block(list(s.body) + rest, g1)
                b = self.pure_block(list(s.orelse) + rest, g2)
                if a is _UNSET:
                    a = None
                if b is _UNSET:
                    b = None
                return self.merge(c, a, b)
            if isinstance(s, ast.For):
                items = self.iter_items(self.eval(s.iter, g), s)
                for x in items:
                    self.assign(s.target, x, g)
                    r = self.pure_block(s.body, g)
                    if r is not _UNSET:
                        return r
                continue
            if isinstance(s, ast.FunctionDef):
                g.vars[s.name] = Func(s, g.module, g, s.name)
                continue
            raise Unsupported(f'{type(s).__name__} in a specification')
        return _UNSET

    def fork_frame(self, g):
        h = Frame(g.module, g.parent, g.qual, g.extra, g.depth)
        h.vars = dict(g.vars)
        return h

    def named(self, v, base):
        """Clause value -> list of (name, z3 Bool or bool)."""
        if isrec(v):
            out = []
            for f, (h, x) in v.fields.items():
                out.append((f'{base}.{f}', self.truth(x)))
            return out
        if isinstance(v, tuple):
            return [(f'{base}.{i}', self.truth(x)) for i, x in enumerate(v)]
        if isinstance(v, ListC) and v.items is not None:
            return [(f'{base}.{i}', self.truth(x)) for i, x in enumerate(v.items)]
        return [(base, self.truth(v))]

    def check_clause(self, cl, base, fr, node, extra=None):
        if cl is None:
            return
        for nm, t in self.named(self.eval_clause(cl, fr, extra), base):
            self.oblige(nm, t, node)

    def assume_clause(self, cl, fr, extra=None):
        if cl is None:
            return
        for nm, t in self.named(self.eval_clause(cl, fr, extra), ''):
            self.assume(t)

    def hints(self, cl, fr, extra=None):
        """Lemma instances are assumed; anything else is an assertion, proved first."""
        self.use_hints(lambda: self.eval_clause(cl, fr, extra))

    lemma_out = None

    def use_hints(self, ev):
        saved, self.lemma_out = self.lemma_out, []
        try:
            hs = self.named(ev(), 'assert')
            out = self.lemma_out
        finally:
            self.lemma_out = saved
        ids = set()
        for t in out:
            ids.add(t.get_id())
            self.assume(t)
        for nm, t in hs:
            if not isinstance(t, bool) and t.get_id() in ids:
                continue
            self.oblige(nm, t)

    # ------------------------------------------------------------ calls
    def e_Call(self, n, fr):
        f = self.eval(n.func, fr)
        if isinstance(f, Builtin) and f.name in ('forall', 'exists') and self.pure:
            return self.quant(f.name, n, fr)
        if isinstance(f, Builtin) and f.name == 'implies' and self.pure and len(n.args) == 2:
            a = self.truth(self.eval(n.args[0], fr))
            if a is False or (not isinstance(a, bool) and z3.is_false(z3.simplify(a))):
                return True
            return self.call_named('implies', [mkB2(a), self.eval(n.args[1], fr)], {}, n)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.spine(self.eval(a.value, fr), a))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                raise Unsupported('**')
            kw[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kw, n)

    def quant(self, name, n, fr):
        lo = self.eval(n.args[0], fr)
        hi = self.eval(n.args[1], fr)
        p = self.eval(n.args[2], fr)
        k = z3.Const(self.fresh_name('q'), INT)
        save, self.side = self.side, []
        n0 = len(self.lemma_out) if self.lemma_out is not None else 0
        try:
            b = self.truth(self.call(p, [I(k)], {}, n))
        finally:
            side, self.side = self.side, save
        q = z3.Const('q', INT)
        for j in range(n0, len(self.lemma_out or ())):      # lemma instances for every index
            self.lemma_out[j] = z3.ForAll([q], z3.substitute(self.lemma_out[j], (k, q)))
        rng = z3.And(iv(lo) <= k, k < iv(hi))
        q = z3.Const('q', INT)        # one name, so that equal formulas are the same term
        if name == 'forall':
            return B(z3.ForAll([q], z3.substitute(z3.Implies(rng, _bt(b)), (k, q))))
        return B(z3.Exists([q], z3.substitute(z3.And(rng, _bt(b)), (k, q))))

    def call(self, f, args, kw, n):
        if isinstance(f, Spec):
            return self.call_spec(f, args)
        if isinstance(f, Lemma):
            return self.lemma_instance(f, args)
        if isinstance(f, Func):
            return self.call_func(f, args, kw, n)
        if isinstance(f, Builtin):
            if f.fn is None:
                return self.call_named(f.name, args, kw, n)
            return f.fn(self, args, kw, n)
        if isinstance(f, Method):
            return self.call_method(f.obj, f.name, args, kw, n)
        if isinstance(f, TypeV):
            return self.call_type(f.name, args, kw, n)
        if isinstance(f, FData):
            return self.call_fdata(f, args, kw, n)
        raise Unsupported(f'call of {f!r}')

    def call_named(self, name, args, kw, n):
        if name == 'implies':
            a, b = self.truth(args[0]), self.truth(args[1])
            if a is False or b is True:
                return True
            if a is True:
                return mkB2(b)
            return mkB2(z3.Implies(a, _bt(b)))
        if name == 'iff':
            a, b = self.truth(args[0]), self.truth(args[1])
            return mkB2(_simp(_bt(a) == _bt(b)))
        raise Unsupported(f'call of {name}')

    def call_spec(self, sp, args):
        if sp.inline:
            g = Frame(None, extra=sp.clause.globals)
            for p, a in zip(sp.clause.params, args):
                g.vars[p] = a
            return self.run_pure(sp.clause.node, g)
        if all(is_concrete(a) for a in args) and not sp.opaque:
            try:
                return self.lift_const(sp.fn(*args))
            except Exception:
                pass
        if sp.fold and self.engine is not None and isinstance(args[0], S):
            r = self.fold_pieces(sp, args)
            if r is not None:
                return r
        if sp.hom and self.engine is not None and isinstance(args[0], S):
            r = self.hom_pieces(sp, args[0])
            if r is not None:
                return r
        d = self.spec_decl(sp)
        ts = [to_term(a, T) for a, T in zip(args, sp.ptypes)]
        return from_term(d(*ts), sp.returns, own='deep')

    def hom_pieces(self, sp, s):
        """f(p1 + p2 + ...) = f(p1) + f(p2) + ..."""
        lem, of = sp.hom
        if self.engine.lemma_name is not None:
            return None
        ps = seq_parts(s.t)
        if len(ps) < 2:
            t = s.t
            if z3.is_app(t) and t.decl().name() in self.spec_decls and t.decl().name()[5:] in of \
                    and (sp.name, t.get_id()) not in self.auto_done:
                self.auto_done[(sp.name, t.get_id())] = t
                q = self.spec_decls[t.decl().name()]
                self.auto_lemma(of[q.name], [from_term(x, T, own='deep') for x, T in zip(t.children(), q.ptypes)])
            return None
        self.engine.lemmas_used.add(lem)
        out = seq_of(())
        run = []
        for p in ps + [None]:
            c = const_seq(p) if p is not None else None
            if c is not None:
                run.extend(c)
                continue
            if run:
                out = seq_cat(out, sterm(self.lift_const(sp.fn(bytes(run) if s.kind == 'bytes' else ''.join(map(chr, run))))))
                run = []
            if p is not None:
                out = seq_cat(out, sterm(self.call_spec(sp, [S(p, s.kind)])))
        return mkS(out, sp.returns)

    def fold_pieces(self, sp, args):
        """f(p1 + p2 + ..., m), piece by piece."""
        states, by, lem, auto = sp.fold
        ps = seq_parts(args[0].t)
        if lem == self.engine.lemma_name:
            return None
        if len(ps) < 2:
            if self.engine.lemma_name is None and isinstance(args[1], int) and args[1] in auto['at'] \
                    and args[0].t.get_id() not in self.auto_done:
                self.auto_lemmas(args[0].t, auto)
                self.auto_lemma(auto['stay'], args)
            return None
        self.engine.lemmas_used.add(lem)
        kd = args[0].kind
        pieces = []
        for p in ps:
            c = const_seq(p)
            if c is not None and pieces and isinstance(pieces[-1], list):
                pieces[-1].extend(c)
            else:
                pieces.append(list(c) if c is not None else p)
        m = args[1]
        out = seq_of(())
        run = by if by is not None else sp
        for p in pieces:
            v = (bytes(p) if kd == 'bytes' else ''.join(map(chr, p))) if isinstance(p, list) else S(p, kd)
            if not isinstance(p, list) and isinstance(m, int) and m in auto['at'] and self.engine.lemma_name is None:
                self.auto_lemmas(p, auto)
                self.auto_lemma(auto['stay'], [v, m])
            if by is not None:
                e = self.call_spec(sp, [v, m])
                if not (isinstance(e, S) and self.entails(z3.Length(e.t) == 0)):
                    out = seq_cat(out, sterm(e))
            m = self.call_spec(run, [v, m])
            if not isinstance(m, int):
                for x in states:
                    if self.entails(iv(m) == x):
                        m = x
                        break
        return m if by is None else mkS(out, sp.returns)

    def auto_lemma(self, name, args):
        saved, self.lemma_out = self.lemma_out, []
        try:
            self.lemma_instance(api.LEMMAS[name], args)
            out = self.lemma_out
        finally:
            self.lemma_out = saved
        self.pc.extend(t for t in out if not z3.is_true(t))

    def auto_lemmas(self, t, auto):
        """Instances of the listed lemmas for the parts of a piece."""
        if t.get_id() in self.auto_done:
            return
        self.auto_done[t.get_id()] = t
        kd = auto['kind']
        c = const_seq(t)
        if c is not None:
            v = ''.join(map(chr, c)) if kd == 'str' else bytes(c)
            self.pc.append(self.spec_decl(auto['pred'])(t) == bool(auto['pred'].fn(v)))
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            self.auto_lemmas(t.arg(1), auto)
            self.auto_lemmas(t.arg(2), auto)
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            acc = None
            ps = []
            for p in seq_parts(t):
                if ps and const_seq(p) is not None and const_seq(ps[-1]) is not None:
                    ps[-1] = seq_cat(ps[-1], p)
                else:
                    ps.append(p)
            for p in ps:
                self.auto_lemmas(p, auto)
                if acc is not None:
                    self.auto_lemma(auto['cat'], [S(acc, kd), S(p, kd)])
                acc = p if acc is None else seq_cat(acc, p)
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and iv_is(t.arg(1), 0):
            self.auto_lemmas(t.arg(0), auto)
            for l in auto['prefix']:
                self.auto_lemma(l, [S(t.arg(0), kd), mkI(t.arg(2))])
        elif z3.is_app(t) and t.decl().name() in self.spec_decls and t.decl().name()[5:] in auto['of']:
            sp = self.spec_decls[t.decl().name()]
            self.auto_lemma(auto['of'][sp.name], [from_term(x, T, own='deep') for x, T in zip(t.children(), sp.ptypes)])

    def spec_decl(self, sp):
        if sp.decl is None:
            sp.decl = z3.Function('spec_' + sp.name, *[sort(T) for T in sp.ptypes], sort(sp.returns))
        self.spec_decls['spec_' + sp.name] = sp
        return sp.decl

    def expand_app(self, app):
        """Facts for a ground application of a spec function: its unfolding and its axioms."""
        sp = self.spec_decls[app.decl().name()]
        saved = (self.pure, self.side, self.engine)
        self.pure, self.side = 1, []
        try:
            args = [from_term(t, T, own='deep') for t, T in zip(app.children(), sp.ptypes)]
            facts = []
            c = self.engine.contract
            if not sp.opaque and not (c is not None and sp.name in c.opaque):
                g = Frame(None, extra=sp.clause.globals)
                for p, a in zip(sp.clause.params, args):
                    g.vars[p] = a
                v = self.run_pure(sp.clause.node, g)
                facts.append(app == to_term(v, sp.returns))
            if sp.lemmas is not None and self.engine.lemma_name is None:
                g = Frame(None, extra=sp.lemmas.globals)
                for p, a in zip(sp.lemmas.params, args):
                    g.vars[p] = a
                keep, self.lemma_out = self.lemma_out, []
                try:
                    self.run_pure(sp.lemmas.node, g)
                    facts.extend(self.lemma_out)
                finally:
                    self.lemma_out = keep
            if sp.axioms is not None:
                g = Frame(None, extra=sp.axioms.globals)
                vals = args + [from_term(app, sp.returns, own='deep')]
                for p, a in zip(sp.axioms.params, vals):
                    g.vars[p] = a
                v = self.run_pure(sp.axioms.node, g)
                for nm, t in self.named(v, ''):
                    facts.append(_bt(t))
            facts.extend(self.side)
            return facts
        finally:
            self.pure, self.side, self.engine = saved

    def lemma_instance(self, lm, args):
        self.engine.lemmas_used.add(lm.name)
        d = dict(zip(lm.params, args))
        def ev(cl):
            g = Frame(None, extra=cl.globals)
            for p in cl.params:
                g.vars[p] = d[p]
            return self.conj([t for _, t in self.named(self.run_pure(cl.node, g), '')])
        saved, self.engine.lemma_name = self.engine.lemma_name, lm.name    # a lemma about pieces is not itself taken apart
        try:
            post = ev(lm.ensures)
            pre = ev(lm.requires) if lm.requires else True
        finally:
            self.engine.lemma_name = saved
        dec = True
        if self.engine.proving_lemma is lm:
            m1 = ev(lm.measure)
            raise Unsupported('induction hypotheses are used through ih()')
        r = _bt(_simp(z3.Implies(_bt(pre), _bt(post))))
        if self.lemma_out is None:
            raise Unsupported('lemma outside of a hint')
        self.lemma_out.append(r)
        return B(r)

    def bind(self, node, args, kw, module, env, n):
        """Arguments to parameter names."""
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(names):
            if a.vararg:
                vals[a.vararg.arg] = tuple(args[len(names):])
                args = args[:len(names)]
            else:
                self.do_raise('TypeError', 'too many arguments', n)
        elif a.vararg:
            vals[a.vararg.arg] = ()
        for nm, v in zip(names, args):
            vals[nm] = v
        for k, v in kw.items():
            if k not in names and k not in [x.arg for x in a.kwonlyargs]:
                self.do_raise('TypeError', f'unexpected argument {k}', n)
            vals[k] = v
        defs = a.defaults
        for nm, d in zip(names[len(names) - len(defs):], defs):
            if nm not in vals:
                vals[nm] = self.default_arg(d, module, env)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in vals and d is not None:
                vals[x.arg] = self.default_arg(d, module, env)
        for nm in names:
            if nm not in vals:
                self.do_raise('TypeError', f'missing argument {nm}', n)
        return vals

    def default_arg(self, d, module, env):
        f = Frame(module, env)
        v = self.eval(d, f)
        if isinstance(v, Cell):
            # evaluated once, at definition: shared between calls, so it is not owned by this call and
            # its content is whatever earlier calls left in it
            v.own = 'no'
            v.label = 'shared default argument'
        return v

    def call_func(self, f, args, kw, n):
        if f.module is not None and f.env is None:
            qual = f'{f.module}.{f.name}' if f.cls is None else f'{f.module}.{f.cls}.{f.name}'
            c = self.engine.contract_for(qual) if not self.pure else None
            if self.pure:
                raise Unsupported(f'call of code {qual} in a specification')
            if c is not None:
                return self.call_contract(c, f, args, kw, n)
            self.engine.inlined.add(qual)
        else:
            qual = None
        if self.depth > MAXDEPTH:
            raise Unsupported(f'recursion without contract: {f.name}')
        fr = Frame(f.module, f.env, qual or f.name, None, self.depth + 1)
        if f.module is None and f.env is not None:
            fr.extra = None
        vals = self.bind(f.node, args, kw, f.module, f.env, n)
        fr.vars.update(vals)
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, fr)
        if self.pure:
            r = self.pure_block(f.node.body, fr)
            return None if r is _UNSET else r
        fr.loops = number_loops(f.node)
        if f.env is not None:
            fr.qual = f'{f.env.qual}.{f.name}'
        self.depth += 1
        ntry = len(self.try_stack)
        nopen = len(self.engine.open_loops)
        try:
            self.block(f.node.body, fr)
            return None
        except ReturnEx as e:
            del self.engine.open_loops[nopen:]
            return e.v
        finally:
            self.depth -= 1

    def snapshot(self, v, memo=None):
        """Frozen copy of a value as it is now."""
        if isinstance(v, ListC):
            c = ListC(items=[self.snapshot(x) for x in v.items] if v.items is not None else None, t=v.t, eT=v.eT,
                      own='no', label=v.label)
        elif isinstance(v, DictC):
            c = DictC(fields={f: [h, self.snapshot(x)] for f, (h, x) in v.fields.items()}
                      if v.fields is not None else None, T=v.T, t=v.t, K=v.K, V=v.V, own='no', label=v.label)
        elif isinstance(v, A):
            c = A(v.t, own='no', label=v.label)
        elif isinstance(v, SetC):
            c = SetC(t=v.t, K=v.K, items=list(v.items) if v.items is not None else None, own='no')
        elif isinstance(v, ObjC):
            c = ObjC(v.cls, {a: self.snapshot(x) for a, x in v.attrs.items()}, own='no', label=v.label)
        elif isinstance(v, tuple):
            return tuple(self.snapshot(x) for x in v)
        elif isinstance(v, O):
            return O(v.isn, self.snapshot(v.val))
        else:
            return v
        return c

    def deepcopy(self, v):
        def thaw(c):
            if isinstance(c, Cell):
                c.own = 'deep'
                self.uid(c)
                if isinstance(c, ListC) and c.items is not None:
                    for x in c.items:
                        thaw(x)
                elif isrec(c):
                    for h, x in c.fields.values():
                        thaw(x)
                elif isinstance(c, ObjC):
                    for x in c.attrs.values():
                        thaw(x)
            elif isinstance(c, tuple):
                for x in c:
                    thaw(x)
            elif isinstance(c, O):
                thaw(c.val)
        r = self.snapshot(v)
        thaw(r)
        return r

    def conform(self, v, T):
        """View an argument as the declared parameter type (used for contract calls)."""
        if isinstance(v, Cell) and isinstance(T, tuple):
            return v
        if isinstance(v, A) and T not in ('any',) and not isinstance(T, tuple):
            return v
        return v

    def call_contract(self, c, f, args, kw, n):
        self.engine.calls.add(c.name)
        if c.trusted:
            self.engine.trusted.add(c.name)
        vals = self.bind(f.node, args, kw, f.module, f.env, n)
        env = {}
        for p, T in c.params.items():
            if p not in vals:
                raise Unsupported(f'{c.name}: no parameter {p}')
            v = vals[p]
            if isinstance(T, tuple) and T[0] == 'const':
                if not is_concrete(v) or type(v) is not type(T[1]) or v != T[1]:
                    raise Unsupported(f'{c.name} is not about {p}={v!r}')
                env[p] = env[p + '_0'] = v
                continue
            env[p] = self.retype(v, T, n)
            if p in c.modifies:
                env[p + '_0'] = self.snapshot(env[p])
            else:
                env[p + '_0'] = env[p]
        for gname, T in c.ghosts.items():
            env[gname] = self.engine.ghost_arg(self, c, gname, T)
        short = c.name.split('.')[-1]
        if c.requires:
            for nm, t in self.named(self.eval_clause_env(c.requires, env), f'call {short}.requires'):
                self.oblige(nm, t, n)
        if self.engine.contract is not None and c.measure is not None and self.engine.same_group(c):
            m1 = self.eval_clause_env(c.measure, env)
            m0 = self.engine.entry_measure
            self.oblige(f'call {short}.terminates', self.lex_less(m1, m0), n)
        if c.raises != 'no':
            self.callee_raises(short, n)
        alias = None
        for p in c.modifies:
            v = vals[p]
            if isinstance(v, O):
                v = self.force(v, n)
            if p == c.same:
                if isinstance(v, A) and not self.choose(self.is_container(v)):
                    continue
                if isinstance(v, Cell):
                    alias = v
            if isinstance(v, Cell):
                self.mutate(v, n)
                self.havoc_to(v, c.params[p])
                self.touched(v)
                env[p] = self.retype(v, c.params[p], n)
        if alias is not None:
            r = alias
        else:
            r = self.fresh('ret_' + short, c.returns, own=c.result_own)
        if isinstance(c.returns, tuple) or c.returns == 'any':
            r = self.unwrap_none(r)
        env['result'] = self.retype(r, c.returns, n) if alias is not None else r
        for o, T in c.outs.items():
            env[o] = self.fresh(o, T)
        if c.ensures:
            for nm, t in self.named(self.eval_clause_env(c.ensures, env), ''):
                self.assume(t)
        return r

    def unwrap_none(self, r):
        return r

    def callee_raises(self, what, n):
        """The callee may raise anything: every handler in scope may be entered."""
        if self.pure:
            return
        for h in dict.fromkeys(h for hs in self.try_stack for h in hs):
            if self.choose(z3.Const(self.fresh_name('raised'), BOOL)):
                raise PyRaise(h, what)
        if any(h in ('Exception', 'BaseException') for hs in self.try_stack for h in hs):
            return
        if self.engine.contract is not None and self.engine.contract.on_raise is not None:
            if self.choose(z3.Const(self.fresh_name('raised'), BOOL)):
                raise PyRaise('Exception', what)
        elif self.engine.raises == 'no':
            self.oblige(f'call {what}.raises', False, n)

    def is_container(self, v):
        return z3.Or(Val.is_VDict(v.t), Val.is_VList(v.t), Val.is_VStream(v.t))

    def lose(self, v):
        """A cell below a changed one: nothing is known about it any more, and it must not be changed."""
        for k, ch in (v.kids if not isinstance(v, (ObjC, SetC)) and not (isinstance(v, A) and v.kids) else
                      [v.kids] if isinstance(v, A) else []):
            self.lose(ch)
        v.own = 'no'
        v.parents = []
        if isinstance(v, ListC):
            v.eT = v.eT or typeof(v)[1]
            v.items, v.kids = None, []
            v.t = z3.Const(self.fresh_name('lost'), z3.SeqSort(sort(v.eT)))
        elif ismap(v):
            v.kids = []
            v.t = z3.Const(self.fresh_name('lost'), v.t.sort())
        elif isinstance(v, A):
            v.kids = []
            v.t = z3.Const(self.fresh_name('lost'), Val)
        elif isinstance(v, SetC):
            v.K = v.K or typeof(v)[1]
            v.items = None
            v.t = z3.Const(self.fresh_name('lost'), sort(('set', v.K)))
        elif isinstance(v, ObjC):
            for a, x in list(v.attrs.items()):
                if isinstance(x, Cell):
                    self.lose(x)
                else:
                    v.attrs[a] = self.fresh(a, typeof(x))
        elif isrec(v):
            for f in list(v.fields):
                h, x = v.fields[f]
                if isinstance(x, Cell):
                    self.lose(x)
                else:
                    x = self.fresh(f, typeof(x))
                v.fields[f] = [z3.Const(self.fresh_name('has'), BOOL), x]
        else:
            raise Unsupported('lose')

    def havoc_to(self, v, T):
        for ch in ([v.kids[1]] if isinstance(v, A) and v.kids else
                   [x for _, x in v.kids] if isinstance(v, (ListC, DictC)) else []):
            if ch.own != 'no':
                self.lose(ch)
        if T == 'any' and not isinstance(v, A):
            T = typeof(v)
        f = self.fresh('mod', T, own='deep')
        if isinstance(v, ListC):
            if f.items is None:
                if v.items is not None or v.eT == f.eT:
                    v.items, v.t, v.eT, v.kids = None, f.t, f.eT, []
                    return
        elif isinstance(v, DictC) and isinstance(f, DictC):
            v.fields, v.t, v.K, v.V, v.kids = f.fields, f.t, f.K, f.V, []
            return
        elif isinstance(v, A) and isinstance(f, A):
            v.t, v.kids = f.t, []
            return
        elif isinstance(v, SetC) and isinstance(f, SetC):
            v.items, v.t, v.K = None, f.t, f.K
            return
        raise Unsupported('modified argument')

    def retype(self, v, T, n):
        """Argument in the representation of the callee's parameter type."""
        tv = typeof_safe(v)
        if tv == T or T is None:
            return v
        if T == 'any':
            return v if isinstance(v, A) else A(to_val(v))
        if isinstance(v, A) or isinstance(v, O) or isinstance(v, Cell) or v is None or isinstance(v, tuple):
            if isinstance(v, A) and isinstance(T, str):
                k = {'ref': 'complex', 'real': 'float'}.get(T, T)
                return self.narrow(v, n, k)
            if isinstance(v, O) and not (isinstance(T, tuple) and T[0] == 'opt') and T != 'any':
                v = self.force(v, n)
                if v is None and T != 'none':
                    self.do_raise('TypeError', f'None passed as {T}', n)
                return self.retype(v, T, n)
            if isinstance(v, A) and isinstance(T, tuple) and T[0] in ('dict', 'list'):
                return self.narrow(v, n, T[0])
            if isinstance(v, A) and T == ('obj', 'Stream'):
                return self.narrow(v, n, 'Stream')
            if isinstance(v, ListC) and v.items is not None and isinstance(T, tuple) and T[0] == 'list':
                if v.own == 'no':
                    return ListC(t=list_term(v, T[1]), eT=T[1], own='no', label=v.label)
                self.symbolize(v, T[1])
                return v
            return from_term(to_term(v, T), T, own='no')
        return from_term(to_term(v, T), T)

    def eval_clause_env(self, cl, env):
        g = Frame(None, extra=cl.globals)
        for p in cl.params:
            if p not in env:
                raise Unsupported(f'{cl.name} refers to unknown {p}')
            g.vars[p] = env[p]
        return self.run_pure(cl.node, g)


class SymbolicIter(Exception):
    def __init__(self, seq):
        self.seq = seq


def typeof_safe(v):
    try:
        return typeof(v)
    except Unsupported:
        return '?'


def gen_type(v):
    """Type to havoc a variable with; None when unknown."""
    try:
        T = typeof(v)
    except Unsupported:
        return None
    return T if known_type(T) else None


def known_type(T):
    if T is None:
        return False
    if isinstance(T, tuple):
        if T[0] == 'rec?':
            return False
        if T[0] == 'rec' or T[0] == 'obj':
            return True
        return all(known_type(x) for x in T[1:])
    return T != 'none'


def mkB2(x):
    return x if isinstance(x, bool) else mkB(x)


def seq_cat(a, b):
    ea = z3.is_app(a) and a.decl().kind() == z3.Z3_OP_SEQ_EMPTY
    eb = z3.is_app(b) and b.decl().kind() == z3.Z3_OP_SEQ_EMPTY
    if ea:
        return b
    if eb:
        return a
    def parts(t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            return [y for c in t.children() for y in parts(c)]
        return [t]
    return z3.Concat(*(parts(a) + parts(b)))


def iv_is(t, k):
    return z3.is_int_value(t) and t.as_long() == k


def seq_parts(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [y for c in t.children() for y in seq_parts(c)]
    return [t]


def assigned_names(s, aug=True):
    """Names bound in the body of a loop (not in nested functions or comprehensions); aug: by += and so on too."""
    out = set()
    def visit(n):
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and not aug:
            visit(n.value)
            return
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            if isinstance(n, ast.FunctionDef):
                out.add(n.name)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    out.add(c.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        for c in ast.iter_child_nodes(n):
            visit(c)
    if isinstance(s, ast.For):
        visit(s.target)
    else:
        visit(s.test)
    for b in s.body:
        visit(b)
    return out


def number_loops(node):
    """id(loop node) -> ordinal in source order (nested functions excluded); comprehensions are c0, c1, ..."""
    out = {}
    num = {'loop': 0, 'comp': 0}
    def visit(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                continue
            if isinstance(c, (ast.For, ast.While)):
                out[id(c)] = num['loop']
                num['loop'] += 1
            elif isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                out[id(c)] = f"c{num['comp']}"
                num['comp'] += 1
            visit(c)
    visit(node)
    return out


PYOP = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
    ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
    ast.Pow: lambda a, b: a ** b, ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b,
    ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b, ast.BitXor: lambda a, b: a ^ b,
}
