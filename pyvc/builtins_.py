"""Models of Python builtins and methods."""
import ast
import z3
from .core import *
from . import api
from .evalx import *
from .interp import _bt, _simp, _same


class Dec:
    """A decimal number, by its text."""

    def __init__(self, s):
        self.s = s


def SP(name):
    return api.SPECS[name]


class Full(Eval):

    def uid(self, c):
        super().uid(c)
        self.cells[c.uid] = c
        return c

    def reset_path(self, prefix):
        self.cells = {}
        self.auto_done = {}
        super().reset_path(prefix)

    # ------------------------------------------------------------ fdata
    def call_fdata(self, f, args, kw, n):
        h = self.engine.fdata_model
        if h is None:
            raise Unsupported('byte access function without a model')
        return h(self, f, args, n)

    # ------------------------------------------------------------ builtins by name
    def builtin(self, name):
        if hasattr(self, 'b_' + name.replace('.', '_')):
            m = getattr(self, 'b_' + name.replace('.', '_'))
            return Builtin(name, lambda _s, a, k, n: m(a, k, n))
        if name in ('int', 'float', 'str', 'bytes', 'bytearray', 'list', 'dict', 'set', 'tuple', 'complex', 'bool', 'object',
                    'frozenset', 'Exception', 'ValueError', 'IndexError', 'KeyError') or (name == 'Stream' and self.pure):
            return TypeV(name)
        if name in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[name]
        if name == 'os.SEEK_END':
            return 2
        return None

    def b_len(self, a, k, n):
        v = a[0]
        if isinstance(v, O):
            v = self.force(v, n)
        if isinstance(v, A):
            v = self.narrow(v, n, 'list', 'bytes', 'str', 'dict')
        if isinstance(v, (bytes, str, tuple)):
            return len(v)
        if isinstance(v, S):
            if v.sl is not None and not self.pure:
                base, st, ln = v.sl
                if self.entails(z3.And(ln >= 0, st + ln <= z3.Length(base))):
                    return mkI(ln)
            return mkI(z3.Length(v.t))
        if isinstance(v, ListC):
            return len(v.items) if v.items is not None else mkI(z3.Length(v.t))
        if isinstance(v, SetC):
            if v.items is not None and all(map(is_concrete, v.items)):
                return len(set(v.items))
            raise Unsupported('len of set')
        if isrec(v):
            if all(h in (True, False) for h, _ in v.fields.values()):
                return sum(1 for h, _ in v.fields.values() if h)
            return mkI(z3.Sum([z3.If(_bt(h), 1, 0) for h, _ in v.fields.values()]))
        if isinstance(v, ObjC) and v.cls == 'Doc':
            return self.call_method(v, '__len__', [], {}, n)
        if ismap(v):
            f = z3.Function('map_len_' + tname(v.K) + '_' + tname(v.V), v.t.sort(), INT)
            self.assume(f(v.t) >= 0)
            return I(f(v.t))
        self.do_raise('TypeError', 'len', n)

    def b_print(self, a, k, n):
        return None

    def b_type(self, a, k, n):
        v = a[0]
        if isinstance(v, (A, O)):
            return TypeOf(v)
        return TypeV(pytype(v))

    def b_isinstance(self, a, k, n):
        ts = a[1] if isinstance(a[1], tuple) else (a[1],)
        return mkB2(self.disj([self.istype(a[0], t.name, exact=False) for t in ts]))

    def b_range(self, a, k, n):
        a = [self.numval(x, n) for x in a]
        if any(not isinstance(x, (int, I, B)) for x in a):
            self.do_raise('TypeError', 'range', n)
        if len(a) == 1:
            return Range(0, a[0], 1)
        if len(a) == 2:
            return Range(a[0], a[1], 1)
        return Range(*a)

    def b_enumerate(self, a, k, n):
        return Iter('enumerate', a[0], a[1] if len(a) > 1 else k.get('start', 0))

    def b_zip(self, a, k, n):
        return Iter('zip', *a)

    def b_reversed(self, a, k, n):
        return Iter('reversed', a[0])

    def b_min(self, a, k, n):
        return self.minmax(a, k, n, True)

    def b_max(self, a, k, n):
        return self.minmax(a, k, n, False)

    def minmax(self, a, k, n, ismin):
        if k.get('key') is not None:
            raise Unsupported('key=')
        if len(a) == 1:
            try:
                a = self.iter_sym(a[0], n)
            except SymbolicIter as e:
                L, el = e.seq
                self.may_raise(_simp(L == 0), 'ValueError', n)
                kk = z3.Const(self.fresh_name('k'), INT)
                v = el(kk)
                T = typeof(v)
                if T not in ('int', 'real'):
                    raise Unsupported('max of non-numbers')
                m = z3.Const(self.fresh_name('m'), sort(T))
                w = z3.Const(self.fresh_name('w'), INT)
                t = to_term(v, T)
                c = (m <= t) if ismin else (m >= t)
                self.assume(z3.ForAll([kk], z3.Implies(z3.And(0 <= kk, kk < L), c)))
                self.assume(z3.And(0 <= w, w < L, z3.substitute(t, (kk, w)) == m))
                return from_term(m, T)
            if not a:
                self.do_raise('ValueError', 'empty', n)
        r = a[0]
        for x in a[1:]:
            c = self.order(ast.Lt() if ismin else ast.Gt(), x, r, n)
            r = self.merge(c, x, r)
        return r

    def b_abs(self, a, k, n):
        v = self.numval(a[0], n)
        if is_concrete(v):
            return abs(v)
        if isinstance(v, R):
            return R(z3.If(v.t >= 0, v.t, -v.t))
        return I(z3.If(v.t >= 0, v.t, -v.t))

    def b_sum(self, a, k, n):
        if isinstance(a[0], ListC) and a[0].items is None and a[0].eT == 'real' and len(a) == 1:
            return R(self.fresh('sum', 'real').t)
        r = 0
        for x in self.iter_items(a[0], n):
            r = self.binop(ast.Add(), r, x, n)
        return r

    def b_any(self, a, k, n):
        return mkB2(self.disj([self.truth(x) for x in self.iter_items(a[0], n)]))

    def b_all(self, a, k, n):
        return mkB2(self.conj([self.truth(x) for x in self.iter_items(a[0], n)]))

    def b_ord(self, a, k, n):
        v = a[0]
        if isinstance(v, str) or isinstance(v, bytes):
            return ord(v)
        return I(v.t[0])

    def b_chr(self, a, k, n):
        v = self.numval(a[0], n)
        if isinstance(v, int):
            return chr(v)
        self.may_raise(z3.Or(v.t < 0, v.t > 0x10ffff), 'ValueError', n)
        return S(z3.Unit(v.t), 'str')

    def b_sorted(self, a, k, n):
        xs = a[0]
        if isinstance(xs, ListC) and xs.items is not None and all(map(is_concrete, xs.items)) and not k:
            return self.uid(ListC(items=sorted(xs.items)))
        raise Unsupported('sorted')

    def b_deepcopy(self, a, k, n):
        return self.deepcopy(a[0])

    b_copy_deepcopy = b_deepcopy

    def b_repr(self, a, k, n):
        v = a[0]
        if isinstance(v, A):
            v = self.narrow(v, n, 'float')
        if is_concrete(v):
            return repr(v)
        if isinstance(v, R):
            return self.call_spec(SP('float_str'), [v])
        raise Unsupported('repr()')


    def b_map(self, a, k, n):
        return self.uid(ListC(items=[self.call(a[0], [x], {}, n) for x in self.iter_items(a[1], n)]))

    def b_math_log2(self, a, k, n):
        raise Unsupported('log2')

    def b_isqrt(self, a, k, n):
        raise Unsupported('isqrt')

    # ------------------------------------------------------------ types as functions
    def call_type(self, name, a, k, n):
        if name == 'Stream':
            names = ['entries', 'stream', 'encoded']
            attrs = dict(zip(names, a))
            attrs.update(k)
            return self.uid(ObjC('Stream', attrs))
        if name == 'Doc':
            attrs = dict(zip(['index', 'cache', 'data'], a))
            attrs.update(k)
            return self.uid(ObjC('Doc', attrs))
        if name == 'int':
            return self.to_int(a, k, n)
        if name == 'float':
            return self.to_float(a, n)
        if name == 'bool':
            return mkB2(self.truth(a[0]) if a else False)
        if name == 'str':
            return self.to_str(a[0], n)
        if name == 'complex':
            r = self.numval(a[0], n)
            i = self.numval(a[1], n) if len(a) > 1 else 0
            if isinstance(r, int) and isinstance(i, int):
                return complex(r, i)
            return Cx(self.toint_term(i), self.toint_term(r))
        if name == 'list':
            if not a:
                return self.uid(ListC(items=[]))
            v = a[0]
            if isinstance(v, O):
                v = self.force(v, n)
            if isinstance(v, A):
                v = self.narrow(v, n, 'list')
            if isinstance(v, ListC):
                return self.list_copy(v)
            try:
                return self.uid(ListC(items=self.iter_sym(v, n)))
            except SymbolicIter as e:
                return self.listof(e.seq, n)
        if name == 'tuple':
            if not a:
                return ()
            return tuple(self.iter_items(a[0], n))
        if name == 'set':
            if not a:
                return self.uid(SetC(items=[]))
            try:
                return self.uid(SetC(items=self.iter_sym(a[0], n)))
            except SymbolicIter as e:
                return self.setof(e.seq, n)
        if name == 'dict':
            if not a:
                return self.uid(RecC({f: [True, v] for f, v in k.items()}))
            v = a[0]
            if isinstance(v, A):
                v = self.narrow(v, n, 'dict')
            if isinstance(v, DictC):
                return self.dict_copy(v)
            raise Unsupported('dict()')
        if name == 'bytes':
            if not a:
                return b''
            v = a[0]
            if skind(v) == 'bytes':
                return v
            if isinstance(v, int):
                return bytes(v)
            if isinstance(v, I):
                self.may_raise(v.t < 0, 'ValueError', n)
                return S(self.rep_term(z3.IntVal(0), v.t), 'bytes')
            if isinstance(v, ListC):
                if v.items is not None:
                    ts = [z3.simplify(iv(self.numval(x, n))) for x in v.items]
                    for t in ts:
                        self.may_raise(_simp(z3.Or(t < 0, t > 255)), 'ValueError', n)
                    if not ts:
                        return b''
                    return mkS(z3.Concat(*[z3.Unit(t) for t in ts]) if len(ts) > 1 else z3.Unit(ts[0]), 'bytes')
                if v.eT == 'int':
                    j = z3.Const(self.fresh_name('j'), INT)
                    ok = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < z3.Length(v.t)),
                                                   z3.And(0 <= v.t[j], v.t[j] <= 255)))
                    if self.engine is not None and self.engine.raises == 'no' and not self.try_stack and not self.pure:
                        self.oblige('no-ValueError', ok, n)
                    else:
                        if not self.pure:
                            self.may_raise(z3.Const(self.fresh_name('raised'), BOOL), 'ValueError', n)
                        self.assume(ok)
                    return S(v.t, 'bytes')
            raise Unsupported('bytes()')
        if name == 'Decimal':      # of the text of a number: kept as that text until it is formatted
            if isinstance(a[0], S) and a[0].kind == 'str':
                return Dec(a[0])
            raise Unsupported('Decimal()')
        if name == 'bytearray':
            if not a:
                return b''
            return self.call_type('bytes', a, k, n)
        raise Unsupported(f'{name}()')

    def listof(self, seq, n):
        L, el = seq
        kk = z3.Const(self.fresh_name('k'), INT)
        v = el(kk)
        T = typeof(v)
        r = self.fresh('listof', ('list', T), own='own')
        self.assume(z3.Length(r.t) == L)
        self.assume(z3.ForAll([kk], z3.Implies(z3.And(0 <= kk, kk < L), r.t[kk] == to_term(v, T))))
        return r

    def setof(self, seq, n):
        """Set of the elements of a sequence."""
        L, el = seq
        kk = z3.Const(self.fresh_name('k'), INT)
        v = el(kk)
        K = typeof(v)
        r = self.fresh('setof', ('set', K), own='own')
        self.assume(z3.ForAll([kk], z3.Implies(z3.And(0 <= kk, kk < L), z3.Select(r.t, kterm(to_term(v, K), K)))))
        if K == 'int':
            x = z3.Const(self.fresh_name('x'), INT)
            w = z3.Function(self.fresh_name('wit'), INT, INT)
            self.assume(z3.ForAll([x], z3.Implies(z3.Select(r.t, x), z3.And(
                0 <= w(x), w(x) < L, z3.substitute(to_term(v, K), (kk, w(x))) == x))))
        return r

    def toint_term(self, v):
        if isinstance(v, (R, float)):
            return z3.ToInt(rterm(v))
        return iv(v)

    def to_int(self, a, k, n):
        if not a:
            return 0
        v = a[0]
        if isinstance(v, O):
            v = self.force(v, n)
        if len(a) > 1:
            if is_concrete(v) and isinstance(a[1], int):
                try:
                    return int(v, a[1])
                except ValueError:
                    self.do_raise('ValueError', '', n)
            if a[1] == 8:
                self.may_raise(_simp(z3.Not(bterm(self.call_spec(SP('is_oct'), [v])))), 'ValueError', n)
                return self.call_spec(SP('oct_val'), [v])
            if a[1] == 16:
                self.may_raise(_simp(z3.Not(bterm(self.call_spec(SP('is_hexnum'), [v])))), 'ValueError', n)
                return self.call_spec(SP('hex_val'), [v])
            raise Unsupported('int base')
        if isinstance(v, A):
            if self.pure:
                return I(Val.vint(v.t))
            v = self.narrow(v, n, 'int', 'float', 'bytes', 'str', 'bool')
        if isinstance(v, (int, I, bool, B)):
            return mkI(iv(v))
        if isinstance(v, float):
            return int(v)
        if isinstance(v, R):
            t = v.t
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
                return mkI(t.arg(0))
            return mkI(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
        kd = skind(v)
        if kd:
            if not isinstance(v, S):
                try:
                    return int(v)
                except ValueError:
                    self.do_raise('ValueError', '', n)
            b = S(v.t, 'bytes')
            self.may_raise(_simp(z3.Not(bterm(self.call_spec(SP('is_int'), [b])))), 'ValueError', n)
            return self.call_spec(SP('int_val'), [b])
        self.do_raise('TypeError', 'int()', n)

    def to_float(self, a, n):
        v = a[0]
        if isinstance(v, A):
            v = self.narrow(v, n, 'float', 'int', 'bytes', 'str')
        if is_num(v):
            return float(v) if is_concrete(v) else R(rterm(v))
        if skind(v):
            if not isinstance(v, S):
                try:
                    return float(v)
                except ValueError:
                    self.do_raise('ValueError', '', n)
            b = S(v.t, 'bytes')
            self.may_raise(_simp(z3.Not(bterm(self.call_spec(SP('is_real'), [b])))), 'ValueError', n)
            return self.call_spec(SP('real_val'), [b])
        self.do_raise('TypeError', 'float()', n)

    def to_str(self, v, n):
        if isinstance(v, O):
            v = self.force(v, n)
        if isinstance(v, A) and not self.pure:
            t = v.t
            for c, k in ((Val.is_VStr, 'str'), (Val.is_VInt, 'int'), (Val.is_VReal, 'float'), (Val.is_VBool, 'bool')):
                if self.choose(c(t)):
                    v = self.view(v, k)
                    break
            else:
                v = None if self.choose(Val.is_VNone(t)) else v
        if v is None:
            return 'None'
        if isinstance(v, A) or isinstance(v, Cell) or skind(v) == 'bytes' or isinstance(v, (Cx, complex)):
            return self.call_spec(SP('any_str'), [v if isinstance(v, A) else A(to_val(v))])
        if isinstance(v, (bool, int, float, str)) and is_concrete(v):
            return str(v)
        if isinstance(v, I):
            return self.call_spec(SP('dec'), [v])
        if isinstance(v, S) and v.kind == 'str':
            return v
        if isinstance(v, R):
            return self.call_spec(SP('float_str'), [v])
        if isinstance(v, B):
            return self.merge(v.t, 'True', 'False')
        raise Unsupported(f'str() of {v!r}')

    def format(self, v, spec, n):
        if isinstance(v, O):
            v = self.force(v, n)
        if v is None:
            return 'None'
        if is_concrete(v):
            try:
                return format(v, spec)
            except Exception as e:
                self.do_raise(type(e).__name__, '', n)
        if spec == '':
            return self.to_str(v, n)
        if isinstance(v, Dec):
            if spec != 'f':
                raise Unsupported('format of a Decimal')
            return self.call_spec(SP('fixed_point'), [v.s])
        s = spec[:-1] if spec.endswith('d') else spec
        if isinstance(v, A):
            v = self.narrow(v, n, 'int', 'str')
        if isinstance(v, I) and s.isdigit() and s.startswith('0'):
            return self.call_spec(SP('pad0'), [v, int(s)])
        if isinstance(v, I) and s.isdigit():
            return self.call_spec(SP('padl'), [self.to_str(v, n), int(s)])
        if isinstance(v, S) and (spec.isdigit() or (spec[:1] == '<' and spec[1:].isdigit())):
            return self.call_spec(SP('padr'), [v, int(spec.lstrip('<'))])
        raise Unsupported(f'format {spec!r} of {v!r}')

    # ------------------------------------------------------------ copies
    def list_copy(self, v):
        c = ListC(items=list(v.items) if v.items is not None else None, t=v.t, eT=v.eT)
        self.uid(c)
        for k, ch in v.kids:
            if v.own == 'deep' or ch.own != 'no':
                c.kids.append((k, ch))
                self.link(ch, c, k)
        return c

    def dict_copy(self, v):
        c = DictC(fields={f: list(x) for f, x in v.fields.items()} if v.fields is not None else None, T=v.T, t=v.t,
                  K=v.K, V=v.V)
        self.uid(c)
        for k, ch in v.kids:
            c.kids.append((k, ch))
            self.link(ch, c, k)
        return c

    def list_pop(self, c, i, n):
        self.mutate(c, n)
        if c.items is not None:
            if isinstance(i, int):
                if not c.items:
                    self.do_raise('IndexError', '', n)
                if not -len(c.items) <= i < len(c.items):
                    self.do_raise('IndexError', '', n)
                v = c.items.pop(i)
                self.touched(c)
                return v
            raise Unsupported('pop')
        L = z3.Length(c.t)
        j = self.norm_index(i, L, n)
        v = self.list_get(c, i, n)
        if isinstance(v, Cell):
            v.parents = [(p, k) for p, k in v.parents if p is not c]
        if isinstance(i, int) and i == 0:
            c.t = z3.Extract(c.t, z3.IntVal(1), L - 1)
            if any(ch.own != 'no' for _, ch in c.kids):
                raise Unsupported('pop(0) of a list with tracked elements')
            c.kids = []
        elif isinstance(i, int) and i == -1:
            c.kids = [(k, ch) for k, ch in c.kids if not _same(k, j)]
            c.t = z3.Extract(c.t, z3.IntVal(0), L - 1)
        else:
            if any(ch.own != 'no' for _, ch in c.kids):
                raise Unsupported('pop(i) of a list with tracked elements')
            c.kids = []
            c.t = z3.Concat(z3.Extract(c.t, z3.IntVal(0), j), z3.Extract(c.t, j + 1, L - j - 1))
        self.touched(c)
        return v

    # ------------------------------------------------------------ methods
    def call_method(self, o, name, a, k, n):
        if isinstance(o, O):
            o = self.force(o, n)
        if o is None:
            self.do_raise('AttributeError', name, n)
        if isinstance(o, A):
            kinds = {'append': ('list',), 'extend': ('list',), 'insert': ('list',), 'remove': ('list',),
                     'pop': ('list', 'dict'), 'items': ('dict',), 'keys': ('dict',), 'get': ('dict',),
                     'values': ('dict',), 'update': ('dict',), 'encode': ('str',), 'decode': ('bytes',),
                     'copy': ('dict', 'list'), 'startswith': ('str', 'bytes'), 'split': ('str', 'bytes'),
                     'strip': ('str', 'bytes'), 'replace': ('str', 'bytes'), 'index': ('list', 'str', 'bytes'),
                     'find': ('bytes', 'str'), 'hex': ('bytes',), 'isdigit': ('str', 'bytes')}.get(name)
            if kinds is None:
                raise Unsupported(f'method {name} of a dynamic value')
            o = self.narrow(o, n, *kinds)
        if isinstance(o, TypeV):
            m = getattr(self, f'tm_{o.name}_{name}', None)
            if m is not None:
                return m(a, k, n)
            raise Unsupported(f'{o.name}.{name}')
        kind = {'ListC': 'list', 'DictC': 'dict', 'SetC': 'set', 'tuple': 'tuple'}.get(type(o).__name__)
        kd = skind(o)
        if kd:
            if is_concrete(o) and all(is_concrete(x) for x in a) and not k:
                try:
                    return self.lift_const(getattr(o, name)(*a))
                except AttributeError:
                    self.do_raise('AttributeError', name, n)
                except Exception as e:
                    self.do_raise(type(e).__name__, str(e), n)
            m = getattr(self, 's_m_' + name, None)
            if m is None:
                raise Unsupported(f'method {kd}.{name}')
            return m(o, kd, a, k, n)
        if isinstance(o, (int, I)) and name == 'to_bytes':
            return self.int_to_bytes(o, a, k, n)
        if kind:
            m = getattr(self, f'{kind[0]}m_{name}', None)
            if m is None:
                raise Unsupported(f'method {kind}.{name}')
            return m(o, a, k, n)
        if isinstance(o, ObjC) and o.cls == 'File':
            return self.file_method(o, name, a, k, n)
        if isinstance(o, ObjC):
            f = self.class_method(o.cls, name)
            if f is not None:
                return self.call(f, [o] + a, k, n)
        raise Unsupported(f'method {name} of {o!r}')

    def file_method(self, o, name, a, k, n):
        """Binary file: a fixed content and a position.  read(n) delivers n bytes or what remains."""
        L = z3.Length(sterm(o.attrs['content']))
        pos = iv(o.attrs['pos'])
        if name == 'tell' and not a:
            return mkI(pos)
        if name == 'seek':
            off = iv(self.numval(a[0], n))
            wh = a[1] if len(a) > 1 else k.get('whence', 0)
            if wh not in (0, 1, 2):
                raise Unsupported('whence')
            new = _simp({0: off, 1: pos + off, 2: L + off}[wh])
            self.may_raise(_simp(new < 0), 'OSError', n)
        elif name == 'read':
            rest = _simp(z3.If(pos <= L, L - pos, 0))
            if a and a[0] is not None:
                k_ = iv(self.numval(a[0], n))
                cnt = _simp(z3.If(z3.Or(k_ < 0, k_ > rest), rest, k_))
            else:
                cnt = rest
            new = _simp(pos + cnt)
            res = mkS(_simp(z3.Extract(sterm(o.attrs['content']), pos, cnt)), 'bytes')
        else:
            raise Unsupported(f'file method {name}')
        self.mutate(o, n)
        o.attrs['pos'] = mkI(new)
        self.touched(o)
        return res if name == 'read' else mkI(new)

    def class_method(self, cls, name):
        for mod in ('objects', 'docstruct', 'api'):
            tree, py, funcs, classes, src = self.repo.module(mod)
            if cls in classes:
                for m in classes[cls].body:
                    if isinstance(m, ast.FunctionDef) and m.name == name:
                        return Func(m, mod, None, name, cls=cls)
        import inspect
        py = self.repo.module('api')[1]
        C = getattr(py, cls, None)
        f = getattr(C, name, None)
        if f is not None and inspect.isfunction(f) and f.__module__.startswith('pdfsyntax.'):
            mod = f.__module__.split('.', 1)[1]
            return Func(self.repo.function(f'{mod}.{f.__name__}'), mod, None, f.__name__)
        return None

    # lists
    def lm_append(self, o, a, k, n):
        self.list_append(o, a[0], n)

    def lm_extend(self, o, a, k, n):
        self.list_extend(o, a[0], n)

    def lm_copy(self, o, a, k, n):
        return self.list_copy(o)

    def lm_pop(self, o, a, k, n):
        return self.list_pop(o, self.numval(a[0], n) if a else -1, n)

    def lm_insert(self, o, a, k, n):
        self.mutate(o, n)
        i, v = self.numval(a[0], n), a[1]
        self.admit(o, v)
        if o.items is not None and isinstance(i, int):
            o.items.insert(i, v)
        else:
            if o.items is not None:
                self.symbolize(o, o.eT or typeof(v) if not o.items else None)
            L = z3.Length(o.t)
            j = self.norm_bound(i, L, L)
            if any(ch.own != 'no' for _, ch in o.kids):
                raise Unsupported('insert into a list with tracked elements')
            o.kids = []
            j = z3.simplify(z3.If(j > L, L, j)) if not self.entails(j <= L) else j
            u = z3.Unit(to_term(v, o.eT))
            if z3.is_int_value(j) and j.as_long() == 0:
                o.t = seq_cat(u, o.t)
            else:
                o.t = z3.Concat(z3.Extract(o.t, z3.IntVal(0), j), u, z3.Extract(o.t, j, L - j))
        self.touched(o)

    def lm_reverse(self, o, a, k, n):
        self.mutate(o, n)
        if o.items is not None:
            o.items.reverse()
        else:
            o.t = self.rev_term(o.t, o.eT)
            o.kids = []
        self.touched(o)

    def lm_remove(self, o, a, k, n):
        self.mutate(o, n)
        if o.items is not None:
            for i, x in enumerate(o.items):
                if self.choose(self.eq(x, a[0])):
                    del o.items[i]
                    self.touched(o)
                    return
            self.do_raise('ValueError', '', n)
        u = z3.Unit(to_term(a[0], o.eT))
        self.may_raise(_simp(z3.Not(z3.Contains(o.t, u))), 'ValueError', n)
        j = z3.IndexOf(o.t, u, z3.IntVal(0))
        if any(ch.own != 'no' for _, ch in o.kids):
            raise Unsupported('remove from a list with tracked elements')
        o.kids = []
        o.t = z3.Concat(z3.Extract(o.t, z3.IntVal(0), j), z3.Extract(o.t, j + 1, z3.Length(o.t) - j - 1))
        self.touched(o)

    def lm_sort(self, o, a, k, n):
        self.mutate(o, n)
        if any(ch.own != 'no' for _, ch in o.kids):
            raise Unsupported('sorting a list with tracked elements')
        r = self.sorted_list(o, k, n)
        o.items, o.t, o.eT, o.kids = None, r.t, r.eT, []
        self.touched(o)

    def sorted_list(self, o, k, n):
        """The sorted list: the registered sorting with the same key, else any list of the same length."""
        eT = o.eT if o.items is None else (typeof(o.items[0]) if o.items else None)
        if eT is None:
            return ListC(items=[])
        t = list_term(o, eT)
        e = z3.Const('sort_elem', sort(eT))
        x = from_term(e, eT)

        def num(v):
            return z3.simplify(to_term(v, 'real'))
        try:
            v = self.call(k['key'], [x], {}, n) if k.get('key') is not None else x
            v = num(v)
        except (Unsupported, AttributeError, z3.Z3Exception):
            v = None
        rev = k.get('reverse', False)
        r = None
        if v is not None and isinstance(rev, bool):
            v = z3.simplify(-v) if rev else v
            for so in api.Sorting.ALL:
                if so.spec.ptypes[0] == ('list', eT):
                    g = Frame(None, extra=so.key.globals)
                    g.vars[so.key.params[0]] = x
                    w = num(self.run_pure(so.key.node, g))
                    if z3.is_rational_value(z3.simplify(v - w)) and z3.simplify(v - w).numerator_as_long() == 0:
                        r = self.call_spec(so.spec, [from_term(t, ('list', eT))])
                        self.engine.trusted.add(f'list.sort as {so.spec.name}')
                        break
        if r is None:
            r = self.fresh('sorted', ('list', eT), own='own')
        self.assume(z3.Length(r.t) == z3.Length(t))
        return r

    def lm_index(self, o, a, k, n):
        if o.items is not None:
            for i, x in enumerate(o.items):
                if self.choose(self.eq(x, a[0])):
                    return i
            self.do_raise('ValueError', '', n)
        u = z3.Unit(to_term(a[0], o.eT))
        self.may_raise(_simp(z3.Not(z3.Contains(o.t, u))), 'ValueError', n)
        return I(z3.IndexOf(o.t, u, z3.IntVal(0)))

    # dicts
    def dm_get(self, o, a, k, n):
        dflt = a[1] if len(a) > 1 else None
        key = a[0]
        if isrec(o) and not isinstance(key, (str, int)) and key is not None and not o.fields:
            return dflt
        if isrec(o) and isinstance(key, (str, int)):
            h, v = o.fields.get(key, (False, None))
            if h is False:
                return dflt
            if h is True:
                return v
            return self.either(h, v, dflt)
        if isrec(o):
            if self.pure:
                raise Unsupported('symbolic key in record')
            for f, (h, v) in o.fields.items():
                if h is not False and self.choose(self.conj([h, self.eq(key, f)])):
                    return v
            return dflt
        kt = self.dict_key(o, key, n)
        sel = z3.Select(o.t, kt)
        h = _simp(is_some(o.K, o.V, sel))
        if h is False:
            return dflt
        v = self.map_child(o, kt, sel)
        if h is True:
            return v
        return self.either(h, v, dflt)

    def either(self, h, v, dflt):
        if self.pure:
            return self.merge(h, v, dflt)
        if dflt is None and not isinstance(v, (A, O)):
            return O(z3.simplify(z3.Not(h)), v)
        if self.choose(h):
            return v
        return dflt

    def dm_copy(self, o, a, k, n):
        return self.dict_copy(o)

    def dm_items(self, o, a, k, n):
        return Iter('items', o)

    def dm_keys(self, o, a, k, n):
        return Iter('keys', o)

    def dm_values(self, o, a, k, n):
        return Iter('values', o)

    def dm_update(self, o, a, k, n):
        self.mutate(o, n)
        src = a[0]
        if isinstance(src, A):
            src = self.narrow(src, n, 'dict')
        self.admit_all(o, src)
        if isrec(o) and isrec(src):
            for f, (h, v) in src.fields.items():
                if h is False:
                    continue
                h0, v0 = o.fields.get(f, (False, None))
                if h is not True and isinstance(v, A) and (h0 is False or isinstance(v0, A)):
                    if h0 is not False:
                        v = self.merge(h, v, v0)
                        v.own = 'no'
                    o.fields[f] = [self.disj([h, h0]), v]
                elif h is True or self.choose(h):
                    o.fields[f] = [True, v]
            self.touched(o)
            return
        if isrec(o):
            if not o.fields:
                o.fields, o.t, o.K, o.V = None, src.t, src.K, src.V
                self.touched(o)
                return
            self.mapify(o, src.K, None, src.V)
        T = ('dict', o.K, o.V)
        if any(ch.own != 'no' for _, ch in o.kids):
            raise Unsupported('update of a dict with tracked elements')
        if isrec(src):
            for f, (h, v) in src.fields.items():
                if h is False:
                    continue
                w = z3.Store(o.t, key_of(f, o.K), some(o.K, o.V, to_term(v, o.V)))
                o.t = w if h is True else z3.If(h, w, o.t)
            o.kids = []
            self.touched(o)
            return
        st = to_term(src, T)
        r = z3.Const(self.fresh_name('upd'), o.t.sort())
        kk = z3.Const(self.fresh_name('key'), ksort(o.K))
        self.assume(z3.ForAll([kk], z3.Select(r, kk) == z3.If(is_some(o.K, o.V, z3.Select(st, kk)),
                                                             z3.Select(st, kk), z3.Select(o.t, kk)),
                              patterns=[z3.Select(r, kk)]))
        o.t = r
        o.kids = []
        self.touched(o)

    def dm_pop(self, o, a, k, n):
        if len(a) > 1:
            h = self.contains(o, a[0], n)
            if not self.choose(h):
                return a[1]
        v = self.dict_get(o, a[0], n)
        self.dict_del(o, a[0], n)
        return v

    def dm_setdefault(self, o, a, k, n):
        if not self.choose(self.contains(o, a[0], n)):
            self.dict_set(o, a[0], a[1], n)
        return self.dict_get(o, a[0], n)

    # sets
    def sm_add(self, o, a, k, n):
        self.mutate(o, n)
        if o.items is not None:
            o.items = o.items + [a[0]]
        else:
            o.t = z3.Store(o.t, kterm(to_term(a[0], o.K), o.K), z3.BoolVal(True))
        self.touched(o)

    def sm_copy(self, o, a, k, n):
        return self.uid(SetC(t=o.t, K=o.K, items=list(o.items) if o.items is not None else None))

    # tuples
    def tm_index(self, o, a, k, n):
        for i, x in enumerate(o):
            if self.choose(self.eq(x, a[0])):
                return i
        self.do_raise('ValueError', '', n)

    # strings
    def s_m_encode(self, o, kd, a, k, n):
        enc = a[0] if a else 'utf-8'
        if kd != 'str':
            self.do_raise('AttributeError', 'encode', n)
        if enc in ('ascii', 'latin1', 'latin-1', 'iso-8859-1'):
            self.ascii_guard(sterm(o), 128 if enc == 'ascii' else 256, 'UnicodeEncodeError', n)
            return mkS(sterm(o), 'bytes')
        return self.call_spec(SP('enc_' + enc.replace('-', '').lower()), [o])

    def s_m_decode(self, o, kd, a, k, n):
        enc = a[0] if a else 'utf-8'
        if kd != 'bytes':
            self.do_raise('AttributeError', 'decode', n)
        if enc in ('ascii', 'latin1', 'latin-1', 'iso-8859-1') and len(a) < 2:
            if enc == 'ascii':
                self.ascii_guard(sterm(o), 128, 'UnicodeDecodeError', n)
            return mkS(sterm(o), 'str')
        key = enc.replace('-', '').replace('_', '').lower()
        if len(a) > 1 or k:
            e = a[1] if len(a) > 1 else k.get('errors')
            key += '_' + e
        self.may_raise(_simp(z3.Not(bterm(self.call_spec(SP('ok_' + key), [o])))), 'UnicodeDecodeError', n)
        return self.call_spec(SP('dec_' + key), [o])

    def ascii_guard(self, t, lim, exc, n):
        if self.pure:
            return
        c = const_seq(t)
        if c is not None:
            self.may_raise(any(x >= lim for x in c), exc, n)
            return
        j = z3.Const(self.fresh_name('j'), INT)
        oks = []
        for p in seq_parts(t):
            c = const_seq(p)
            if c is not None:
                oks.append(z3.BoolVal(all(x < lim for x in c)))
            else:
                if z3.is_app(p) and p.decl().name() == 'spec_dec' and self.engine.lemma_name is None:
                    saved, self.lemma_out = self.lemma_out, []
                    self.lemma_instance(api.LEMMAS['dec_ascii'], [mkI(p.arg(0)), mkI(j)])
                    out, self.lemma_out = self.lemma_out, saved
                    self.pc.extend(z3.ForAll([j], x) for x in out)
                oks.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < z3.Length(p)), z3.And(p[j] >= 0, p[j] < lim))))
        ok = z3.And(*oks) if len(oks) > 1 else oks[0]
        for h in self.try_stack:
            if any(exc_matches(exc, x) for x in h):
                p = z3.Const(self.fresh_name('ascii'), BOOL)
                if self.choose(p):
                    self.assume(ok)
                    return
                raise PyRaise(exc)
        if self.engine.raises == 'no':
            self.oblige('no-' + exc, ok, n)
        else:
            self.assume(ok)

    def s_m_find(self, o, kd, a, k, n):
        return self.find(o, a, n)

    def find(self, o, a, n):
        st = self.numval(a[1], n) if len(a) > 1 else 0
        if len(a) > 2:
            raise Unsupported('find with end')
        t, u = sterm(o), sterm(a[0])
        stt = self.norm_bound(st, z3.Length(t), z3.IntVal(0))
        return mkI(z3.IndexOf(t, u, stt))

    def s_m_rfind(self, o, kd, a, k, n):
        return self.call_spec(SP('rfind_' + kd), [o, a[0], a[1] if len(a) > 1 else 0])

    def s_m_startswith(self, o, kd, a, k, n):
        if isinstance(a[0], (bytes, str)) and len(a) == 1:
            c = a[0]
            codes = [x if isinstance(x, int) else ord(x) for x in c]
            t = sterm(o)
            return mkB2(self.conj([z3.Length(t) >= len(codes)] + [t[i] == x for i, x in enumerate(codes)]))
        return B(z3.PrefixOf(sterm(a[0]), sterm(o)))

    def s_m_endswith(self, o, kd, a, k, n):
        return B(z3.SuffixOf(sterm(a[0]), sterm(o)))

    def s_m_strip(self, o, kd, a, k, n):
        if not a:
            return self.call_spec(SP('strip_ws_' + kd), [o])
        return self.call_spec(SP('strip_' + kd), [o, a[0]])

    def s_m_split(self, o, kd, a, k, n):
        if not a:
            return self.call_spec(SP('split_ws_' + kd), [o])
        return self.call_spec(SP('split_' + kd), [o, a[0]])

    def s_m_replace(self, o, kd, a, k, n):
        if is_concrete(o) and is_concrete(a[0]) and is_concrete(a[1]):
            return o.replace(a[0], a[1])
        if not is_concrete(a[0]) or len(a[0]) != 1:
            raise Unsupported('replacing more than one character')
        return self.call_spec(SP('replace_' + kd), [o, a[0], a[1]])

    def s_m_join(self, o, kd, a, k, n):
        try:
            items = self.iter_sym(a[0], n)
        except SymbolicIter as e:
            v = a[0]
            if isinstance(v, ListC) and v.eT == kd and skind(o) == kd and o in ('', b''):
                return self.call_spec(SP('cat_' + kd), [v, mkI(z3.Length(v.t))])
            raise Unsupported('join')
        t = seq_of(())
        for i, x in enumerate(items):
            if isinstance(x, O):
                x = self.force(x, n)
            if i:
                t = seq_cat(t, sterm(o))
            t = seq_cat(t, sterm(x))
        return mkS(t, kd)

    def s_m_translate(self, o, kd, a, k, n):
        if kd != 'bytes' or a[0] is not None or not isinstance(a[1], bytes):
            raise Unsupported('translate')
        return self.call_spec(SP('drop_bytes'), [o, a[1]])

    def s_m_hex(self, o, kd, a, k, n):
        return self.tm_bytes_hex([o] + a, k, n)

    def s_m_isdigit(self, o, kd, a, k, n):
        return self.call_spec(SP('isdigit_' + kd), [o])

    def s_m_upper(self, o, kd, a, k, n):
        return self.call_spec(SP('upper_' + kd), [o])

    def s_m_lower(self, o, kd, a, k, n):
        return self.call_spec(SP('lower_' + kd), [o])

    def s_m_count(self, o, kd, a, k, n):
        raise Unsupported('count')

    def tm_bytes_hex(self, a, k, n):
        if len(a) > 1:
            return self.call_spec(SP('hexsep'), [a[0], a[1]])
        return self.call_spec(SP('hexs'), [a[0]])

    def tm_bytes_fromhex(self, a, k, n):
        if is_concrete(a[0]):
            try:
                return bytes.fromhex(a[0])
            except ValueError:
                self.do_raise('ValueError', '', n)
        self.may_raise(_simp(z3.Not(bterm(self.call_spec(SP('is_hex'), [a[0]])))), 'ValueError', n)
        return self.call_spec(SP('fromhex'), [a[0]])

    def tm_int_from_bytes(self, a, k, n):
        bo = k.get('byteorder', a[1] if len(a) > 1 else 'big')
        if bo != 'big':
            raise Unsupported('byteorder')
        return self.call_spec(SP('be_int'), [a[0]])

    def int_to_bytes(self, o, a, k, n):
        bo = k.get('byteorder', a[1] if len(a) > 1 else 'big')
        if bo != 'big':
            raise Unsupported('byteorder')
        ln = self.numval(a[0], n)
        fits = self.call_spec(SP('fits'), [o, ln])
        self.may_raise(_simp(z3.Not(bterm(fits))), 'OverflowError', n)
        return self.call_spec(SP('be_bytes'), [o, ln])

    # ------------------------------------------------------------ external modules
    def ext(self, enc_name, exc, a, n):
        """Library function described by opaque specs ok_<name>, <name>."""
        v = a[0]
        if isinstance(v, O):
            v = self.force(v, n)
        if isinstance(v, A):
            v = self.narrow(v, n, 'bytes')
        if v is None or skind(v) != 'bytes':
            self.do_raise('TypeError', '', n)
        ok = api.SPECS.get('ok_' + enc_name)
        if ok is not None:
            self.may_raise(_simp(z3.Not(bterm(self.call_spec(ok, [v])))), exc, n)
        return self.call_spec(SP(enc_name), [v])

    def b_html_escape(self, a, k, n):
        q = a[1] if len(a) > 1 else k.get('quote', True)
        if not isinstance(q, bool):
            raise Unsupported('html.escape with quote=')
        v = a[0]
        if isinstance(v, O):
            v = self.force(v, n)
        if isinstance(v, A):
            v = self.narrow(v, n, 'str')
        if v is None or skind(v) != 'str':
            self.do_raise('AttributeError', '', n)
        return self.call_spec(SP('escaped' if q else 'escaped_text'), [v])

    def b_os_path_basename(self, a, k, n):
        v = a[0]
        if skind(v) != 'str':
            raise Unsupported('basename')
        return self.call_spec(SP('basename'), [v])

    def b_zlib_compress(self, a, k, n):
        return self.ext('zlib_compress', 'zlib.error', a, n)

    def b_zlib_decompress(self, a, k, n):
        return self.ext('zlib_decompress', 'zlib.error', a, n)

    def b_base64_a85encode(self, a, k, n):
        return self.ext('a85_encode_adobe' if k.get('adobe') else 'a85_encode', 'ValueError', a, n)

    def b_base64_a85decode(self, a, k, n):
        return self.ext('a85_decode_adobe' if k.get('adobe') else 'a85_decode', 'ValueError', a, n)

    def b_binascii_hexlify(self, a, k, n):
        return self.ext('hexlify', 'ValueError', a, n)

    def b_binascii_unhexlify(self, a, k, n):
        return self.ext('unhexlify', 'binascii.Error', a, n)
