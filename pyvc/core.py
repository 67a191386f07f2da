"""Types, sorts and symbolic values.

Types are written as strings or tuples:
  'int' 'bool' 'real' 'bytes' 'str' 'none' 'ref' 'any' 'fdata'
  ('list', T)  ('tuple', T1, ...)  ('dict', K, V)  ('set', T)  ('opt', T)  ('rec', name)  ('obj', name)
Python ints are mathematical integers, floats are mathematical reals, bytes and str are sequences of
code values.
"""
import z3
from fractions import Fraction

INT = z3.IntSort()
BOOL = z3.BoolSort()
REAL = z3.RealSort()
SEQI = z3.SeqSort(INT)


class Unsupported(Exception):
    """The code uses something outside the verified subset."""


# ---------------------------------------------------------------- types -> sorts

RECORDS = {}       # name -> ordered dict field -> (type, optional)
OBJECTS = {}       # name -> ordered dict attr -> type


def record(name, fields):
    RECORDS[name] = dict(fields)
    return ('rec', name)


def objtype(name, attrs):
    OBJECTS[name] = dict(attrs)
    return ('obj', name)


def opt(t):
    assert t != 'any', 'None is already a value of any'
    return ('opt', t)


def lst(t):
    return ('list', t)


def tup(*ts):
    return ('tuple',) + ts


def const(v):
    return ('const', v)


def fix(*ts):
    return ('fix',) + ts


EMPTY = ('empty',)


def dct(k, v):
    return ('dict', k, v)


def tname(t):
    if isinstance(t, str):
        return t
    return '_'.join([t[0]] + [tname(x) for x in t[1:]])


_sorts = {}
_dts = {}

# Keys of dictionaries and sets that are strings: a number for each constant one (distinct for distinct strings),
# keyof(s) for any other string s; key_facts gives what makes keyof injective and consistent with the constants.
_K = z3.Datatype('Key')
_K.declare('key', ('kid', INT))
Key = _K.create()
KEY = Key
KEYOF = z3.Function('keyof', SEQI, KEY)
NAMEOF = z3.Function('nameof', KEY, SEQI)
_consts = {}


def const_codes(t):
    """Codes of a constant sequence term, or None."""
    k = t.decl().kind()
    if k == z3.Z3_OP_SEQ_EMPTY:
        return ()
    if k == z3.Z3_OP_SEQ_UNIT:
        return (t.arg(0).as_long(),) if z3.is_int_value(t.arg(0)) else None
    if k == z3.Z3_OP_SEQ_CONCAT:
        r = ()
        for c in t.children():
            x = const_codes(c)
            if x is None:
                return None
            r += x
        return r
    return None


def kterm(t, K):
    """Key term of a dictionary or set whose keys have type K."""
    if K not in ('str', 'bytes'):
        return t
    t = z3.simplify(t)
    c = const_codes(t) if z3.is_app(t) else None
    if c is None:
        return KEYOF(t)
    if c not in _consts:
        _consts[c] = (t, len(_consts))
    return Key.key(z3.IntVal(_consts[c][1]))


_kconst = {}


def kconst(k):
    """Key term of a constant string."""
    c = tuple(k.encode('latin-1') if isinstance(k, str) and k.isascii() else (map(ord, k) if isinstance(k, str) else k))
    if c not in _kconst:
        _kconst[c] = kterm(sterm(k), 'str')
    return _kconst[c]


def key_of(x, K):
    """Key term of a value."""
    if isinstance(x, str if K == 'str' else bytes) and K in ('str', 'bytes'):
        return kconst(x)
    return kterm(to_term(x, K), K)


def ksort(K):
    return KEY if K in ('str', 'bytes') else sort(K)


def key_facts(app):
    """Facts about one application of keyof."""
    t = app.arg(0)
    s = z3.simplify(t)
    c = const_codes(s) if z3.is_app(s) else None
    if c is not None:
        return [app == kterm(s, 'str')]
    return [NAMEOF(app) == t] + [(app == Key.key(z3.IntVal(i))) == (t == x) for x, i in _consts.values()]


# Val: the type of PDF objects (and of any dynamically typed value)
_V = z3.Datatype('Val')
_OV = z3.Datatype('OptVal')
_VS = z3.DatatypeSort('Val')
_OVS = z3.DatatypeSort('OptVal')
_V.declare('VNone')
_V.declare('VBool', ('vbool', BOOL))
_V.declare('VInt', ('vint', INT))
_V.declare('VReal', ('vreal', REAL))
_V.declare('VStr', ('vstr', SEQI))
_V.declare('VBytes', ('vbytes', SEQI))
_V.declare('VRef', ('vnum', INT), ('vgen', INT))
_V.declare('VList', ('vlist', z3.SeqSort(_VS)))
_V.declare('VDict', ('vdict', z3.ArraySort(KEY, _OVS)))
_V.declare('VStream', ('vent', z3.ArraySort(KEY, _OVS)), ('vdec', SEQI), ('venc', SEQI))
_OV.declare('VAbsent')
_OV.declare('VPresent', ('vval', _VS))
Val, OptVal = z3.CreateDatatypes(_V, _OV)
DICTV = z3.ArraySort(KEY, OptVal)
EMPTY_DICTV = z3.K(KEY, OptVal.VAbsent)


def dt(t):
    """The z3 datatype of a tuple/opt/rec/obj type."""
    if t in _dts:
        return _dts[t]
    k = t[0]
    n = tname(t)
    d = z3.Datatype('T_' + n)
    if k == 'tuple':
        d.declare('mk_' + n, *[(f'{n}_{i}', sort(x)) for i, x in enumerate(t[1:])])
    elif k == 'opt':
        d.declare('none_' + n)
        d.declare('some_' + n, ('get_' + n, sort(t[1])))
    elif k == 'rec':
        fs = []
        for f, (ft, o) in RECORDS[t[1]].items():
            if o:
                fs.append((f'{n}_has_{f}', BOOL))
            fs.append((f'{n}_{f}', sort(ft)))
        d.declare('mk_' + n, *fs)
    elif k == 'obj':
        d.declare('mk_' + n, *[(f'{n}_{a}', sort(at)) for a, at in OBJECTS[t[1]].items()])
    else:
        raise Unsupported(f'no datatype for {t}')
    _dts[t] = d.create()
    return _dts[t]


def sort(t):
    if t in _sorts:
        return _sorts[t]
    if t == 'int' or t == 'type':
        s = INT
    elif t == 'bool':
        s = BOOL
    elif t == 'real':
        s = REAL
    elif t in ('bytes', 'str', 'fdata'):
        s = SEQI
    elif t == 'any':
        s = Val
    elif t == 'ref':
        s = dt(('tuple', 'int', 'int'))
    elif t == 'none':
        s = INT
    elif t[0] == 'list':
        s = z3.SeqSort(sort(t[1]))
    elif t[0] in ('tuple', 'opt', 'rec', 'obj'):
        s = dt(t)
    elif t[0] == 'dict':
        if t[1] == 'str' and t[2] == 'any':
            s = DICTV
        else:
            s = z3.ArraySort(ksort(t[1]), dt(('opt', t[2])))
    elif t[0] == 'set':
        s = z3.ArraySort(ksort(t[1]), BOOL)
    else:
        raise Unsupported(f'no sort for {t}')
    _sorts[t] = s
    return s


# ---------------------------------------------------------------- values

class Sym:
    __slots__ = ()


class I(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'I({self.t})'


class B(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'B({self.t})'


class R(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'R({self.t})'


class S(Sym):
    """bytes or str."""
    __slots__ = ('t', 'kind', 'sl')

    def __init__(self, t, kind, sl=None):
        self.t = t
        self.kind = kind
        self.sl = sl      # (base term, start term, length term), start >= 0 known

    def __repr__(self):
        return f'S{self.kind[0]}({self.t})'


class Cx(Sym):
    """complex: an indirect reference; imag is the object number, real the generation."""
    __slots__ = ('num', 'gen')

    def __init__(self, num, gen):
        self.num = num
        self.gen = gen


class O(Sym):
    """Either None (when isn holds) or val."""
    __slots__ = ('isn', 'val')

    def __init__(self, isn, val):
        self.isn = isn
        self.val = val

    def __repr__(self):
        return f'O({self.isn},{self.val})'


class TypeOf(Sym):
    """type(x) of a symbolic value."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Cell(Sym):
    """Mutable container."""
    __slots__ = ('own', 'parents', 'uid', 'label')

    def _init(self, own, label=None):
        self.own = own          # 'no' (frozen), 'own' (this object only), 'deep' (and everything below)
        self.parents = []
        self.uid = None
        self.label = label


class A(Cell):
    """Dynamically typed value (may be a container, then it is a cell like the others)."""
    __slots__ = ('t', 'kids')

    def __init__(self, t, own='no', label=None):
        self._init(own, label)
        self.t = t
        self.kids = []

    def __repr__(self):
        return f'A({self.t})'


class ListC(Cell):
    __slots__ = ('items', 't', 'eT', 'kids', 'tup')

    def __init__(self, items=None, t=None, eT=None, own='own', label=None):
        self._init(own, label)
        self.items = items
        self.t = t
        self.eT = eT
        self.kids = []

    def __repr__(self):
        return f'ListC({self.items if self.items is not None else self.t})'


class DictC(Cell):
    """dict.  Record mode (fields is not None): constant keys, fields: key -> [has, value], has True/False or
    z3 Bool.  Map mode: t is an array K -> Opt V."""
    __slots__ = ('fields', 'T', 't', 'K', 'V', 'kids')

    def __init__(self, fields=None, T=None, t=None, K=None, V=None, own='own', label=None):
        self._init(own, label)
        self.fields = fields
        self.T = T
        self.t = t
        self.K = K
        self.V = V
        self.kids = []

    def __repr__(self):
        return f'DictC({self.fields if self.fields is not None else self.t})'


def RecC(fields, T=None, own='own', label=None):
    return DictC(fields=fields, T=T, own=own, label=label)


def MapC(t, K, V, own='own', label=None):
    return DictC(t=t, K=K, V=V, own=own, label=label)


def isrec(v):
    return isinstance(v, DictC) and v.fields is not None


def ismap(v):
    return isinstance(v, DictC) and v.fields is None


class SetC(Cell):
    __slots__ = ('t', 'K', 'items')

    def __init__(self, t=None, K=None, items=None, own='own', label=None):
        self._init(own, label)
        self.t = t
        self.K = K
        self.items = items


class ObjC(Cell):
    """Instance of a dataclass or namedtuple."""
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs, own='own', label=None):
        self._init(own, label)
        self.cls = cls
        self.attrs = attrs

    def __repr__(self):
        return f'ObjC({self.cls},{self.attrs})'


class FData(Sym):
    """Byte access function over src."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Func:
    """Python function defined in the verified source (or a nested def / lambda)."""

    def __init__(self, node, module, env=None, name=None, cls=None):
        self.node = node
        self.module = module
        self.env = env
        self.name = name or getattr(node, 'name', '<lambda>')
        self.cls = cls

    def __repr__(self):
        return f'<Func {self.module}.{self.name}>'


class Builtin:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f'<Builtin {self.name}>'


class Method:
    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class TypeV:
    """A Python type object."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, TypeV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f'<type {self.name}>'


class Range:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Iter:
    """Lazily described iterable: kind + parts (enumerate, items, zip, reversed...)."""

    def __init__(self, kind, *parts):
        self.kind = kind
        self.parts = parts


class ModV:
    def __init__(self, name):
        self.name = name


# ---------------------------------------------------------------- helpers

def iv(x):
    """z3 Int term of an int value."""
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, I):
        return x.t
    if isinstance(x, B):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f'not an int: {x!r}')


def mkI(t):
    """Int value, concrete when the term is a numeral."""
    t = z3.simplify(t) if not z3.is_int_value(t) else t
    if z3.is_int_value(t):
        return t.as_long()
    return I(t)


def mkB(t):
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return B(t)


def bterm(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, B):
        return x.t
    raise Unsupported(f'not a bool: {x!r}')


_seqcache = {}


def seq_of(codes):
    codes = tuple(codes)
    r = _seqcache.get(codes)
    if r is None:
        if not codes:
            r = z3.Empty(SEQI)
        elif len(codes) == 1:
            r = z3.Unit(z3.IntVal(codes[0]))
        else:
            r = z3.Concat(*[z3.Unit(z3.IntVal(c)) for c in codes])
        _seqcache[codes] = r
    return r


def sterm(x):
    """Seq term of bytes/str."""
    if isinstance(x, (bytes, bytearray)):
        return seq_of(x)
    if isinstance(x, str):
        return seq_of(ord(c) for c in x)
    if isinstance(x, S):
        return x.t
    raise Unsupported(f'not bytes or str: {x!r}')


def const_seq(t):
    """Concrete codes of a seq term, or None."""
    if not z3.is_expr(t) or not z3.is_app(t):
        return None
    k = t.decl().kind()
    if k == z3.Z3_OP_SEQ_EMPTY:
        return ()
    if k == z3.Z3_OP_SEQ_UNIT:
        a = t.arg(0)
        return (a.as_long(),) if z3.is_int_value(a) else None
    if k == z3.Z3_OP_SEQ_CONCAT:
        r = ()
        for c in t.children():
            x = const_seq(c)
            if x is None:
                return None
            r += x
        return r
    return None


def skind(x):
    if isinstance(x, (bytes, bytearray)):
        return 'bytes'
    if isinstance(x, str):
        return 'str'
    if isinstance(x, S):
        return x.kind
    return None


def mkS(t, kind, sl=None):
    c = const_seq(t)
    if c is not None:
        return bytes(c) if kind == 'bytes' else ''.join(map(chr, c))
    return S(t, kind, sl)


def is_num(x):
    return isinstance(x, (int, float, I, R, B)) and not isinstance(x, complex)


def rterm(x):
    if isinstance(x, R):
        return x.t
    if isinstance(x, float):
        f = Fraction(x)
        return z3.RealVal(f'{f.numerator}/{f.denominator}')
    return z3.ToReal(iv(x))


def is_concrete(x):
    return x is None or isinstance(x, (bool, int, float, bytes, str, complex)) or \
        (isinstance(x, tuple) and all(is_concrete(y) for y in x))


def typeof(v):
    """Best type description of a value."""
    if v is None:
        return 'none'
    if isinstance(v, (bool, B)):
        return 'bool'
    if isinstance(v, (int, I)):
        return 'int'
    if isinstance(v, (float, R)):
        return 'real'
    if isinstance(v, (bytes, bytearray)):
        return 'bytes'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, S):
        return v.kind
    if isinstance(v, (complex, Cx)):
        return 'ref'
    if isinstance(v, A):
        return 'any'
    if isinstance(v, FData):
        return 'fdata'
    if isinstance(v, O):
        return ('opt', typeof(v.val))
    if isinstance(v, tuple):
        return ('tuple',) + tuple(typeof(x) for x in v)
    if isinstance(v, ListC):
        if v.items is None:
            return ('list', v.eT)
        if v.eT is not None:
            return ('list', v.eT)
        if v.items:
            t = typeof(v.items[0])
            for x in v.items[1:]:
                t = join(t, typeof(x))
            return ('list', t)
        return ('list', None)
    if ismap(v):
        return ('dict', v.K, v.V)
    if isrec(v):
        if v.T:
            return v.T
        return ('rec?',)
    if isinstance(v, SetC):
        return ('set', v.K)
    if isinstance(v, ObjC):
        return ('obj', v.cls)
    if isinstance(v, TypeV):
        return 'type'
    raise Unsupported(f'no type for {v!r}')


def join(a, b):
    if a == b:
        return a
    if a == 'none':
        return b if (b[0] == 'opt' or b == 'any') else ('opt', b)
    if b == 'none':
        return join('none', a)
    if a == 'any' or b == 'any':
        return 'any'
    if a[0] == 'opt' and b[0] == 'opt':
        return ('opt', join(a[1], b[1]))
    if a[0] == 'opt':
        return ('opt', join(a[1], b))
    if b[0] == 'opt':
        return ('opt', join(a, b[1]))
    if {a, b} == {'int', 'real'}:
        return 'real'
    if {a, b} == {'int', 'bool'}:
        return 'int'
    if a[0] == 'list' and b[0] == 'list':
        if a[1] is None:
            return b
        if b[1] is None:
            return a
        return ('list', join(a[1], b[1]))
    if a[0] == 'tuple' and b[0] == 'tuple' and len(a) == len(b):
        return ('tuple',) + tuple(join(x, y) for x, y in zip(a[1:], b[1:]))
    if a[0] == 'dict' and b[0] == 'rec?':
        return a
    if b[0] == 'dict' and a[0] == 'rec?':
        return b
    return 'any'


NEED = [None]      # called with the condition under which a value may be stored at a narrower type


def need(c):
    if NEED[0] is not None:
        NEED[0](c)


def kind_is(t, T):
    """Condition for a dynamic value to be of type T."""
    k = T if isinstance(T, str) else T[0]
    f = {'int': Val.is_VInt, 'bool': Val.is_VBool, 'bytes': Val.is_VBytes, 'str': Val.is_VStr, 'ref': Val.is_VRef,
         'list': Val.is_VList, 'dict': Val.is_VDict, 'obj': Val.is_VStream}.get(k)
    if k == 'real':
        return z3.Or(Val.is_VInt(t), Val.is_VReal(t))
    return f(t) if f is not None else z3.BoolVal(True)


def to_term(v, T, checked=False):
    """z3 term of sort(T) for value v."""
    if not checked and T != 'any' and T[0] != 'opt' and T != 'none':
        if isinstance(v, O):
            need(z3.Not(v.isn))
            v = v.val
        if isinstance(v, A):
            need(kind_is(v.t, T))
    if T == 'int':
        if isinstance(v, A):
            return Val.vint(v.t)
        if isinstance(v, O):
            return to_term(v.val, T)
        return iv(v)
    if T == 'none':
        return z3.IntVal(0)
    if T == 'bool':
        if isinstance(v, A):
            return Val.vbool(v.t)
        return bterm(v)
    if T == 'real':
        if isinstance(v, A):
            return z3.If(Val.is_VInt(v.t), z3.ToReal(Val.vint(v.t)), Val.vreal(v.t))
        return rterm(v)
    if T in ('bytes', 'str'):
        if isinstance(v, A):
            return Val.vbytes(v.t) if T == 'bytes' else Val.vstr(v.t)
        if isinstance(v, O):
            return to_term(v.val, T)
        return sterm(v)
    if T == 'fdata':
        if isinstance(v, FData):
            return v.t
        raise Unsupported(f'not a byte access function: {v!r}')
    if T == 'ref':
        d = dt(('tuple', 'int', 'int'))
        if isinstance(v, complex):
            return d.constructor(0)(z3.IntVal(int(v.imag)), z3.IntVal(int(v.real)))
        if isinstance(v, Cx):
            return d.constructor(0)(v.num, v.gen)
        if isinstance(v, A):
            return d.constructor(0)(Val.vnum(v.t), Val.vgen(v.t))
        if isinstance(v, O):
            return to_term(v.val, T)
        raise Unsupported(f'not a ref: {v!r}')
    if T == 'any':
        return to_val(v)
    k = T[0]
    if k == 'opt':
        d = dt(T)
        if v is None:
            return d.constructor(0)()
        if isinstance(v, O):
            return z3.If(v.isn, d.constructor(0)(), d.constructor(1)(to_term(v.val, T[1], True)))
        if isinstance(v, A) and T[1] != 'any':
            need(z3.Or(Val.is_VNone(v.t), kind_is(v.t, T[1])))
            return z3.If(Val.is_VNone(v.t), d.constructor(0)(), d.constructor(1)(to_term(v, T[1], True)))
        return d.constructor(1)(to_term(v, T[1]))
    if k == 'tuple':
        if isinstance(v, O):
            return to_term(v.val, T)
        if isinstance(v, ObjC):
            v = tuple(v.attrs.values())
        if not isinstance(v, tuple) or len(v) != len(T) - 1:
            raise Unsupported(f'not a {len(T)-1}-tuple: {v!r}')
        return dt(T).constructor(0)(*[to_term(x, xt) for x, xt in zip(v, T[1:])])
    if k == 'list':
        if isinstance(v, O):
            return to_term(v.val, T)
        if isinstance(v, ListC):
            return list_term(v, T[1])
        if isinstance(v, A) and T[1] == 'any':
            return Val.vlist(v.t)
        raise Unsupported(f'not a list: {v!r}')
    if k == 'rec':
        if isinstance(v, O):
            return to_term(v.val, T)
        if not isrec(v):
            raise Unsupported(f'not a record: {v!r}')
        d = dt(T)
        args = []
        spec = RECORDS[T[1]]
        for f in v.fields:
            if f not in spec and v.fields[f][0] is not False:
                raise Unsupported(f'record {T[1]} has no field {f!r}')
        for f, (ft, o) in spec.items():
            has, val = v.fields.get(f, (False, None))
            if o:
                args.append(z3.BoolVal(has) if isinstance(has, bool) else has)
                args.append(default(ft) if has is False else to_term(val, ft))
            else:
                if has is not True:
                    raise Unsupported(f'record {T[1]} lacks field {f!r}')
                args.append(to_term(val, ft))
        return d.constructor(0)(*args)
    if k == 'obj':
        if isinstance(v, A) and T[1] == 'Stream':
            return dt(T).constructor(0)(Val.vent(v.t), Val.vdec(v.t), Val.venc(v.t))
        if not isinstance(v, ObjC):
            raise Unsupported(f'not an object: {v!r}')
        return dt(T).constructor(0)(*[to_term(v.attrs[a], at) for a, at in OBJECTS[T[1]].items()])
    if k == 'dict':
        if isinstance(v, O):
            return to_term(v.val, T)
        if ismap(v):
            if (v.K, v.V) != (T[1], T[2]):
                raise Unsupported(f'map type {v.K},{v.V} is not {T}')
            return v.t
        if isinstance(v, A) and T[1:] == ('str', 'any'):
            return Val.vdict(v.t)
        if isrec(v):
            t = empty_map(T[1], T[2])
            for f, (has, val) in v.fields.items():
                if has is False:
                    continue
                x = some(T[1], T[2], to_term(val, T[2]))
                if has is not True:
                    x = z3.If(has, x, absent(T[1], T[2]))
                t = z3.Store(t, key_of(f, T[1]), x)
            return t
        raise Unsupported(f'not a dict: {v!r}')
    if k == 'set':
        if isinstance(v, SetC):
            if v.items is not None:
                t = z3.K(ksort(T[1]), z3.BoolVal(False))
                for x in v.items:
                    t = z3.Store(t, key_of(x, T[1]), z3.BoolVal(True))
                return t
            return v.t
        raise Unsupported(f'not a set: {v!r}')
    raise Unsupported(f'to_term {T}')


def list_term(v, eT):
    if v.items is None:
        if v.eT != eT:
            if eT == 'any' and v.eT in ('int', 'ref', 'bytes', 'str', 'real', 'bool'):
                raise Unsupported(f'list of {v.eT} used as list of any')
            raise Unsupported(f'list of {v.eT} is not a list of {eT}')
        return v.t
    if not v.items:
        return z3.Empty(z3.SeqSort(sort(eT)))
    us = [z3.Unit(to_term(x, eT)) for x in v.items]
    return us[0] if len(us) == 1 else z3.Concat(*us)


def empty_map(K, V):
    if (K, V) == ('str', 'any'):
        return EMPTY_DICTV
    return z3.K(ksort(K), absent(K, V))


def absent(K, V):
    if (K, V) == ('str', 'any'):
        return OptVal.VAbsent
    return dt(('opt', V)).constructor(0)()


def some(K, V, t):
    if (K, V) == ('str', 'any'):
        return OptVal.VPresent(t)
    return dt(('opt', V)).constructor(1)(t)


def is_some(K, V, t):
    if (K, V) == ('str', 'any'):
        return OptVal.is_VPresent(t)
    return dt(('opt', V)).recognizer(1)(t)


def get_some(K, V, t):
    if (K, V) == ('str', 'any'):
        return OptVal.vval(t)
    return dt(('opt', V)).accessor(1, 0)(t)


def default(T):
    """Some fixed value of the sort."""
    if T in ('int', 'none', 'type'):
        return z3.IntVal(0)
    if T == 'bool':
        return z3.BoolVal(False)
    if T == 'real':
        return z3.RealVal(0)
    if T in ('bytes', 'str', 'fdata'):
        return z3.Empty(SEQI)
    if T == 'any':
        return Val.VNone
    if T == 'ref':
        return dt(('tuple', 'int', 'int')).constructor(0)(z3.IntVal(0), z3.IntVal(0))
    k = T[0]
    if k == 'opt':
        return dt(T).constructor(0)()
    if k == 'list':
        return z3.Empty(sort(T))
    if k == 'tuple':
        return dt(T).constructor(0)(*[default(x) for x in T[1:]])
    if k == 'dict':
        return empty_map(T[1], T[2])
    if k == 'set':
        return z3.K(ksort(T[1]), z3.BoolVal(False))
    if k == 'rec':
        args = []
        for f, (ft, o) in RECORDS[T[1]].items():
            if o:
                args.append(z3.BoolVal(False))
            args.append(default(ft))
        return dt(T).constructor(0)(*args)
    if k == 'obj':
        return dt(T).constructor(0)(*[default(at) for at in OBJECTS[T[1]].values()])
    raise Unsupported(f'default {T}')


def to_val(v):
    """Val term of a value."""
    if v is None:
        return Val.VNone
    if isinstance(v, A):
        return v.t
    if isinstance(v, (bool, B)):
        return Val.VBool(bterm(v))
    if isinstance(v, (int, I)):
        return Val.VInt(iv(v))
    if isinstance(v, (float, R)):
        return Val.VReal(rterm(v))
    if skind(v) == 'bytes':
        return Val.VBytes(sterm(v))
    if skind(v) == 'str':
        return Val.VStr(sterm(v))
    if isinstance(v, complex):
        return Val.VRef(z3.IntVal(int(v.imag)), z3.IntVal(int(v.real)))
    if isinstance(v, Cx):
        return Val.VRef(v.num, v.gen)
    if isinstance(v, O):
        return z3.If(v.isn, Val.VNone, to_val(v.val))
    if isinstance(v, ListC):
        return Val.VList(list_term(v, 'any'))
    if isinstance(v, DictC):
        return Val.VDict(to_term(v, ('dict', 'str', 'any')))
    if isinstance(v, ObjC) and v.cls == 'Stream':
        return Val.VStream(to_term(v.attrs['entries'], ('dict', 'str', 'any')),
                           to_term(v.attrs['stream'], 'bytes'), to_term(v.attrs['encoded'], 'bytes'))
    raise Unsupported(f'cannot view as a PDF object: {v!r}')


def from_term(t, T, own='no', label=None):
    """Value for a z3 term."""
    if T == 'int':
        return mkI(t) if z3.is_int_value(t) else I(t)
    if T == 'none':
        return None
    if T == 'bool':
        return mkB(t)
    if T == 'real':
        return R(t)
    if T in ('bytes', 'str'):
        return mkS(t, T)
    if T == 'fdata':
        return FData(t)
    if T == 'any':
        return A(t, own=own, label=label)
    if T == 'ref':
        d = dt(('tuple', 'int', 'int'))
        return Cx(_acc(d, 0, 0, t), _acc(d, 0, 1, t))
    k = T[0]
    if k == 'opt':
        d = dt(T)
        isn = z3.simplify(d.recognizer(0)(t))
        if z3.is_true(isn):
            return None
        inner = from_term(_acc(d, 1, 0, t), T[1], own, label)
        if z3.is_false(isn):
            return inner
        return O(isn, inner)
    if k == 'tuple':
        d = dt(T)
        return tuple(from_term(_acc(d, 0, i, t), x, own) for i, x in enumerate(T[1:]))
    if k == 'list':
        return ListC(t=t, eT=T[1], own=own, label=label)
    if k == 'rec':
        d = dt(T)
        fields = {}
        i = 0
        for f, (ft, o) in RECORDS[T[1]].items():
            has = True
            if o:
                has = z3.simplify(_acc(d, 0, i, t))
                if z3.is_true(has):
                    has = True
                elif z3.is_false(has):
                    has = False
                i += 1
            val = from_term(_acc(d, 0, i, t), ft, 'deep' if own == 'deep' else 'no')
            i += 1
            fields[f] = [has, val]
        return RecC(fields, T, own=own, label=label)
    if k == 'obj':
        d = dt(T)
        return ObjC(T[1], {a: from_term(_acc(d, 0, i, t), at, 'deep' if own == 'deep' else 'no')
                           for i, (a, at) in enumerate(OBJECTS[T[1]].items())}, own=own, label=label)
    if k == 'dict':
        return MapC(t, T[1], T[2], own=own, label=label)
    if k == 'set':
        return SetC(t=t, K=T[1], own=own, label=label)
    raise Unsupported(f'from_term {T}')


def _acc(d, c, i, t):
    """Accessor application, simplified when t is a constructor application."""
    if z3.is_app(t) and t.num_args() and t.decl().eq(d.constructor(c)):
        return t.arg(i)
    return d.accessor(c, i)(t)
