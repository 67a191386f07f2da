"""Model objects, an independent strict PDF parser, and generators.

Model values use the library's own Python representation (the observable one): bool, int, float, names as '/X',
'null', strings as raw bytes with their delimiters, references as complex(gen, num), dict, list; streams are PS.
"""
import random
import re

WS = b'\x00\t\n\x0c\r '
DEL = b'()<>[]{}/%'
REG = bytes(c for c in range(256) if c not in WS and c not in DEL)


class Bad(Exception):
    pass


class PS:
    """A stream: dictionary and raw (encoded) bytes."""

    def __init__(self, d, raw):
        self.d, self.raw = d, raw

    def __eq__(self, o):
        return isinstance(o, PS) and self.d == o.d and self.raw == o.raw

    def __repr__(self):
        return f'PS({self.d!r}, {self.raw!r})'


def ref(num, gen=0):
    return complex(gen, num)


# ------------------------------------------------------------------ lexer / parser

def skip_ws(b, i):
    n = len(b)
    while i < n:
        if b[i] in WS:
            i += 1
        elif b[i] == 0x25:
            while i < n and b[i] not in b'\r\n':
                i += 1
        else:
            return i
    return i


def lex_string(b, i):
    """End of the literal string that starts at i, or None when it is not closed."""
    assert b[i] == 0x28
    depth, i, n = 0, i, len(b)
    while i < n:
        c = b[i]
        if c == 0x5c:
            i += 2
            continue
        if c == 0x28:
            depth += 1
        elif c == 0x29:
            depth -= 1
            if depth == 0:
                return i + 1
        i += 1
    return None


def lex_hex(b, i):
    j = b.find(b'>', i)
    return None if j < 0 else j + 1


def lex_regular(b, i):
    n = len(b)
    while i < n and b[i] not in WS and b[i] not in DEL:
        i += 1
    return i


_num = re.compile(rb'[+-]?(\d+\.?\d*|\.\d+)\Z')


def parse(b, i=0):
    """-> (object, end)"""
    i = skip_ws(b, i)
    if i >= len(b):
        raise Bad('end of data')
    c = b[i:i + 1]
    if c == b'(':
        j = lex_string(b, i)
        if j is None:
            raise Bad('open string')
        return b[i:j], j
    if b[i:i + 2] == b'<<':
        d, j = {}, i + 2
        while True:
            j = skip_ws(b, j)
            if b[j:j + 2] == b'>>':
                return d, j + 2
            if b[j:j + 1] != b'/':
                raise Bad(f'key expected at {j}: {b[j:j+20]!r}')
            k, j = parse(b, j)
            v, j = parse(b, j)
            if k in d:
                raise Bad(f'duplicate key {k}')
            d[k] = v
    if c == b'<':
        j = lex_hex(b, i)
        if j is None:
            raise Bad('open hex string')
        return b[i:j], j
    if c == b'[':
        l, j = [], i + 1
        while True:
            j = skip_ws(b, j)
            if b[j:j + 1] == b']':
                return l, j + 1
            v, j = parse(b, j)
            l.append(v)
    if c == b'/':
        j = lex_regular(b, i + 1)
        return b[i:j].decode('latin-1'), j
    j = lex_regular(b, i)
    t = b[i:j]
    if not t:
        raise Bad(f'delimiter {c!r} at {i}')
    if t in (b'true', b'false'):
        return t == b'true', j
    if t == b'null':
        return 'null', j
    if _num.match(t):
        if b'.' in t:
            return float(t), j
        m = re.compile(rb'[\x00\t\n\x0c\r ]+(\d+)[\x00\t\n\x0c\r ]+R(?![^\x00\t\n\x0c\r ()<>\[\]{}/%])').match(b, j)
        if m and t.isdigit():
            return complex(int(m.group(1)), int(t)), m.end()
        return int(t), j
    raise Bad(f'unexpected {t!r} at {i}')


def parse_indirect(b, i, lengths=None):
    """'N G obj ... endobj' exactly at i -> (num, gen, obj, end)"""
    m = re.compile(rb'(\d+)[\x00\t\n\x0c\r ]+(\d+)[\x00\t\n\x0c\r ]+obj').match(b, i)
    if not m:
        raise Bad(f'no object header at {i}: {b[i:i+20]!r}')
    o, j = parse(b, m.end())
    j = skip_ws(b, j)
    if b[j:j + 6] == b'stream':
        j += 6
        if b[j:j + 2] == b'\r\n':
            j += 2
        elif b[j:j + 1] == b'\n':
            j += 1
        else:
            raise Bad('stream keyword without end of line')
        n = o.get('/Length')
        if isinstance(n, complex):
            n = (lengths or {}).get(int(n.imag))
        if type(n) is not int:
            raise Bad(f'/Length {n!r}')
        raw = b[j:j + n]
        if len(raw) != n:
            raise Bad('stream cut')
        j += n
        m2 = re.compile(rb'(\r\n|\n|\r)?endstream').match(b, j)
        if not m2:
            raise Bad(f'no endstream after /Length bytes: {b[j:j+20]!r}')
        o = PS(o, raw)
        j = skip_ws(b, m2.end())
    if b[j:j + 6] != b'endobj':
        raise Bad(f'no endobj at {j}: {b[j:j+20]!r}')
    return int(m.group(1)), int(m.group(2)), o, j + 6


# ------------------------------------------------------------------ library values -> model values

def model(o):
    """A value read through the library, as a model value."""
    t = type(o).__name__
    if t == 'Stream':
        return PS(model(o['entries']), o['encoded'])
    if isinstance(o, dict):
        return {k: model(v) for k, v in o.items()}
    if isinstance(o, list):
        return [model(v) for v in o]
    return o


def same(a, b):
    """Equality that tells True from 1 and compares reals by value."""
    if isinstance(a, PS) or isinstance(b, PS):
        return isinstance(a, PS) and isinstance(b, PS) and same(a.d, b.d) and a.raw == b.raw
    if isinstance(a, bool) or isinstance(b, bool):
        return type(a) is type(b) and a == b
    if isinstance(a, dict):
        return isinstance(b, dict) and list(sorted(a)) == list(sorted(b)) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    return type(a) is type(b) and a == b


# ------------------------------------------------------------------ writing with layout variation

class Style:
    """How a model value is spelled: white space, comments, number forms."""

    def __init__(self, rng=None, comments=False, tight=0.3):
        self.rng = rng
        self.comments = comments
        self.tight = tight

    def ws(self, need):
        r = self.rng
        if r is None:
            return b' '
        if not need and r.random() < self.tight:
            return b''
        k = r.random()
        if k < 0.6:
            return b' '
        if self.comments and k < 0.7:
            return b'%' + r.choice([b'', b' a', b')(', b'[', b']>>', b'<<', b'/X', b'\\', b'(']) + r.choice([b'\n', b'\r', b'\r\n'])
        return r.choice([b'\n', b'\r\n', b'\t', b'  ', b'\r', b'\x00', b'\x0c', b' \n '])


def fmt_real(x):
    s = repr(x)
    if 'e' in s or 'E' in s:
        from decimal import Decimal
        s = format(Decimal(s), 'f')
    if '.' not in s:
        s += '.0'
    return s.encode()


def write(o, st=None):
    st = st or Style()
    if isinstance(o, bool):
        return b'true' if o else b'false'
    if isinstance(o, int):
        return b'%d' % o
    if isinstance(o, float):
        return fmt_real(o)
    if isinstance(o, complex):
        w = b' ' if st.rng is None else st.rng.choice([b' ', b' ', b' ', b'\n', b'  '])
        return b'%d' % int(o.imag) + w + b'%d' % int(o.real) + b' R'
    if isinstance(o, str):
        return o.encode('latin-1')
    if isinstance(o, bytes):
        return o
    parts = []
    if isinstance(o, list):
        seq = [write(x, st) for x in o]
        op, cl = b'[', b']'
    else:
        seq = [x for k, v in o.items() for x in (k.encode('latin-1'), write(v, st))]
        op, cl = b'<<', b'>>'
    out = op + st.ws(False)
    for i, s in enumerate(seq):
        out += s
        nxt = seq[i + 1] if i + 1 < len(seq) else cl
        need = s[-1:] not in (b')', b'>', b']') and nxt[0:1] not in b'(<[/>]'
        # a '>' of a hex string directly before '>>' is fine; keep tokens apart where they would merge
        out += st.ws(need)
    return out + cl


# ------------------------------------------------------------------ generators

def g_name(r, wild=True):
    k = r.random()
    if k < 0.5 or not wild:
        return '/' + r.choice(['A', 'B', 'Type1', 'Foo', 'X', 'Kids2', 'C#20D', 'a.b', 'Length1', 'stream', 'R', 'obj', 'true', '0', '-1'])
    if k < 0.6:
        return '/'
    return '/' + bytes(r.choice(REG) for _ in range(r.randint(1, 8))).decode('latin-1')


def g_lstring_body(r, depth=0, wild=True):
    """Body of a literal string with balanced parentheses."""
    out = b''
    for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8])):
        k = r.random()
        if k < 0.15 and depth < 4:
            out += b'(' + g_lstring_body(r, depth + 1, wild) + b')'
        elif k < 0.45:
            out += b'\\' + r.choice([b'(', b')', b'\\', b'n', b'r', b't', b'b', b'f', b'\n', b'\r', b'\r\n', b'0', b'7', b'53',
                                     b'053', b'0053', b'377', b'400', b'777', b'18', b'8', b'9', b'x', b'd', b'\xff', b'>', b'<', b'%'])
        elif k < 0.6:
            out += r.choice([b'[', b']', b'<<', b'>>', b'<', b'>', b'%', b'/', b'stream', b'endobj', b'R', b'obj', b'{', b'}'])
        elif k < 0.7:
            out += r.choice([b'\n', b'\r', b'\r\n', b' ', b'\t', b'\x00'])
        elif k < 0.75:
            out += r.choice([b'\xfe\xff', b'\xfe', b'\xff', b'\xef\xbb\xbf'])
        else:
            out += bytes(r.choice([r.randrange(256), r.randrange(0x30, 0x7b)]) for _ in range(r.randint(1, 4))) \
                .replace(b'(', b'x').replace(b')', b'y').replace(b'\\', b'z')
    return out


def g_lstring(r):
    return b'(' + g_lstring_body(r) + b')'


def g_hstring(r, ws=True):
    s = ''.join(r.choice('0123456789abcdefABCDEF') for _ in range(r.choice([0, 1, 2, 3, 4, 5, 8, 12])))
    if r.random() < 0.2:
        s = r.choice(['FEFF', 'feff', 'FeFf']) + ''.join(r.choice('0123456789ABCDEF') for _ in range(4 * r.randint(0, 3)))
    if ws and r.random() < 0.3:
        s = ''.join(c + r.choice(['', '', '', ' ', '\n', '\r\n', '\t']) for c in s)
    return b'<' + s.encode() + b'>'


def g_int(r):
    return r.choice([0, 1, -1, 2, 3, 5, 10, 255, 256, 65535, 65536, -32768, r.randint(-1000, 1000), r.randint(0, 10**10), 2**31, 2**40])


def g_real(r):
    k = r.random()
    if k < 0.4:
        return round(r.uniform(-1000, 1000), r.randint(0, 4))
    if k < 0.7:
        return r.choice([0.0, 0.5, -0.5, 1e-7, 1.5e-10, 1e16, 1.25e20, 123456789.125, 1e22, -1e-5, 3.14159, 1e-300, 0.1, 100.0, -2.0])
    return r.uniform(-1, 1) * 10 ** r.randint(-12, 18)


def g_ref(r):
    return complex(r.choice([0, 0, 0, 1, 2, 7, 65535]), r.choice([1, 2, 3, 10, 12, r.randint(1, 99999)]))


def g_obj(r, depth=0, refs=True, null=False):
    k = r.random()
    if depth < 4 and k < 0.16:
        return [g_obj(r, depth + 1, refs, null) for _ in range(r.choice([0, 1, 2, 3, 5]))]
    if depth < 4 and k < 0.32:
        return {g_name(r): g_obj(r, depth + 1, refs, null) for _ in range(r.choice([0, 1, 2, 3, 5]))}
    k = r.random()
    if k < 0.15:
        return g_int(r)
    if k < 0.28:
        return g_real(r)
    if k < 0.40:
        return r.random() < 0.5
    if k < 0.55:
        return g_name(r)
    if k < 0.70:
        return g_lstring(r)
    if k < 0.80:
        return g_hstring(r)
    if k < 0.95 and refs:
        return g_ref(r)
    if null and k > 0.97:
        return 'null'
    return g_int(r)


def g_content(r, n=None):
    """Bytes for a stream, with traps."""
    k = r.random()
    if k < 0.1:
        return b''
    if k < 0.35:
        return b''.join(r.choice([b'endstream', b'\n', b'\r', b'\r\n', b'endobj', b'stream', b'x', b' ', b'\nendstream\nendobj', b'a' * 9, b'>>'])
                        for _ in range(r.randint(1, 6)))
    if k < 0.6:
        return bytes(r.randrange(256) for _ in range(r.choice([1, 2, 3, 5, 10, 40, 200])))
    if k < 0.7:
        return bytes([r.randrange(256)]) * r.randint(1, 300)
    return b'q 1 0 0 1 %d %d cm BT /F1 12 Tf (abc) Tj ET Q' % (r.randint(0, 99), r.randint(0, 99))
