"""C03: text of string objects, against the PDF 1.7 rules and the PDFDocEncoding table written out here."""
from .core import Fail, n
from . import gen
from pdfsyntax.text import text_string

TABLE = {i: i for i in range(256)}
TABLE.update({0x18: 0x2d8, 0x19: 0x2c7, 0x1a: 0x2c6, 0x1b: 0x2d9, 0x1c: 0x2dd, 0x1d: 0x2db, 0x1e: 0x2da, 0x1f: 0x2dc,
              0x80: 0x2022, 0x81: 0x2020, 0x82: 0x2021, 0x83: 0x2026, 0x84: 0x2014, 0x85: 0x2013, 0x86: 0x192, 0x87: 0x2044,
              0x88: 0x2039, 0x89: 0x203a, 0x8a: 0x2212, 0x8b: 0x2030, 0x8c: 0x201e, 0x8d: 0x201c, 0x8e: 0x201d, 0x8f: 0x2018,
              0x90: 0x2019, 0x91: 0x201a, 0x92: 0x2122, 0x93: 0xfb01, 0x94: 0xfb02, 0x95: 0x141, 0x96: 0x152, 0x97: 0x160,
              0x98: 0x178, 0x99: 0x17d, 0x9a: 0x131, 0x9b: 0x142, 0x9c: 0x153, 0x9d: 0x161, 0x9e: 0x17e, 0xa0: 0x20ac})
UNDEFINED = {0x7f, 0x9f, 0xad}


def literal(body):
    out = bytearray()
    i = 0
    while i < len(body):
        c = body[i]
        if c == 0x5c:
            i += 1
            if i >= len(body):
                break
            c = body[i]
            if c in b'nrtbf':
                out += {b'n': b'\n', b'r': b'\r', b't': b'\t', b'b': b'\b', b'f': b'\f'}[bytes([c])]
                i += 1
            elif c in b'01234567':
                v, k = 0, 0
                while k < 3 and i < len(body) and body[i] in b'01234567':
                    v = v * 8 + body[i] - 48
                    i += 1
                    k += 1
                out.append(v & 255)
            elif c == 13:
                i += 2 if body[i + 1:i + 2] == b'\n' else 1
            elif c == 10:
                i += 1
            else:
                out.append(c)
                i += 1
        elif c == 13:
            out.append(10)
            i += 2 if body[i + 1:i + 2] == b'\n' else 1
        else:
            out.append(c)
            i += 1
    return bytes(out)


def hexa(body):
    s = ''.join(chr(c) for c in body if c not in gen.WS)
    if len(s) % 2:
        s += '0'
    return bytes.fromhex(s)


def text(b):
    """-> text or None when the specification leaves it undefined."""
    if b[:2] == b'\xfe\xff':
        try:
            return b[2:].decode('utf-16-be')
        except UnicodeDecodeError:
            return None
    if any(c in UNDEFINED for c in b):
        return None
    return ''.join(chr(TABLE[c]) for c in b)


def check(tok, raw):
    exp = text(raw)
    if exp is None:
        return None
    got = text_string(tok)
    if got != exp:
        raise Fail('wrong text', string=tok, result=got, expected=exp)
    return tok


@n(8000)
def literals(r):
    t = gen.g_lstring(r)
    return check(t, literal(t[1:-1]))


@n(4000)
def hexes(r):
    t = gen.g_hstring(r)
    return check(t, hexa(t[1:-1]))


@n(3000)
def octals(r):
    body = b''
    for _ in range(r.randint(1, 4)):
        body += b'\\' + bytes(r.choice(b'01234567') for _ in range(r.randint(1, 3)))
        body += r.choice([b'', b'8', b'9', b'a', b'0', b'7', b'(', b')', b'\\(', b' ']) if False else r.choice([b'', b'8', b'9', b'a', b'0', b'7', b' '])
    return check(b'(' + body + b')', literal(body))


@n(3000)
def utf16(r):
    s = ''.join(chr(r.choice([r.randrange(32, 127), r.randrange(0x100, 0xd7ff), r.randrange(0xe000, 0xffff), r.randrange(0x10000, 0x10ffff), 0x28, 0x29, 0x5c, 0x0d, 0x0a]))
                for _ in range(r.randint(0, 6)))
    raw = b'\xfe\xff' + s.encode('utf-16-be')
    if r.random() < 0.5:
        h = raw.hex()
        h = ''.join(r.choice([c, c.upper()]) for c in h)
        tok = b'<' + h.encode() + b'>'
    else:
        tok = b'('
        for c in raw:
            k = r.random()
            if c in b'()\\\r\n' or k < 0.2:
                tok += b'\\%03o' % c if c not in b'()\\' or k < 0.5 else b'\\' + bytes([c])
            else:
                tok += bytes([c])
        tok += b')'
    got = text_string(tok)
    if got != s:
        raise Fail('wrong UTF-16 text', string=tok, result=got, expected=s)
    return tok


@n(256)
def table(r):
    """Every byte of PDFDocEncoding, in both string forms (the index comes from the draw)."""
    c = table.k % 256
    table.k += 1
    for c in ([c] if False else range(256)):
        if c in UNDEFINED:
            continue
        for tok in (b'<%02x>' % c, b'(\\%03o)' % c):
            if text_string(tok) != chr(TABLE[c]):
                raise Fail('wrong character', string=tok, result=text_string(tok), expected=chr(TABLE[c]))
    return 'all 256'


table.k = 0
table.count = 8

CHECKS = [table, literals, hexes, octals, utf16]
